#!/usr/bin/env python3
"""Build the prelude of the generated programs (C21); write the arguments rustc needs to use it."""
import json, os, subprocess, sys
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", f"{verif}/scope/Cargo.toml", "--message-format=json"],
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
if p.returncode != 0:
    print(p.stderr[-3000:])
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error": print(m["message"]["rendered"])
    sys.exit(1)
dirs, rlib = [], None
for l in p.stdout.splitlines():
    m = json.loads(l)
    if m.get("reason") != "compiler-artifact": continue
    for f in m["filenames"]:
        if f.endswith((".rlib", ".rmeta", ".so")):
            d = os.path.dirname(f)
            if d not in dirs: dirs.append(d)
        if m["target"]["name"] == "scope_prelude" and f.endswith(".rmeta"): rlib = f
sysroot = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
args = [f"{sysroot}/bin/rustc", "--edition=2021", "--crate-type=lib", "--cap-lints=allow", "--error-format=json", f"--extern=scope_prelude={rlib}"]
args += [f"-Ldependency={d}" for d in dirs]
with open(f"{verif}/target/scope.args", "w") as f: f.write("\n".join(args) + "\n")
