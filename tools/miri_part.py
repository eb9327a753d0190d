#!/usr/bin/env python3
"""The generated cases of one property under Miri, which sees what a run of the compiled code
does not: reads of memory that was never written, accesses outside of the object that a pointer was
derived from, references and values that are not valid, data races and stale reads of atomics.

  miri_part.py PROPERTY SEED EVIDENCE REPLAYS [quick]   - run; merges into nothing, writes EVIDENCE
  miri_part.py --replay FILE                    - run the case of a replay file again
The same again, fewer, for a 32-bit target, on which sizes overflow earlier and alignments differ.
The quick tier runs a small number of cases, on the host only, and stands on the compiled cases
where Miri gives no answer.
Aliasing models are switched off: the checks look at memory through plain addresses."""
import json, os, re, shutil, subprocess, sys, time
V = os.environ["VERIF"]
QUICK = sys.argv[5:] == ["quick"]
ENV = dict(os.environ, CARGO_TARGET_DIR=V + "/target/miri", XDG_CACHE_HOME=V + "/target/xdg", RUSTFLAGS="-Adangerous_implicit_autorefs -Awarnings",
           MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks")
ENV.pop("RUSTC_WRAPPER", None)
# Cases with much memory or many steps, and those that start programs, are not for an interpreter.
SKIP = re.compile(r"^(large|huge|many|deep|long|collections|programs|origins)$")
CASES, SHARDS, WALL = int(os.environ.get("MIRI_CASES", 64 if QUICK else 320)), os.cpu_count() or 4, int(os.environ.get("MIRI_WALL", 15 if QUICK else 300))
# What is appended to the name of a sub-check: the target, and which part of CASES and WALL it gets.
TARGETS = {"miri": ("", 1), "miri32": ("i686-unknown-linux-gnu", 0.5), "miri32be": ("powerpc-unknown-linux-gnu", 0.25)}
if QUICK: TARGETS = {"miri": TARGETS["miri"]}
UB = re.compile(r"^error: (Undefined Behavior: .*)", re.M)

def cmd(kind, prop, *args):
    target = TARGETS[kind][0]
    return ["cargo", "miri", "run", "-q", "--offline", *(["--target", target] if target else []), "--manifest-path", V + "/checks/Cargo.toml", "--features", prop.replace("C", "c"), "--", *map(str, args)]
def verdict(rc, out, err):
    """What a finished process says: '' passed, a message: failed, None: no answer."""
    if rc == 0: return ""
    m = UB.search(err)
    if m:
        at = re.search(r"^\s*--> (.*)", err[m.start():], re.M)
        return m.group(1) + (" at " + at.group(1) if at else "")
    if os.path.exists(out + "/fail"): return open(out + "/fail", errors="replace").read().split("\n", 1)[-1]
    return None
def one(kind, prop, sub, seed, index, out):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    try: p = subprocess.run(cmd(kind, prop, "one", "--prop", prop, "--sub", sub, "--seed", seed, "--index", index, "--log", 1, "--out", out), env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200 if QUICK else 600)
    except subprocess.TimeoutExpired: return None, [], ""
    log = open(out + "/log", errors="replace").read().splitlines() if os.path.exists(out + "/log") else []
    return verdict(p.returncode, out, p.stderr), log, p.stderr

def replay(f):
    r = json.load(open(f))
    out = V + "/replays/.work-miri-replay"
    sub, kind = r["sub"].rsplit("-", 1)
    m, log, err = one(kind, r["property"], sub, r["seed"], r["index"], out)
    shutil.rmtree(out, ignore_errors=True)
    for l in log: print(l)
    print(err if m else "the case passes" if m == "" else "no answer")
    if m: print("FAILS: " + m)
    return 1 if m else 0 if m == "" else 3

def main(prop, seed, evidence, replays):
    t0, seed = time.time(), int(seed)
    base = f"{replays}/.work-{prop}-miri"
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    kinds = []
    for k, (target, _) in TARGETS.items():
        # The sysroot of the host is built by the first run.
        r = target and subprocess.run(["cargo", "miri", "setup", "--target", target], env=ENV, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        if r and r.returncode: print(f"note: no standard library for {target}, cases for it are left out")
        else: kinds.append(k)
    r = subprocess.run(cmd("miri", prop, "list", "--prop", prop), env=ENV, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if r.returncode and QUICK: print("note: no cases under Miri: " + r.stderr[-300:]); return 0
    if r.returncode: print("ERROR: the check does not build for Miri:\n" + r.stderr[-3000:]); return 2
    subs = [l.split("\t") for l in r.stdout.splitlines() if not SKIP.match(l.split("\t")[0])]
    cover, samples, total, distinct, fail, error = [], [], 0, 0, None, None
    for kind, sub, rule in ((k, *s) for k in kinds for s in subs):
        n = max(SHARDS, int(CASES * TARGETS[kind][1]))
        st = dict(n=0, nontrivial=0, choices=0, distinct=0, cls={})
        work = {}
        def start(k, at):
            d = f"{base}/{sub}-{kind}-{k}-{at}"; os.makedirs(d)
            p = subprocess.Popen(cmd(kind, prop, "worker", "--prop", prop, "--sub", sub, "--seed", seed, "--start", at, "--step", SHARDS, "--end", n, "--out", d),
                                 env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(d + "/err", "w"))
            work[k] = (p, d, at)
        def seen(d, at):
            b = open(d + "/progress", "rb").read()[:8] if os.path.exists(d + "/progress") else b""
            return int.from_bytes(b, "little") - 1 if b else at - SHARDS  # the case it is at
        for k in range(SHARDS): start(k, k)
        t1 = time.time()
        while work and not fail and not error:
            time.sleep(0.1)
            for k, (p, d, at) in list(work.items()):
                if p.poll() is None:
                    if time.time() - t1 > WALL * TARGETS[kind][1]:
                        p.kill(); p.wait(); del work[k]
                        # The cases before the current one have passed.
                        st["n"] += max(0, (seen(d, at) - at) // SHARDS)
                        st["cls"]["shards cut short"] = st["cls"].get("shards cut short", 0) + 1
                    continue
                del work[k]
                err = open(d + "/err", errors="replace").read()
                m = verdict(p.returncode, d, err)
                if m == "":
                    for l in open(d + "/stats"):
                        w = l.split(" ", 2)
                        if w[0] in ("n", "nontrivial", "choices"): st[w[0]] += int(w[1])
                        elif w[0] == "label": st["cls"][w[2].strip()] = st["cls"].get(w[2].strip(), 0) + int(w[1])
                        elif len(samples) < (1 if QUICK else 4) and k == 0 and kind == "miri": samples.append((kind, sub, int(w[1])))
                    st["distinct"] += os.path.getsize(d + "/hashes") // 8
                elif m: fail = (kind, sub, seen(d, at), m)
                elif "unsupported operation" in err:
                    i = seen(d, at)
                    st["n"] += max(0, (i - at) // SHARDS)
                    st["cls"]["not supported by Miri"] = st["cls"].get("not supported by Miri", 0) + 1
                    if i + SHARDS < n: start(k, i + SHARDS)
                else: error = f"{sub}-{kind}: {err[-600:] or p.returncode}"
        for p, _, _ in work.values(): p.kill(); p.wait()
        total += st["n"]; distinct += st["distinct"]
        cover.append({"name": f"{sub}-{kind}", "evaluations": st["n"], "nontrivial": st["nontrivial"], "distinct_nontrivial": st["distinct"], "choices_drawn": st["choices"], "rule": rule, "classes": st["cls"]})
        if fail or error: break
    rc = 0
    if fail:
        kind, sub, i, msg = fail
        m, log, _ = one(kind, prop, sub, seed, i, base + "/one")
        if m:
            f = f"{replays}/{prop}-{sub}-{kind}-{i}.json"
            json.dump({"property": prop, "sub": f"{sub}-{kind}", "seed": seed, "index": i, "message": m, "case": log}, open(f, "w"), indent=1)
            print(f"{sub}-{kind}: {m}"); print("\n".join("    " + l for l in log[:60]))
            print(f"VIOLATION property={prop} replay={f}"); rc = 1
        else: error = f"{sub}-{kind}: case {i} failed once ({msg}) but not on replay"
    if error and QUICK: print(f"note: under Miri {error}")
    elif error: print(f"ERROR property={prop} {error}"); rc = 3
    shown = []
    for kind, sub, i in samples if rc == 0 else []:
        m, log, _ = one(kind, prop, sub, seed, i, base + "/one")
        if m == "": shown.append({"sub": f"{sub}-{kind}", "index": i, "case": log[:40]})
    json.dump({"property": prop, "tier": "quick" if QUICK else "thorough", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": " | ".join(f"{c['name']}: {c['rule']}" for c in cover) or "none", "subchecks": cover, "samples": shown},
        "assumptions": ["under Miri: without a model of aliasing"], "wall_s": round(time.time() - t0, 2), "violations": int(rc == 1)}, open(evidence, "w"), indent=1)
    shutil.rmtree(base, ignore_errors=True)
    if rc == 0: print(f"OK property={prop} under Miri: cases={total} distinct_nontrivial={distinct} wall={time.time() - t0:.1f}s")
    return rc

sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(*sys.argv[1:5]))
