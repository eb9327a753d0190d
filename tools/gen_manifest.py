#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties with a check."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
N = json.load(open(os.path.join(here, "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in N["checks"]: continue
    c = N["checks"][i]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=c["technique"], level="exploration", level_note=c["note"]))
na = [dict(property=i, reason=N["not_applicable"].get(i, "no check built yet")) for i in ids if i not in N["checks"]]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Property-based testing with an own choice-sequence engine (pbt/): seeded generation, process isolation, shrinking by replay. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
