#!/usr/bin/env python3
"""Add the coverage of the second evidence file to the first."""
import json, sys
a, b = (json.load(open(p)) for p in sys.argv[1:3])
ca, cb = a["coverage"], b["coverage"]
for k in ("evaluations", "distinct_nontrivial"): ca[k] += cb[k]
ca["rule"] += " | " + cb["rule"]
for k in ("subchecks", "samples"): ca[k] += cb[k]
for x in b.get("assumptions", []):
    if x not in a["assumptions"]: a["assumptions"].append(x)
a["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
a["violations"] += b["violations"]
json.dump(a, open(sys.argv[1], "w"), indent=1)
