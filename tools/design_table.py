#!/usr/bin/env python3
"""Prints the table of seeded changes for DESIGN.md (reads seeded/ only to document it)."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| change | property | what it needs to show |\n|---|---|---|")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    print(f"| {i} | {m['property']} | {m['needs']} |")
