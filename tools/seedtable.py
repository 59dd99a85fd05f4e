#!/usr/bin/env python3
"""Prints the DESIGN.md table of planted changes from seeded/*/ (run by hand when a change is added)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted change | in | manifests with | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    f = re.findall(r"^\+\+\+ b/\S*?([^/\s]+)$", open(os.path.join(root, d, "patch.diff")).read(), re.M)
    print(f"| {d} | {', '.join(f)} | {m['needs']} | {m['property']} |")
