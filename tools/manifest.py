"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "no specification module for this area has been written yet"})
        continue
    models = [m[0] for m in PLAN[i].get("models", {}).get("quick", [])]
    note = ("Every call TLC drew from the specification was replayed in the compiled library and the recorded trace was accepted by TLC. "
            + ("Design models %s explored exhaustively. " % ", ".join(models) if models else "")
            + "Bounded: drawn and directed inputs, not all; trusts TLC, the Java arithmetic behind Num.tla, the driver and g++.")
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "TLA+ specification (TLC): model-generated call sessions replayed in the library, recorded traces validated against the specification"
                   + ("; exhaustive TLC design model" if models else ""), "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Specification: spec/*.tla; see DESIGN.md. Genuine defects found and repaired: KNOWN_FINDINGS.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
