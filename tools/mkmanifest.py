#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC; recorded library calls validated against it by TLC (" + NOTES[i][0] + ")",
        "level": "model_checking",
        "level_note": NOTES[i][1]})
m = {"version": 1,
     "setup_cmd": "python3 tools/check.py --setup",
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": ""} for p in props if p["id"] not in PLAN],
     "notes": "No hooks: the library's exported fields are the state the specification speaks of. Repairs of genuine defects are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
