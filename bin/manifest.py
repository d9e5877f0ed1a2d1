#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.PLAN (run by hand when the list of checks changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": plan.TECHNIQUE[i], "level": "model_checking", "level_note": plan.NOTE[i]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; driver in harness/ (path dependency on /repo); no hooks in /repo. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
