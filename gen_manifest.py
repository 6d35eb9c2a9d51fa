#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from check import CHECKS
from harness.claims import CLAIMS, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c[0], "level": c[2] if len(c) > 2 else "model_checking", "level_note": c[1]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check yet: its explorer has not been built.")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check drives the public API or the built programs of /repo's working tree; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
