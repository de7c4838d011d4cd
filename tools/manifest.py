#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks in plans.py (run by hand when checks are added)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plans
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    if i in plans.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": plans.TECHNIQUE.get(i, plans.TECHNIQUE["*"]),
                       "level": plans.LEVEL.get(i, "model_checking"), "level_note": plans.NOTE.get(i, plans.NOTE["*"])})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": plans.NOT_YET.get(i, "no check has been built for it yet")} for i in ids if i not in plans.CHECKS],
     "notes": "No hooks in /repo: the harness includes its headers as they are. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
