#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
import plan
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": q.get("technique", "model-based property testing: random programs over the coroutine API, differential against a thread-based reference"),
            "level": plan.LEVEL,
            "level_note": q.get("note", plan.NOTE),
        })
    else:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API, the machine state and the processes' memory maps. See DESIGN.md; known_findings.txt lists repaired and recorded defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
