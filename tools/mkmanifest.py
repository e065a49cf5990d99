#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "tools/techniques.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in T:
        continue
    level, tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./check build",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in T],
     "notes": "The monitor binary (harness/) is rebuilt from a mirror of /repo's working tree on every check; no hooks in /repo are used (no guarded code). /repo's commits are fix: commits only, listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
