#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = "deterministic simulation with fault injection: seeded search over schedules, delays and faults; %s"
NOTES = json.load(open('tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if not n or n.get('na'):
        na.append({"property": i, "reason": (n or {}).get('na', "no check yet (machinery under construction)")})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "technique": TECH % n['oracle'], "level": "exploration", "level_note": n['note']})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator instruments copies of the sources through build overlays (see DESIGN.md)."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
