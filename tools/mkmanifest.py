#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
CHECKS = {}          # id -> (level, technique, note)
NA = {}
exec(open(V + "/tools/checks.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        level, tech, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i + " --thorough",
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
