#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
exec(open(os.path.join(D, 'tools', 'claims.py')).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(D, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: every check loads /repo's working tree into type-checked SSA form and decides its property from it; nothing of jayloop/radix is executed. DESIGN.md describes the rules, their bounds and their assumptions."},
          open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
