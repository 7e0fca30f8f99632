#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from propdata.py and the registered checks (props/*.py)"""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from propdata import P
import manifest_data as md

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
checks = []; na = []
for p in P:
    i = p['id']
    if len(p['title']) > 80: raise SystemExit('title ' + i)
    if i in md.CHECKS:
        c = md.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c.get('technique', md.TECH), level=c.get('level', 'proof'), level_note=c['note']))
    else:
        na.append(dict(property=i, reason=md.NA.get(i, 'no contract within reach has been built for it (see DESIGN.md)')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=md.NOTES)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
