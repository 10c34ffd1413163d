#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the reasons below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from mkmanifest_data import TECH, NA
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']; f = 'checks/%s.py' % i.lower()
    if i in TECH and os.path.exists(os.path.join(HERE, f)):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 %s' % f, thorough_cmd='python3 %s thorough' % f, evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the analyses read the IR the compiler makes of the unmodified sources.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
