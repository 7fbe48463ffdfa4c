#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
NOTE = {}
TECH = {}
try:
    from notes import NOTE, TECH
except ImportError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='python3 tools/check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'runtime monitoring: reference-model oracle over recorded executions'),
                           level=PROPS[i]['level'], level_note=NOTE.get(i, 'holds on the executions explored; ' + PROPS[i]['rule'])[:900]))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Every check builds the library from /repo and its driver under /verif/build (git-ignored), runs them in a scratch directory and judges the executions.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
