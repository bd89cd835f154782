#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check module."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'harness/props', i.lower() + '.py')
    if os.path.exists(f):
        ns = {}
        src = open(f).read()
        note = src.split('"""')[1].strip().replace('\n', ' ')
        lvl = 'model_checking'
        for l in src.split('\n'):
            if l.startswith('LEVEL'):
                lvl = l.split("'")[1]
        tech = 'TLA+/TLC trace validation: the real compiler and runtime against spec/CSem.tla'
        for l in src.split('\n'):
            if l.startswith('TECHNIQUE'):
                tech = l.split("'")[1]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=tech, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason='no check yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
