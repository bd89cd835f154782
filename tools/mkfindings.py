#!/usr/bin/env python3
"""known_findings.json from tools/fixed.txt (property, commit of /repo) and tools/known.json. Run by hand, never by a check."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
p = os.path.join(V, 'tools/known.json')
if os.path.exists(p):
    out += json.load(open(p))
for l in open(os.path.join(V, 'tools/fixed.txt')):
    if not l.split():
        continue
    prop, c = l.split()[:2]
    s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%s', c], capture_output=True, text=True, check=True).stdout.strip()
    out.append(dict(status='fixed', property=prop, record='fixed: property=%s %s %s' % (prop, c, s[5:])))
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out))
