#!/usr/bin/env python3
"""Fills the planted-bug table of ../DESIGN.md from dev/seeds.py and dev/results.json."""
import json, os, re, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
res = json.load(open(os.path.join(R, 'dev/results.json')))
rows = ['| bug | needs | caught by (quick) |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', i, 'meta.json')))
    r = res.get(i)
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), 'not run' if r is None else ('%s, %s' % (m['property'], r['section']) if r['caught'] else 'missed')))
p = os.path.join(R, 'DESIGN.md'); s = open(p).read()
t = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 2, sum(1 for r in rows if 'missed' in r), 'missed')
