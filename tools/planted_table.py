#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (m['property'], d, m['needs']))
p = os.path.join(ROOT, 'DESIGN.md')
lines = open(p).read().split('\n')
i = lines.index('| property = catching check | change | needs |')
j = i + 2
while lines[j].startswith('|'):
    j += 1
lines[i + 2:j] = rows
open(p, 'w').write('\n'.join(lines))
