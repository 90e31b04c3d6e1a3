#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md and the planted bugs."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
also = {}
p = os.path.join(here, 'caught_also.json')
if os.path.exists(p):
    also = json.load(open(p))
for f in sorted(glob.glob(os.path.join(here, '../seeded/*/meta.json'))):
    i = f.split('/')[-2]
    m = json.load(open(f))
    rows.append(f"| {i} | {m['needs']} | {also.get(i, m['property'])} |")
s = open(os.path.join(here, 'DESIGN.in.md')).read().replace('@@SEEDS@@', '\n'.join(rows))
open(os.path.join(here, '../DESIGN.md'), 'w').write(s)
