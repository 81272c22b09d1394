#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/tools')
from bug_list import BUGS
order = [b["id"] for b in BUGS]
have = set(os.listdir(here + '/seeded'))
assert set(order) == have, (set(order) ^ have)
by = {}
for i in order:
    by.setdefault(json.load(open(f'{here}/seeded/{i}/meta.json'))['property'], []).append(i)
rows = ''.join(f'| {p} | {", ".join(by[p])} |\n' for p in sorted(by))
d = open(here + '/DESIGN.md').read()
a = d.index('| check | catches |'); b = d.index('bugs; X04 has only one')
d = d[:a] + '| check | catches |\n|---|---|\n' + rows + f'\n({len(order)} ' + d[b:]
open(here + '/DESIGN.md', 'w').write(d)
