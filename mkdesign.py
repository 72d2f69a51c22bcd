#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (cost table, bounds) from the evidence of the last quick runs."""
import json, re
cost = ['| id | paths | assertions | Z3 queries (cached) | solver s | wall s |', '|----|----|----|----|----|----|']
bounds = []
for n in range(1, 23):
    d = json.load(open(f'evidence/C{n:02d}.json')); c = d['coverage']
    cost.append(f"| C{n:02d} | {c.get('paths','')} | {c.get('assertions','')} | {c['solver_queries']} ({c['solver_cache_hits']}) | {c['solver_time_s']:.0f} | {d['wall_s']:.0f} |")
    bounds += [f'* **{b.split(":",1)[0]}**:{b.split(":",1)[1]}' for b in c['bounds']]
s = open('DESIGN.md').read()
def put(s, tag, lines):
    b, e = f'<!-- {tag} -->', f'<!-- /{tag} -->'
    return s[:s.index(b)+len(b)] + '\n' + '\n'.join(lines) + '\n' + s[s.index(e):]
s = put(s, 'cost', cost); s = put(s, 'bounds', bounds)
open('DESIGN.md', 'w').write(s)
