#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the tables of properties and planted bugs filled in."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/tools']
from claims import P
from props import CFG
t = open(H + '/tools/design.md').read()
rows = []
for p in P:
    c = CFG[p['id']]
    ms = ', '.join(f"`{m['file'][:-4]}`.{m.get('step', 'step')}" for m in c['machines'])
    sm = ', '.join(f'`{x}`' for x in c.get('small', [])) or '-'
    rows.append(f"| {p['id']} {p['title']} | `{c['spec'][:-4]}` | {ms} | {sm} | {p['why']} |")
t = t.replace('@PROPERTIES@', '\n'.join(rows))
b = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    b.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
t = t.replace('@BUGS@', '\n'.join(b))
open(H + '/DESIGN.md', 'w').write(t)
