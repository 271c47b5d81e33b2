#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md between the markers, from MANIFEST.json, known_findings.jsonl and seeded/."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(f'{R}/MANIFEST.json'))
P = {p['id']: p for p in (json.loads(l) for l in open(f'{R}/properties.jsonl') if l.strip())}
cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
status = ['| id | title | level | bounds and tolerance |', '|---|---|---|---|']
for c in M['checks']:
    status.append(f"| {c['property']} | {cell(P[c['property']]['title'])} | {c['level']} | {cell(c['level_note'])} |")
known, fixed = [], []
for l in open(f'{R}/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        fixed.append(f'* {m[1]} {m[2]}: {m[3]}')
    elif l:
        d = json.loads(l)
        known.append(f"* **{d['property']}** ({d['key']}): {cell(d['what'])}")
seeded = ['| planted bug | property | caught by | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{R}/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    seeded.append(f"| {d} | {m['property']} | {', '.join(m.get('caught_by', [m['property']]))} | {cell(m['needs'])} |")
T = open(f'{R}/DESIGN.md').read()
for name, lines in dict(status=status, known=known, fixed=fixed, seeded=seeded).items():
    T = re.sub(f'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: m[1] + '\n'.join(lines) + '\n' + m[2], T, flags=re.S)
open(f'{R}/DESIGN.md', 'w').write(T)
