#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f'{here}/tools/seed_results.json'))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for n in sorted(os.listdir(f'{here}/seeded')):
    m = json.load(open(f'{here}/seeded/{n}/meta.json'))
    r = res.get(n, {})
    c = ', '.join(r.get('caught', [])) or 'none'
    if r.get('note'): c += f" ({r['note']})"
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
p = f'{here}/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- SEEDS -->.*<!-- /SEEDS -->', lambda _: '<!-- SEEDS -->\n' + '\n'.join(rows) + '\n<!-- /SEEDS -->', s, flags=re.S)
open(p, 'w').write(s)
