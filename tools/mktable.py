#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded.tsv (id, outcome)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = dict(l.rstrip('\n').split('\t', 1) for l in open(root + '/tools/seeded.tsv') if l.strip())
rows = ['| planted bug | needs | outcome |', '|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} ({m['property']}) | {m['needs']} | {out.get(d, 'not run yet')} |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda k: k[1] + '\n'.join(rows) + '\n' + k[2], s, flags=re.S)
open(p, 'w').write(s)
