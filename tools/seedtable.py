#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json. Development only."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = dict(l.split(': ', 1) for l in open(f'{root}/tools/missed.txt').read().splitlines() if l.strip())
rows = ['| bug | caught by | needs | first missed, then |', '|---|---|---|---|']
metas = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in glob.glob(f'{root}/seeded/*/meta.json')]
for i, m in sorted(metas, key=lambda x: (x[1]['property'], x[0])):
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {missed.get(i, '')} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
