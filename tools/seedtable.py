#!/usr/bin/env python3
"""Writes the table of planted bugs into section 6 of DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it needs |', '|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = root + '/DESIGN.md'
s = open(p).read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', new)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: new, s, flags=re.S)
open(p, 'w').write(s)
