#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from tools/matrix.json."""
import json, os, re
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(verif + '/tools/matrix.json'))
rows = ['| planted bug | property | caught by | needs |', '|---|---|---|---|']
for id in sorted(os.listdir(verif + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (verif, id)))
    r = m.get(id)
    by = ', '.join(r['caught_by']) or '**missed**' if r else 'not run'
    if r and not r['all']: by += ' (only this one run)'
    rows.append('| %s | %s | %s | %s |' % (id, meta['property'], by, meta['needs'].replace('|', '/').replace('\n', ' ')))
p = verif + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*?(<!-- end of table -->|$)', lambda _: '<!-- table -->\n\n' + '\n'.join(rows) + '\n\n<!-- end of table -->', s, count=1, flags=re.S)
open(p, 'w').write(s)
