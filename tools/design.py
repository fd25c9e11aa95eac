#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md, the planted bugs and tools/seed_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(V + '/tools/seed_results.json'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), r.get(i) or 'none'))
s = open(V + '/tools/design_body.md').read().replace('@SEEDS@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
