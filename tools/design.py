#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, with the table of seeded bugs filled in."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d.get('caught', d['property'])))
s = open(R + '/tools/design.md').read().replace('<!-- SEEDS -->', '\n'.join(rows))
open(R + '/DESIGN.md', 'w').write(s)
