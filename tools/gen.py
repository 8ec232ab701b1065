#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(ROOT, 'tools/props/*.json'))):
    d = json.load(open(f))
    m = d.pop('_manifest')
    if 'title' in d:
        assert len(d['title']) <= 80, d['title']
        props.append(d)
    if 'not_applicable' in m:
        na.append(dict(property=d['id'], reason=m['not_applicable']))
    else:
        cmd = 'python3-vt vpdrive.py check ' + d['id']
        checks.append(dict(property=d['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                           technique=m['technique'], level='model_checking', level_note=m['note']))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in props:
        f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3-vt vpdrive.py setup', checks=checks, not_applicable=na,
           notes='Every check compiles its harnesses together with /repo\'s current sources to LLVM IR, executes that IR '
                 'symbolically (irsym/), and decides branches and assertions with z3; a model of every explored path is '
                 'replayed against the native build, and a counterexample is reported only after it fails natively. '
                 'DESIGN.md gives bounds and assumptions per property.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
