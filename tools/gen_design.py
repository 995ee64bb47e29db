#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (tools/design.md.in) from vlib/props.py, seeded/ and tools/seed_results.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import props
t = open(HERE + '/tools/design.md.in').read()
rows = []
for l in open(HERE + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if i in props.PROPS:
        rows.append('* **%s %s** — claimed. %s' % (i, d['title'], props.DESIGN.get(i, '')))
    else:
        rows.append('* **%s %s** — not claimed: %s' % (i, d['title'], props.NA.get(i, 'not decided yet')))
t = t.replace('PROPERTY_SECTION', '\n'.join(rows))
res = json.load(open(HERE + '/tools/seed_results.json')) if os.path.exists(HERE + '/tools/seed_results.json') else {}
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, '?')))
t = t.replace('SEED_SECTION', '\n'.join(rows))
open(HERE + '/DESIGN.md', 'w').write(t)
