#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
ENGINE = 'abstract interpretation of MIR (symbolic polynomial domain, inferred loop invariants, function contracts)'
NOTE = ('Every path of every function involved is checked against its contract for symbolic digit count and digit base. '
        'An alarm is raised only for a failing obligation on a path without summarised loops; anything undecided is listed in the evidence.')
LEVEL = dict(props.LEVELS)
checks = []
for i in ids:
    if i in props.PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': props.TECHNIQUE.get(i, ENGINE), 'level': LEVEL.get(i, 'proof'),
                       'level_note': props.NOTES.get(i, NOTE)})
na = [{'property': i, 'reason': props.NA.get(i, 'not decided yet')} for i in ids if i not in props.PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
