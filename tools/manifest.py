#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from props import PROPS
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in PROPS:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py ' + i,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': PROPS[i].technique, 'level': 'model_checking', 'level_note': PROPS[i].note})
doc = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in PROPS]}
json.dump(doc, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
