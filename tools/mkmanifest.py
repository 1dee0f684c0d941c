#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.props import REGISTRY
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY and i in NOTES:
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % i,
                       'technique': NOTES[i]['technique'], 'level': 'model_checking', 'level_note': NOTES[i]['note']})
    else:
        na.append({'property': i, 'reason': 'the check of this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: all observations are made through the public interface, by drivers in harness/.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
