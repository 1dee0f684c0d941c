#!/usr/bin/env python3
"""prints a rejected observation in a readable form: showreplay.py FILE [n of step]"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.engine import clip
r = json.load(open(sys.argv[1]))
o = r['observations'][0]
print(r['module'], r['rejected_by'])
for k, v in o.items():
    if k not in ('steps', 'obs'):
        print(k, clip(v))
if 'steps' in o:
    obs = list(o.get('obs', []))
    for i, s in enumerate(o['steps']):
        q = obs[s['q'] - 1] if 'q' in s and s['q'] <= len(obs) else obs[i] if 'q' not in s and len(obs) == len(o['steps']) else ''
        print(i + 1, clip(s), clip(q))
i = r['tlc'].find('Error:')
print(r['tlc'][i:])
