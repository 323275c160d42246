#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    P = PROPS.get(i)
    if not P:
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': P.get('technique', 'property-based testing (rapidcheck, shrinking) against an independent reference'),
        'level': 'exploration',
        'level_note': P.get('note', 'generated-input search with an explicit oracle, under ASan/UBSan; no proof of absence'),
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
