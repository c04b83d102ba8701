#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA, NOTES
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }) + '\n')
m = {'version': 1,
     'setup_cmd': 'bash check.sh build',
     'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': NOTES}
for p in P:
    m['checks'].append({
        'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'],
        'thorough_cmd': 'bash check.sh ' + p['id'],
        'technique': p.get('tech', 'path-sensitive provenance dataflow and typestate rules over the SSA form'),
        'level': 'other',
        'level_note': p.get('note', '') + ' Decided from the source for every path of the named functions; library calls, hash functions and the go/ssa front end are trusted.'})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
