#!/usr/bin/env python3
"""Development helper: writes properties.jsonl and MANIFEST.json from run/props.py (both are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
from registry import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks = []
for p in P:
    if p['id'] in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': f'python3 run/check.py {p["id"]} quick',
                       'thorough_cmd': f'python3 run/check.py {p["id"]} thorough',
                       'technique': p.get('technique', 'TLA+ specification model-checked with TLC; recorded traces of the real code validated against it by TLC'),
                       'level': 'model_checking', 'level_note': p['note']})
na = [{'property': i, 'reason': r} for i, r in NA]
na += [{'property': p['id'], 'reason': 'check under construction'} for p in P if p['id'] not in PROPS and p['id'] not in dict(NA)]
json.dump({'version': 1, 'setup_cmd': 'python3 run/check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: every check observes the public API only.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
