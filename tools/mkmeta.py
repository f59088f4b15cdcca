#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (development time only)"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import P
with open(R + '/properties.jsonl', 'w') as f:
    for k in sorted(P):
        x = P[k]
        assert len(x['title']) <= 80, k
        f.write(json.dumps({'id': k, 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['qtext']},
                            'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in x['state']], 'observe_at': list(x['observe']), 'hook_needed': x['hook']}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the checks observe the unmodified sources, rebuilt from /repo with sanitizers.'}
for k in sorted(P):
    x = P[k]
    if x['claim'] is True:
        m['checks'].append({'property': k, 'quick_cmd': 'python3 check.py %s quick' % k, 'thorough_cmd': 'python3 check.py %s thorough' % k,
                            'evidence_file': 'evidence/%s.json' % k, 'technique': x['technique'], 'level': 'exploration', 'level_note': x['note']})
    else:
        m['not_applicable'].append({'property': k, 'reason': x['claim']})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
