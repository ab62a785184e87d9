#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from meta import P
NA = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, p in P.items():
        assert os.path.exists(os.path.join(HERE, 'props', i + '.py')), i
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for i, p in P.items()],
     'not_applicable': NA,
     'notes': 'All checks import /repo directly (pure Python); no hooks are needed. Known findings: known_findings.jsonl.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
missing = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'props'))) if f[0] != '_' and f.endswith('.py') and f[:-3] not in P]
print(len(P), 'properties; modules without metadata:', missing)
