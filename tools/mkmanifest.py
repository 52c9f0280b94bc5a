#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the checks present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = json.load(open(V + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    t = TECH.get(i)
    if t and os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': t['technique'], 'level': t.get('level', 'exploration'),
                       'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every oracle observes the assembler from outside, or through compiler '
              'instrumentation, preloaded shims and injected system call results. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
