#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the property modules that exist"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if os.path.exists(os.path.join(V, 'rv', 'props', i + '.py')):
        t, n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
M = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hook was needed in /repo: every monitor observes the public API from /verif (see DESIGN.md).'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
