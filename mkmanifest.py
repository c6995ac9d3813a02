#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in mc/props is claimed."""
import json, os
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = {}
NOTE = {}
exec(open('manifest_notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('mc/props/%s.py' % i.lower()):
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, 'bounded exhaustive model checking of the real code against a NumPy reference model'),
                           level='model_checking', level_note=NOTE.get(i, NOTE['*'])))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='/opt/pypyvenv/bin/python -B -c "import numpy, scipy"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks import /repo\'s working tree directly (pure Python). See DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
