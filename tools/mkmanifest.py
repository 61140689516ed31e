#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification of the real Python code (pyvc: contracts on the functions of /repo, '
        'obligations generated from the current source on every run and discharged by z3), with runtime contract '
        'checking and labelled bounded stand-ins for functions out of reach')
TRUST = (' Trusted: the VC generator in /verif/pyvc, z3, floats as mathematical reals, assumed contracts on numpy and '
         'builtins. Bounded parts are labelled bounded in the evidence and not counted as proved.')
NOTES = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    c = NOTES['claimed'].get(i)
    if c:
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': NOTES.get('levels', {}).get(i, 'proof'),
                       'level_note': c + TRUST})
    else:
        na.append({'property': i, 'reason': NOTES['not_applicable'].get(i, 'no contract has been written for it yet')})
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md for what is specified, assumed and bounded per property.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
