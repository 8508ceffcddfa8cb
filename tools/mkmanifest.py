#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the reasons in na.py."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA, NOTE = {}, {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt checks/%s.py' % i, thorough_cmd='env VERIF_TIER=thorough python3-vt checks/%s.py' % i,
                           technique='symbolic execution of the compiled real code, goals decided by polynomial normal form and z3 within stated bounds; counterexamples replayed natively',
                           level='model_checking', level_note=NOTE.get(i, 'Bounded: grid sizes, particle counts and orders are fixed per case, all other inputs are symbolic; floating point is read as real arithmetic.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath"', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
