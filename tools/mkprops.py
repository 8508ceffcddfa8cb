#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the statements are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__), 'props_src.py')).read())
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
