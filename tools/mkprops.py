#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)

exec(open(os.path.join(os.path.dirname(__file__), 'props_table.py')).read())

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
for p in P: assert len(p['title']) <= 80, p['title']
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
