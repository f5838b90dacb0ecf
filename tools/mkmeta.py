#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below.

A property is claimed when harness/index.json lists it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level='proof', note=''):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    d['_level'] = level
    d['_note'] = ' '.join(note.split())
    P.append(d)


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

assert len({p['id'] for p in P}) == len(P)
for p in P:
    assert len(p['title']) <= 80, p['title']
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
index = json.load(open(os.path.join(HERE, 'harness', 'index.json')))
checks, na = [], []
for p in P:
    i = p['id']
    if i in index:
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python check.py %s quick' % i,
            thorough_cmd='/opt/venv/bin/python check.py %s thorough' % i,
            technique='contract-based deductive verification: contracts on the real functions, '
                      'verification conditions generated from /repo source on every run and discharged by '
                      'ring normalisation, z3 and cvc5; the same contracts are also evaluated on runs of the real code',
            level=p['_level'], level_note=p['_note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks,
               not_applicable=na, notes='see DESIGN.md'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'claimed')
