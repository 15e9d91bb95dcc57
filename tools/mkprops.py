#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property changes)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, note=None, na=None, observe=(), thorough=True):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'observe_at': list(observe)} if observe else {}))), level, note, na, thorough))


exec(open(os.path.join(V, 'tools/props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, level, note, why, thorough in P:
    if not why and not os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        why = 'contracts not built yet'
    if why:
        na.append(dict(property=p['id'], reason=why))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt -m vf.check %s quick' % p['id'], thorough_cmd='python3-vt -m vf.check %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], level=level or 'proof',
                       technique='contract-based deductive verification: machine-checked contracts on the real functions (LLVM IR extracted from /repo on every run), '
                                 'verification conditions discharged by z3 and cvc5; refuted obligations replayed natively',
                       level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt -m vf.setup', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Statuses per contract (proved / bounded stand-in) are printed and written to evidence on every run.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
