#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tool/manifest.py (run in /verif)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), na=None, note='', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, na=na, note=note, state=state, observe=observe))


exec(open(os.path.join(HERE, 'tool', 'props.txt')).read())

TECH = 'contract-based deductive verification: contracts on the real C++ (extracted by clang on every run), VC generation, z3/cvc5'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        d = dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                 anchors=dict(files=x['files'], mechanism=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in x['mech']], hook_needed=None))
        if x['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in x['state']]
        if x['observe']:
            d['anchors']['observe_at'] = x['observe']
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for x in P:
    have = any(re.match(x['id'] + r'(_|\.)', f) for f in os.listdir(os.path.join(HERE, 'contracts')))
    if x['na'] or not have:
        na.append(dict(property=x['id'], reason=x['na'] or 'within reach of the method, but its contracts are not built; nothing is claimed (see DESIGN.md)'))
        continue
    checks.append(dict(property=x['id'], quick_cmd='./check %s quick' % x['id'], thorough_cmd='./check %s thorough' % x['id'], technique=TECH, level='proof',
                       level_note=('Every listed obligation is discharged for all inputs (no bound on sizes or iterations). ' + x['note'] + ' Trusted: clang front end and the AST serialiser, the VC generator with its model of the C++ standard library, z3/cvc5; the evidence file lists every assumption.').replace('  ', ' ')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='One contract file per property in contracts/; DESIGN.md describes the verifier. No hooks are needed in /repo. known-findings.txt lists repaired and recorded defects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
