#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, built=True, note='', reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, built=built, note=note, reason=reason))
exec(open(os.path.join(HERE, 'props_table.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))) + '\n')
BASE = ('Every obligation generated from the current sources of the listed functions is discharged by z3 for all inputs (a function is checked against its callees\' contracts). '
        'Doubles are exact reals and ints mathematical integers; library calls follow built-in models; the verification-condition generator (vt/) and z3 are trusted. '
        'A harness additionally replays concrete inputs on the compiled code (bounded, not counted as proved). ')
m = dict(version=1, setup_cmd='python3-vt -m compileall -q vt contracts check.py',
    checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'],
                 technique='deductive verification: sidecar contracts on the real C++ functions (clang AST), verification conditions discharged by z3',
                 level='proof', level_note=(BASE + p['note']).strip()) for p in P if p['built']],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in P if not p['built']],
    notes='Contracts live in contracts/*.py beside the code; functions are extracted from the clang AST of /repo/src on every run. No hooks in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('%d properties, %d claimed' % (len(P), len(m['checks'])))
