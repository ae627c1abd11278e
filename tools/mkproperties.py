#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and the checks of /verif/MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
T = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', tech='property-based testing', ):
    T.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), **({'observe_at': list(observe)} if observe else {}), hook_needed='none'),
                  _note=' '.join(note.split()), _tech=tech))


NOSOLVER = 'The repository\'s tests only exercise three utility classes; no test builds the solver, so nothing covers this for any formula, let alone all of them. '
SOL = ['src/solver/NapSAT.cpp', 'src/solver/NapSAT-propagation.cpp', 'src/solver/NapSAT-conflict.cpp', 'src/solver/NapSAT-backtrack.cpp', 'src/solver/NapSAT-imply.cpp', 'src/solver/NapSAT-clauses.cpp']
exec(open(os.path.join(HERE, 'tools', 'properties_table.py')).read())

NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
    for t in T:
        o.write(json.dumps({k: v for k, v in t.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
ids = {t['id'] for t in T}
na = {x['property'] for x in NA}
assert ids == set(PROPS) | na, (ids ^ (set(PROPS) | na))
man = dict(version=1, setup_cmd='python3 check.py setup',
           checks=[dict(property=t['id'], quick_cmd='VERIF_TIER=quick python3 check.py run ' + t['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py run ' + t['id'],
                        technique=t['_tech'], level='exploration', level_note=t['_note']) for t in T if t['id'] in PROPS],
           not_applicable=NA,
           notes='No hook is needed in /repo: the harnesses use the public API, the notifications to the observer (through a stub of the external Sentinel library in harness/sentinel) and the command line. Replay files: python3 check.py replay FILE. Known and fixed defects: known-findings.txt.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(T), 'properties,', len(man['checks']), 'checks')
