"""Writes properties.jsonl and MANIFEST.json from props.py and checks/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P

PY = '/opt/venv/bin/python'
NOTE = ('Bounded: every assertion is decided by z3 for all values of the symbolic inputs within the sizes and ranges listed in the evidence; floats are '
        'exact reals with stated tolerances, exp/log/non-integer powers are uninterpreted monotone functions, compiled library routines are replaced by the '
        'models listed in DESIGN.md, which are validated against the real library on witnesses.')
checks, na = [], []
P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
        if p['_na'] or not os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            na.append({'property': p['id'], 'reason': p['_na'] or 'no check built yet'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': '%s run.py %s --tier quick' % (PY, p['id']), 'thorough_cmd': '%s run.py %s --tier thorough' % (PY, p['id']),
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'bounded symbolic execution of the real Python code, decided by z3',
                       'level': 'other', 'level_note': (p['_note'] + ' ' if p['_note'] else '') + NOTE})
m = {'version': 1, 'setup_cmd': PY + ' -c "from symex import core, harness"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the machinery imports /repo/src/tools21cm afresh on every run and executes it symbolically.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
