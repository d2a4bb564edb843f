#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'), encoding='utf8')]
NA = json.load(open(os.path.join(D, 'tools', 'not_applicable.json'), encoding='utf8'))
NOTE = ('Bounded: holds for every input of the templates named in the evidence (z3 decides every obligation over all '
        'values of the symbolic inputs; the real functions are executed symbolically from the current source). '
        'Trusts: the symbolic string engine in symx/ (its results are replayed against the unmodified code on every '
        'run), CPython, re, z3.')
checks = []
for p in props:
    if p['id'] in NA:
        continue
    assert os.path.exists(os.path.join(D, 'props', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'],
                   'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'symbolic execution of the real Python source over finite-domain symbolic strings, z3 on '
                                'the negated property, models replayed on the real code',
                   'level': 'model_checking', 'level_note': NOTE})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3, regex; print(z3.get_version_string())"',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the checks load /repo/aksharamukha through an import hook that rewrites the syntax '
              'tree of the current source in memory.'}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w', encoding='utf8'), ensure_ascii=False, indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
