#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tpl, the property modules and the recorded catches."""
import importlib, json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [D, D + '/props', '/opt/veriftools/pyvenv/lib/python3.12/site-packages']
props = [json.loads(l) for l in open(D + '/properties.jsonl', encoding='utf8')]
NA = json.load(open(D + '/tools/not_applicable.json', encoding='utf8'))
out = ['## Properties', '']
for p in props:
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '']
    if p['id'] in NA:
        out += ['Not applicable: ' + NA[p['id']], '']
        continue
    m = importlib.import_module(p['id'].lower())
    out += ['*Checked by* `props/%s.py`: %s' % (p['id'].lower(), ' '.join(m.__doc__.split())), '',
            '*Bounds (quick)*: ' + m.BOUNDS['quick'] + '. *Thorough*: ' + m.BOUNDS['thorough'] + '.', '',
            '*Assumptions*: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
rows = ['| planted bug | property | needs | result of the quick check |', '|---|---|---|---|']
c = {}
if os.path.exists(D + '/tools/caught.json'):
    c = json.load(open(D + '/tools/caught.json'))
for s in sorted(os.listdir(D + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (D, s), encoding='utf8'))
    rows.append('| %s | %s | %s | %s |' % (s, j['property'], j['needs'], c.get(s, 'not run')))
t = open(D + '/tools/design.tpl', encoding='utf8').read()
t = t.replace('PROPERTIES\n', '\n'.join(out)).replace('SEEDS\n', '\n'.join(rows) + '\n')
open(D + '/DESIGN.md', 'w', encoding='utf8').write(t)
