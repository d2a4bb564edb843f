#!/usr/bin/env python3
"""Makes planted bugs: tools/seed.py FILE, where FILE defines SEEDS, a list of
dicts id, property, edits [(file, old, new)], demo (python source; exit nonzero =
broken), needs, breaks.  Each is validated in a scratch copy under /tmp."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, logging, warnings
logging.disable(logging.CRITICAL); warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
from aksharamukha import transliterate as T
def t(a, b, x, n=False, **k):
    return T.process(a, b, x, nativize=n, **k)
def check(ok, *what):
    if not ok:
        print('BROKEN', *what); sys.exit(1)
'''
seeds = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
W = '/tmp/seedwork'
BASE = os.environ.get('SEED_BASE', '/repo')
for s in seeds:
    if only and s['id'] not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', BASE, W], check=True)
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = os.path.join(W, 'aksharamukha', f)
        t = open(p, encoding='utf8').read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w', encoding='utf8').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), ensure_ascii=False, indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    clean = subprocess.run(['sh', d + '/demo.sh'], cwd=BASE, env=env, capture_output=True, text=True)
    bad = subprocess.run(['sh', d + '/demo.sh'], cwd=W, env=env, capture_output=True, text=True)
    # the stable tests, on the patched copy
    test = open('/opt/vp/test.sh').read().replace('/repo', W)
    open('/tmp/seedtest.sh', 'w').write(test)
    subprocess.run(['bash', '/tmp/seedtest.sh', '/tmp/seed.json'], capture_output=True, env=dict(os.environ, PYTHONPATH=W))
    o = json.load(open('/tmp/seed.json'))
    miss = base - set(o['passed'])
    ok = clean.returncode == 0 and bad.returncode == 1 and 'BROKEN' in bad.stdout and not miss
    print(s['id'], 'OK' if ok else 'NOT OK', 'clean', clean.returncode, clean.stdout[-300:], clean.stderr[-300:], 'patched', bad.returncode, bad.stdout.strip()[-200:],
          bad.stderr[-300:], 'tests lost', len(miss), sorted(miss)[:3], flush=True)
shutil.rmtree(W, ignore_errors=True)
