#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a patched scratch copy of the tree (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CF = V + '/tools/caught.json'
for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + i
    pid = json.load(open(d + '/meta.json'))['property']
    t = time.time()
    with tempfile.TemporaryDirectory(prefix='catch') as tmp:
        shutil.copytree(os.environ.get('SEED_BASE', '/repo'), tmp + '/repo', symlinks=True)
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', d + '/patch.diff'], check=True)
        r = subprocess.run([V + '/check.py', pid, '--tier', 'quick'], capture_output=True, text=True, cwd=V,
                           env=dict(os.environ, VERIF_REPO=tmp + '/repo'))
    hit = r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout
    print(i, pid, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t),
          '' if hit else r.stdout[-600:] + r.stderr[-300:], flush=True)
    c = json.load(open(CF)) if os.path.exists(CF) else {}
    c[i] = 'caught' if hit else 'missed'
    json.dump(c, open(CF, 'w'), indent=0, sort_keys=True)
