"""Job runner: symbolic execution of the real code, z3 on the negated property,
replay of every model on the unpatched code, evidence."""
import fnmatch
import importlib
import importlib.machinery
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Api:
    """Access to the modules of the code under test (instrumented or plain)."""
    pkg = 'aksharamukha'

    def __getattr__(self, name):
        m = importlib.import_module('aksharamukha.' + name)
        setattr(self, name, m)
        return m

    def fresh(self):
        """the package loaded anew: no module state left from earlier calls"""
        for k in list(sys.modules):
            if k == self.pkg or k.startswith(self.pkg + '.'):
                del sys.modules[k]
        return type(self)()

    def t(self, src, tgt, txt, nativize=False, pre=(), post=(), param='default'):
        return self.transliterate.process(src, tgt, txt, nativize=nativize,
                                          post_options=list(post), pre_options=list(pre), param=param)


# ------------------------------------------------------------ obligations

def eq(label, a, b):
    return ('eq', label, a, b)


def true(label, v):
    return ('true', label, v, None)


def nochar(label, s, bad):
    return ('nochar', label, s, bad)


class ConcCtx:
    """Concrete stand-in of a symbolic context (replay on the plain code)."""
    symbolic = False

    def __init__(self, values):
        self.values = values

    def var(self, k):
        return self.values[k]

    def map(self, k, table):
        return table[self.values[k]]

    def template(self, parts):
        return ''.join(p if isinstance(p, str) else self.values[p] for p in parts)

    def lift(self, s):
        return s


def conc_obs(obs):
    """obligations with concrete sides -> [label, ok, description]"""
    out = []
    for kind, label, a, b in obs:
        if kind == 'eq':
            out.append([label, a == b, [a, b]])
        elif kind == 'true':
            out.append([label, bool(a), [bool(a)]])
        else:
            out.append([label, not any(b(c) for c in a), [a]])
    return out


def load_prop(pid):
    if os.path.join(VERIF, 'props') not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, 'props'))
    return importlib.import_module(pid.lower())


# ------------------------------------------------------------ replay server

class Replay:
    """A process with the unpatched code of /repo."""

    def __init__(self, pid):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPYCACHEPREFIX'] = '/nonexistent'
        env['PYTHONPATH'] = REPO
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-c',
                                   'import sys; sys.path.insert(0, %r); from symx.harness import serve; serve(%r)'
                                   % (VERIF, pid)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, cwd='/', text=True)

    def ask(self, params, values):
        self.p.stdin.write(json.dumps([params, values]) + '\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError('replay process ended')
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def serve(pid):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.path.insert(0, REPO)
    prop = load_prop(pid)
    api = Api()
    # compiled code is kept, so that loading the package anew is quick
    loader, codes = importlib.machinery.SourceFileLoader, {}
    get_code = loader.get_code

    def cached(self, name):
        if not name.startswith(Api.pkg):
            return get_code(self, name)
        if name not in codes:
            codes[name] = get_code(self, name)
        return codes[name]
    loader.get_code = cached
    f = importlib.import_module('aksharamukha.transliterate').__file__
    assert os.path.realpath(f).startswith(os.path.realpath(REPO) + '/'), f
    for line in sys.stdin:
        params, values = json.loads(line)
        try:
            obs = conc_obs(prop.run(params, api, ConcCtx(values)))
            r = {'obs': obs}
        except Exception as ex:
            r = {'exc': type(ex).__name__, 'msg': str(ex)[:300]}
        out.write(json.dumps(r) + '\n')
        out.flush()


# ------------------------------------------------------------ known findings

def known_findings(pid):
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path, encoding='utf8'):
            if l.startswith('finding: '):
                d = json.loads(l[9:])
                if d['property'] == pid:
                    res.append(d)
    return res


def finding_box(f, domains):
    box = []
    for k, d in enumerate(domains):
        w = f['where'].get(str(k))
        m = 0
        for i, s in enumerate(d):
            if w is None or s in w or any('*' in q and fnmatch.fnmatchcase(s, q) for q in w):
                m |= 1 << i
        if not m:
            return None
        box.append(m)
    return tuple(box)


# ------------------------------------------------------------ one job

class JobTimeout(BaseException):
    pass


def _alarm(*a):
    raise JobTimeout()


_STATE = {}

# a job that gives no verdict on its whole input space (an operation the engine
# cannot follow, time, memory) is repeated on a smaller space; the evidence says so
LEVELS = [None, 20000, 1200]


def reduce_domains(domains, points, rnd):
    n = len(domains)
    left = points
    out = [None] * n
    order = sorted(range(n), key=lambda k: len(domains[k]))
    for pos, k in enumerate(order):
        cap = max(2, int(left ** (1.0 / (n - pos))))
        d = domains[k]
        if len(d) > cap:
            step = len(d) / cap
            ix = sorted({min(len(d) - 1, int(i * step + rnd.random() * step)) for i in range(cap)})
            d = [d[i] for i in ix]
        out[k] = d
        left = max(1, left // len(d))
    return out


def run_job(job):
    pid, params, opts = job
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    why = []
    for level, points in enumerate(LEVELS):
        left = opts['deadline'][level] - time.time()
        limit = min(left, opts['job_timeout'] if level == 0 else 90)
        if limit < 3:
            why.append('no time left')
            continue
        res = {'name': params['name'], 'params': params, 'status': 'ok', 'paths': 0, 'entries': 0, 'ops': 0,
               'queries': 0, 'solver_s': 0.0, 'viol': [], 'known': [], 'wit': [], 'funcs': [], 'points': 0,
               'samples': [], 'splits': 0, 'level': level}
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            _run_job(pid, params, opts, res, points)
        except JobTimeout:
            res['status'] = 'timeout'
        except MemoryError:
            res['status'] = 'error'
            res['error'] = 'MemoryError'
        except BaseException as ex:
            res['status'] = 'error'
            res['error'] = traceback.format_exc()[-3000:]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        res['wall'] = time.time() - t0
        if res['status'] == 'ok':
            break
        why.append('%s %s' % (res['status'], res.get('error', '').strip().split('\n')[-1][:200]))
        if res['viol']:
            break
    else:
        res = {'name': params['name'], 'params': params, 'status': 'undecided', 'paths': 0, 'entries': 0, 'ops': 0,
               'queries': 0, 'solver_s': 0.0, 'viol': [], 'known': [], 'wit': [], 'funcs': [], 'points': 0,
               'samples': [], 'splits': 0, 'level': len(LEVELS), 'wall': time.time() - t0,
               'error': res.get('error', '') if why and 'res' in dir() else ''}
    res['why'] = why
    return res


def _run_job(pid, params, opts, res, points):
    from . import rt
    from .core import explore, SymStr, SymBool, merge_boxes
    from .vc import VC, evaluate, volume
    import z3
    prop = _STATE['prop']
    api = _STATE['api']
    rnd = random.Random('%s/%s/%s' % (opts['seed'], pid, params['name']))
    domains = prop.domains(params)
    for d in domains:
        assert len(set(d)) == len(d), 'duplicate value in a domain'
    if points:
        domains = reduce_domains(domains, points, rnd)
    vc = VC(domains)
    rt.FUNCS = set()
    known = []
    for f in opts['known']:
        if fnmatch.fnmatchcase(params['name'], f['job']):
            b = finding_box(f, domains)
            if b:
                known.append((f, b))
    knownf = [z3.Not(vc.box(b)) for _, b in known]
    # inputs outside the claim (stated in the property)
    excl = []
    if hasattr(prop, 'exclude'):
        excl = [b for b in (finding_box({'where': w}, domains) for w in prop.exclude(params)) if b]
    claim = [z3.Not(vc.box(b)) for b in excl]
    for c in claim:
        vc.solver.add(c)
    res['excluded'] = len(excl)
    total = 1
    for d in domains:
        total *= len(d)
    res['points'] = total
    vol = 0
    path_boxes = []
    wit_budget = opts['witnesses']
    res['samples'] = []
    found_labels = set()
    for boxes, r, ctx in explore(domains, lambda ctx: prop.run(params, api, ctx), opts['max_paths']):
        res['paths'] += 1
        res['ops'] += ctx.ops
        res['splits'] += ctx.splits
        vol += volume(boxes)
        path_boxes += boxes
        if r[0] == 'exc':
            obs = [('exc', 'exception', r[1], None)]
        else:
            obs = r[1]
        nent = 0
        for kind, label, a, b in obs:
            if kind == 'eq':
                vc.pieces = 1
                f = vc.differ(a, b, boxes, ctx)
                nent += vc.pieces
                for x in (a, b):
                    if isinstance(x, SymStr):
                        v2 = volume([e.box for e in x.entries])
                        if v2 != volume(boxes):
                            raise RuntimeError('entries do not partition the path: %s' % label)
            elif kind == 'true':
                if isinstance(a, SymBool):
                    f = vc.boxes_formula(merge_boxes(a.f, ctx.n))
                    nent += len(a.t) + len(a.f)
                else:
                    f = vc.boxes_formula([] if a else boxes)
                    nent += 1
            elif kind == 'exc':
                f = vc.boxes_formula(boxes)
                nent += 1
            else:
                vc.pieces = 1
                f = vc.has_char(a, b, boxes)
                nent += vc.pieces
            st, vals = vc.check([f] + knownf)
            if st == 'sat' and label not in found_labels:
                found_labels.add(label)
                res['viol'].append({'label': label, 'ix': vals, 'values': [d[i] for d, i in zip(domains, vals)],
                                    'detail': repr(a)[:200] if kind == 'exc' else ''})
            for kf, kb in known:
                st, vals = vc.check([f, vc.box(kb)])
                if st == 'sat':
                    res['known'].append({'label': label, 'values': [d[i] for d, i in zip(domains, vals)],
                                         'what': kf['what']})
        # witnesses for the validation of the translation
        if wit_budget > 0 and r[0] == 'ok':
            cand = []
            for kind, label, a, b in obs:
                for x in (a, b):
                    if isinstance(x, SymStr):
                        cand += [e.box for e in x.entries]
            if not cand:
                cand = boxes
            for bx in rnd.sample(cand, min(len(cand), max(1, min(wit_budget, opts['wit_per_path'])))):
                ix = []
                for m in bx:
                    bits = [i for i in range(m.bit_length()) if m >> i & 1]
                    ix.append(rnd.choice(bits))
                pred = []
                for kind, label, a, b in obs:
                    if kind == 'eq':
                        pred.append([label, [evaluate(a, ix), evaluate(b, ix)]])
                    elif kind == 'true':
                        pred.append([label, [bool(evaluate(a, ix))]])
                    else:
                        pred.append([label, [evaluate(a, ix)]])
                out = any(all(m >> i & 1 for m, i in zip(b, ix)) for b in excl + [kb for _, kb in known])
                res['wit'].append([[d[i] for d, i in zip(domains, ix)], pred, out])
                wit_budget -= 1
        res['entries'] += nent
    if vol != total:
        raise RuntimeError('the paths do not partition the input space: %d of %d' % (vol, total))
    pb = merge_boxes(path_boxes, len(domains))
    if len(pb) <= 64:
        st, vals = vc.check([z3.Not(vc.boxes_formula(pb))])
        if st != 'unsat':
            raise RuntimeError('coverage query: ' + st)
    st, _ = vc.check([z3.Or([vc.box(b) for b in pb[:64]])])
    if st != 'sat':
        raise RuntimeError('reachability twin: ' + st)
    if vc.unknown:
        raise RuntimeError('solver gave up on %d queries' % vc.unknown)
    res['queries'] = vc.queries
    res['solver_s'] = vc.time
    res['funcs'] = sorted(rt.FUNCS)
    res['vars'] = len(domains)


def _init_worker():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass


# ------------------------------------------------------------ main

def setup_instrumented():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    if VT not in sys.path:
        sys.path.append(VT)
    from . import instrument
    instrument.install(REPO, 'aksharamukha')
    m = importlib.import_module('aksharamukha.transliterate')
    assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + '/')
    base = os.path.join(REPO, 'aksharamukha', 'ScriptMap')
    for sub in sorted(os.listdir(base)):
        d = os.path.join(base, sub)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith('.py') and f != '__init__.py':
                    try:
                        importlib.import_module('aksharamukha.ScriptMap.%s.%s' % (sub, f[:-3]))
                    except Exception:
                        pass
    return Api()


def main(pid, argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', default='*', help='fnmatch pattern of job names')
    ap.add_argument('--replay', default=None)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '8')))
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    prop = load_prop(pid)

    if a.replay:
        rec = json.load(open(a.replay, encoding='utf8'))
        rp = Replay(pid)
        ans = rp.ask(rec['params'], rec['values'])
        rp.close()
        print(json.dumps(ans, ensure_ascii=False, indent=1))
        bad = 'exc' in ans or any(not o[1] for o in ans['obs'])
        print('reproduced' if bad else 'not reproduced')
        return 1 if bad else 0

    api = setup_instrumented()
    _STATE['prop'] = prop
    _STATE['api'] = api
    known = known_findings(pid)
    jobs = [p for p in prop.jobs(tier) if fnmatch.fnmatchcase(p['name'], a.jobs)]
    names = [p['name'] for p in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    budget = getattr(prop, 'BUDGET', {'quick': 800, 'thorough': 4 * 3600})[tier]
    opts = {'seed': seed, 'known': known, 'job_timeout': getattr(prop, 'JOB_TIMEOUT', {'quick': 150, 'thorough': 3600})[tier],
            'deadline': [t0 + budget * x for x in (0.6, 0.8, 0.95)],
            'max_paths': getattr(prop, 'MAX_PATHS', 20000), 'witnesses': getattr(prop, 'WITNESSES', 3),
            'wit_per_path': 2}
    results = []
    late = 0
    # heavy jobs first
    jobs.sort(key=lambda p: -p.get('weight', 1))
    pool = mp.get_context('fork').Pool(a.procs, initializer=_init_worker, maxtasksperchild=50)
    try:
        it = pool.imap_unordered(run_job, [(pid, p, opts) for p in jobs])
        for _ in jobs:
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                late = len(jobs) - len(results)
                break
            results.append(r)
            if a.verbose:
                print('%-60s %s L%d paths=%d entries=%d q=%d solver=%.2f wall=%.1f viol=%s' % (
                    r['name'], r['status'], r['level'], r['paths'], r['entries'], r['queries'], r['solver_s'], r['wall'],
                    [(v['label'], v['values'], v['detail']) for v in r['viol']][:2]), flush=True)
                if r['why']:
                    print(r['why'], r.get('error'))
    finally:
        pool.terminate()
        pool.join()

    # replay on the unpatched code
    rp = Replay(pid)
    violations = []
    mismatches = []
    validated = 0
    samples = []
    for r in results:
        for v in r['viol']:
            ans = rp.ask(r['params'], v['values'])
            bad = None
            if v['label'] == 'exception':
                if 'exc' in ans:
                    bad = 'raised %s: %s' % (ans['exc'], ans['msg'])
            elif 'obs' in ans:
                for l, ok, d in ans['obs']:
                    if l == v['label'] and not ok:
                        bad = '%s: %s' % (l, ' <> '.join(map(str, d)))
            elif 'exc' in ans:
                bad = 'raised %s: %s' % (ans['exc'], ans['msg'])
            if bad is None:
                mismatches.append('counterexample does not reproduce: %s %s %s' % (r['name'], v, ans))
            else:
                violations.append((r, v, bad))
        for values, pred, out in r['wit']:
            ans = rp.ask(r['params'], values)
            if 'exc' in ans:
                if not out:
                    violations.append((r, {'values': values, 'label': 'exception'},
                                       'raised %s: %s' % (ans['exc'], ans['msg'])))
                    continue
                mismatches.append('%s %r: real code raised %s %s' % (r['name'], values, ans['exc'], ans['msg']))
                continue
            got = [[l, d] for l, ok, d in ans['obs']]
            p2 = json.loads(json.dumps(pred))
            bad = [(l, d) for l, ok, d in ans['obs'] if not ok]
            if bad and not out and not any(v['label'] == bad[0][0] for v in r['viol']):
                violations.append((r, {'values': values, 'label': bad[0][0]},
                                   '%s: %s' % (bad[0][0], ' <> '.join(map(str, bad[0][1])))))
            elif got != p2:
                mismatches.append('%s %r: predicted %r, real %r' % (r['name'], values, p2, got))
            else:
                validated += 1
                if len(samples) < 12 and (validated % 7 == 1):
                    samples.append({'job': r['name'], 'input': values, 'result': got})
    kn = {}
    for r in results:
        for k in r['known']:
            kn.setdefault(k['what'], (r['name'], k))
    for what, (name, k) in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s (e.g. job %s, values %s)' % (
            pid, what, name, json.dumps(k['values'], ensure_ascii=False)))
    rp.close()

    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    shown = 0
    for n, (r, v, bad) in enumerate(violations):
        if shown >= 8:
            break
        shown += 1
        path = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (pid, n))
        json.dump({'property': pid, 'job': r['name'], 'params': r['params'], 'values': v['values'],
                   'label': v['label'], 'observed': bad}, open(path, 'w', encoding='utf8'), ensure_ascii=False, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  job %s, values %s' % (r['name'], json.dumps(v['values'], ensure_ascii=False)))
        print('  %s' % bad)

    bad_jobs = [r for r in results if r['status'] != 'ok']
    reduced = [r for r in results if r['status'] == 'ok' and r['level']]
    funcs = sorted(set(f for r in results for f in r['funcs']))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['entries'] for r in results),
            'transitions': sum(r['ops'] + r['splits'] for r in results),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'job': r['name']} for r in results[:3]],
            'jobs': len(results), 'jobs_without_verdict': late + len(bad_jobs),
            'jobs_on_reduced_inputs': [{'job': r['name'], 'points': r['points'], 'why': r['why']} for r in reduced],
            'paths': sum(r['paths'] for r in results),
            'inputs_covered': sum(r['points'] for r in results),
            'solver': 'z3 ' + _z3v(), 'queries': sum(r['queries'] for r in results),
            'solver_time_s': round(sum(r['solver_s'] for r in results), 2),
            'functions_encoded': len(funcs), 'functions': funcs,
            'bounds': getattr(prop, 'BOUNDS', {}).get(tier, ''),
            'states_meaning': 'disjoint input regions on which the symbolic result has one shape',
            'transitions_meaning': 'symbolic string operations and region splits performed',
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    print('%s %s: %d jobs, %d paths, %d regions, %.3g inputs, %d queries (%.1f s in z3), %d replays agree, %.1f s' % (
        pid, tier, len(results), ev['coverage']['paths'], ev['coverage']['states'], ev['coverage']['inputs_covered'],
        ev['coverage']['queries'], ev['coverage']['solver_time_s'], validated, wall))
    if violations:
        return 1
    if mismatches:
        print('ERROR: symbolic and real execution disagree')
        for m in mismatches[:5]:
            print('  ' + m[:600])
        return 3
    for r in reduced:
        print('NOTE: %s decided on %d inputs only (%s)' % (r['name'], r['points'], '; '.join(r['why'])))
    if bad_jobs or late:
        print('NOTE: %d jobs without a verdict, %d not run' % (len(bad_jobs), late))
        for r in bad_jobs[:5]:
            print('  ', r['name'], r['status'], r['why'], r.get('error', '')[-800:])
        if len(bad_jobs) == len(results):
            return 3
    return 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'
