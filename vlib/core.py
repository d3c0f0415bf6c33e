"""Runner for the runtime monitors.

A check is a set of *scenarios*.  A scenario drives the real code in /repo on a
randomly generated workload and compares everything observable about the run
with an independent oracle, through a `Ctx`.  A run of a check is a fixed
number of cases, case i being fully determined by (property, seed, i).

Verdicts are three valued:
  exit 0  held on everything explored (evidence says what that was)
  exit 1  a `VIOLATION property=<id> replay=<path>` line was printed
  exit 2  inconclusive: the monitors were not reached often enough, or a case
          ran into the (generous) watchdog; never folded into the other two.
"""
import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XMPS_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['TQDM_DISABLE'] = '1'
sys.dont_write_bytecode = True


def load_repo():
    """import the code under test from the working tree (and from nowhere else)"""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')          # 'no finite tdvp module found'
    try:
        import xmps
        import xmps.fMPS, xmps.iMPS, xmps.fTDVP, xmps.iTDVP, xmps.fPEPS
        import xmps.Hamiltonians, xmps.spin, xmps.tensor, xmps.ncon
        import xmps.peps_tools, xmps.svd_robust, xmps.tests, xmps.iOptimize
        import xmps.mps_examples
    finally:
        sys.stdout = so
    for m in (xmps.fMPS, xmps.iMPS, xmps.fTDVP):
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__
    return xmps


import numpy as np


class CaseTimeout(BaseException):
    pass


class Unbounded(Exception):
    """raised by step counters put around iterative code"""


def _alarm(sig, frame):
    raise CaseTimeout()


def jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, np.ndarray):
        if x.size <= 64:
            return {'shape': list(x.shape), 'data': [jsonable(v) for v in x.reshape(-1).tolist()]}
        return {'shape': list(x.shape), 'head': [jsonable(v) for v in x.reshape(-1)[:16].tolist()]}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth+1) for v in list(x)[:64]]
    return repr(x)[:400]


class Ctx:
    """one case: the random source, and the verdict of its monitors"""

    def __init__(self, pid, seed, tier, index, scenario):
        self.pid, self.seed, self.tier, self.index, self.scenario = pid, seed, tier, index, scenario
        h = int.from_bytes(hashlib.sha256(('%s/%d/%d' % (pid, seed, index)).encode()).digest()[:8], 'big')
        self.rng = np.random.default_rng(h)
        np.random.seed(h % (2**32))             # the code under test draws from the global source
        random.seed(h)
        self.params = {}
        self.events = {}
        self.comparisons = 0
        self.margins = {}
        self.violations = []
        self.trail = []
        self.thorough = tier == 'thorough'

    # -- bookkeeping ---------------------------------------------------------
    def p(self, **kw):
        """record the parameters that make this case what it is"""
        self.params.update(kw)
        return self

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, *what):
        """append to the event trail of this case (shown in replays)"""
        self.trail.append(' '.join(map(str, what)))

    # -- oracles -------------------------------------------------------------
    def fail(self, mech, msg='', **detail):
        self.violations.append({'mechanism': mech, 'message': str(msg)[:2000], 'detail': jsonable(detail)})

    def ok(self, cond, mech, msg='', **detail):
        self.comparisons += 1
        self.events['decided:' + mech] = self.events.get('decided:' + mech, 0) + 1
        if not bool(cond):
            self.fail(mech, msg, **detail)
            return False
        return True

    def close(self, got, want, mech, tol=1e-8, scale=None, shape=True, **detail):
        """|got-want| <= tol*max(1,|want|) elementwise max norm, shapes agreeing (up to size-1 axes)"""
        got, want = np.asarray(got), np.asarray(want)
        if got.dtype == object or want.dtype == object:
            return self.ok(False, mech, 'non numeric result', got=repr(got)[:300])
        g, w = np.squeeze(got), np.squeeze(want)
        if g.shape != w.shape:
            return self.ok(False, mech, 'shape %s, expected %s' % (got.shape, want.shape), **detail)
        if g.size == 0:
            return self.ok(True, mech)
        if not np.all(np.isfinite(g)):
            return self.ok(False, mech, 'non finite result', got=got, want=want, **detail)
        s = max(1.0, float(np.max(np.abs(w)))) if scale is None else float(scale)
        err = float(np.max(np.abs(g - w))) / s
        if tol > 0:
            self.margins[mech] = max(self.margins.get(mech, 0.0), err / tol)
        return self.ok(err <= tol, mech, 'relative error %.3g (tolerance %.1g)' % (err, tol),
                       got=got, want=want, **detail)

    def le(self, a, b, mech, slack=1e-9, **detail):
        return self.ok(np.isfinite(a) and a <= b + slack, mech, '%r is not <= %r' % (float(a), float(b)), **detail)

    def raises(self, f, mech, exc=Exception, **detail):
        self.comparisons += 1
        self.events['decided:' + mech] = self.events.get('decided:' + mech, 0) + 1
        try:
            r = f()
        except exc:
            return True
        self.fail(mech, 'accepted what it must reject; returned %r' % (r,), **detail)
        return False

    # -- random helpers ------------------------------------------------------
    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def int(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi+1))

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def signature(self):
        return json.dumps([self.scenario, jsonable(self.params)], sort_keys=True)


def run_case(mod, seed, tier, index, limit):
    table = mod.SCENARIOS
    name, fn = table[index % len(table)]
    ctx = Ctx(mod.PID, seed, tier, index, name)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)      # again and again, should something swallow it
    timed_out = False
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    t0 = time.time()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(ctx)
    except CaseTimeout:
        timed_out = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        ctx.fail('exception:%s:%s' % (name, type(e).__name__),
                 '%s: %s' % (type(e).__name__, e),
                 inside=[('%s:%s' % (os.path.relpath(f.filename, REPO), f.name)) for f in where][-4:],
                 traceback=traceback.format_exc().splitlines()[-12:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.close()
        sys.stdout = so
    ctx.seconds = time.time()-t0
    return ctx, timed_out


def confirm(mod, seed, tier, index, limit):
    """a case that gave no answer, alone in a process of its own: a violation if it crashes or does not return"""
    import multiprocessing as mp
    name = mod.SCENARIOS[index % len(mod.SCENARIOS)][0]
    q = mp.get_context('fork').SimpleQueue()

    def body():
        ctx, to = run_case(mod, seed, tier, index, limit)
        q.put((jsonable(ctx.params), ctx.violations, to, ctx.trail[-40:]))
    p = mp.get_context('fork').Process(target=body)
    p.start()
    p.join(limit+20)
    params, viol, trail = {}, [], []
    if p.exitcode is None:
        p.kill()
        p.join()
        to = True
    elif p.exitcode == 0 and not q.empty():
        params, viol, to, trail = q.get()
    elif -p.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        return [{'mechanism': 'crash:'+name, 'message': 'the process was ended by signal %d' % -p.exitcode, 'detail': {},
                 'case': index, 'scenario': name, 'params': {}, 'trail': []}]
    else:
        return []
    if to:
        viol = viol+[{'mechanism': 'no_answer:'+name, 'message': 'no answer within %d s, twice' % limit, 'detail': {}}]
    return [dict(v, case=index, scenario=name, params=params, trail=trail) for v in viol]


_MOD = None


def _forked(slot, *a):
    here = os.getcwd()
    own = os.path.join(here, str(os.getpid()))      # every worker process writes its files in a folder of its own
    os.makedirs(own, exist_ok=True)
    os.chdir(own)
    try:
        return _worker(_MOD, *a, slot=slot)
    finally:
        os.chdir(here)


_NOW = None       # per block of cases: process, case, time it started


def _worker(mod, seed, tier, indices, limit, deadline, slot=None):
    out = {'cases': 0, 'comparisons': 0, 'events': {}, 'sigs': set(), 'viol': [], 'timeouts': [],
           'samples': [], 'scen': {}, 'vacuous': 0, 'margins': {}, 'skipped': 0, 'nviol': {}, 'slowest': (0., -1)}
    for i in indices:
        if time.time() > deadline or out['timeouts']:
            out['skipped'] += 1
            continue
        if slot is not None:
            _NOW[3*slot:3*slot+3] = [os.getpid(), i, time.time()]
        ctx, to = run_case(mod, seed, tier, i, limit)
        out['slowest'] = max(out['slowest'], (ctx.seconds, i))
        out['cases'] += 1
        out['scen'][ctx.scenario] = out['scen'].get(ctx.scenario, 0) + 1
        out['comparisons'] += ctx.comparisons
        for k, v in ctx.events.items():
            out['events'][k] = out['events'].get(k, 0) + v
        for k, v in ctx.margins.items():
            out['margins'][k] = max(out['margins'].get(k, 0.), v)
        if to:
            out['timeouts'].append(i)
        if ctx.comparisons == 0:
            out['vacuous'] += 1
        else:
            out['sigs'].add(hashlib.sha1(ctx.signature().encode()).hexdigest()[:16])
        if len(out['samples']) < 2 and ctx.comparisons:
            out['samples'].append({'case': i, 'scenario': ctx.scenario, 'params': jsonable(ctx.params),
                                   'comparisons': ctx.comparisons, 'trail': ctx.trail[:12]})
        for v in ctx.violations:
            out['nviol'][v['mechanism']] = out['nviol'].get(v['mechanism'], 0) + 1
            if out['nviol'][v['mechanism']] <= 3:
                out['viol'].append(dict(v, case=i, scenario=ctx.scenario, params=jsonable(ctx.params),
                                        trail=ctx.trail[-40:]))
    return out


def one_off(pid, seed, tier, *fns):
    """fixed histories, run once per check: (violations, coverage)"""
    viol, n = [], 0
    for fn in fns:
        ctx = Ctx(pid, seed, tier, 10**9, fn.__name__)
        so = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 200, 5)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(ctx)
        except CaseTimeout:
            ctx.fail('no_answer:'+fn.__name__, 'no answer within 200 s')
        except Exception as e:
            ctx.fail('exception:%s:%s' % (fn.__name__, type(e).__name__), '%s: %s' % (type(e).__name__, e),
                     traceback=traceback.format_exc().splitlines()[-12:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            sys.stdout.close()
            sys.stdout = so
        n += ctx.comparisons
        viol += [dict(v, case=-1, scenario=fn.__name__, params={}, trail=ctx.trail[-40:]) for v in ctx.violations]
    return viol, {'fixed_histories': [f.__name__ for f in fns], 'fixed_history_decisions': n}


def load_known():
    """lines 'open: property=<id> mechanism=<oracle> <what>' of known_findings.txt; its 'fixed:' lines suppress nothing"""
    path = os.path.join(VERIF, 'known_findings.txt')
    ks = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'open: property=(\S+) mechanism=(\S+) (.*)', line)
            if m:
                ks.append(dict(zip(('property', 'mechanism', 'what'), m.groups())))
    return ks


def main(mod, argv):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    replay = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay')+1]))
        seed, tier = replay['seed'], replay['tier']
    scratch = '/tmp/xmps_verif_%s_%d' % (mod.PID, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    try:
        return _main(mod, argv, t0, seed, tier, replay)
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, argv, t0, seed, tier, replay):
    load_repo()
    if hasattr(mod, 'setup'):
        mod.setup()
    limit = getattr(mod, 'CASE_LIMIT', 120 if tier == 'thorough' else 60)
    if replay is not None and replay['case'] < 0:
        viol, _ = mod.extra(tier, seed)
        viol = [v for v in viol if v['scenario'] == replay['scenario'] and v['mechanism'] == replay['mechanism']]
        print(json.dumps(viol, indent=1))
        return int(bool(viol)) if not viol else (
            print('VIOLATION property=%s replay=%s' % (mod.PID, argv[argv.index('--replay')+1])) or 1)
    if replay is not None and re.match('crash:|no_answer:', replay['mechanism']):
        viol = confirm(mod, seed, tier, replay['case'], limit)
        print(json.dumps(viol, indent=1))
        if viol:
            print('VIOLATION property=%s replay=%s' % (mod.PID, argv[argv.index('--replay')+1]))
        return int(bool(viol))
    if replay is not None:
        ctx, to = run_case(mod, seed, tier, replay['case'], limit)
        print(json.dumps({'params': jsonable(ctx.params), 'trail': ctx.trail,
                          'violations': ctx.violations, 'timeout': to}, indent=1))
        if ctx.violations:
            print('VIOLATION property=%s replay=%s' % (mod.PID, argv[argv.index('--replay')+1]))
            return 1
        return 0
    n = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    if '--cases' in argv:
        n = int(argv[argv.index('--cases')+1])
    budget = 800 if tier == 'thorough' else 400
    deadline = t0 + budget
    nproc = 1 if '--serial' in argv else min(NPROC, max(1, n))
    lost = []
    if nproc == 1:
        outs = [_worker(mod, seed, tier, range(n), limit, deadline)]
    else:
        import multiprocessing as mp
        # cases are dealt out in small strided blocks
        global _MOD, _NOW
        _MOD = mod
        ctxm = mp.get_context('fork')
        chunks = [list(range(k, n, nproc*4)) for k in range(nproc*4)]
        chunks = [c for c in chunks if c]
        _NOW = ctxm.RawArray('d', 3*len(chunks))
        with ctxm.Pool(nproc) as pool:
            rs = {k: pool.apply_async(_forked, (k, seed, tier, c, limit, deadline)) for k, c in enumerate(chunks)}
            outs = []
            while rs:
                rs[min(rs)].wait(.2)
                for k in [k for k in rs if rs[k].ready()]:
                    outs.append(rs.pop(k).get())
                for k in list(rs):
                    pid, case, began = _NOW[3*k:3*k+3]
                    # its process is gone, or it sits in native code that no alarm interrupts
                    if pid and (not os.path.exists('/proc/%d' % pid) or time.time() > began+limit+30):
                        rs[k].wait(2)
                        if not rs[k].ready():
                            lost.append(int(case))
                            rs.pop(k)
                if lost and (len(lost) > 2 or time.time() > deadline):
                    break
                if time.time() > t0+budget+limit+60:
                    print('INCONCLUSIVE property=%s a worker gave no answer' % mod.PID)
                    return 2
        _NOW = None
    agg = {'cases': 0, 'comparisons': 0, 'vacuous': 0, 'skipped': 0}
    slowest = max([o['slowest'] for o in outs], default=(0., -1))
    events, scen, margins, sigs, viol, timeouts, samples = {}, {}, {}, set(), [], [], []
    for o in outs:
        for k in agg:
            agg[k] += o[k]
        for src, dst in ((o['events'], events), (o['scen'], scen)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in o['margins'].items():
            margins[k] = max(margins.get(k, 0.), v)
        sigs |= o['sigs']
        viol += o['viol']
        timeouts += o['timeouts']
        samples += o['samples']
    for i in (lost+timeouts)[:2]:
        # given another chance, alone
        if not viol:
            viol += confirm(mod, seed, tier, i, limit)
    samples.sort(key=lambda s: s['case'])
    seen, ss = set(), []
    for s in samples:
        if s['scenario'] not in seen:
            seen.add(s['scenario'])
            ss.append(s)
    extra = {}
    if hasattr(mod, 'extra'):
        # one-off stages (native builds, enumerations) run in the parent
        extra_viol, extra = mod.extra(tier, seed)
        viol += extra_viol

    known = [k for k in load_known() if k['property'] == mod.PID]
    fresh, hit = [], {}
    for v in viol:
        k = next((k for k in known if v['mechanism'] == k['mechanism']), None)
        if k is None:
            fresh.append(v)
        else:
            hit[k['mechanism']] = k
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (mod.PID, k['what']))

    wall = time.time() - t0
    mechs = {k[8:]: v for k, v in events.items() if k.startswith('decided:')}
    coverage = {
        'evaluations': agg['cases'], 'distinct_nontrivial': len(sigs),
        'rule': mod.RULE + ' A case is non-trivial when at least one oracle decided something in it; two cases '
                           'are the same when scenario and recorded parameters agree.',
        'samples': ss[:8], 'oracle_decisions': agg['comparisons'],
        'decisions_by_oracle': dict(sorted(mechs.items())),
        'events': {k: v for k, v in sorted(events.items()) if not k.startswith('decided:')},
        'cases_by_scenario': dict(sorted(scen.items())),
        'largest_error_over_tolerance': {k: float('%.3g' % v) for k, v in sorted(margins.items())},
        'vacuous_cases': agg['vacuous'], 'cases_not_run': agg['skipped'], 'watchdog_cases': len(timeouts),
        'slowest_case': {'seconds': round(slowest[0], 2), 'case': slowest[1]}}
    coverage.update(extra)
    ev = {'property': mod.PID, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': coverage, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.PID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if fresh:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        by = {}
        for v in fresh:
            by.setdefault(v['mechanism'], []).append(v)
        first = None
        for mech, vs in by.items():
            v = min(vs, key=lambda v: v.get('case', 0))
            name = '%s_%s.json' % (mod.PID, hashlib.sha1(mech.encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump(dict(v, property=mod.PID, seed=seed, tier=tier,
                               how='./run %s --replay %s' % (mod.PID, path)), f, indent=1)
            first = first or path
            print('  %s [%d] %s: %s' % (mod.PID, len(vs), mech, v['message'][:240]))
            if 'inside' in v.get('detail', {}):
                print('      in', v['detail']['inside'])
        for mech in list(by)[:1]:
            print('VIOLATION property=%s replay=%s' % (mod.PID, first))
        return 1
    floor = getattr(mod, 'FLOOR', 0.5)
    if lost:
        print('INCONCLUSIVE property=%s case(s) %s gave no answer in their worker, but did alone' % (mod.PID, lost[:5]))
        return 2
    if timeouts:
        print('INCONCLUSIVE property=%s %d case(s) ran into the watchdog: %s' % (mod.PID, len(timeouts), timeouts[:5]))
        return 2
    if agg['vacuous'] > 0.2 * max(1, agg['cases']) or agg['cases'] < floor * n:
        print('INCONCLUSIVE property=%s %d of %d cases decided nothing, %d not run'
              % (mod.PID, agg['vacuous'], n, agg['skipped']))
        return 2
    missing = [m for m in getattr(mod, 'MUST', []) if mechs.get(m, 0) == 0] if '--cases' not in argv else []
    if missing:
        print('INCONCLUSIVE property=%s oracles never reached: %s' % (mod.PID, missing))
        return 2
    print('held property=%s tier=%s seed=%d cases=%d distinct=%d decisions=%d wall=%.1fs'
          % (mod.PID, tier, seed, agg['cases'], len(sigs), agg['comparisons'], wall))
    return 0
