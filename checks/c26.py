"""C26: the singular value decomposition survives failure of the primary solver."""
import contextlib
import warnings
import numpy as np
import scipy.linalg._decomp_svd as sp_svd
import numpy.linalg.linalg as np_lin
from vlib import dense as dn, chain as ch
from xmps import svd_robust
from xmps.fMPS import fMPS, apply_unitary

PID = 'C26'
QUICK, THOROUGH = 32000, 300000
RULE = ('Matrices of every aspect ratio from 1x1 to 40x40, rank, scale (1e-150 to 1e150), precision, memory layout and option '
        'combination, and chains being built, canonicalised and truncated, while no, one, some or all calls of the primary LAPACK '
        'routine report non-convergence after having destroyed what they may overwrite (injected between scipy and LAPACK).')
MUST = ['factors', 'values', 'argument', 'refused', 'refused:driver', 'warning', 'double', 'chain:ray', 'chain:isometry', 'chain:schmidt',
        'chain:truncation', 'chain:gate', 'fault:first', 'fault:later', 'fault:options', 'shape', 'precision']


class Faults:
    """decides, and records, which calls of the solvers fail"""

    def __init__(self, plan):
        self.plan, self.calls, self.failed, self.backup = plan, 0, 0, 0

    def __call__(self, driver):
        k = self.calls
        self.calls += 1
        if driver == 'gesvd':
            self.backup += 1
        bad = bool(self.plan(k, driver))
        self.failed += bad
        return bad


class Umath:
    def __init__(self, real, faults):
        self.real, self.faults = real, faults

    def __getattr__(self, name):
        f = getattr(self.real, name)
        if not name.startswith('svd'):
            return f

        def g(*a, **k):
            if self.faults('gesdd'):
                raise np.linalg.LinAlgError('SVD did not converge (injected)')
            return f(*a, **k)
        return g


@contextlib.contextmanager
def failing(plan):
    faults = Faults(plan)
    get, um = sp_svd.get_lapack_funcs, np_lin._umath_linalg

    def patched(names, *a, **k):
        fs = get(names, *a, **k)
        if isinstance(names, str) or not str(names[0]).startswith('gesdd') and not str(names[0]).startswith('gesvd'):
            return fs
        driver, run = names[0], fs[0]

        def g(a1, *x, **y):
            out = run(a1, *x, **y)         # may overwrite a1, as a failing call would
            if not faults(driver):
                return out
            for o in out[:3]:
                np.asarray(o)[...] = np.nan
            return tuple(out[:3])+(1,)
        return [g]+list(fs[1:])
    sp_svd.get_lapack_funcs, np_lin._umath_linalg = patched, Umath(um, faults)
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            faults.warnings = seen
            yield faults
    finally:
        sp_svd.get_lapack_funcs, np_lin._umath_linalg = get, um


PLANS = {'none': lambda ctx: (lambda k, driver: False),
         'primary': lambda ctx: (lambda k, driver: driver == 'gesdd'),
         'both': lambda ctx: (lambda k, driver: True)}


def matrix(ctx):
    top = ctx.choice([6, 6, 12, 40])
    m, n = ctx.int(1, top), ctx.int(1, top)
    kind = ctx.choice(['generic', 'generic', 'deficient', 'zero', 'repeated', 'graded', 'isometry'])
    t = ctx.choice([complex, complex, float, float, np.float32, np.complex64, int])
    a = dn.crandn(ctx.rng, m, n)
    k = min(m, n)
    if kind == 'deficient':
        r = ctx.int(0, k)
        a = dn.crandn(ctx.rng, m, r)@dn.crandn(ctx.rng, r, n)
    elif kind == 'zero':
        a = np.zeros((m, n), complex)
    elif kind in ('repeated', 'graded', 'isometry'):
        u, _, v = np.linalg.svd(a, full_matrices=False)
        s = {'repeated': np.repeat([1., .5, 0.1], k)[::3][:k], 'graded': 10.**-np.linspace(0, 14, k), 'isometry': np.ones(k)}[kind]
        a = u*s@v
    scale = 1.
    if t in (complex, float) and ctx.flip(.3):
        scale = float(10.**ctx.choice([-150, -20, -8, 8, 20, 150]))
    if t is int:
        a = np.round(3*a.real).astype(int)
    else:
        if not np.issubdtype(t, np.complexfloating):
            a = a.real
        a = (a*scale).astype(t)
    layout = ctx.choice(['c', 'c', 'f', 'strided', 'reversed', 'list', 'readonly'])
    if layout == 'f':
        a = np.asfortranarray(a)
    elif layout == 'strided':
        b = np.zeros((2*m, 3*n), a.dtype)
        b[::2, ::3] = a
        a = b[::2, ::3]
    elif layout == 'reversed':
        a = a[::-1, ::-1]
    elif layout == 'list':
        a = a.tolist()
    elif layout == 'readonly':
        a.setflags(write=False)
    ctx.p(m=m, n=n, kind=kind, dtype=np.dtype(t).name, scale=scale, layout=layout)
    return a


def judge(ctx, out, a, full, uv, tol, mech='factors'):
    a = np.asarray(a).astype(complex)
    m, n = a.shape
    k = min(m, n)
    size = float(np.abs(a).max()) or 1.
    ref = np.linalg.svd(a/size, compute_uv=False) if a.size else np.zeros(0)
    s = out[1] if uv else out
    if not ctx.ok(np.shape(s) == (k,), 'shape', 'values of shape %s' % (np.shape(s),)):
        return
    ctx.ok(np.isrealobj(s) and np.all(s >= 0) and np.all(np.diff(s) <= 0), 'values', 'values are not non-negative and descending')
    ctx.close(np.asarray(s, float)/size, ref, 'values', tol=tol, scale=np.sqrt(m*n)+1)
    if not uv:
        return
    U, _, V = out
    r, c = (m, n) if full else (k, k)
    if not ctx.ok(U.shape == (m, r) and V.shape == (c, n), 'shape', 'factors of shapes %s %s' % (U.shape, V.shape)):
        return
    ctx.close(U.conj().T@U, np.eye(r), mech, tol=tol*10, scale=np.sqrt(r))
    ctx.close(V@V.conj().T, np.eye(c), mech, tol=tol*10, scale=np.sqrt(c))
    ctx.close((U[:, :k]*(s/size))@V[:k], a/size, mech, tol=tol*10, scale=np.sqrt(m*n)+1)


def options(ctx):
    o = {}
    if ctx.flip(.7):
        o['full_matrices'] = ctx.flip()
    if ctx.flip(.3):
        o['compute_uv'] = ctx.flip()
    if ctx.flip(.3):
        o['check_finite'] = ctx.flip()
    if ctx.flip(.3):
        o['overwrite_a'] = ctx.flip()
    if ctx.flip(.4):
        o['lapack_driver'] = ctx.choice(['gesdd', 'gesvd'])
    if ctx.flip(.3):
        o['warn'] = ctx.flip()
    return o


def call(ctx, a, o):
    """options by keyword or by position, in the order of scipy"""
    names = ['full_matrices', 'compute_uv', 'overwrite_a', 'check_finite', 'lapack_driver']
    defaults = [True, True, False, True, 'gesdd']
    if 'warn' not in o and ctx.flip(.2):
        n = max([names.index(x)+1 for x in o] or [0])
        return svd_robust.svd(a, *[o.get(x, y) for x, y in zip(names[:n], defaults)])
    return svd_robust.svd(a, **o)


def decomposition(ctx):
    a = matrix(ctx)
    o = options(ctx)
    kept = np.array(a)
    plan = ctx.choice(['none', 'primary', 'primary', 'primary'])
    full, uv = o.get('full_matrices', True), o.get('compute_uv', True)
    primary = o.get('lapack_driver', 'gesdd') == 'gesdd'
    if not primary and getattr(a, 'flags', None) is not None and not a.flags.writeable:
        o.pop('overwrite_a', None)
    ctx.p(plan=plan, **o)
    with failing(PLANS[plan](ctx)) as f:
        out = call(ctx, a, o)
    single = kept.dtype in (np.float32, np.complex64)
    tol = 2e-5 if single else 1e-12
    judge(ctx, out, kept, full, uv, tol)
    s = out[1] if uv else out
    if single:
        ctx.ok(s.dtype == np.float32, 'precision', 'values of type %s' % s.dtype)
    elif isinstance(s, np.ndarray):
        ctx.ok(s.dtype == np.float64, 'precision', 'values of type %s' % s.dtype)
    if not o.get('overwrite_a'):
        ctx.ok(np.array_equal(np.asarray(a), kept), 'argument', 'the matrix was changed')
    faulty = plan == 'primary' and primary
    n = len([w for w in f.warnings if 'gesdd' in str(w.message) or 'SVD' in str(w.message)])
    ctx.ok(n == (1 if faulty and o.get('warn', True) else 0), 'warning', '%d warnings' % n)
    if faulty:
        ctx.event('decided:fault:first')
        if set(o)-{'full_matrices'}:
            ctx.event('decided:fault:options')
        if f.failed < 1:
            ctx.event('no fault injected')


def refusal(ctx):
    a = matrix(ctx)
    a = np.array(a)
    o = options(ctx)
    o.pop('check_finite', None)
    o.pop('overwrite_a', None)
    if ctx.flip(.6):
        if a.dtype.kind == 'i':
            a = a.astype(float)
        i, j = ctx.int(0, a.shape[0]-1), ctx.int(0, a.shape[1]-1)
        bad = ctx.choice([np.nan, np.inf, -np.inf])
        if np.iscomplexobj(a) and ctx.flip():
            bad = complex(0, bad)
        a[i, j] = bad
        plan = ctx.choice(['none', 'primary', 'both'])
        ctx.p(plan=plan, bad=str(bad), **o)
        with failing(PLANS[plan](ctx)):
            ctx.raises(lambda: call(ctx, a, o), 'refused', (ValueError, np.linalg.LinAlgError))
    elif ctx.flip():
        # both routines fail: no result rather than a wrong one
        ctx.p(both=True, **o)
        with failing(PLANS['both'](ctx)):
            ctx.raises(lambda: call(ctx, a, o), 'double', np.linalg.LinAlgError)
    else:
        o['lapack_driver'] = ctx.choice(['gesv', 'GESDD', '', 'gesddx'])
        ctx.p(**o)
        with failing(PLANS[ctx.choice(['none', 'primary'])](ctx)):
            ctx.raises(lambda: svd_robust.svd(a, **o), 'refused:driver', (ValueError, TypeError))


def chains(ctx):
    """every construction, canonical form and truncation of a chain with failing calls in between"""
    L, d = ch.size(ctx, 250)
    how = ctx.choice(['all', 'one', 'some'])
    at, p, key = ctx.int(0, 2*L), ctx.rng.uniform(.1, .9), ctx.int(0, 1 << 30)
    rng = np.random.default_rng(key)
    plan = {'all': lambda k, driver: driver == 'gesdd', 'one': lambda k, driver: driver == 'gesdd' and k == at,
            'some': lambda k, driver: driver == 'gesdd' and rng.random() < p}[how]
    op = ctx.choice(['left_canonicalise', 'right_canonicalise', 'mixed', 'left_from_state', 'right_from_state', 'truncate_left',
                     'truncate_right', 'truncate_mixed', 'gate'])
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), ctx.choice(dn.KINDS) if not op.startswith('trunc') else 'generic')
    psi = dn.dense(data)
    if np.linalg.norm(psi) < 1e-9:
        return
    ctx.p(L=L, d=d, how=how, op=op, at=at)
    m = fMPS([A.copy() for A in data])
    oc = ctx.int(0, L-1)
    D = ctx.int(1, 3)
    left, right = range(0), range(0)
    if op == 'gate':
        n = ctx.int(0, L-2)
        U = dn.runitary(ctx.rng, d*d)
        which = ctx.choice('lr')
        A, B = m.data[n], m.data[n+1]
        D = d*max(A.shape[1:]+B.shape[1:])
        with failing(plan) as f:
            A2, B2 = apply_unitary([A, B], U, which, D)
        got = np.einsum('aij,bjk->abik', A2, B2)
        want = np.einsum('abcd,cij,djk->abik', U.reshape(d, d, d, d), A, B)
        ctx.close(got/np.linalg.norm(got), want/np.linalg.norm(want), 'chain:gate', tol=1e-9)
        iso = np.einsum('aij,aik->jk', A2.conj(), A2) if which == 'l' else np.einsum('aij,akj->ik', B2, B2.conj())
        ctx.close(iso, np.eye(len(iso)), 'chain:isometry', tol=1e-9)
    else:
        with failing(plan) as f:
            if op == 'left_from_state':
                m = fMPS().left_from_state(psi.reshape([d]*L)); left = range(L-1)
            elif op == 'right_from_state':
                m = fMPS().right_from_state(psi.reshape([d]*L)); right = range(1, L)
            elif op == 'left_canonicalise':
                m.left_canonicalise(); left = range(L)
            elif op == 'right_canonicalise':
                m.right_canonicalise(); right = range(L)
            elif op == 'mixed':
                m.mixed_canonicalise(oc); left, right = range(oc), range(oc+1, L)
            elif op == 'truncate_left':
                m.left_canonicalise(D)
            elif op == 'truncate_right':
                m.right_canonicalise(D)
            else:
                m.mixed_canonicalise(oc, D); left, right = range(oc), range(oc+1, L)
        got = dn.dense(m.data)
        if op.startswith('trunc'):
            # as good as the same truncation without faults
            q = fMPS([A.copy() for A in data])
            {'truncate_left': lambda: q.left_canonicalise(D), 'truncate_right': lambda: q.right_canonicalise(D),
             'truncate_mixed': lambda: q.mixed_canonicalise(oc, D)}[op]()
            ctx.close(dn.same_ray(got, dn.dense(q.data)), 0, 'chain:truncation', tol=1e-9)
            ctx.ok(max(max(x.shape[1:]) for x in m.data) <= D, 'chain:truncation', 'bond dimension')
        else:
            ctx.close(dn.same_ray(got, psi), 0, 'chain:ray', tol=1e-9)
        # chains may hold directions the state does not occupy: isometries are judged where it lives (C04 decides the rest)
        if op in ('left_from_state', 'right_from_state') or op == 'mixed':
            rs, ls = ch.right_envs(m.data), ch.left_envs(m.data)
            for i in left:
                x = m.data[i]
                E = np.einsum('pab,pac->bc', x.conj(), x)-np.eye(x.shape[2])
                r = rs[i+1]/max(np.trace(rs[i+1]).real, 1e-300)
                ctx.close(np.einsum('bc,cb->', E, (r+r.conj().T)/2), 0, 'chain:isometry', tol=1e-9)
            for i in right:
                x = m.data[i]
                E = np.einsum('pab,pcb->ac', x, x.conj())-np.eye(x.shape[1])
                l = ls[i]/max(np.trace(ls[i]).real, 1e-300)
                ctx.close(np.einsum('bc,cb->', E, (l+l.conj().T)/2), 0, 'chain:isometry', tol=1e-9)
        if op in ('left_canonicalise', 'right_canonicalise'):
            W = ch.weights(psi, L, d)
            for b in range(1, L):
                ch.same_spectrum(ctx, np.diag(m.Ls[b]), W[b], 'chain:schmidt', tol=1e-8)
    if f.failed:
        ctx.event('decided:fault:later')
    ctx.event('faults injected', f.failed)
    ctx.event('solver calls', f.calls)


SCENARIOS = [('decomposition', decomposition), ('decomposition', decomposition), ('refusal', refusal), ('chains', chains)]
