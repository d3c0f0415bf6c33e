"""C20: environment transfer along the chain equals explicit contraction; compiled kernel."""
import json
import os
import subprocess
import sys
import sysconfig
import numpy as np
from vlib import core, dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS
import xmps.fMPS as F

PID = 'C20'
QUICK, THOROUGH = 15000, 300000
RULE = ('One case draws a chain (every bond pattern and kind), an operator on an auxiliary bond with up to three further '
        'legs, and a range of sites, and compares every intermediate result with the einsum of the tensors in between. The '
        'compiled kernel is built from left_transfer.pyx with AddressSanitizer and UBSan and driven in a child process.')
MUST = ['left', 'left_last', 'right', 'right_last', 'envs', 'adjoint', 'split', 'module', 'start', 'long']
ASSUMPTIONS = ['the kernel is generated with the installed Cython and built with gcc; numpy itself is not instrumented']


def step_left(op, a):
    return np.einsum('pxa,pyb,ab...->xy...', a, np.conj(a), op)


def step_right(op, a):
    return np.einsum('...ab,pax,pby->...xy', op, a, np.conj(a))


def sized(ctx, data):
    """operators may grow or decay along the way"""
    if ctx.flip(.7):
        return data
    f = ctx.choice([-2, -1, 0, 1])
    return [x*10.**ctx.rng.uniform(f, f+1) for x in data]


def steps(ctx, R, m, want, mech, one):
    """every result follows from the one before, to the precision of that one"""
    for n, k, site in want:
        got, prev, a = np.asarray(R(n)), np.asarray(R(k)), m[site]
        s = np.linalg.norm(a)**2*np.linalg.norm(prev)
        if s > 1e-290:
            ctx.close(got/s, one(prev, a)/s, mech, tol=1e-11, scale=1.)


def chain(ctx, far=False):
    if far:                             # environments along chains beyond dense vectors
        L, d, kind = ctx.int(12, 40), ctx.choice([2, 2, 3]), ctx.choice(['generic', 'uneven', 'product'])
        return fMPS(sized(ctx, lg.random(ctx.rng, L, d, ctx.int(1, 4), kind))), L, d, kind
    L, d = ctx.int(2, 9), ctx.choice([2, 2, 3, 4])
    kind = ctx.choice(['generic', 'uniform', 'real', 'product', 'overcomplete', 'ghz', 'dimers', 'padded'])
    m = fMPS(sized(ctx, dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind)))
    return m, L, d, kind


def extra_legs(ctx):
    return [ctx.int(1, 3) for _ in range(ctx.choice([0, 0, 1, 2, 3]))]


def left(ctx, far=False):
    m, L, d, kind = chain(ctx, far)
    i = ctx.int(0, L)
    j = ctx.int(0, i)
    D = m[i].shape[1] if i < L else 1
    ex = extra_legs(ctx)
    op = dn.crandn(ctx.rng, D, D, *ex)
    ctx.p(L=L, d=d, kind=kind, j=j, i=i, ex=ex, shapes=str(m.structure()))
    keep = [x.copy() for x in m.data]
    want = {i: op.copy()}
    for n in range(i-1, j-1, -1):
        want[n] = step_left(want[n+1], m[n])
    R = m.left_transfer(op, j, i)
    s = max(1., max(np.max(np.abs(w)) for w in want.values()))
    for n in range(j, i+1):
        ctx.ok(np.shape(R(n)) == want[n].shape, 'left', 'shape %s' % (np.shape(R(n)),))
        ctx.close(R(n), want[n], 'left', scale=s)
    steps(ctx, R, m, [(n, n+1, n) for n in range(j, i)], 'left', step_left)
    ctx.close(m.left_transfer(op, j, i, ret_all=False), want[j], 'left_last', scale=s)
    Ls = F.lt_(op, m.data, j, i) if hasattr(F, 'lt_') else [R(n) for n in range(j, i+1)]
    ctx.ok(len(Ls) == i-j+1, 'module', '%d results' % len(Ls))
    for n in range(j, i+1):
        ctx.close(Ls[n-j], want[n], 'module', scale=s)
    ctx.ok(np.array_equal(op, want[i]), 'start', 'the operator changed')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'start', 'the chain changed')
    # splitting the range anywhere
    k = ctx.int(j, i)
    ctx.close(m.left_transfer(m.left_transfer(op, k, i, False), j, k, False), want[j], 'split', scale=s)


def right(ctx, far=False):
    m, L, d, kind = chain(ctx, far)
    i = ctx.int(-1, L-1)
    j = ctx.int(i, L-1)
    D = m[i].shape[2] if i >= 0 else 1
    ex = extra_legs(ctx)
    op = dn.crandn(ctx.rng, *ex, D, D)
    ctx.p(L=L, d=d, kind=kind, j=j, i=i, ex=ex, shapes=str(m.structure()))
    keep = [x.copy() for x in m.data]
    want = {i+1: op.copy()}
    for n in range(i+1, j+1):
        want[n+1] = step_right(want[n], m[n])
    R = m.right_transfer(op, i, j)
    s = max(1., max(np.max(np.abs(w)) for w in want.values()))
    for n in range(i+1, j+2):
        ctx.ok(np.shape(R(n)) == want[n].shape, 'right', 'shape %s' % (np.shape(R(n)),))
        ctx.close(R(n), want[n], 'right', scale=s)
    steps(ctx, R, m, [(n, n-1, n-1) for n in range(i+2, j+2)], 'right', step_right)
    ctx.close(m.right_transfer(op, i, j, ret_all=False), want[j+1], 'right_last', scale=s)
    ctx.ok(np.array_equal(op, want[i+1]), 'start', 'the operator changed')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'start', 'the chain changed')
    k = ctx.int(i, j)
    ctx.close(m.right_transfer(m.right_transfer(op, i, k, False), k, j, False), want[j+1], 'split', scale=s)
    # pairing with a transfer from the other side does not depend on where the two meet
    Dr = m[j].shape[2] if j >= 0 else 1
    y = dn.crandn(ctx.rng, Dr, Dr)
    Y = m.left_transfer(y, i+1, j+1)
    vals = [np.einsum('...ab,ab->...', R(n), Y(n)) for n in range(i+1, j+2)]
    for v in vals[1:]:
        ctx.close(v, vals[0], 'adjoint', tol=1e-9, scale=max(1., s*np.max(np.abs(Y(i+1)))*100))
    if len(vals) == 1:
        ctx.close(vals[0], np.einsum('...ab,ab->...', op, y), 'adjoint')


def envs(ctx, far=False):
    m, L, d, kind = chain(ctx, far)
    how = ctx.choice(['left_canonicalise', 'right_canonicalise'])
    D = ctx.choice([None, None, 1, 2, 3])
    if kind == 'padded':
        D = ctx.choice([1, 2])
    getattr(m, how)(D)
    store = ctx.flip()
    keep = [x.copy() for x in m.data]
    ctx.p(L=L, d=d, kind=kind, how=how, D=D, store=store, u=int(ctx.rng.integers(1 << 30)))
    l, r = m.get_envs(store)
    want_l, want_r = ch.left_envs(m.data), ch.right_envs(m.data)
    tol = 1e-6 if kind in ('padded',) else 1e-8
    for n in range(-1, L):
        a, b = want_l[n+1], want_r[n+1]
        for got, w in ((l(n), a), (r(n), b)):
            ctx.ok(got.shape == w.shape, 'envs', 'shape %s instead of %s' % (got.shape, w.shape))
            # environments of a canonical chain are real diagonal
            ctx.close(got, w, 'envs', tol=tol)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'start', 'the chain changed')
    if store:
        for n in range(-1, L):
            ctx.ok(np.array_equal(m.l(n), l(n)) and np.array_equal(m.r(n), r(n)), 'envs', 'stored environments differ')
    # environments asked for before an edit do not follow it, those asked for afterwards do
    old = [np.array(l(n)) for n in range(-1, L)]
    m.right_canonicalise() if how[0] == 'l' else m.left_canonicalise()
    ctx.ok(all(np.array_equal(l(n), o) for n, o in zip(range(-1, L), old)), 'envs', 'an environment changed after it was computed')
    l2, r2 = m.get_envs()
    want_l, want_r = ch.left_envs(m.data), ch.right_envs(m.data)
    for n in range(-1, L):
        ctx.close(l2(n), want_l[n+1], 'envs', tol=tol)
        ctx.close(r2(n), want_r[n+1], 'envs', tol=tol)


def long(ctx):
    ctx.event('decided:long')
    ctx.choice([left, right, envs])(ctx, True)


SCENARIOS = [('left', left), ('right', right), ('envs', envs)]*4+[('long', long)]

DRIVER = r'''
import json, sys
import numpy as np
sys.path.insert(0, %(here)r)
import left_transfer as k
rng = np.random.default_rng(%(seed)d)
bad, n, trans = [], 0, 0
for case in range(%(n)d):
    L, d = int(rng.integers(1, 8)), int(rng.integers(1, 5))
    b = rng.integers(1, 5, L+1)
    dt = [np.complex128, np.float64, np.complex64, np.float32][int(rng.integers(4))]
    As = [(rng.standard_normal((d, b[i], b[i+1]))+1j*rng.standard_normal((d, b[i], b[i+1]))) for i in range(L)]
    As = [(x if np.issubdtype(dt, np.complexfloating) else x.real).astype(dt) for x in As]
    if rng.random() < .3:
        As = [np.asfortranarray(x) for x in As]
    if rng.random() < .2:
        As = [x[::-1] for x in As]
    i = int(rng.integers(0, L+1)); j = int(rng.integers(0, i+1))
    ex = rng.integers(1, 4, int(rng.integers(0, 4)))
    op = (rng.standard_normal((b[i], b[i], *ex))).astype(dt)
    Ls = k.lt(op, As, j, i)
    n += 1
    want = [op]
    for m in range(i-1, j-1, -1):
        want.append(np.einsum('pxa,pyb,ab...->xy...', As[m].astype(complex), As[m].conj().astype(complex), want[-1]))
        trans += 1
    want = want[::-1]
    tol = 1e-3 if dt in (np.complex64, np.float32) else 1e-9
    if len(Ls) != len(want):
        bad.append([case, 'length']); continue
    for a, w in zip(Ls, want):
        if a.shape != w.shape or np.max(np.abs(a-w)) > tol*max(1, np.max(np.abs(w))):
            bad.append([case, str(a.shape)]); break
    del Ls, want
for x in (None, 1.0):
    try:
        k.lt(x, As, 0, 1); bad.append(['accepted', repr(x)])
    except Exception:
        pass
print(json.dumps({'cases': n, 'transfers': trans, 'bad': bad[:5]}))
'''


def kernel(ctx):
    """the compiled kernel under AddressSanitizer and UBSan"""
    import numpy
    here = os.getcwd()
    src = os.path.join(core.REPO, 'xmps', 'left_transfer.pyx')
    with open(src) as f:
        text = f.read()
    with open('left_transfer.pyx', 'w') as f:
        f.write(text)
    r = subprocess.run(['/opt/venv/bin/cython', '-3', 'left_transfer.pyx', '-o', 'left_transfer_gen.c'], capture_output=True,
                       text=True, timeout=200)
    if not ctx.ok(r.returncode == 0, 'kernel_build', r.stdout[-400:]+r.stderr[-400:]):
        return
    cc = ['gcc', '-shared', '-fPIC', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-w',
          '-I'+sysconfig.get_paths()['include'], '-I'+numpy.get_include(), 'left_transfer_gen.c', '-o', 'left_transfer.so']
    r = subprocess.run(cc, capture_output=True, text=True, timeout=300)
    if not ctx.ok(r.returncode == 0, 'kernel_build', r.stderr[-400:]):
        return
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    n = 20000 if ctx.thorough else 2000
    env = dict(os.environ, LD_PRELOAD=asan, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0', PYTHONMALLOC='malloc')
    r = subprocess.run([sys.executable, '-c', DRIVER % {'here': here, 'seed': ctx.seed, 'n': n}], capture_output=True, text=True,
                       timeout=600, env=env)
    ctx.ok(r.returncode == 0 and 'Sanitizer' not in r.stderr and 'runtime error' not in r.stderr, 'kernel_sanitizer',
           'exit %d: %s' % (r.returncode, r.stderr[-1500:]))
    if r.returncode == 0:
        out = json.loads(r.stdout.strip().splitlines()[-1])
        ctx.ok(not out['bad'], 'kernel_value', str(out['bad']))
        KERNEL.update(sanitized_kernel_cases=out['cases'], sanitized_kernel_transfers=out['transfers'])


KERNEL = {}


def extra(tier, seed):
    viol, cov = core.one_off(PID, seed, tier, kernel)
    cov.update(KERNEL)
    return viol, cov
