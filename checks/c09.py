"""C09: applying operators to chains matches dense application."""
import numpy as np
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS

PID = 'C09'
QUICK, THOROUGH = 40000, 200000
RULE = ('Circuits of 1-6 operations (one-site operators, unitary and non-unitary two-site gates on ordered, reversed, adjacent '
        'and distant pairs, both directions, with and without bond limits, isometries, post-selection) on chains of length '
        '2-7 with d = 2, 3, 4, followed step by step by a dense simulator.')
MUST = ['one_site', 'two_site', 'two_site_limit', 'truncated', 'limit', 'limit:swaps', 'direction', 'isometry', 'post_select', 'one_site_pair',
        'circuit', 'wellformed', 'untouched', 'returns', 'long']


def gate(ctx, n, unitary=None):
    u = ctx.flip(.6) if unitary is None else unitary
    return dn.runitary(ctx.rng, n) if u else dn.rop(ctx.rng, n)


def start(ctx, cap=256, Lmin=2):
    L, d = ch.size(ctx, cap, Lmin=Lmin, Lmax=7)
    kind = ctx.choice(['generic', 'uniform', 'real', 'product', 'overcomplete', 'scaled', 'ghz', 'dimers', 'padded', 'steep'])
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(2, 4), 'ghz') if kind == 'steep' else dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind)
    if kind == 'steep':
        data[0] = data[0]*10.**ctx.rng.uniform(-5, 0, data[0].shape[2])  # Schmidt coefficients over orders of magnitude
    m = fMPS(data)
    form = ctx.choice([None, None, 'left_canonicalise', 'right_canonicalise', 'mixed_orthogonalise'])
    if form == 'mixed_orthogonalise':
        m.mixed_orthogonalise(ctx.int(0, L-1))
    elif form:
        getattr(m, form)()
    return L, d, m, dn.dense(m.data), (kind, form)


def pair(ctx, L):
    i, j = [int(x) for x in ctx.rng.permutation(L)[:2]]
    if ctx.flip(.3):
        i = ctx.int(0, L-2)
        i, j = (i, i+1) if ctx.flip() else (i+1, i)
    return i, j


def sane(ctx, m, d, L):
    bad = dn.well_formed(m.data, d)
    return ctx.ok(bad is None and m.L == L and len(m.data) == L, 'wellformed', bad)


def vec(ctx, got, want, mech, **kw):
    ctx.close(got, want, mech, tol=1e-9, scale=max(1e-200, float(np.max(np.abs(want)))), **kw)


def one(ctx):
    L, d, m, psi, kind = start(ctx)
    s, o = ctx.int(0, L-1), dn.rop(ctx.rng, d)
    ctx.p(L=L, d=d, kind=kind, site=s)
    r = m.apply((o, s))
    if sane(ctx, r, d, L):
        vec(ctx, dn.dense(r.data), dn.apply_op(o, [s], psi, L, d), 'one_site', site=s)
    vec(ctx, dn.dense(m.data), psi, 'untouched')
    # a one-site operator handed to the two-site interface acts on the site named by `which`
    i, j = pair(ctx, L)
    w = ctx.choice(['l', 'r'])
    r = m.apply_two_site((o, (i, j)), w)
    if sane(ctx, r, d, L):
        vec(ctx, dn.dense(r.data), dn.apply_op(o, [i if w == 'l' else j], psi, L, d), 'one_site_pair', sites=(i, j), which=w)
    r = m.apply_two_site((o, (i,)), w)
    vec(ctx, dn.dense(r.data), dn.apply_op(o, [i], psi, L, d), 'one_site_pair')


def two(ctx):
    L, d, m, psi, kind = start(ctx)
    (i, j), w = pair(ctx, L), ctx.choice(['l', 'r'])
    U = gate(ctx, d*d)
    want = dn.apply_op(U, [i, j], psi, L, d)
    ctx.p(L=L, d=d, kind=kind, sites=(i, j), which=w)
    U0 = U.copy()
    r = m.apply_two_site((U, (i, j)), w)
    ctx.ok(r is m, 'returns')
    ctx.ok(np.array_equal(U, U0), 'untouched')
    if not sane(ctx, m, d, L):
        return
    vec(ctx, dn.dense(m.data), want, 'two_site', sites=(i, j), which=w)
    if abs(i-j) == 1:
        a = min(i, j)
        if w == 'l':
            ch.left_iso(ctx, m.data[a], 'direction', sites=(i, j))
        else:
            ch.right_iso(ctx, m.data[a+1], 'direction', sites=(i, j))


def two_limit(ctx):
    """with a bond limit: exact up to a scalar when it is large enough, and the best local cut when it is not"""
    L, d, m, psi, kind = start(ctx, cap=128)
    (i, j), w = pair(ctx, L), ctx.choice(['l', 'r'])
    U = gate(ctx, d*d)
    want = dn.apply_op(U, [i, j], psi, L, d)
    if np.linalg.norm(want) < 1e-6*np.linalg.norm(psi):
        return
    swaps = ctx.flip(.3)
    big = max(max(x.shape[1:]) for x in m.data)*d**abs(i-j)*d
    a, b = min(i, j), max(i, j)
    enough = d*m.data[a].shape[1] # the bond the gate acts across never needs more; the swaps may
    D = ctx.choice([big, enough, ctx.int(1, 6)])
    ctx.p(L=L, d=d, kind=kind, sites=(i, j), which=w, D=D, truncate_swaps=swaps)
    r = m.apply_two_site((U, (i, j)), w, D, truncate_swaps=swaps)
    ctx.ok(r is m, 'returns')
    if not sane(ctx, m, d, L):
        return
    got = dn.dense(m.data)
    if D == big or (D >= enough and not swaps):
        ctx.close(dn.same_ray(got, want), 0, 'two_site_limit', tol=1e-9)
    ctx.ok(m.data[a].shape[2] <= D, 'limit', 'bond %d over %d' % (m.data[a].shape[2], D))
    if swaps:
        for x in range(a, b):
            ctx.ok(m.data[x].shape[2] <= D, 'limit:swaps', 'bond %d over %d' % (m.data[x].shape[2], D))
    if abs(i-j) == 1:
        X, Y = m.data[a], m.data[a+1]
        if w == 'l':
            ch.left_iso(ctx, X, 'direction')
            ctx.close(np.linalg.norm(Y), 1, 'direction', tol=1e-9)
        else:
            ch.right_iso(ctx, Y, 'direction')
            ctx.close(np.linalg.norm(X), 1, 'direction', tol=1e-9)


def truncated(ctx):
    """cutting an adjacent gate at the centre of a chain keeps exactly the leading Schmidt weights"""
    L, d, m, psi, kind = start(ctx, cap=128)
    a = ctx.int(0, L-2)
    m.mixed_orthogonalise(a)
    psi = dn.dense(m.data)
    rev, w = ctx.flip(), ctx.choice(['l', 'r'])
    sites = (a+1, a) if rev else (a, a+1)
    U = gate(ctx, d*d)
    want = dn.apply_op(U, sites, psi, L, d)
    s = dn.schmidt(want, a+1, L, d)**2
    D = ctx.int(1, max(1, int(np.sum(s > 1e-14*s[0]))))
    ctx.p(L=L, d=d, kind=kind, sites=sites, which=w, D=D)
    m.apply_two_site((U, sites), w, D)
    if not sane(ctx, m, d, L):
        return
    got = dn.dense(m.data)
    ctx.ok(m.data[a].shape[2] <= D, 'limit', 'bond %d over %d' % (m.data[a].shape[2], D))
    f = abs(np.vdot(got, want))**2/np.vdot(got, got).real/np.vdot(want, want).real
    ctx.close(f, np.sum(s[:D])/np.sum(s), 'truncated', tol=1e-9)
    ctx.close(np.linalg.norm(got), 1, 'truncated', tol=1e-9)


def isometry(ctx):
    """an operator from two neighbouring sites onto one, put on the stated site; the other keeps its place"""
    L, d, m, psi, kind = start(ctx, cap=128)
    i = ctx.int(0, L-2)
    lr = ctx.int(0, 1)
    V = dn.crandn(ctx.rng, d, d*d)
    ctx.p(L=L, d=d, kind=kind, site=i, lr=lr)
    tens = [x.copy() for x in m.data]
    rev = ctx.flip(.3)
    m.apply_two_site_isometry((V, (i+1, i) if rev else (i, i+1)), lr)
    # the first factor acts on the first site listed
    merged = np.einsum('prq,qab,rbc->pac' if rev else 'pqr,qab,rbc->pac', V.reshape(d, d, d), tens[i], tens[i+1])
    k = (i, i+1)[lr]
    vec(ctx, m.data[k], merged, 'isometry', lr=lr)
    for x in range(L):
        if x != k:
            ctx.ok(m.data[x].shape == tens[x].shape and np.array_equal(m.data[x], tens[x]), 'untouched', 'site %d' % x)


def select(ctx):
    L, d, m, psi, kind = start(ctx, Lmin=2)
    n = ctx.int(1, L-1)
    ctx.p(L=L, d=d, kind=kind, n=n)
    for _ in range(n):
        s, v = ctx.int(0, L-1), ctx.int(0, d-1)
        psi = np.take(psi.reshape([d]*L), v, axis=s).reshape(-1)
        m = m.post_select(s, v)
        L -= 1
        ctx.note(s, v)
        if not sane(ctx, m, d, L):
            return
        ctx.close(dn.dense(m.data), psi, 'post_select', tol=1e-10, scale=max(1e-200, float(np.max(np.abs(psi)))))
        if np.linalg.norm(psi) == 0:
            return


def circuit(ctx):
    L, d, m, psi, kind = start(ctx, cap=128)
    todo = []
    psi = psi/np.linalg.norm(psi)
    for _ in range(ctx.int(2, 6)):
        op = ctx.choice(['one', 'two', 'two', 'canonical', 'limit'])
        if max(max(x.shape[1:]) for x in m.data) > 24:
            op = 'canonical'
        if op == 'one':
            s, o = ctx.int(0, L-1), dn.rop(ctx.rng, d)
            m, psi, sites = m.apply((o, s)), dn.apply_op(o, [s], psi, L, d), (s,)
        elif op == 'canonical':
            sites = ctx.choice(['left_canonicalise', 'right_canonicalise'])
            getattr(m, sites)()
        else:
            sites, U, w = pair(ctx, L), gate(ctx, d*d), ctx.choice(['l', 'r'])
            D = None if op == 'two' else 10**6
            m, psi = m.apply_two_site((U, sites), w, D), dn.apply_op(U, sites, psi, L, d)
        todo.append((op, sites))
        n = np.linalg.norm(psi)
        if n < 1e-4:
            break
        psi = psi/n
        if not sane(ctx, m, d, L):
            return
        ctx.close(dn.same_ray(dn.dense(m.data), psi), 0, 'circuit', tol=1e-9, step=len(todo), op=op, sites=sites)
        if ctx.violations:
            break
    ctx.p(L=L, d=d, kind=kind, circuit=todo)


def long(ctx):
    """circuits on chains beyond dense vectors, followed by an exact simulator of tensors"""
    a, L, d = lg.draw(ctx, most=4, kinds=('generic', 'product', 'uneven'), Lmax=24)
    m = fMPS([x.copy() for x in a])
    for _ in range(ctx.int(1, 3)):
        if max(max(x.shape[1:]) for x in m.data) > 24:
            break
        if ctx.flip(.3):
            s, o = ctx.int(0, L-1), dn.rop(ctx.rng, d)
            m = m.apply((o, s))
            a = [np.einsum('pq,qab->pab', o, x) if i == s else x for i, x in enumerate(a)]
        else:
            i = ctx.int(0, L-2)
            j = min(L-1, i+ctx.choice([1, 1, 2, 3]))
            if ctx.flip():
                i, j = j, i
            o, which = gate(ctx, d*d), ctx.choice(['l', 'r'])
            ctx.note(i, j, which)
            m = m.apply_two_site((o, (i, j)), which)
            a = lg.act_far(a, o, i, j)
        if not sane(ctx, m, d, L):
            return
        ctx.event('decided:long')
        ctx.close(lg.lognorm(m.data)-lg.lognorm(a), 0, 'long', tol=1e-8)
        ctx.close(lg.overlap(m.data, a), 1, 'long', tol=1e-8)
        lg.same(ctx, m.data, a, 'long')


SCENARIOS = [('two', two), ('one', one), ('two_limit', two_limit), ('truncated', truncated), ('isometry', isometry),
             ('select', select), ('circuit', circuit)]*2+[('long', long)]
