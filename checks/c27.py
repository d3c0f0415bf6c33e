"""C27: doubled (thermofield) states represent the two copies exactly."""
import numpy as np
from vlib import dense as dn, chain as ch, tangent as tg
from xmps.fMPS import fMPS, fTFD

PID = 'C27'
QUICK, THOROUGH = 12000, 150000
RULE = ('Doubled chains of 1-4 sites of local dimension 2-3 made from chains (generic, real, decaying, product, padded) or from '
        'arbitrary and from symmetrised tensors of square dimensions; measured, canonicalised, added, exchanged and evolved in random order '
        'against the dense vector on twice the sites.')
MUST = ['doubled', 'E', 'Es', 'overlap', 'swap', 'symmetrise', 'symmetric', 'local', 'approx', 'add', 'itemwise', 'derivative', 'evolution',
        'kind', 'untouched', 'refused', 'random', 'refilled', 'projectors', 'null', 'copy', 'ray']


def interleave(a, b, L, d):
    """the vector of a⊗b with the two copies of every site next to each other"""
    t = np.multiply.outer(a.reshape([d]*L), b.reshape([d]*L))
    return t.transpose([x for i in range(L) for x in (i, L+i)]).reshape(-1)


def exchanged(v, L, d):
    return v.reshape([d]*(2*L)).transpose([x for i in range(L) for x in (2*i+1, 2*i)]).reshape(-1)


def chain(ctx, cap=60, Lmin=2, Dmax=3, kinds=dn.KINDS):
    while True:
        L, d = ctx.int(Lmin, 4), ctx.choice([2, 2, 3])
        if d**L <= cap:
            break
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, Dmax), ctx.choice(kinds))
    v = dn.dense(data)
    return L, d, data, v


def expect(op, copy, site, v, L, d):
    """normalised expectation value on one copy of one site"""
    return np.vdot(v, dn.apply_op(op, [2*site+copy], v, 2*L, d))/np.vdot(v, v)


def arbitrary(ctx, L, d):
    """tensors of square dimensions"""
    b = [1]+[ctx.int(1, 2)**2 for _ in range(L-1)]+[1]
    return [dn.crandn(ctx.rng, d*d, b[i], b[i+1])/np.sqrt(d*d*b[i]) for i in range(L)]


def state(ctx):
    """a doubled state and its vector"""
    kind = ctx.choice(['doubled', 'doubled', 'arbitrary', 'symmetric'])
    L, d, data, v = chain(ctx)
    ctx.p(L=L, d=d, kind=kind)
    if kind == 'doubled':
        m = fMPS([A.copy() for A in data])
        T = fTFD()
        if ctx.flip(.4):                # an object that held another doubled state, in some canonical form
            T.from_fMPS(fMPS(chain(ctx, kinds=['generic', 'product'])[2]))
            ctx.choice([T.left_canonicalise, T.right_canonicalise, lambda: T.mixed_canonicalise(ctx.int(0, T.L-1)),
                        lambda: T.mixed_orthogonalise(ctx.int(0, T.L-1))])()
            ctx.event('decided:refilled')
        T.from_fMPS(m)
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(m.data, data)), 'untouched', 'doubling changed the chain')
        ctx.ok((T.L, T.d, T.D) == (L, d*d, m.D**2), 'kind', 'L, d, D = %s' % ((T.L, T.d, T.D),))
        w = interleave(v, v, L, d)
        ctx.close(dn.dense(T.data), w, 'doubled', tol=1e-11, scale=max(1e-12, np.linalg.norm(w)))
        return T, w, L, d, kind
    t = arbitrary(ctx, L, d)
    T = fTFD([A.copy() for A in t])
    if kind == 'symmetric':
        S = T.symmetrise()
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(T.data, t)), 'untouched', 'symmetrise changed its operand')
        T = S
        ctx.ok(isinstance(T, fTFD) and T == T.symmetry(), 'symmetrise', 'not a fixed point of the exchange')
        w = dn.dense(T.data)
        ctx.close(exchanged(w, L, d), w, 'symmetrise', tol=1e-11, scale=max(1e-12, np.linalg.norm(w)))
        # tensor by tensor: the mean with its exchange, twice
        want = [a+swap(a) for a in t]
        ctx.ok(all(np.allclose(a, b, atol=1e-12) for a, b in zip(T.data, want)), 'symmetrise', 'tensors')
    return T, dn.dense(T.data), L, d, kind


def swap(a):
    n = [int(round(np.sqrt(x))) for x in a.shape]
    return a.reshape(n[0], n[0], n[1], n[1], n[2], n[2]).transpose(1, 0, 3, 2, 5, 4).reshape(a.shape)


def measure(ctx):
    T, w, L, d, kind = state(ctx)
    n0 = np.linalg.norm(w)
    if n0 < 1e-9:
        return
    X = T.symmetry()
    ctx.close(dn.dense(X.data), exchanged(w, L, d), 'swap', tol=1e-11, scale=n0)
    ctx.ok(isinstance(X, fTFD) and X.symmetry() == T, 'swap', 'twice is not the identity')
    if kind != 'arbitrary':
        ctx.ok(T == X, 'symmetric', 'not equal to its exchange')
    for _ in range(ctx.int(1, 4)):
        what = ctx.choice(['E', 'E', 'Es', 'left', 'right', 'mixed', 'copy'])
        site, lr = ctx.int(0, L-1), ctx.int(0, 1)
        ctx.note(what, site, lr)
        if what == 'E':
            op = dn.rop(ctx.rng, d)
            default = lr == 0 and ctx.flip(.3)
            got = T.E(op, site) if default else T.E(op, site, lr) if ctx.flip() else T.E(op, site, lr=lr)
            ctx.close(got, expect(op, lr, site, w, L, d).real, 'E', tol=1e-8, scale=np.linalg.norm(op, 2))
        elif what == 'Es':
            ops = [dn.rop(ctx.rng, d) for _ in range(ctx.int(1, 3))]
            got = T.Es(ops, site, lr=lr)
            ctx.close(np.real(got), [expect(op, lr, site, w, L, d).real for op in ops], 'Es', tol=1e-8,
                      scale=max(np.linalg.norm(op, 2) for op in ops))
        elif what == 'left':
            T = T.left_canonicalise()
        elif what == 'right':
            T = T.right_canonicalise()
        elif what == 'mixed':
            T = T.mixed_canonicalise(site)
        elif what == 'copy':
            C = T.copy()
            ctx.ok(C == T, 'copy')
            C.data[site] = C.data[site]+1
            T = T.copy()
        ctx.ok(isinstance(T, fTFD), 'kind', '%s made it a %s' % (what, type(T).__name__))
        ctx.close(dn.same_ray(dn.dense(T.data), w), 0, 'ray', tol=1e-9)


def overlaps(ctx):
    L, d, data, v = chain(ctx)
    ctx.p(L=L, d=d)
    other = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 3), ctx.choice(dn.KINDS))
    u = dn.dense(other)
    a, b = fTFD().from_fMPS(fMPS([A.copy() for A in data])), fTFD().from_fMPS(fMPS([A.copy() for A in other]))
    sc = max(1e-12, (np.linalg.norm(u)*np.linalg.norm(v))**2)
    if a.data[0].shape[0] == b.data[0].shape[0]:
        ctx.close(a.overlap(b), np.vdot(u, v)**2, 'overlap', tol=1e-9, scale=sc)
    s = a.add(b)
    ctx.ok(isinstance(s, fTFD), 'kind', 'the sum is a %s' % type(s).__name__)
    ctx.close(dn.dense(s.data), interleave(v, v, L, d)+interleave(u, u, L, d), 'add', tol=1e-10, scale=np.linalg.norm(v)**2+np.linalg.norm(u)**2)
    # item by item
    t1, t2 = arbitrary(ctx, L, d), None
    t2 = [dn.crandn(ctx.rng, *x.shape) for x in t1]
    A, B = fTFD([x.copy() for x in t1]), fTFD([x.copy() for x in t2])
    z = complex(ctx.rng.normal(), ctx.rng.normal())
    for got, want in ((A+B, [x+y for x, y in zip(t1, t2)]), (A-B, [x-y for x, y in zip(t1, t2)]), (A*z, [x*z for x in t1]),
                      (z*A, [x*z for x in t1]), (A/z, [x/z for x in t1])):
        ctx.ok(isinstance(got, fTFD) and len(got.data) == L and
               all(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12) for x, y in zip(got.data, want)), 'itemwise')
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(A.data+B.data, t1+t2)), 'untouched', 'arithmetic changed its operands')


def locally(ctx):
    """projections on the local states of product chains"""
    T, w, L, d, kind = state(ctx)
    n0 = np.linalg.norm(w)
    if n0 < 1e-9:
        return
    vs = [dn.rvec(ctx.rng, d) for _ in range(L)]
    P = fMPS([x.reshape(d, 1, 1)*ctx.rng.uniform(.3, 3) for x in vs])

    def want(sites, double):
        u = w/n0
        for i in sites:
            rho = np.outer(vs[i], vs[i].conj())
            u = dn.apply_op(rho, [2*i+1], u, 2*L, d)
            if double:
                u = dn.apply_op(rho, [2*i], u, 2*L, d)
        return np.vdot(w/n0, u).real
    for _ in range(2):
        a = ctx.int(0, L-1)
        sites = list(range(a, ctx.int(a, L-1)+1))
        double = ctx.flip()
        ctx.p(sites=sites, double=double)
        got = T.local_overlap(P, sites, double=True) if double else T.local_overlap(P, sites)
        ctx.close(got, want(sites, double), 'local', tol=1e-8)
    k = ctx.int(1, L)
    parts = [list(range(i, i+k)) for i in range(L-k+1)]
    ctx.close(T.approx_overlap(P, parts, double=double), np.mean([want(x, double) for x in parts]), 'approx', tol=1e-8)
    if ctx.flip(.2):
        other = fMPS([dn.crandn(ctx.rng, d, 1, 2), dn.crandn(ctx.rng, d, 2, 1)]) if L == 2 else None
        bad = ctx.choice([T, other] if other is not None else [T])
        ctx.raises(lambda: T.local_overlap(bad, sites), 'refused', Exception)


def dynamics(ctx):
    L, d = ctx.choice([(2, 2), (2, 2), (2, 3), (3, 2), (3, 2), (4, 2)])
    full = ctx.flip(.3) and L <= 3
    H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
    Hd = dn.nn_hamiltonian(H, L, d)
    pure = ctx.flip(.75)
    if pure:
        m, psi, kind, hand = tg.canonical(ctx, L, d, 3, cond=.05)
        T = fTFD().from_fMPS(m).left_canonicalise()
    else:
        for _ in range(200):
            t = arbitrary(ctx, L, d)
            T = fTFD(t)
            if ctx.flip():
                T = T.symmetrise()
            T = T.left_canonicalise()
            w = dn.dense(T.data)
            if all(dn.schmidt(w, i, L, d*d)[T[i].shape[1]-1] > 3e-3 for i in range(1, L)):
                break
        else:
            return
    ctx.p(L=L, d=d, full=full, pure=pure, D=[x.shape[2] for x in T.data], u=int(ctx.rng.integers(1 << 30)))
    w = dn.dense(T.data)

    def double(v):
        # H on each copy
        t = v.reshape([d]*(2*L)).transpose(list(range(0, 2*L, 2))+list(range(1, 2*L, 2))).reshape(d**L, d**L)
        t = Hd@t+t@Hd.T
        return t.reshape([d]*(2*L)).transpose([x for i in range(L) for x in (i, L+i)]).reshape(-1)
    keep = [A.copy() for A in T.data]
    B = T.dA_dt(Hd, fullH=True) if full else T.dA_dt(H)
    want = tg.tangent_projection(T, w, -1j*double(w))
    got = tg.derivative(T.data, B.data)
    got = got-w*np.vdot(w, got)
    ctx.close(got, want, 'derivative', tol=1e-9, scale=np.linalg.norm(double(w))+1e-9)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, T.data)), 'untouched', 'the derivative changed the state')
    if pure and ctx.flip(.4):
        dt = 1e-4
        S = (T+T.dA_dt(H)*dt).left_canonicalise()
        ctx.ok(isinstance(S, fTFD), 'kind', 'a step made it a %s' % type(S).__name__)
        x = w+dt*want
        size = (np.linalg.norm(Hd, 2)+1)**2*dt**2*100/min(dn.schmidt(w, i, L, d*d)[T[i].shape[1]-1] for i in range(1, L))
        ctx.le(dn.same_ray(dn.dense(S.data), x), size, 'evolution', slack=1e-9)


def generator(ctx):
    L, d, D = ctx.int(2, 5), ctx.int(2, 3), ctx.int(1, 3)
    pure = ctx.flip()
    ctx.p(L=L, d=d, D=D, pure=pure)
    T = fTFD().random(L, d, D, pure=pure) if ctx.flip(.7) or not pure else fTFD().random(L, d, D)
    if not ctx.ok(isinstance(T, fTFD) and len(T.data) == L and all(A.shape[0] == d*d for A in T.data), 'random', 'shape'):
        return
    ctx.ok(T.L == L and T.d == d*d, 'random', 'L, d = %s' % ((T.L, T.d),))
    ctx.ok(max(max(A.shape[1:]) for A in T.data) <= D*D, 'random', 'bond dimension')
    ctx.ok(T == T.symmetry(), 'random', 'not symmetric')
    w = dn.dense(T.data)
    if d**(2*L) <= 800:
        ctx.close(exchanged(w, L, d), w, 'random', tol=1e-10, scale=max(1e-12, np.linalg.norm(w)))
        if pure:
            # the two copies are not entangled with each other
            t = w.reshape([d]*(2*L)).transpose(list(range(0, 2*L, 2))+list(range(1, 2*L, 2))).reshape(d**L, d**L)
            s = np.linalg.svd(t, compute_uv=False)
            ctx.le(s[1]/s[0], 0, 'random', slack=1e-10)
    n = ctx.int(1, 4)**2
    Pp, Pm, M = T.symm_asymm(n)
    ctx.close(Pp+Pm, np.eye(n), 'projectors', tol=1e-12)
    ctx.close(Pp-Pm, M, 'projectors', tol=1e-12)
    ctx.close(Pp@Pm, np.zeros((n, n)), 'projectors', tol=1e-12)
    k = int(round(np.sqrt(n)))
    ctx.close(np.trace(Pp), k*(k+1)/2, 'projectors', tol=1e-12)
    # the two parts of the null spaces add up to an orthonormal basis of what is orthogonal to the tensors
    m, psi, kind, hand = tg.canonical(ctx, ctx.int(2, 3), 2, 2, cond=.05)
    T = fTFD().from_fMPS(m)
    if hand == 'right':
        return
    vs = T.get_vL()
    ls = ch.left_envs(T.data)
    for n, (s, a, M) in enumerate(vs):
        v = s+a
        A = T.data[n]
        ctx.close(M@swapped(s), s, 'null', tol=1e-10)
        ctx.close(M@swapped(a), -a, 'null', tol=1e-10)
        if not ctx.ok(v.shape[2] == A.shape[0]*A.shape[1]-A.shape[2], 'null', 'dimension'):
            continue
        if not v.size:
            continue
        ctx.close(np.einsum('pax,pay->xy', v.conj(), v), np.eye(v.shape[2]), 'null', tol=1e-9)
        r = sqrtm(ls[n])
        ctx.close(np.einsum('pax,ab,pbc->xc', v.conj(), r, A), np.zeros((v.shape[2], A.shape[2])), 'null', tol=1e-8)


def swapped(v):
    d = int(round(np.sqrt(len(v))))
    return v.reshape(d, d, *v.shape[1:]).transpose(1, 0, 2, 3).reshape(v.shape)


def sqrtm(l):
    w, q = np.linalg.eigh((l+l.conj().T)/2)
    return (q*np.sqrt(np.maximum(w, 0)))@q.conj().T


SCENARIOS = [('measure', measure), ('measure', measure), ('overlaps', overlaps), ('local', locally), ('dynamics', dynamics), ('generator', generator)]
