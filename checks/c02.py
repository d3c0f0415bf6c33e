"""C02: reshaping and decomposition helpers satisfy their defining identities."""
import numpy as np
from vlib.dense import crandn, runitary
import xmps.fMPS as fm
import xmps.tensor as T
import xmps.peps_tools as pt

PID = 'C02'
QUICK, THOROUGH = 30000, 400000
RULE = 'Random tensors of rank 1-6 with unequal leg sizes 1-4 (real, complex, rank deficient, non contiguous).'
MUST = ['group', 'ungroup', 'ungroup:resized', 'inverse_transpose', 'ptrace', 'ptrace:vector', 'direct_sum',
        'unitary_extension', 'embed', 'uqr', 'urq', 'split_up', 'split_up_3', 'loc', 'null_space', 'truncate',
        'tr_svd', 'pad', 'adjoint', 'diagonalise', 'renyi', 'argument', 'expm',
        'pair', 'pair:gate', 'pair:isometry', 'pair:limit', 'pair:cut', 'pair:normalised', 'pair:swap', 'coordinates']


def mat(ctx, *shape):
    kind = ctx.choice(['complex', 'complex', 'real', 'deficient', 'fortran', 'int'])
    a = crandn(ctx.rng, *shape)
    if kind == 'real':
        a = a.real.copy()
    elif kind == 'deficient' and len(shape) == 2:
        r = max(1, min(shape)-1)
        a = crandn(ctx.rng, shape[0], r) @ crandn(ctx.rng, r, shape[1])
    elif kind == 'fortran':
        a = np.asfortranarray(a)
    elif kind == 'int':
        a = ctx.rng.integers(-3, 4, size=shape).astype(float)
    ctx.p(kind=kind, shape=shape)
    return a


def grouping(ctx):
    n = ctx.int(1, 6)
    shape = tuple(ctx.int(1, 4) for _ in range(n))
    t = mat(ctx, *shape)
    t0 = t.copy()
    perm = [int(x) for x in ctx.rng.permutation(n)]
    cuts = sorted(set([0, n] + [ctx.int(0, n) for _ in range(ctx.int(0, 3))]))
    legs = [perm[a:b] for a, b in zip(cuts, cuts[1:])]
    ctx.p(legs=legs)
    legs0 = [list(x) for x in legs]
    g, pipe = pt.group_legs(t, legs)
    # element by element model
    want = np.zeros([int(np.prod([shape[i] for i in l])) for l in legs], t.dtype)
    for idx in np.ndindex(*shape):
        pos = []
        for l in legs:
            k = 0
            for i in l:
                k = k*shape[i]+idx[i]
            pos.append(k)
        want[tuple(pos)] = t[idx]
    ctx.ok(g.shape == want.shape and np.array_equal(g, want), 'group')
    back = pt.ungroup_legs(g, pipe)
    ctx.ok(back.shape == t.shape and np.array_equal(back, t), 'ungroup')
    ctx.ok(np.array_equal(t, t0) and legs == legs0, 'argument')
    # a single-leg group may have been resized by a factorisation in between
    single = [k for k, l in enumerate(legs) if len(l) == 1]
    if single:
        k = ctx.choice(single)
        new = ctx.int(1, 5)
        sh = list(g.shape)
        sh[k] = new
        g2 = crandn(ctx.rng, *sh)
        b2 = pt.ungroup_legs(g2, pipe)
        ns = list(shape)
        ns[legs[k][0]] = new
        ctx.ok(b2.shape == tuple(ns) and np.array_equal(pt.group_legs(b2, legs)[0], g2), 'ungroup:resized')
    inv = pt.inverse_transpose(perm)
    ctx.ok(np.array_equal(np.transpose(np.transpose(t, perm), inv), t), 'inverse_transpose')
    ctx.raises(lambda: pt.ungroup_legs(g[..., None], pipe), 'ungroup:rank', exc=ValueError)


def ptrace(ctx):
    n = ctx.int(1, 4)
    dims = [ctx.int(1, 4) for _ in range(n)]
    N = int(np.prod(dims))
    rho = mat(ctx, N, N)
    keep = [i for i in range(n) if ctx.flip()] or [ctx.int(0, n-1)]
    drop = [i for i in range(n) if i not in keep]
    ctx.p(dims=dims, keep=keep)
    order = [ctx.choice([list, tuple, np.asarray])(keep), ctx.choice([list, np.asarray])(dims)]
    r0 = rho.copy()
    got = T.partial_trace(rho, *order)
    K = int(np.prod([dims[i] for i in keep]))
    w = np.zeros((K, K), complex)
    a = rho.reshape(dims+dims)
    a = a.transpose(keep+drop+[n+i for i in keep]+[n+i for i in drop]).reshape(K, N//K, K, N//K)
    for j in range(N//K):
        w += a[:, j, :, j]
    ctx.ok(np.shape(got) == (K, K), 'ptrace', 'shape %s' % (np.shape(got),))
    ctx.close(got, w, 'ptrace', tol=1e-12)
    u = crandn(ctx.rng, N)
    got = T.ρA(u, list(keep), list(dims))
    b = u.reshape(dims).transpose(keep+drop).reshape(K, -1)
    ctx.close(got, b@b.conj().T, 'ptrace:vector', tol=1e-12)
    ctx.ok(np.array_equal(rho, r0), 'argument')


def sums(ctx):
    a, b = mat(ctx, ctx.int(1, 4), ctx.int(1, 4)), mat(ctx, ctx.int(1, 4), ctx.int(1, 4))
    ctx.p(b=b.shape)
    a0, b0 = a.copy(), b.copy()
    s = T.direct_sum(a, b)
    w = np.zeros((a.shape[0]+b.shape[0], a.shape[1]+b.shape[1]), complex)
    w[:a.shape[0], :a.shape[1]] = a
    w[a.shape[0]:, a.shape[1]:] = b
    ctx.ok(s.shape == w.shape, 'direct_sum', 'shape %s expected %s' % (s.shape, w.shape))
    ctx.close(s, w, 'direct_sum', tol=0, scale=1)
    ctx.ok(np.array_equal(a, a0) and np.array_equal(b, b0), 'argument')
    # unitary completion
    n = ctx.int(1, 5)
    k = ctx.int(1, n)
    q = runitary(ctx.rng, n)
    wide = ctx.flip()
    Q = q[:k, :].copy() if wide else q[:, :k].copy()
    D = ctx.choice([None, ctx.int(1, n), n, n+ctx.int(1, 3)])
    ctx.p(n=n, k=k, wide=wide, D=D)
    Q0 = Q.copy()
    U = T.unitary_extension(Q, D)
    N = max(D or n, n)                          # never smaller than the unitary
    ctx.ok(U.shape == (N, N), 'unitary_extension', 'shape %s' % (U.shape,))
    ctx.close(U.conj().T@U, np.eye(N), 'unitary_extension', tol=1e-10)
    ctx.close(U[:Q.shape[0], :Q.shape[1]], Q, 'unitary_extension', tol=1e-12)
    ctx.ok(np.array_equal(Q, Q0), 'argument')
    v = crandn(ctx.rng, 2, 2)*10**ctx.rng.uniform(-2, 2)
    v0 = v.copy()
    E = T.embed(v)
    ctx.close(E.conj().T@E, np.eye(4), 'embed', tol=1e-10)
    ctx.close(T.deembed(E), v/np.linalg.norm(v), 'embed', tol=1e-10)
    ctx.close(T.deembed(E@np.diag([1, 2, 3, 4.])), v/np.linalg.norm(v), 'embed', tol=1e-10)
    w = crandn(ctx.rng, ctx.int(1, 3), ctx.int(2, 3))
    E = T.embed(w)
    ctx.close(E[:, 0], w.reshape(-1)/np.linalg.norm(w), 'embed', tol=1e-10)
    ctx.close(E.conj().T@E, np.eye(w.size), 'embed', tol=1e-10)
    ctx.ok(np.array_equal(v, v0), 'argument')


def factor(ctx):
    m, n = ctx.int(1, 6), ctx.int(1, 6)
    a = mat(ctx, m, n)
    if ctx.flip(.15):
        a[:, ctx.int(0, n-1)] = 0
    if ctx.flip(.15):
        a[ctx.int(0, m-1), :] = 0
    a0 = a.copy()
    s = max(1, np.linalg.norm(a))
    k = min(m, n)
    q, r = T.uqr(a)
    ctx.ok(q.shape == (m, k) and r.shape == (k, n), 'uqr', 'shapes %s %s' % (q.shape, r.shape))
    ctx.close(q@r, a, 'uqr', tol=1e-11, scale=s)
    ctx.close(q.conj().T@q, np.eye(k), 'uqr', tol=1e-11)
    ctx.ok(np.all(np.real(np.diag(r)) >= -1e-12*s) and np.allclose(np.tril(r, -1), 0), 'uqr', 'r is not upper triangular '
           'with non negative diagonal')
    r, q = T.urq(a)
    ctx.ok(q.shape == (k, n) and r.shape == (m, k), 'urq', 'shapes %s %s' % (r.shape, q.shape))
    ctx.close(r@q, a, 'urq', tol=1e-11, scale=s)
    ctx.close(q@q.conj().T, np.eye(k), 'urq', tol=1e-11)
    if m <= n:
        ctx.ok(np.all(np.real(np.diag(r)) >= -1e-12*s) and np.allclose(np.tril(r, -1), 0), 'urq',
               'r is not upper triangular with non negative diagonal')
    ctx.ok(np.array_equal(a, a0), 'argument')
    # null spaces of wide matrices of full rank
    if m < n and np.linalg.matrix_rank(a) == m and np.linalg.cond(a) < 1e6:
        v = T.get_null_space(a)
        ctx.ok(v.shape == (n, n-m), 'null_space', 'shape %s' % (v.shape,))
        ctx.close(a@v, np.zeros((m, n-m)), 'null_space', tol=1e-8)
        ctx.close(v.conj().T@v, np.eye(n-m), 'null_space', tol=1e-9)
    # truncated SVD: the best approximation
    D = ctx.int(1, 7)
    U, S, V = T.tr_svd(a, D)
    sv = np.linalg.svd(a, compute_uv=False)
    kk = min(D, k)
    ctx.ok(U.shape == (m, kk) and S.shape == (kk, kk) and V.shape == (kk, n), 'tr_svd', 'shapes')
    ctx.close(np.linalg.norm(U@S@V-a), np.sqrt(np.sum(sv[kk:]**2)), 'tr_svd', tol=1e-9, scale=s)
    ctx.close(U.conj().T@U, np.eye(kk), 'tr_svd', tol=1e-10)
    ctx.close(V@V.conj().T, np.eye(kk), 'tr_svd', tol=1e-10)
    ctx.close(np.diag(S), sv[:kk], 'tr_svd', tol=1e-10, scale=s)
    ctx.ok(np.array_equal(a, a0), 'argument')
    for name, f in [('H', lambda x: np.conj(np.swapaxes(x, -1, -2))), ('T', lambda x: np.swapaxes(x, -1, -2)),
                    ('C', np.conj)]:
        t = crandn(ctx.rng, 2, m, n) if ctx.flip() else a
        ctx.ok(np.array_equal(getattr(T, name)(t), f(t)), 'adjoint')
    w, t = crandn(ctx.rng, 3, m), crandn(ctx.rng, ctx.int(1, 5), m, n)
    ctx.close(T.ldot(w, t), np.einsum('ab,pbc->pac', w, t), 'adjoint', tol=1e-12, scale=s)
    ctx.close(T.rdot(t, w.T[:n] if n == m else crandn(ctx.rng, n, 2)*0), np.einsum('pab,bc->pac', t, w.T[:n])
              if n == m else np.zeros((len(t), m, 2)), 'adjoint', tol=1e-11, scale=10*s)


def legs2(ctx):
    d = ctx.int(1, 4)
    A, B = mat(ctx, d, d), crandn(ctx.rng, d, d)
    K = np.kron(A, B)+np.kron(B, A.conj())
    K0 = K.copy()
    pairs = list(np.ndindex(d, d))
    ctx.ok(list(T.single_basis_iterator(d)) == pairs and list(T.basis_iterator(d)) == [(x, y) for x in pairs for y in pairs], 'loc', 'iteration')
    h = T.split_up(K, d)
    ctx.ok(h.shape == (d,)*4, 'split_up', 'shape')
    w = np.zeros((d,)*4, complex)
    for i, j, k, l in np.ndindex(d, d, d, d):
        # <first, second| H |first', second'> -> (second, first, second', first')
        w[k, i, l, j] = K[i*d+k, j*d+l]
    ctx.close(h, w, 'split_up', tol=1e-12)
    p, q = ctx.int(1, 3), ctx.int(1, 3)
    Bpq = crandn(ctx.rng, p, q)
    M = np.kron(A, Bpq)
    st, uv = (ctx.int(0, d-1), ctx.int(0, d-1)), (ctx.int(0, p-1), ctx.int(0, q-1))
    ctx.close(M[T.loc(st, uv, None, p, q)], A[st]*Bpq[uv], 'loc', tol=1e-12)
    ctx.raises(lambda: T.loc(st, uv), 'loc')
    h = T.split_up(M, p=p, q=q)
    ctx.close(np.asarray(h).reshape(-1), np.einsum('ij,kl->kilj', A, Bpq).reshape(-1), 'split_up', tol=1e-12)
    d3 = ctx.int(1, 3)
    A, B, C = (crandn(ctx.rng, d3, d3) for _ in range(3))
    K3 = np.kron(np.kron(A, B), C)
    h = T.split_up_3(K3, d3)
    ctx.close(h, np.einsum('ij,kl,mn->ijklmn', A, B, C), 'split_up_3', tol=1e-12)
    a, b, c = [(ctx.int(0, d3-1), ctx.int(0, d3-1)) for _ in range(3)]
    ctx.close(K3[T.loc_3(a, b, c, d3)], A[a]*B[b]*C[c], 'loc', tol=1e-12)
    ctx.ok(np.array_equal(K, K0), 'argument')
    ctx.p(d=d, p=p, q=q, d3=d3)


def trunc(ctx):
    d, m, n = ctx.int(1, 3), ctx.int(1, 6), ctx.int(1, 6)
    k = ctx.int(1, 6)
    A, V = crandn(ctx.rng, d, m, k), crandn(ctx.rng, k, n)
    U, B = crandn(ctx.rng, n, k), crandn(ctx.rng, d, k, m)
    z = ctx.int(0, k)
    s = np.sort(ctx.rng.random(k)+.1)[::-1]
    s[k-z:] = 0
    S = np.diag(s)
    D = ctx.choice([None, ctx.int(1, 8)])
    minD = ctx.flip()
    ctx.p(d=d, m=m, n=n, k=k, z=z, D=D, minD=minD)
    kk = min(D, k) if D is not None else ((k-z) if minD else k)
    a, s_, v = T.truncate_A(A, S, V, D, minD)
    ctx.ok(np.array_equal(a, A[:, :, :kk]) and np.array_equal(s_, S[:kk, :kk]) and np.array_equal(v, V[:kk]), 'truncate')
    u, s_, b = T.truncate_B(U, S, B, D, minD)
    ctx.ok(np.array_equal(u, U[:, :kk]) and np.array_equal(s_, S[:kk, :kk]) and np.array_equal(b, B[:, :kk]), 'truncate')
    ctx.ok(T.rank(S) == k-z, 'truncate')
    # eigenvectors of a positive matrix, degenerate or not
    n = ctx.int(1, 6)
    w = np.round(ctx.rng.random(n), ctx.choice([0, 1, 8]))
    q = runitary(ctx.rng, n)
    M = (q*w)@q.conj().T
    if ctx.flip(.3):
        M = M.real
    if ctx.flip():
        M = (M + M.conj().T)/2            # else Hermitian only up to rounding, as the callers' matrices are
    M0 = M.copy()
    X, S = T.diagonalise(M)
    ctx.close(X.conj().T@X, np.eye(n), 'diagonalise', tol=1e-9)
    ctx.close(X@S@X.conj().T, M, 'diagonalise', tol=1e-9)
    ctx.close(S, np.diag(np.diag(S)), 'diagonalise', tol=0, scale=1)
    ctx.ok(np.array_equal(M, M0), 'argument')
    # padding two chains to a common structure
    from xmps.fMPS import fMPS
    from vlib.dense import rand_mps, dense
    L, dd = ctx.int(2, 5), ctx.int(2, 3)
    a = rand_mps(ctx.rng, L, dd, 4, 'overcomplete')
    b = rand_mps(ctx.rng, L, dd, 4, 'overcomplete')
    va, vb = dense(a), dense(b)
    x, y = T.mps_pad(fMPS(list(a)), fMPS(list(b)))
    ctx.ok(x.structure() == y.structure(), 'pad', 'structures %s %s' % (x.structure(), y.structure()))
    want = [(max(p.shape[1], q_.shape[1]), max(p.shape[2], q_.shape[2])) for p, q_ in zip(a, b)]
    ctx.ok(list(map(tuple, x.structure())) == want, 'pad', 'padded more than needed')
    ctx.close(dense(x.data), va, 'pad', tol=1e-12)
    ctx.close(dense(y.data), vb, 'pad', tol=1e-12)


def misc(ctx):
    # second Renyi entropy of a two site wavefunction after a gate
    d1, d2, l, r = ctx.int(1, 3), ctx.int(1, 3), ctx.int(1, 4), ctx.int(1, 4)
    th = crandn(ctx.rng, d1, d2, l, r)
    th /= np.linalg.norm(th)
    U = runitary(ctx.rng, d1*d2)
    ctx.p(d1=d1, d2=d2, l=l, r=r)
    th0, U0 = th.copy(), U.copy()
    got = pt.renyi(U.reshape(d1, d2, d1, d2), th)
    x = (U@th.reshape(d1*d2, l*r)).reshape(d1, d2, l, r).transpose(0, 2, 1, 3).reshape(d1*l, d2*r)
    s = np.linalg.svd(x, compute_uv=False)
    ctx.close(got, -np.log(np.sum(s**4)), 'renyi', tol=1e-9)
    ctx.ok(np.array_equal(th, th0) and np.array_equal(U, U0), 'argument')
    n = ctx.int(1, 5)
    A = crandn(ctx.rng, n, n)
    v = crandn(ctx.rng, n)
    t = ctx.choice([1, -1j, .3, .2-.5j])
    import scipy.linalg as sl
    from scipy.sparse.linalg import aslinearoperator
    op = A if ctx.flip() else aslinearoperator(A)
    ctx.close(T.lanczos_expm(op, v, t), sl.expm(t*A)@v, 'expm', tol=1e-9, scale=max(1, np.linalg.norm(sl.expm(t*A)))*10)
    h = A + A.conj().T
    w = np.exp(2j*np.pi*ctx.rng.random())
    if ctx.flip(.3):                    # the first element says nothing
        h[0, 0] = 0
        if ctx.flip() and n > 1:
            h[0, :] = h[:, 0] = 0
    if np.linalg.norm(h) > 1e-6:
        g = T.rotate_to_hermitian(w*h)
        ctx.close(g, g.conj().T, 'hermitian', tol=1e-9)
        ctx.close(min(np.linalg.norm(g-h), np.linalg.norm(g+h)), 0, 'hermitian', tol=1e-8)
    u = T.haar_unitary(n)
    ctx.close(u.conj().T@u, np.eye(n), 'haar', tol=1e-10)
    ctx.close(T.eye_like(A), np.eye(n), 'haar')


def pairs(ctx):
    """two neighbouring tensors as one, a gate between them, and apart again"""
    d, l, m, r = ctx.int(1, 4), ctx.int(1, 4), ctx.int(1, 5), ctx.int(1, 4)
    A, B = crandn(ctx.rng, d, l, m), crandn(ctx.rng, d, m, r)
    if ctx.flip(.2):
        A, B = A.real.copy(), B.real.copy()
    if ctx.flip(.2):
        B[:, m//2:] = 0                       # rank deficient
    if ctx.flip(.2):
        A = A*10.**ctx.int(-4, 4)
    A0, B0 = A.copy(), B.copy()
    ctx.p(d=d, l=l, m=m, r=r)
    two = np.einsum('alm,bmr->ablr', A, B)
    sc = max(np.linalg.norm(two), 1e-9*np.linalg.norm(A)*np.linalg.norm(B), 1e-300)
    g = fm.group_tensors([A, B])
    ctx.close(g, two.reshape(d*d, l, r), 'pair', tol=1e-12, scale=sc)
    U = runitary(ctx.rng, d*d) if ctx.flip() else crandn(ctx.rng, d*d, d*d)
    after = (U@two.reshape(d*d, -1)).reshape(d, d, l, r)
    sc = max(sc, np.linalg.norm(after))

    def together(x):
        ctx.ok(len(x) == 2 and x[0].shape[:2] == (d, l) and x[1].shape[0] == d and x[1].shape[2] == r
               and x[0].shape[2] == x[1].shape[1] <= min(d*l, d*r), 'pair:shapes', str([y.shape for y in x]))
        return np.einsum('alm,bmr->ablr', *x)

    def left(x):
        v = x.transpose(1, 0, 2).reshape(-1, x.shape[2])
        ctx.close(v.conj().T@v, np.eye(v.shape[1]), 'pair:isometry', tol=1e-10)

    def right(x):
        v = x.transpose(1, 0, 2).reshape(x.shape[1], -1)
        ctx.close(v@v.conj().T, np.eye(len(v)), 'pair:isometry', tol=1e-10)
    for which, iso in (('l', lambda x: left(x[0])), ('r', lambda x: right(x[1]))):
        x = fm.apply_unitary([A, B], U, which)
        ctx.close(together(x), after, 'pair:gate', tol=1e-11, scale=sc)
        iso(x)
    for f, iso in ((fm.separate_tensor_qr, lambda x: left(x[0])), (fm.separate_tensor_rq, lambda x: right(x[1]))):
        x = f(g)
        ctx.close(together(x), two, 'pair', tol=1e-11, scale=sc)
        iso(x)
    if np.linalg.norm(after) > 1e-8*np.linalg.norm(A)*np.linalg.norm(B):
        # cut to a limit: the best pair of that size, normalised
        M = after.transpose(0, 2, 1, 3).reshape(d*l, d*r)
        u, s, v = np.linalg.svd(M, full_matrices=False)
        D = ctx.choice([None, ctx.int(1, len(s)), len(s)+ctx.int(0, 2)])
        k = len(s) if D is None else min(D, len(s))
        ctx.p(D=D)
        kept = np.linalg.norm(s[:k])
        for which, iso in (('l', lambda x: left(x[0])), ('r', lambda x: right(x[1]))):
            x = fm.separate_tensor_svd(after.reshape(d*d, l, r), D, which) if D is None or ctx.flip() \
                else fm.apply_unitary([A, B], U, which, D)
            y = together(x)
            ctx.ok(x[0].shape[2] == k, 'pair:limit', 'bond %d for limit %s of %d' % (x[0].shape[2], D, len(s)))
            iso(x)
            ctx.close(np.linalg.norm(y), 1, 'pair:normalised', tol=1e-10)
            # overlap with the original: everything that can be kept
            ctx.close(np.vdot(y, after)/np.linalg.norm(after), kept/np.linalg.norm(s), 'pair:cut', tol=1e-9)
        ctx.raises(lambda: fm.separate_tensor_svd(g, 1, 'x'), 'pair:refused')
    n = ctx.int(1, 3)
    V = crandn(ctx.rng, n, d*d)
    ctx.close(fm.apply_isometry([A, B], V), np.einsum('xab,ablr->xlr', V.reshape(n, d, d), two), 'pair', tol=1e-11,
              scale=sc*np.linalg.norm(V))
    w = crandn(ctx.rng, d, d)
    ctx.close(fm.swap(d)@np.kron(w, np.eye(d)), np.kron(np.eye(d), w)@fm.swap(d), 'pair:swap', tol=1e-12, scale=10)
    ctx.ok(np.array_equal(A, A0) and np.array_equal(B, B0), 'argument', 'a tensor was changed')
    # canonical coordinates, and pairs of them
    n = ctx.int(1, 5)
    S, P = fm.sympmat(n), fm.changebasis(n)
    ctx.close(P@S@P.T, np.kron(np.eye(n), [[0, 1], [-1, 0]]), 'coordinates', tol=1e-14)
    z = np.arange(2*n)
    ctx.ok(list((P@z).astype(int)) == [k//2+n*(k % 2) for k in range(2*n)], 'coordinates', 'order')


SCENARIOS = [('pairs', pairs), ('grouping', grouping), ('ptrace', ptrace), ('sums', sums), ('factor', factor), ('legs', legs2),
             ('trunc', trunc), ('misc', misc)]
