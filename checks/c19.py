"""C19: transfer matrices of uniform chains, against the maps they stand for"""
import numpy as np
from vlib import dense as dn, uni
from xmps.iMPS import Map, TransferMatrix, iMPS
from xmps.tensor import r_eigenmatrix, l_eigenmatrix

PID = 'C19'
QUICK, THOROUGH = 18000, 350000
RULE = ('every application of a transfer operator is decided against the explicit sum over the physical index, every fixed '
        'point against the eigenvalue equation and the dense spectral radius')
MUST = ('fixed:odd', 'map:right', 'map:left', 'map:matrix', 'map:operator', 'fixed:right', 'fixed:left', 'predicate:true', 'predicate:false',
        'tm:right', 'tm:left', 'tm:matrix', 'eigs:equation', 'eigs:positive', 'tensor:right', 'tensor:left', 'tensor:general')


def pair(ctx, Dmax=8):
    d = ctx.int(1, 4)
    Da = ctx.int(1, Dmax)
    Db = Da if ctx.flip(.5) else ctx.int(1, Dmax)
    real = ctx.flip(.2), ctx.flip(.2)
    A, B = dn.crandn(ctx.rng, d, Da, Da), dn.crandn(ctx.rng, d, Db, Db)
    A, B = (A.real.copy() if real[0] else A), (B.real.copy() if real[1] else B)
    if ctx.flip(.2):
        B = A.copy()
    elif ctx.flip(.2):
        B = A+dn.crandn(ctx.rng, *A.shape)*10**ctx.rng.uniform(-4, -1)
    ctx.p(d=d, Da=A.shape[1], Db=B.shape[1], real=real)
    return A, B


def right(A, B, x):
    return sum(a@x@b.conj().T for a, b in zip(A, B))


def left(A, B, x):
    return sum(a.conj().T@x@b for a, b in zip(A, B))


def s_map(ctx):
    """mixed transfer map: both directions, matrix and operator forms"""
    A, B = pair(ctx)
    M = Map(A, B)
    n = (A.shape[1], B.shape[1])
    x = dn.crandn(ctx.rng, *n)
    if ctx.flip(.2):
        x = x.real.copy()
    keep = A.copy(), B.copy(), x.copy()
    r, l = right(A, B, x), left(A, B, x)
    ctx.event('decided:map:right')
    ctx.close(np.reshape(M.mv(x.reshape(-1)), n), r, 'map:right', tol=1e-10)
    ctx.event('decided:map:left')
    ctx.close(np.reshape(M.mvr(x.reshape(-1)), n), l, 'map:left', tol=1e-10)
    O = M.aslinearoperator()
    ctx.event('decided:map:operator')
    ctx.close(np.reshape(O@x.reshape(-1), n), r, 'map:operator', tol=1e-10)
    ctx.close(np.reshape(O.H@x.reshape(-1), n), l, 'map:operator', tol=1e-10)
    ctx.event('decided:map:matrix')
    ctx.close(np.reshape(M.asmatrix()@x.reshape(-1), n), r, 'map:matrix', tol=1e-10)
    ctx.close(np.reshape(M.asmatrix().conj().T@x.reshape(-1), n), l, 'map:matrix', tol=1e-10)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, (A, B, x))), 'map:mutates', 'an argument changed')


def gapped(T, gap=.97):
    w = np.sort(np.abs(np.linalg.eigvals(T)))[::-1]
    return len(w) == 1 or w[1] < gap*w[0]


PAULI = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])


def sparse(ctx):
    """pairs whose fixed points have elements that vanish"""
    k = ctx.choice(['integers', 'integers', 'blocks', 'same', 'symmetric'])
    ctx.p(k=k)
    d = ctx.int(2, 3)
    if k == 'symmetric':                # the same state, the bond turned by a symmetry
        A = np.array([x/np.sqrt(3) for x in PAULI])+0j
        U = PAULI[ctx.int(0, 2)]
        return A, U@A@U.conj().T
    if k == 'blocks':                   # positive fixed points that miss part of the bond
        D, n = ctx.int(2, 5), ctx.int(1, 4)
        A = dn.crandn(ctx.rng, d, D, D)
        if ctx.flip():
            A[:, :n, :n] *= .2
            A[:, :n, n:] = 0
        else:
            A[:, n:, n:] *= .2
            A[:, n:, :n] = 0
        return A, A.copy()
    A, B = (ctx.rng.integers(-1, 2, (d, D, D))+1j*ctx.rng.integers(-1, 2, (d, D, D))*ctx.flip() for D in (ctx.int(1, 3), ctx.int(1, 3)))
    ctx.p(A=A, B=B)
    return A, (A.copy() if k == 'same' else B)


def s_fixed(ctx):
    """fixed points of the mixed map"""
    odd = ctx.flip(.3)
    A, B = sparse(ctx) if odd else pair(ctx, Dmax=6)
    if odd:
        w, v = np.linalg.eig(uni.tm(A, B))
        if np.abs(w).max() < 1e-3 or np.linalg.cond(v) > 1e3:
            return
        ctx.event('decided:fixed:odd')
    T = uni.tm(A, B)
    if not gapped(T):
        return
    rho = np.abs(np.linalg.eigvals(T)).max()
    n = (A.shape[1], B.shape[1])
    M = Map(A, B)
    guess = dn.crandn(ctx.rng, *n) if ctx.flip(.3) else None
    kw = {} if ctx.flip(.5) else dict(rotate=ctx.flip(.5))
    e, r = M.right_fixed_point(r0=guess, **kw)
    e = np.ravel(e)[0]
    ctx.event('decided:fixed:right')
    ctx.ok(r.shape == n and np.linalg.norm(r) > 1e-3, 'fixed:right', 'shape %s norm %s' % (r.shape, np.linalg.norm(r)))
    ctx.close(right(A, B, r), e*r, 'fixed:right', tol=1e-9, scale=rho)
    ctx.close(abs(e), rho, 'fixed:dominant', tol=1e-9)
    f, l = M.left_fixed_point(l0=guess)
    f = np.ravel(f)[0]
    ctx.event('decided:fixed:left')
    ctx.ok(l.shape == n, 'fixed:left', 'shape %s' % (l.shape,))
    ctx.close(left(A, B, l), f*l, 'fixed:left', tol=1e-9, scale=rho)
    ctx.close(abs(f), rho, 'fixed:dominant', tol=1e-9)
    ctx.close(np.linalg.norm(l), 1, 'fixed:normalised', tol=1e-8)
    if n[0] == n[1] and np.array_equal(A, B) and kw.get('rotate', True):
        for x in (r, l):
            ctx.close(x, x.conj().T, 'fixed:positive', tol=1e-9)
            ctx.ok(np.linalg.eigvalsh((x+x.conj().T)/2)[0] > -1e-7, 'fixed:positive', 'not positive')
    # predicates
    ctx.event('decided:predicate:true')
    ctx.ok(M.is_right_eigenvector(r, e) and M.is_left_eigenvector(l, f), 'predicate:true', 'a fixed point is not recognised')
    y = r+.3*np.linalg.norm(r)*dn.crandn(ctx.rng, *n)
    if r.size > 1 and np.linalg.norm(right(A, B, y)-e*y) > 1e-2*rho*np.linalg.norm(y):
        ctx.event('decided:predicate:false')
        ctx.ok(not M.is_right_eigenvector(y, e), 'predicate:false', 'accepted a vector that is none')
        if np.linalg.norm(left(A, B, y)-f*y) > 1e-2*rho*np.linalg.norm(y):
            ctx.ok(not M.is_left_eigenvector(y, f), 'predicate:false', 'accepted a vector that is none')
        ctx.ok(not M.is_right_eigenvector(r, 1.5*e), 'predicate:false', 'accepted a wrong eigenvalue')
        ctx.ok(not M.is_left_eigenvector(l, 1.5*f), 'predicate:false', 'accepted a wrong eigenvalue')


def s_tm(ctx):
    """transfer matrix of one chain"""
    d, D = ctx.int(1, 4), ctx.int(1, 8)
    A = dn.crandn(ctx.rng, d, D, D)
    if ctx.flip(.2):
        A = A.real.copy()
    ctx.p(d=d, D=D)
    M = TransferMatrix(A) if ctx.flip(.5) else iMPS([A]).transfer_matrix()
    x = dn.crandn(ctx.rng, D, D)
    O = M.aslinearoperator()
    ctx.event('decided:tm:right')
    ctx.close(np.reshape(M.mv(x.reshape(-1)), (D, D)), right(A, A, x), 'tm:right', tol=1e-10)
    ctx.close(np.reshape(O@x.reshape(-1), (D, D)), right(A, A, x), 'tm:right', tol=1e-10)
    ctx.event('decided:tm:left')
    ctx.close(np.reshape(M.mvr(x.reshape(-1)), (D, D)), left(A, A, x), 'tm:left', tol=1e-10)
    ctx.close(np.reshape(O.H@x.reshape(-1), (D, D)), left(A, A, x), 'tm:left', tol=1e-10)
    ctx.event('decided:tm:matrix')
    ctx.close(np.reshape(M.asmatrix()@x.reshape(-1), (D, D)), right(A, A, x), 'tm:matrix', tol=1e-10)


def s_eigs(ctx):
    """dominant eigenvectors"""
    d, D = ctx.int(2, 4), ctx.int(1, 6)
    kind = ctx.choice(uni.KINDS)
    A = uni.gauge(ctx.rng, uni.random(ctx.rng, d, D, kind))*10**ctx.rng.uniform(-1, 1)
    ctx.p(d=d, D=D, kind=kind)
    m = iMPS([A])
    guess = (dict(l0=dn.crandn(ctx.rng, D, D), r0=dn.crandn(ctx.rng, D, D)) if ctx.flip(.3) else {})
    e, l, r = m.eigs(**guess)
    if ctx.flip(.2):
        l, r = m.get_envs()
    e = np.ravel(e)[0]
    rho = np.abs(np.linalg.eigvals(uni.tm(A))).max()
    ctx.event('decided:eigs:equation')
    ctx.close(e, rho, 'eigs:dominant', tol=1e-9, scale=rho)
    ctx.close(right(A, A, r), rho*r, 'eigs:equation', tol=1e-9, scale=rho*np.linalg.norm(r))
    ctx.close(left(A, A, l), rho*l, 'eigs:equation', tol=1e-9, scale=rho*np.linalg.norm(l))
    ctx.close(np.trace(l@r), 1, 'eigs:normalised', tol=1e-9)
    ctx.event('decided:eigs:positive')
    for x in (l, r):
        ctx.close(x, x.conj().T, 'eigs:positive', tol=1e-9)
        ctx.ok(np.linalg.eigvalsh((x+x.conj().T)/2)[0] > -1e-8, 'eigs:positive', 'not positive')
    want = uni.envs(A)
    ctx.close(np.einsum('ab,cd->abcd', l, r), np.einsum('ab,cd->abcd', want[1], want[2]), 'eigs:value', tol=1e-9)


def s_tensor(ctx):
    """eigenmatrices of a four-legged transfer tensor"""
    d, K = ctx.int(2, 4), ctx.int(1, 5)
    A = uni.gauge(ctx.rng, uni.random(ctx.rng, d, K, ctx.choice(uni.KINDS)))
    ctx.p(d=d, K=K)
    kind = ctx.choice(('positive', 'positive', 'mixed', 'any'))
    B = uni.random(ctx.rng, d, K, ctx.choice(uni.KINDS)) if kind == 'mixed' else A
    M = np.einsum('pab,pcd->acbd', A, B.conj())
    if kind == 'any':
        M = dn.crandn(ctx.rng, K, K, K, K)
    vals = np.linalg.eigvals(M.reshape(K*K, K*K))
    vals = vals[np.argsort(-np.abs(vals))]
    if kind != 'positive' and K > 1:
        if abs(vals[1]) > .97*abs(vals[0]):
            return
        v = np.linalg.eig(M.reshape(K*K, K*K))
        if np.linalg.cond(v[1]) > 1e4:
            return
    e, v = r_eigenmatrix(M)
    ctx.event('decided:tensor:right')
    rho = vals[0]
    if kind != 'positive':
        ctx.event('decided:tensor:general')
    ctx.close(e, rho, 'tensor:right', tol=1e-9, scale=abs(rho))
    ctx.close(np.linalg.norm(v), 1, 'tensor:right', tol=1e-9)
    ctx.close(np.einsum('abcd,cd->ab', M, v), e*v, 'tensor:right', tol=1e-9, scale=abs(rho))
    e, v = l_eigenmatrix(M)
    ctx.event('decided:tensor:left')
    ctx.close(e, rho, 'tensor:left', tol=1e-9, scale=abs(rho))
    ctx.close(np.linalg.norm(v), 1, 'tensor:left', tol=1e-9)
    ctx.close(np.einsum('ab,abcd->cd', v, M), e*v, 'tensor:left', tol=1e-9, scale=abs(rho))


SCENARIOS = [('map', s_map), ('fixed', s_fixed), ('tm', s_tm), ('eigs', s_eigs), ('tensor', s_tensor)]
