"""C28: Vidal form converts back to the same state."""
import numpy as np
from vlib import dense as dn, chain as ch, uni, long as lg
from xmps.fMPS import fMPS, vfMPS
from xmps.iMPS import iMPS, ivMPS

PID = 'C28'
QUICK, THOROUGH = 12000, 150000
RULE = ('Finite chains of 2-8 sites of every kind (products, padded, badly scaled, in other gauges and canonical forms) taken to site tensors '
        'and bond weights and back, repeatedly; uniform chains given as site tensors and weights or taken from ordinary ones, d 2-3, D 1-5.')
MUST = ['finite:ray', 'finite:weights', 'finite:isometry', 'finite:source', 'finite:again', 'finite:attributes', 'finite:measured', 'uniform:form', 'uniform:weights',
        'uniform:state', 'uniform:E', 'uniform:to_iMPS', 'uniform:to_vidal', 'uniform:random', 'uniform:idempotent', 'uniform:tm', 'long']


def iso(x, left):
    E = np.einsum('pab,pac->bc', x.conj(), x) if left else np.einsum('pab,pcb->ac', x, x.conj())
    return E-np.eye(len(E))


def finite(ctx):
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(dn.KINDS)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), kind)
    if ctx.flip(.3):
        data = ch.gauge(ctx.rng, data, 100.)
    m = fMPS([A.copy() for A in data])
    psi = dn.dense(data)
    before = ctx.choice(['none', 'none', 'left', 'right', 'mixed'])
    if before == 'left':
        m.left_canonicalise()
    elif before == 'right':
        m.right_canonicalise()
    elif before == 'mixed':
        m.mixed_canonicalise(ctx.int(0, L-1))
    ctx.p(L=L, d=d, kind=kind, before=before)
    v = vfMPS()
    r = v.from_fMPS(m)
    ctx.ok(r is v, 'finite:attributes', 'from_fMPS does not return the converted chain')
    ctx.close(dn.same_ray(dn.dense(m.data), psi), 0, 'finite:source', tol=1e-9)
    if not ctx.ok(len(v.data) == L, 'finite:attributes', '%d sites' % len(v.data)):
        return
    W = ch.weights(psi, L, d)                       # squared
    # the tensors are divided by the weights
    kept = min(np.min(np.abs(np.diag(lam))) for _, lam in v.data)
    prev = np.eye(1)
    for n, (G, lam) in enumerate(v.data):
        ctx.ok(G.ndim == 3 and G.shape[0] == d and lam.shape == (G.shape[2],)*2 and G.shape[1] == len(prev), 'finite:attributes',
               'shapes %s %s' % (G.shape, lam.shape))
        ctx.ok(np.all(np.isreal(lam)) and np.all(np.diag(lam).real >= 0) and np.count_nonzero(lam-np.diag(np.diag(lam))) == 0, 'finite:weights', 'not diagonal and non-negative')
        ch.same_spectrum(ctx, np.diag(lam)**2, W[n+1], 'finite:weights', tol=1e-8)
        if kept > 1e-4:
            e = 1e-9/kept
            ctx.close(iso(G@lam, False), np.zeros((G.shape[1],)*2), 'finite:isometry', tol=e)
            ctx.close(iso(prev@G, True), np.zeros((G.shape[2],)*2), 'finite:isometry', tol=e)
        prev = lam
    back = v.to_fMPS()
    ctx.close(dn.same_ray(dn.dense(back.data), psi), 0, 'finite:ray', tol=1e-9)
    ctx.ok(isinstance(back, fMPS) and (back.L, back.d) == (L, d), 'finite:attributes', 'the chain says %s' % ((back.L, back.d),))
    site = ctx.int(0, L-1)
    op = dn.rherm(ctx.rng, d)
    ctx.close(back.E(op, site), (dn.expect(op, [site], psi, L, d)/np.vdot(psi, psi)).real, 'finite:measured', tol=1e-9, scale=np.linalg.norm(op, 2))
    if ctx.flip(.3):
        again = vfMPS().from_fMPS(back).to_fMPS()
        ctx.close(dn.same_ray(dn.dense(again.data), psi), 0, 'finite:again', tol=1e-9)
        for (G, lam), (G2, lam2) in zip(v.data, vfMPS().from_fMPS(again).data):
            ch.same_spectrum(ctx, np.diag(lam), np.diag(lam2), 'finite:again', tol=1e-7)
    if ctx.flip(.3):
        w = vfMPS([(G.copy(), lam.copy()) for G, lam in v.data], d)
        ctx.close(dn.same_ray(dn.dense(w.to_fMPS().data), psi), 0, 'finite:attributes', tol=1e-9)


def uniform(ctx):
    d, D = ctx.int(2, 3), ctx.int(1, 5)
    how = ctx.choice(['tensors', 'tensors', 'iMPS'])
    ctx.p(d=d, D=D, how=how)
    kind = ctx.choice(uni.KINDS)
    A = uni.random(ctx.rng, d, D, kind, .95, 1e-3)
    s2 = uni.schmidt(A)**2
    if how == 'iMPS':
        m = iMPS([A.copy()])
        v = m.canonicalise(ctx.choice('lrm'), to_vidal=True)
        ctx.ok(isinstance(v, ivMPS), 'uniform:to_vidal', 'a %s' % type(v).__name__)
        check(ctx, v, A, s2, 'uniform:to_vidal')
        if ctx.flip():
            v.canonicalise()
            check(ctx, v, A, s2, 'uniform:idempotent')
        return
    lam = np.diag(np.sort(ctx.rng.uniform(.05, 1, D))[::-1])
    scale = ctx.rng.uniform(.2, 5)*np.exp(1j*ctx.rng.uniform(0, 6))
    G = A@np.linalg.inv(lam)*scale
    keep = G.copy(), lam.copy()
    v = ivMPS([(G, lam)])
    ctx.close(v.transfer_matrix(), np.einsum('pab,pcd->abcd', G@lam, (G@lam).conj()), 'uniform:tm', tol=1e-11, scale=np.abs(G@lam).max()**2)
    x = v.to_iMPS()
    ctx.ok(isinstance(x, iMPS), 'uniform:to_iMPS', 'a %s' % type(x).__name__)
    ctx.close(x.data[0], G@lam, 'uniform:to_iMPS', tol=1e-12, scale=np.abs(G@lam).max())
    r = v.canonicalise()
    ctx.ok(r is v, 'uniform:form', 'canonicalise returns something else')
    ctx.ok(np.array_equal(keep[0], G) and np.array_equal(keep[1], lam), 'uniform:state', 'the arrays given were changed')
    check(ctx, v, A, s2, 'uniform:state')
    if ctx.flip(.4):
        v.canonicalise()
        check(ctx, v, A, s2, 'uniform:idempotent')


def check(ctx, v, A, s2, mech):
    """v is the canonical form of the uniform chain A"""
    G, lam = v.data[0]
    d, D = A.shape[:2]
    if not ctx.ok(G.shape == A.shape and lam.shape == (D, D), 'uniform:form', 'shapes %s %s' % (G.shape, lam.shape)):
        return
    w = np.diag(lam)
    ctx.ok(np.all(np.isreal(w)) and np.all(w.real > 0) and np.allclose(lam, np.diag(w)), 'uniform:weights', 'not diagonal and positive')
    ch.same_spectrum(ctx, w.real**2, np.asarray(s2)/np.sum(s2), 'uniform:weights', tol=1e-8)
    ctx.close(iso(G@lam, False), np.zeros((D, D)), 'uniform:form', tol=1e-8)
    ctx.close(iso(lam@G, True), np.zeros((D, D)), 'uniform:form', tol=1e-8)
    B = v.to_iMPS().data[0]
    ctx.close(uni.rdm(B, 2), uni.rdm(A, 2), mech, tol=1e-7)
    op = dn.rop(ctx.rng, d)
    want = uni.expect(A, op)
    ctx.close(np.complex128(v.E(op)), np.complex128(want), 'uniform:E', tol=1e-8, scale=np.linalg.norm(op, 2))


def generator(ctx):
    d, D, p = ctx.int(2, 4), ctx.int(1, 5), ctx.int(1, 3)
    ctx.p(d=d, D=D, p=p)
    v = ivMPS().random(d, D, p) if p > 1 else ivMPS().random(d, D)
    ctx.ok(v.period == len(v.data) == p and v.d == d and v.D == D, 'uniform:random', 'attributes')
    for G, lam in v.data:
        ctx.ok(G.shape == (d, D, D) and lam.shape == (D, D) and np.all(np.diag(lam) > 0) and np.all(np.diff(np.diag(lam)) <= 0) and
               np.count_nonzero(lam-np.diag(np.diag(lam))) == 0, 'uniform:random', 'tensors')
    x = v.to_iMPS()
    ctx.ok(len(x.data) == p and all(np.allclose(a, G@lam) for a, (G, lam) in zip(x.data, v.data)), 'uniform:to_iMPS')


def long(ctx):
    """chains beyond dense vectors"""
    a, L, d = lg.draw(ctx, most=5, kinds=('generic', 'uneven', 'product'))
    m = fMPS([x.copy() for x in a])
    if ctx.flip(.3):
        m.mixed_canonicalise(ctx.int(0, L-1))
    v = vfMPS().from_fMPS(m)
    lg.same(ctx, m.data, a, 'finite:source')
    if not ctx.ok(len(v.data) == L, 'finite:attributes', '%d sites' % len(v.data)):
        return
    ctx.event('decided:long')
    kept = min(np.min(np.abs(np.diag(lam))) for _, lam in v.data)
    prev = np.eye(1)
    for (G, lam), w in zip(v.data, lg.weights(a)[1:]):
        ch.same_spectrum(ctx, np.diag(lam)**2, w, 'finite:weights', tol=1e-8)
        if kept > 1e-4:
            ctx.close(iso(G@lam, False), np.zeros((G.shape[1],)*2), 'finite:isometry', tol=1e-9/kept)
            ctx.close(iso(prev@G, True), np.zeros((G.shape[2],)*2), 'finite:isometry', tol=1e-9/kept)
        prev = lam
    back = v.to_fMPS()
    lg.same(ctx, back.data, a, 'finite:ray')
    ctx.close(lg.lognorm(back.data), 0, 'finite:ray', tol=1e-8)
    s, o = ctx.int(0, L-1), dn.rherm(ctx.rng, d)
    ctx.close(back.E(o, s), np.trace(lg.rdm(a, s, 1)@o).real, 'finite:measured', tol=1e-8, scale=np.linalg.norm(o, 2))


SCENARIOS = [('finite', finite), ('finite', finite), ('uniform', uniform), ('generator', generator)]*3+[('long', long)]
