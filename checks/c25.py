"""C25: matrix product operators compose like the matrices they stand for."""
import numpy as np
from vlib import dense as dn, nets
from xmps.fPEPS import fMPO
from xmps.fMPS import fMPS

PID = 'C25'
QUICK, THOROUGH = 24000, 250000
RULE = ('Operators on 1-5 sites with upper and lower legs of sizes 1-4 that differ from each other and (for products) from '
        'site to site, bonds of sizes 1-4, complex or real; products of 2-4 factors, application to chains, transposition, '
        'reversal and rotation. The dense form is the conjugate of the contraction, as it is for the networks built on it.')
MUST = ['recombine', 'product', 'chain', 'identity', 'transpose', 'mirror', 'rotate', 'from_mps', 'random', 'trivial', 'untouched', 'assoc']


def operator(ctx, ups, downs, X=None):
    L = len(ups)
    X = X or ctx.int(1, 4)
    b = [1]+[ctx.int(1, X) for _ in range(L-1)]+[1]
    real = ctx.flip(.2)
    out = []
    for n in range(L):
        A = dn.crandn(ctx.rng, ups[n], b[n+1], downs[n], b[n])/np.sqrt(ups[n]*b[n])
        out.append(A.real.copy() if real else A)
    return out


def legs(ctx, L):
    return [ctx.int(1, 4) for _ in range(L)] if ctx.flip(.4) else [ctx.int(2, 3)]*L


def dense(ts):
    return nets.mpo_matrix(ts).conj()


def size(ctx):
    L = ctx.int(1, 5)
    ctx.p(L=L)
    return L


def same(ts, W):
    return len(ts) == len(W.data) and all(np.array_equal(a, b) for a, b in zip(ts, W.data))


def products(ctx):
    L = size(ctx)
    n = ctx.int(2, 4) if L <= 3 else 2
    ls = [legs(ctx, L) for _ in range(n+1)]
    while max(np.prod(x) for x in ls) > 300:
        ls = [legs(ctx, L) for _ in range(n+1)]
    # factor k takes legs ls[k+1] (upper) to ls[k] (lower)
    ts = [operator(ctx, ls[k+1], ls[k], 3) for k in range(n)]
    Ws = [fMPO([A.copy() for A in t]) for t in ts]
    ctx.p(legs=ls)
    Ms = [dense(t) for t in ts]
    for M, W in zip(Ms, Ws):
        ctx.close(W.recombine(), M, 'recombine', tol=1e-11, scale=max(1e-9, np.linalg.norm(M)))
    P, M, sc = Ws[0], Ms[0], np.linalg.norm(Ms[0])
    for W, N in zip(Ws[1:], Ms[1:]):
        P, M, sc = P*W, M@N, sc*np.linalg.norm(N)
    sc = max(sc, 1e-9)
    ctx.close(dense(P.data), M, 'product', tol=1e-11, scale=sc)
    ctx.close(P.recombine(), M, 'product', tol=1e-11, scale=sc)
    ctx.ok(P.L == L, 'product', 'length %s' % P.L)
    if n > 2:
        Q = Ws[-1]
        for W in reversed(Ws[:-1]):
            Q = W*Q
        ctx.close(Q.recombine(), M, 'assoc', tol=1e-11, scale=sc)
    ctx.ok(all(same(t, W) for t, W in zip(ts, Ws)), 'untouched', 'a product changed its factors')


def identity(ctx):
    L = size(ctx)
    d = ctx.int(2, 3)
    one = fMPO([np.eye(d).reshape(d, 1, d, 1)+0j for _ in range(L)])
    t = operator(ctx, [d]*L, [d]*L)
    W = fMPO([A.copy() for A in t])
    ctx.p(d=d)
    ctx.close(one.recombine(), np.eye(d**L), 'identity', tol=1e-12)
    ctx.close((one*W).recombine(), dense(t), 'identity', tol=1e-11, scale=max(1e-9, np.linalg.norm(dense(t))))
    ctx.close((W*one).recombine(), dense(t), 'identity', tol=1e-11, scale=max(1e-9, np.linalg.norm(dense(t))))


def chains(ctx):
    """operators on finite chains"""
    L, d = ctx.int(2, 5), ctx.int(2, 3)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), ctx.choice(dn.KINDS))
    m = fMPS([A.copy() for A in data])
    outs = [d]*L if ctx.flip(.7) else legs(ctx, L)
    t = operator(ctx, [d]*L, outs)
    W = fMPO([A.copy() for A in t])
    ctx.p(L=L, d=d, outs=outs)
    v = dn.dense(data)
    z = fMPO().from_mps(m)
    ctx.close(dense(z.data).reshape(-1), v.conj(), 'from_mps', tol=1e-11, scale=max(1e-9, np.linalg.norm(v)))
    ctx.close(z.recombine().reshape(-1), v.conj(), 'from_mps', tol=1e-11, scale=max(1e-9, np.linalg.norm(v)))
    ctx.ok(z.L == L and z.d == d, 'from_mps', 'L %s d %s' % (z.L, z.d))
    want = dense(t)@v.conj()
    sc = max(1e-9, np.linalg.norm(dense(t))*np.linalg.norm(v))
    for got in (W*m, W*z):
        ctx.close(got.recombine().reshape(-1), want, 'chain', tol=1e-11, scale=sc)
    # twice
    if all(x == d for x in outs):
        ctx.close((W*(W*m)).recombine().reshape(-1), dense(t)@want, 'chain', tol=1e-11, scale=sc*np.linalg.norm(dense(t)))
    ctx.ok(same(t, W) and all(np.array_equal(a, b) for a, b in zip(data, m.data)), 'untouched', 'operands changed')


def rearranged(ctx):
    L = size(ctx)
    ups, downs = legs(ctx, L), legs(ctx, L)
    while np.prod(ups)*np.prod(downs) > 50000:
        ups, downs = legs(ctx, L), legs(ctx, L)
    t = operator(ctx, ups, downs)
    ctx.p(ups=ups, downs=downs)
    M = dense(t)
    s = max(1e-9, np.linalg.norm(M))
    W = fMPO([A.copy() for A in t]).transpose_ud()
    ctx.close(W.recombine(), M.T, 'transpose', tol=1e-11, scale=s)
    ctx.ok(same(t, W.transpose_ud()), 'transpose', 'twice is not the identity')
    W = fMPO([A.copy() for A in t]).transpose_lr().reverse()
    want = M.reshape(downs+ups).transpose(list(range(L))[::-1]+list(range(L, 2*L))[::-1]).reshape(M.shape)
    ctx.close(W.recombine(), want, 'mirror', tol=1e-11, scale=s)
    ctx.ok(same(t, W.reverse().transpose_lr()), 'mirror', 'twice is not the identity')
    W = fMPO([A.copy() for A in t])
    R = W.rotate_90()
    ctx.ok(all(np.array_equal(b, np.moveaxis(a, 3, 0)) for a, b in zip(t, R.data)), 'rotate', 'rotated tensors')
    ctx.ok(same(t, R.unrotate_90()) and same(t, W.unrotate_90().rotate_90()), 'rotate', 'there and back')
    ctx.ok(same(t, W), 'untouched', 'rotation changed its operand')


def generators(ctx):
    L, d, X = ctx.int(2, 6), ctx.int(1, 4), ctx.int(1, 5)
    ctx.p(L=L, d=d, X=X)
    W = fMPO().random(L, d, X)
    ctx.ok([tuple(A.shape) for A in W.data] == [(d, X if n < L-1 else 1, d, X if n else 1) for n in range(L)], 'random',
           'shapes %s' % W.structure())
    ctx.ok((W.L, W.d) == (L, d), 'random', 'says %s' % ((W.L, W.d),))
    W = fMPO().trivial(L)
    ctx.close(nets.mpo_matrix(W.data), np.ones((1, 1)), 'trivial', tol=1e-12)
    ctx.ok(len(W.data) == L, 'trivial', '%d sites' % len(W.data))


SCENARIOS = [('products', products), ('identity', identity), ('chains', chains), ('rearranged', rearranged), ('generators', generators)]
