"""C08: the algebra of chains is the algebra of their dense vectors."""
import numpy as np
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS

PID = 'C08'
QUICK, THOROUGH = 24000, 250000
RULE = ('Pairs of chains of length 2-8 with independent bond patterns; random linear expressions of up to four chains; '
        'item-wise expressions on equal shapes; equality on identical, perturbed, re-gauged and differently shaped chains; '
        'indexing at every position; overlaps.')
MUST = ['add', 'mul', 'expression', 'itemwise', 'append', 'extend', 'eq_true', 'eq_false', 'index', 'overlap', 'full_overlap',
        'product_overlap', 'approx_overlap', 'k_local_overlap', 'setitem', 'len', 'uniform', 'long']


def rand(ctx, L, d, Dmax=5, kinds=('generic', 'uniform', 'real', 'product', 'overcomplete', 'scaled', 'ghz')):
    return tuple(dn.rand_mps(ctx.rng, L, d, ctx.int(1, Dmax), ctx.choice(list(kinds))))


def rel(ctx, got, want, mech, **kw):
    s = max(1e-300, float(np.max(np.abs(want))))
    ctx.close(got, want, mech, tol=1e-10, scale=s, **kw)


def algebra(ctx):
    L, d = ch.size(ctx, 300)
    a, b = rand(ctx, L, d), rand(ctx, L, d)
    va, vb = dn.dense(a), dn.dense(b)
    z = complex(dn.crandn(ctx.rng, 1)[0]) if ctx.flip() else ctx.choice([2, -1.5, 0.25, 1j])
    A, B = fMPS(list(a)), fMPS(list(b))
    ctx.p(L=L, d=d, D=A.D, D2=B.D)
    s = A.add(B)
    bad = dn.well_formed(s.data, d)
    if ctx.ok(bad is None and s.L == L and s.d == d, 'add', bad):
        ctx.close(dn.dense(s.data), va+vb, 'add', tol=1e-10, scale=max(np.max(np.abs(va)), np.max(np.abs(vb))))
        ctx.ok(all(x.shape[2] <= y.shape[2]+w.shape[2] for x, y, w in zip(s.data, a, b)), 'add')
    rel(ctx, dn.dense(A.mul(z).data), z*va, 'mul')
    ctx.close(dn.dense(A.data), va, 'add', tol=0, scale=1)
    # a linear expression
    cs = [complex(x) for x in dn.crandn(ctx.rng, 3)]
    c = rand(ctx, L, d, 2)
    vc = dn.dense(c)
    e = A.mul(cs[0]).add(B.mul(cs[1]).add(fMPS(list(c)).mul(cs[2])))
    ctx.close(dn.dense(e.data), cs[0]*va+cs[1]*vb+cs[2]*vc, 'expression', tol=1e-10,
              scale=sum(abs(x)*np.max(np.abs(v)) for x, v in zip(cs, (va, vb, vc))))


def itemwise(ctx):
    L, d = ch.size(ctx, 300)
    a = rand(ctx, L, d)
    b = [dn.crandn(ctx.rng, *x.shape) for x in a]
    z = ctx.choice([2, -1.5, 0.5, 1j, 1+1j])
    A, B = fMPS(list(a)), fMPS(list(b))
    ctx.p(L=L, d=d, D=A.D, z=z)
    for got, want in ((A+B, [x+y for x, y in zip(a, b)]), (A-B, [x-y for x, y in zip(a, b)]), (A*z, [z*x for x in a]),
                      (z*A, [z*x for x in a]), (A/z, [x/z for x in a])):
        if ctx.ok(len(got.data) == L and got.L == L and got.d == d, 'itemwise'):
            for g, w in zip(got.data, want):
                ctx.close(g, w, 'itemwise', tol=1e-12, scale=max(1e-300, np.max(np.abs(w))))


def joining(ctx):
    L, d = ch.size(ctx, 100)
    L2 = ctx.int(1, 4)
    a, b = rand(ctx, L, d), rand(ctx, max(2, L2), d)
    va, vb = dn.dense(a), dn.dense(b)
    ctx.p(L=L, L2=L2, d=d)
    e = fMPS(list(a)).extend(fMPS(list(b)))
    ctx.ok(e.L == len(a)+len(b) and len(e) == e.L, 'len')
    rel(ctx, dn.dense(e.data), np.kron(va, vb), 'extend')
    t = dn.crandn(ctx.rng, d, 1, 1)
    f = fMPS(list(a)).append(t)
    ctx.ok(f.L == L+1 and len(f) == L+1, 'len')
    rel(ctx, dn.dense(f.data), np.kron(va, t[:, 0, 0]), 'append')
    ctx.ok(len(fMPS(list(a))) == L, 'len')


def equality(ctx):
    L, d = ch.size(ctx, 300)
    a = rand(ctx, L, d)
    A = fMPS(list(a))
    same = fMPS([x.copy() for x in a])
    ctx.ok((A == same) is True or bool(A == same), 'eq_true')
    ctx.ok(not (A != same), 'eq_true')
    ctx.ok(A == A.copy(), 'eq_true')
    s = ctx.int(0, L-1)
    how = ctx.choice(['tensor', 'element', 'longer', 'shorter', 'shape', 'broadcast', 'phys', 'other', 'list', 'gauge'])
    ctx.p(L=L, d=d, how=how, site=s, D=A.D)
    b = [x.copy() for x in a]
    if how == 'tensor':
        b[s] = b[s]+np.max(np.abs(b[s]))
    elif how == 'element':
        i = tuple(ctx.int(0, n-1) for n in b[s].shape)
        b[s] = b[s].astype(complex)
        b[s][i] += 1+abs(b[s][i])
    elif how == 'longer':
        b = list(b)+[dn.crandn(ctx.rng, d, 1, 1)]
    elif how == 'shorter':
        b = b[:-1]
    elif how == 'shape':
        b[s] = np.pad(b[s], ((0, 0), (0, 0), (0, 1)))
    elif how == 'broadcast':
        # a constant tensor of dimension one broadcasts against anything
        b[s] = b[s].ravel()[:1].reshape(1, 1, 1)*np.ones((1, 1, 1))
        a2 = [x.copy() for x in a]
        a2[s] = np.ones_like(a2[s])*b[s]
        if a2[s].shape == b[s].shape:
            return
        A = fMPS(a2)
    elif how == 'phys':
        b[s] = np.concatenate([b[s], b[s][:1]])
    elif how == 'gauge' and L > 1:
        s = min(s, L-2)
        b[s], b[s+1] = 3*b[s], b[s+1]/3
    elif how == 'other':
        for o in (None, 3, 'x'):
            ctx.ok(not (A == o) and (A != o), 'eq_false', repr(o))
        return
    elif how == 'list':
        b = rand(ctx, ctx.int(2, 8), d)
        if len(b) == L and all(x.shape == y.shape and np.allclose(x, y) for x, y in zip(a, b)):
            return
    B = fMPS(list(b))
    for x, y in ((A, B), (B, A)):
        ctx.ok(not (x == y), 'eq_false', how)
        ctx.ok(x != y, 'eq_false', how)


def indexing(ctx):
    L, d = ch.size(ctx, 300)
    a = rand(ctx, L, d)
    A = fMPS(list(a))
    ctx.p(L=L, d=d, D=A.D)
    for k in range(L):
        ctx.ok(A[k] is a[k], 'index', 'A[%d]' % k)
        ctx.ok(A(k+1) is a[k], 'index', 'A(%d)' % (k+1))
    ctx.ok(A[-1] is a[-1], 'index')
    ctx.ok(all(x is y for x, y in zip(A[1:], a[1:])) and len(A[1:]) == L-1, 'index')
    k = ctx.int(0, L-1)
    t = 2*a[k]
    A[k] = t
    ctx.ok(A[k] is t and A(k+1) is t and all(A[j] is a[j] for j in range(L) if j != k), 'setitem')
    ctx.ok([tuple(x) for x in A.structure()] == [x.shape[1:] for x in A.data], 'index', 'structure')
    ctx.ok(A.bond_dimension == max(max(x.shape[1:]) for x in a), 'index', 'bond_dimension')


def overlaps(ctx):
    L, d = ch.size(ctx, 130)
    a, b = rand(ctx, L, d), rand(ctx, L, d)
    va, vb = dn.dense(a), dn.dense(b)
    sc = np.linalg.norm(va)*np.linalg.norm(vb)
    if sc < 1e-100:
        return
    A, B = fMPS(list(a)), fMPS(list(b))
    ctx.p(L=L, d=d, D=A.D, D2=B.D)
    ctx.close(A.overlap(B), np.vdot(vb, va), 'overlap', tol=1e-10, scale=sc)
    ctx.close(A.full_overlap(B), np.vdot(va, vb), 'full_overlap', tol=1e-10, scale=sc)
    ctx.close(A.norm(), np.vdot(va, va), 'overlap', tol=1e-10, scale=np.vdot(va, va).real)
    p = dn.crandn(ctx.rng, L, d)
    vp = np.ones(1)
    for x in p:
        vp = np.kron(vp, x)
    ctx.close(A.product_state_overlap(p), np.vdot(vp, va), 'product_overlap', tol=1e-10,
              scale=np.linalg.norm(va)*np.linalg.norm(vp))
    # mean overlap of the reduced states of windows
    na, nb = va/np.linalg.norm(va), vb/np.linalg.norm(vb)
    k = ctx.int(1, min(L, 3 if d == 2 else 2))
    def loc(w):
        return np.trace(dn.rdm(na, w, L, d)@dn.rdm(nb, w, L, d)).real
    As = [list(range(i, i+k)) for i in range(L-k+1)]
    ctx.close(A.k_local_approx_overlap(B, k), np.mean([loc(w) for w in As]), 'k_local_overlap', tol=1e-8)
    pick = [As[i] for i in ctx.rng.permutation(len(As))[:ctx.int(1, len(As))]]
    ctx.close(fMPS(list(a)).approx_overlap(fMPS(list(b)), pick), np.mean([loc(w) for w in pick]), 'approx_overlap', tol=1e-8)
    ctx.close(fMPS(list(a)).k_local_approx_overlap(fMPS(list(b))), np.vdot(vb, va), 'k_local_overlap', tol=1e-9, scale=sc)


def uniform(ctx):
    """the same operations of uniform chains"""
    d, D, p = ctx.choice((2, 3)), ctx.int(1, 4), ctx.int(1, 3)
    a = [dn.crandn(ctx.rng, d, D, D) for _ in range(p)]
    b = [dn.crandn(ctx.rng, d, D, D) for _ in range(p)]
    A, B = iMPS(list(a)), iMPS(list(b))
    z = complex(dn.crandn(ctx.rng, 1)[0])
    ctx.p(d=d, D=D, p=p)
    for got, want in ((A+B, [x+y for x, y in zip(a, b)]), (A-B, [x-y for x, y in zip(a, b)]), (A*z, [z*x for x in a]),
                      (z*A, [z*x for x in a]), (A/z, [x/z for x in a])):
        ctx.ok(len(got.data) == p, 'uniform', 'unit cell of %d' % len(got.data))
        for x, y in zip(got.data, want):
            rel(ctx, x, y, 'uniform')
    ctx.ok(all(x is y for x, y in zip(A.data, a)) and all(x is y for x, y in zip(B.data, b)), 'uniform', 'an operand changed')
    ctx.ok(all(A[k] is a[k] and A(k+1) is a[k] for k in range(p)) and len(A) == p, 'uniform', 'indexing')
    C = iMPS([x.copy() for x in a])
    ctx.ok(A == C and not (A != C) and C == A, 'uniform', 'equal chains differ')
    how = ctx.choice(['element', 'unit cell', 'bond', 'phys'])
    k = ctx.int(0, p-1)
    c = [x.copy() for x in a]
    if how == 'element':
        c[k].flat[ctx.int(0, c[k].size-1)] += ctx.choice([1., 1j, -.3])*max(1, np.abs(c[k]).max())
    elif how == 'unit cell':
        c = c+[c[0].copy()]
    elif how == 'bond':
        c = [np.pad(x, ((0, 0), (0, 1), (0, 1))) for x in c]
    else:
        c = [np.pad(x, ((0, 1), (0, 0), (0, 0))) for x in c]
    C = iMPS(c)
    ctx.ok(not (A == C) and not (C == A) and A != C, 'uniform', 'different chains equal: '+how)


def long(ctx):
    """chains beyond dense vectors: against overlaps with further chains"""
    a, L, d = lg.draw(ctx, kinds=('generic', 'weak', 'uneven', 'product'))
    b, c = (lg.random(ctx.rng, L, d, ctx.int(1, 6), ctx.choice(['generic', 'uneven'])) for _ in range(2))
    if ctx.flip():
        c = [ctx.rng.uniform(.2, 2)*x for x in b]           # a direction in which something is seen
    A, B, C = (fMPS([x.copy() for x in y]) for y in (a, b, c))
    z, w = dn.crandn(ctx.rng, 2)

    def raw(x, y):
        return lg.element(x, y, np.eye(d), ctx.int(0, L-1), 1, raw=True)
    na, nb, nc = (np.exp(lg.lognorm(x)) for x in (a, b, c))
    ctx.event('decided:long')
    ctx.close(A.overlap(C), raw(a, c), 'overlap', tol=1e-9, scale=na*nc)
    ctx.close(A.norm(), na**2, 'overlap', tol=1e-9, scale=na**2)
    s = A.add(B)
    if ctx.ok(dn.well_formed(s.data, d) is None and s.L == L, 'add'):
        ctx.close(raw(s.data, c), raw(a, c)+raw(b, c), 'add', tol=1e-9, scale=(na+nb)*nc)
        ctx.close(lg.lognorm(s.data)*2, np.log(na**2+nb**2+2*raw(a, b).real), 'add', tol=1e-6)
    ctx.close(raw(A.mul(z).data, c), z*raw(a, c), 'mul', tol=1e-9, scale=abs(z)*na*nc)
    e = A.mul(z).add(B.mul(w))
    ctx.close(raw(e.data, c), z*raw(a, c)+w*raw(b, c), 'expression', tol=1e-9, scale=(abs(z)*na+abs(w)*nb)*nc)
    p = dn.crandn(ctx.rng, L, d)
    q = [x.reshape(d, 1, 1) for x in p]
    ctx.close(A.product_state_overlap(p), raw(a, q), 'product_overlap', tol=1e-9, scale=na*np.exp(lg.lognorm(q)))
    k = ctx.int(1, 2)
    ctx.close(A.k_local_approx_overlap(B, k), np.mean([np.trace(lg.rdm(a, i, k)@lg.rdm(b, i, k)).real for i in range(L-k+1)]),
              'k_local_overlap', tol=1e-8)
    e = fMPS([x.copy() for x in a]).extend(fMPS([x.copy() for x in b]))
    ctx.ok(e.L == len(e) == 2*L, 'len')
    i = ctx.int(0, L-2)
    ctx.close(lg.lognorm(e.data), np.log(na)+np.log(nb), 'extend', tol=1e-8)
    ctx.close(lg.rdm(e.data, L-1, 2), np.kron(lg.rdm(a, L-1, 1), lg.rdm(b, 0, 1)), 'extend', tol=1e-9)
    ctx.close(lg.rdm(e.data, i, 2), lg.rdm(a, i, 2), 'extend', tol=1e-9)
    ctx.close(lg.rdm(e.data, L+i, 2), lg.rdm(b, i, 2), 'extend', tol=1e-9)
    A, x = fMPS([x.copy() for x in a]), [x.copy() for x in a]
    ctx.ok(A == fMPS([y.copy() for y in x]), 'eq_true')
    i = ctx.int(0, L-1)
    x[i].flat[ctx.int(0, x[i].size-1)] += 1+np.abs(x[i]).max()
    ctx.ok(A != fMPS(x) and not (A == fMPS(x)), 'eq_false', 'differs at site %d of %d' % (i, L))


SCENARIOS = [('algebra', algebra), ('itemwise', itemwise), ('joining', joining), ('equality', equality),
             ('indexing', indexing), ('uniform', uniform), ('overlaps', overlaps)]*3+[('long', long)]
