"""C23: two-dimensional networks contract to the vector they stand for."""
from functools import reduce
import numpy as np
from vlib import dense as dn, nets
from xmps.fPEPS import fPEPS
from xmps.fMPS import fMPS

PID = 'C23'
QUICK, THOROUGH = 12000, 150000
RULE = ('Lattices from 1x2 to 3x3 and 2x4 (width and height different, one-wide ones included), d 2-3, bonds of equal or of '
        'random sizes 1-3, complex or real tensors; the vector is summed over all bonds independently.')
MUST = ['recombine', 'snake_order', 'norm', 'overlap', 'full_overlap', 'normalise', 'E', 'E_k', 'apply', 'add', 'from_mps',
        'rho', 'environment', 'mpos', 'untouched', 'random', 'size', 'refused']

SIZES = [(2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 1), (1, 3), (4, 1), (1, 4), (3, 3), (4, 2), (2, 4)]


def lattice(ctx, X=3, sizes=SIZES, ds=(2, 2, 2, 3), cap=6600):
    while True:
        Lx, Ly = ctx.choice(sizes)
        d = ctx.choice(ds)
        if d**(Lx*Ly) <= cap and not (Lx*Ly > 8 and X > 2 and ctx.flip(.7)):
            break
    ctx.p(Lx=Lx, Ly=Ly, d=d)
    return Lx, Ly, d


def network(ctx, Lx, Ly, d, X=3):
    """rows of tensors and the fPEPS made from a copy of them"""
    X = ctx.int(1, X)
    vary, real = ctx.flip(), ctx.flip(.15)
    rows = nets.random(ctx.rng, Lx, Ly, d, X, vary, real)
    if ctx.flip(.2):
        # tiny and huge networks
        f = 10.**ctx.int(-5, 5)
        rows[ctx.int(0, Ly-1)][ctx.int(0, Lx-1)] *= f
        ctx.p(factor=f)
    ctx.p(X=X, vary=vary, real=real)
    return rows, fPEPS([[A.copy() for A in row] for row in rows])


def same(rows, p):
    return len(rows) == len(p.data) and all(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
                                            for a, b in zip(rows, p.data))


def scalar(x):
    return np.asarray(x).reshape(-1)[0] if np.asarray(x).size == 1 else x


def contraction(ctx):
    Lx, Ly, d = lattice(ctx)
    rows, p = network(ctx, Lx, Ly, d)
    v = nets.vector(rows)
    ctx.ok((p.Lx, p.Ly, p.d) == (Lx, Ly, d), 'size', 'says %s' % ((p.Lx, p.Ly, p.d),))
    ctx.ok(p.bond_dimension == max(max(A.shape[1:]) for r in rows for A in r), 'size', 'bond dimension')
    s = np.linalg.norm(v)
    ctx.close(np.reshape(p.recombine(), -1), v, 'recombine', tol=1e-10, scale=s)
    w = nets.dense(rows).reshape([d]*(Lx*Ly))
    order = sum([[j*Lx+i for i in (range(Lx) if j % 2 == 0 else reversed(range(Lx)))] for j in range(Ly)], [])
    ctx.close(np.reshape(p.recombine('row_snake'), -1), w.transpose(order).reshape(-1), 'snake_order', tol=1e-10, scale=s)
    ctx.close(scalar(p.norm()), s, 'norm', tol=1e-9, scale=s)
    rows2, q = network(ctx, Lx, Ly, d)
    u = nets.vector(rows2)
    sc = s*np.linalg.norm(u)
    ctx.close(scalar(p.overlap(q)), v.conj()@u, 'overlap', tol=1e-9, scale=sc)
    ctx.close(scalar(p.full_overlap(q)), v.conj()@u, 'full_overlap', tol=1e-9, scale=sc)
    ctx.ok(same(rows, p) and same(rows2, q), 'untouched', 'contraction changed the tensors')
    if s > 1e-8:
        p.normalise()
        x = nets.vector(p.data)
        ctx.close(np.linalg.norm(x), 1, 'normalise', tol=1e-9)
        ctx.close(np.abs(x.conj()@v)/s, 1, 'normalise', tol=1e-9)


def expectation(ctx):
    Lx, Ly, d = lattice(ctx)
    rows, p = network(ctx, Lx, Ly, d)
    v = nets.vector(rows)
    s = np.linalg.norm(v)**2
    op = dn.rop(ctx.rng, d)
    i, j = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    ctx.p(site=(i, j))
    want = dn.apply_op(op, [j*Lx+i], v, Lx*Ly, d)
    sc = s*np.linalg.norm(op, 2)
    ctx.close(scalar(p.E(op, (i, j))), (v.conj()@want).real, 'E', tol=1e-9, scale=sc)
    q = p.apply(op, (i, j))
    ctx.close(nets.vector(q.data), want, 'apply', tol=1e-9, scale=np.linalg.norm(v)*np.linalg.norm(op, 2))
    # a block
    x, y = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    w, h = ctx.int(1, Lx-x), ctx.int(1, Ly-y)
    if d**(w*h) > 300:
        w = h = 1
    ctx.p(block=(x, y, w, h))
    sites = [(y+b)*Lx+x+a for b in range(h) for a in range(w)]
    O = dn.rop(ctx.rng, d**(w*h))
    want = (v.conj()@dn.apply_op(O, sites, v, Lx*Ly, d)).real
    ctx.close(scalar(p.E_k(O, ((x, y), (w, h)))), want, 'E_k', tol=1e-9, scale=s*np.linalg.norm(O, 2))
    ctx.ok(same(rows, p), 'untouched', 'measuring changed the tensors')


def addition(ctx):
    Lx, Ly, d = lattice(ctx, sizes=[(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4)])
    rows, p = network(ctx, Lx, Ly, d, 2)
    rows2, q = network(ctx, Lx, Ly, d, 2)
    r = p.add(q)
    v, u = nets.vector(rows), nets.vector(rows2)
    sc = np.linalg.norm(v)+np.linalg.norm(u)
    ctx.close(nets.vector(r.data), v+u, 'add', tol=1e-10, scale=sc)
    ctx.ok((r.Lx, r.Ly, r.d) == (Lx, Ly, d), 'size', 'sum says %s' % ((r.Lx, r.Ly, r.d),))
    ctx.ok(same(rows, p) and same(rows2, q), 'untouched', 'addition changed its operands')
    if ctx.flip(.3):
        # measured as a network of its own
        op = dn.rop(ctx.rng, d)
        i, j = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
        x = v+u
        ctx.close(scalar(r.E(op, (i, j))), (x.conj()@dn.apply_op(op, [j*Lx+i], x, Lx*Ly, d)).real, 'E', tol=1e-9,
                  scale=np.linalg.norm(op, 2)*sc**2)


def snake(ctx):
    Lx, Ly, d = lattice(ctx)
    L = Lx*Ly
    D = ctx.int(1, 4)
    data = dn.rand_mps(ctx.rng, L, d, D, ctx.choice(dn.KINDS))
    m = fMPS([A.copy() for A in data])
    ctx.p(D=D)
    p = fPEPS().from_mps(m) if Lx == Ly and ctx.flip() else fPEPS().from_mps(m, Lx)
    ctx.ok((p.Lx, p.Ly) == (Lx, Ly), 'size', 'says %s' % ((p.Lx, p.Ly),))
    v = dn.dense(data)
    order = sum([[j*Lx+i for i in (range(Lx) if j % 2 == 0 else reversed(range(Lx)))] for j in range(Ly)], [])
    got = nets.dense(p.data).transpose(order).reshape(-1)
    ctx.close(got, v, 'from_mps', tol=1e-10, scale=max(1e-12, np.linalg.norm(v)))
    ctx.close(np.reshape(p.recombine('row_snake'), -1), v, 'snake_order', tol=1e-10, scale=max(1e-12, np.linalg.norm(v)))
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(data, m.data)), 'untouched', 'embedding changed the chain')
    if Lx > 1:
        bad = fMPS(dn.rand_mps(ctx.rng, L+1, d, 2, 'generic')) if (L+1) % Lx else None
        if bad is not None:
            ctx.raises(lambda: fPEPS().from_mps(bad, Lx), 'refused', Exception)
    if Lx != Ly and round(L**.5)**2 != L:
        # without a width the chain has to fill a square
        ctx.raises(lambda: fPEPS().from_mps(m), 'refused', Exception)


def product_states(ctx):
    """local density matrices of product networks"""
    Lx, Ly, d = lattice(ctx)
    rows = nets.random(ctx.rng, Lx, Ly, d, 1)
    rows = [[A/np.linalg.norm(A) for A in r] for r in rows]
    p = fPEPS([[A.copy() for A in r] for r in rows])
    x, y = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    w, h = ctx.int(1, Lx-x), ctx.int(1, Ly-y)
    ctx.p(block=(x, y, w, h))
    got = np.asarray(p.rho(((x, y), (w, h)))).reshape(-1, d, d)
    sites = [(y+b)*Lx+x+a for b in range(h) for a in range(w)]
    v = nets.vector(rows)
    if ctx.ok(len(got) == len(sites), 'rho', '%d matrices' % len(got)):
        for g, s in zip(got, sites):
            ctx.close(g, dn.rdm(v, [s], Lx*Ly, d), 'rho', tol=1e-10)
        if d**(w*h) <= 300:
            ctx.close(scalar(p.E_k(reduce(np.kron, got), ((x, y), (w, h)))), 1, 'rho', tol=1e-9)
    # |p><q| of every site of a block, by rows
    if ctx.flip():
        rows = nets.random(ctx.rng, Lx, Ly, d, 1)
        p = fPEPS([[A.copy() for A in r] for r in rows])
        ctx.close(p.rho(((x, y), (w, h))), p.rho_proj(p, ((x, y), (w, h))), 'rho', tol=1e-12)
    other = nets.random(ctx.rng, Lx, Ly, d, 1)
    q = fPEPS([[A.copy() for A in r] for r in other])
    got = np.asarray(p.rho_proj(q, ((x, y), (w, h))))
    want = np.array([[np.outer(rows[y+b][x+a].reshape(-1), other[y+b][x+a].reshape(-1).conj()) for a in range(w)] for b in range(h)])
    if ctx.ok(got.size == want.size, 'rho', '%s values' % (got.shape,)):
        ctx.close(got.reshape(want.shape), want, 'rho', tol=1e-12)
    ctx.ok(same(rows, p) and same(other, q), 'untouched', 'projecting changed a network')
    if not ctx.flip(.2):
        return
    ctx.raises(lambda: fPEPS(nets.random(ctx.rng, 2, 2, 2, 2)).rho_proj(q, ((0, 0), (1, 1))), 'refused', Exception)
    ctx.raises(lambda: fPEPS(nets.random(ctx.rng, 2, 2, 2, 2)).rho(((0, 0), (1, 1))), 'refused', Exception)


def transfer(A, B):
    return np.einsum('purdl,pURDL->uUrRdDlL', A, B.conj()).reshape([a*b for a, b in zip(A.shape[1:], B.shape[1:])])


def pieces(ctx):
    """environments (addressed by row and column) and transfer operators"""
    Lx, Ly, d = lattice(ctx, sizes=[(2, 2), (3, 2), (2, 3), (3, 3), (2, 1), (1, 2), (3, 1), (1, 3)])
    rows, p = network(ctx, Lx, Ly, d, 2)
    v = nets.vector(rows)
    a, b = ctx.int(0, Ly-1), ctx.int(0, Lx-1)
    ctx.p(site=(a, b))
    env = p.environment((a, b))
    t = transfer(rows[a][b], rows[a][b])
    n = np.linalg.norm(v)**2
    if ctx.ok(np.shape(env) == t.shape, 'environment', 'shape %s, tensor %s' % (np.shape(env), t.shape)):
        ctx.close(np.sum(env*t), n, 'environment', tol=1e-9, scale=n)
        # the environment does not depend on the tensor at the site
        W = dn.crandn(ctx.rng, *rows[a][b].shape)
        rows3 = [[A for A in r] for r in rows]
        rows3[a][b] = W
        n3 = np.linalg.norm(nets.vector(rows3))**2
        ctx.close(np.sum(env*transfer(W, W)), n3, 'environment', tol=1e-9, scale=n3+n)
    rows2, q = network(ctx, Lx, Ly, d, 2)
    other = ctx.flip()
    ms = p.row_mpos(q) if other else p.row_mpos()
    cs = p.col_mpos(q) if other else p.col_mpos()
    o = rows2 if other else rows
    ctx.ok(len(ms) == Ly and len(cs) == Lx, 'mpos', '%d rows, %d columns' % (len(ms), len(cs)))
    for j in range(Ly):
        for i in range(Lx):
            t = transfer(rows[j][i], o[j][i])
            ctx.close(ms[j].data[i], t, 'mpos', tol=1e-11, scale=max(1., np.abs(t).max()))
            ctx.close(cs[i].data[j], t.transpose([3, 2, 1, 0]), 'mpos', tol=1e-11, scale=max(1., np.abs(t).max()))


def generator(ctx):
    Lx, Ly, d = lattice(ctx, sizes=SIZES+[(4, 3), (3, 4), (5, 2)], cap=10**9)
    X = ctx.int(1, 4)
    ctx.p(X=X)
    p = fPEPS().random(Lx, Ly, d, X)
    want = [[(d, X if j else 1, X if i < Lx-1 else 1, X if j < Ly-1 else 1, X if i else 1) for i in range(Lx)] for j in range(Ly)]
    ctx.ok([[tuple(A.shape) for A in r] for r in p.data] == want, 'random', 'shapes %s' % p.structure)
    ctx.ok((p.Lx, p.Ly, p.d) == (Lx, Ly, d), 'size', 'says %s' % ((p.Lx, p.Ly, p.d),))
    ctx.ok(all(np.isfinite(A).all() and np.abs(A).max() > 0 for r in p.data for A in r), 'random', 'values')
    q = fPEPS(p.data)
    ctx.ok((q.Lx, q.Ly, q.d) == (Lx, Ly, d), 'size', 'rebuilt says %s' % ((q.Lx, q.Ly, q.d),))
    c = p.copy()
    ctx.ok(c == p and (c.Lx, c.Ly, c.d) == (Lx, Ly, d), 'size', 'copy')
    i, j = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    change = ctx.choice(['shift', 'phase', 'sign', 'in place'])
    old = p.data[j][i].copy()
    if change == 'shift':
        c.data[j][i] = c.data[j][i]+1e-2
    elif change == 'phase':
        c.data[j][i] = c.data[j][i]*np.exp(1j*ctx.choice([.1, 1, -2]))
    elif change == 'sign':
        c.data[j][i] = -c.data[j][i]
    else:
        c.data[j][i] *= 1.1
    ctx.p(change=change)
    ctx.ok(np.array_equal(p.data[j][i], old), 'untouched', 'changing a copy changed the network')
    ctx.ok(c != p and not c == p, 'random', 'equality blind to a change at %s' % ((i, j),))
    # the centre counts, too
    c = p.copy()
    p.oc, c.oc = (i, j), (ctx.int(0, Lx-1), ctx.int(0, Ly-1))
    ctx.ok((c == p) == (c.oc == p.oc), 'random', 'centres %s and %s' % (p.oc, c.oc))
    del c.oc
    ctx.ok(c != p and p != c, 'random', 'equality blind to a missing centre')
    k = p.copy()
    ctx.ok(k == p and tuple(k.oc) == (i, j), 'size', 'copy lost the centre')


SCENARIOS = [('contraction', contraction), ('expectation', expectation), ('addition', addition), ('snake', snake),
             ('product', product_states), ('pieces', pieces), ('generator', generator)]
