"""C24: reflections, isometric forms and truncations of two-dimensional networks."""
import numpy as np
from vlib import dense as dn, nets
from xmps import fPEPS as fp
from xmps.fPEPS import fPEPS
from checks.c23 import lattice, network, same, scalar

PID = 'C24'
QUICK, THOROUGH = 16000, 150000
RULE = ('Sequences of 1-6 reflections and transpositions, and isometric forms about every centre, of lattices up to 4x4 with '
        'sides different and bonds of equal or random sizes; truncations of bonds that carry only zeros beyond the kept size.')
MUST = ['relabel', 'inverse', 'centre', 'isometry', 'iso_norm', 'iso_E', 'limit', 'lossless', 'kept', 'neighbours', 'untouched', 'refused', 'turned']


def flip(order, which):
    """sites (an array of labels, rows x columns) under the reflection"""
    return {'T': order.T, 'R': order[:, ::-1], 'U': order[::-1]}[which]


def reflections(ctx):
    Lx, Ly, d = lattice(ctx)
    rows, p = network(ctx, Lx, Ly, d)
    v = nets.dense(rows)
    order = np.arange(Lx*Ly).reshape(Ly, Lx)
    oc = (ctx.int(0, Lx-1), ctx.int(0, Ly-1)) if ctx.flip() else None
    q = p.copy()
    if oc is not None:
        q.oc = oc
    ops = [ctx.choice('TRU') for _ in range(ctx.int(1, 6))]
    ctx.p(ops=ops, oc=oc)
    for o in ops:
        before = [[A.copy() for A in r] for r in q.data]
        r = getattr(q, o)
        ctx.ok(same(before, q), 'untouched', '%s changed its network' % o)
        q = r
        order = flip(order, o)
    s = max(1e-12, np.linalg.norm(v))
    ctx.ok((q.Ly, q.Lx) == order.shape and q.d == d, 'relabel', 'size')
    ctx.close(nets.dense(q.data), v.transpose(list(order.reshape(-1))), 'relabel', tol=1e-11, scale=s)
    if oc is not None:
        i, j = q.oc
        ctx.ok(order[j, i] == oc[1]*Lx+oc[0], 'centre', 'centre %s became %s under %s' % (oc, q.oc, ops))
    for o in reversed(ops):
        q = getattr(q, o)
    ctx.ok(same(rows, q) and (oc is None or tuple(q.oc) == oc), 'inverse', 'not restored by %s' % ops[::-1])
    ctx.ok(q == p or oc is not None, 'inverse', 'restored network compares different')
    # a measured quantity moves along
    op = dn.rop(ctx.rng, d)
    i, j = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    o = ctx.choice('TRU')
    a, b = {'T': (j, i), 'R': (Lx-1-i, j), 'U': (i, Ly-1-j)}[o]
    ctx.close(scalar(getattr(p, o).E(op, (a, b))), scalar(p.E(op, (i, j))), 'relabel', tol=1e-9,
              scale=s**2*np.linalg.norm(op, 2))


def out_legs(i, j, c):
    """legs (1 up, 2 right, 3 down, 4 left) that point towards the centre"""
    legs = []
    if i > c[0]:
        legs.append(4)
    if i < c[0]:
        legs.append(2)
    if j > c[1]:
        legs.append(1)
    if j < c[1]:
        legs.append(3)
    return legs


def isometric(ctx):
    Lx, Ly = ctx.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 2), (2, 4), (2, 1), (3, 1), (1, 3), (4, 1), (1, 4), (4, 4)])
    d = ctx.choice([2, 2, 3])
    X = ctx.int(1, 5)
    c = (ctx.int(0, Lx-1), ctx.int(0, Ly-1))
    ctx.p(Lx=Lx, Ly=Ly, d=d, X=X, c=c)
    p = fPEPS().random(Lx, Ly, d, X) if ctx.flip() else fPEPS(nets.random(ctx.rng, Lx, Ly, d, X))
    if ctx.flip(.25):
        # isometrised about another centre before
        p.isometrise((ctx.int(0, Lx-1), ctx.int(0, Ly-1)))
        ctx.p(again=True)
    p.isometrise(c)
    ctx.ok(tuple(p.oc) == c, 'centre', 'centre %s' % (p.oc,))
    for j, row in enumerate(p.data):
        for i, A in enumerate(row):
            if i < Lx-1:
                ctx.ok(A.shape[2] == p.data[j][i+1].shape[4], 'neighbours', 'horizontal bond at %s' % ((i, j),))
            if j < Ly-1:
                ctx.ok(A.shape[3] == p.data[j+1][i].shape[1], 'neighbours', 'vertical bond at %s' % ((i, j),))
            legs = out_legs(i, j, c)
            M = np.moveaxis(A, legs, range(len(legs))).reshape(int(np.prod([A.shape[k] for k in legs])), -1)
            ctx.close(M.conj()@M.T, np.eye(len(M)), 'isometry', tol=1e-9)
    ctx.ok(max(max(A.shape[1:]) for r in p.data for A in r) <= X, 'limit', 'bonds grew')
    op = dn.rop(ctx.rng, d)
    small = d**(Lx*Ly) <= 6600
    if small:
        v = nets.vector(p.data)
        ctx.close(np.linalg.norm(v), 1, 'iso_norm', tol=1e-9)
        want = (v.conj()@dn.apply_op(op, [c[1]*Lx+c[0]], v, Lx*Ly, d)).real
        ctx.close(scalar(p.iso_E(op)), want, 'iso_E', tol=1e-9, scale=np.linalg.norm(op, 2))
    ctx.close(scalar(p.norm()), 1, 'iso_norm', tol=1e-8)
    e = scalar(p.E(op, c))
    ctx.close(scalar(p.iso_E(op, c)), e, 'iso_E', tol=1e-9, scale=np.linalg.norm(op, 2))
    ctx.close(np.ravel(p.iso_Es([(op, c)])), [e], 'iso_E', tol=1e-9, scale=np.linalg.norm(op, 2))
    if ctx.flip(.2) and Lx*Ly > 1:
        # away from the centre: moved there, or refused
        s = (ctx.int(0, Lx-1), ctx.int(0, Ly-1))
        for f in (lambda: scalar(p.copy().iso_E(op, s)), lambda: scalar(p.copy().iso_Es([(op, s)]))):
            try:
                got = f()
            except Exception:
                ctx.event('away:refused')
            else:
                ctx.close(got, scalar(p.E(op, s)), 'iso_E', tol=1e-9, scale=np.linalg.norm(op, 2))
    o = ctx.choice('TRU')
    ctx.close(scalar(getattr(p, o).iso_E(op)), e, 'iso_E', tol=1e-9, scale=np.linalg.norm(op, 2))
    if ctx.flip(.1):
        ctx.raises(lambda: fPEPS().random(2, 2, 2, 2).iso_E(np.eye(2)), 'refused', Exception)


def tensors(ctx):
    """a single tensor, turned and doubled"""
    A = dn.crandn(ctx.rng, *[ctx.int(1, 4) for _ in range(5)])
    ctx.p(shape=A.shape)
    # clockwise from the top: one step on, one step back
    ctx.ok(np.array_equal(fp.rotate_peps_tensor_cc(A), np.moveaxis(A, 4, 1)), 'turned', 'legs one step on')
    ctx.ok(np.array_equal(fp.rotate_peps_tensor_ac(A), np.moveaxis(A, 1, 4)), 'turned', 'legs one step back')
    ctx.ok(np.array_equal(fp.rotate_peps_tensor_ac(fp.rotate_peps_tensor_cc(A)), A), 'turned', 'there and back')
    ctx.ok(np.array_equal(fp.transpose_peps_tensor(A), np.einsum('purdl->pldru', A)), 'turned', 'transposed')
    t = np.einsum('purdl,pURDL->uUrRdDlL', A, A.conj())
    ctx.close(fp.transfer_tensor(A), t, 'turned', tol=1e-12, scale=np.linalg.norm(A)**2)
    col = [dn.crandn(ctx.rng, 2, 3, 2, 3, 2) for _ in range(3)]
    D = ctx.int(1, 4)
    cut = fp.col_truncate(col, D)
    ctx.ok(all(np.array_equal(a[:, :D, :, :D], b) for a, b in zip(col, cut)) and len(cut) == 3, 'kept', 'column')
    # grouped as a map towards one side or corner, and back
    w = ctx.int(1, 4)
    opposite = {1: 3, 2: 4, 3: 1, 4: 2}
    M, pipe = fp.tensor_grouping_lrud(A, w)
    ctx.ok(M.shape == (A.size//A.shape[opposite[w]], A.shape[opposite[w]]), 'turned', 'map %s of %s' % (M.shape, A.shape))
    ctx.close(np.linalg.norm(M, axis=0), np.linalg.norm(np.moveaxis(A, opposite[w], 0).reshape(A.shape[opposite[w]], -1), axis=1),
              'turned', tol=1e-12, scale=np.linalg.norm(A))
    ctx.ok(np.array_equal(fp.ungroup_legs(M, pipe), A), 'turned', 'map and back')
    N, pipe = fp.tensor_grouping_diag(A, w)
    ctx.ok(N.size == A.size and np.array_equal(fp.ungroup_legs(N, pipe), A), 'turned', 'corner map and back')


def padded(ctx, rows, grow):
    """the same network with zeros (below and right of) chosen bonds: grow(i, j, leg) -> extra size"""
    out = []
    for j, row in enumerate(rows):
        out.append([np.pad(A, [(0, 0)]+[(0, grow(i, j, leg)) for leg in range(1, 5)]) for i, A in enumerate(row)])
    return out


def truncations(ctx):
    Lx, Ly, d = lattice(ctx)
    rows, p = network(ctx, Lx, Ly, d)
    v = nets.vector(rows)
    X = max(max(A.shape[1:]) for r in rows for A in r)
    kind = ctx.choice(['above', 'below', 'left', 'row', 'column'])
    k = ctx.int(0, (Lx if kind in ('left', 'column') else Ly)-1)
    ctx.p(kind=kind, k=k)

    def inner(i, j, leg):
        return {1: j > 0, 2: i < Lx-1, 3: j < Ly-1, 4: i > 0}[leg]

    def cut(i, j, leg):
        """is this leg shortened by the operation"""
        if not inner(i, j, leg):
            return False
        return {'above': (j == k and leg == 1) or (j == k-1 and leg == 3), 'below': (j == k and leg == 3) or (j == k+1 and leg == 1),
                'left': (i == k and leg == 4) or (i == k-1 and leg == 2), 'row': j == k and leg in (2, 4),
                'column': i == k and leg in (1, 3)}[kind]
    call = {'above': p.truncate_above, 'below': p.truncate_below, 'left': p.truncate_left, 'row': p.truncate_along_row,
            'column': p.truncate_along_column}[kind]
    if (kind == 'above' and k == 0) or (kind == 'below' and k == Ly-1) or (kind == 'left' and k == 0):
        ctx.raises(lambda: call(k, 2), 'refused', Exception)
        ctx.ok(same(rows, p), 'untouched', 'a refused truncation changed the network')
        return
    extra = ctx.int(0, 2)
    big = padded(ctx, rows, lambda i, j, leg: extra*cut(i, j, leg))
    p = fPEPS([[A.copy() for A in r] for r in big])
    call = {'above': p.truncate_above, 'below': p.truncate_below, 'left': p.truncate_left, 'row': p.truncate_along_row,
            'column': p.truncate_along_column}[kind]
    D = ctx.int(1, X+extra) if ctx.flip() else X
    ctx.p(D=D, extra=extra)
    call(k, D)
    for j in range(Ly):
        for i in range(Lx):
            take = [slice(None)]+[slice(D) if cut(i, j, leg) else slice(None) for leg in range(1, 5)]
            ctx.ok(p.data[j][i].shape == big[j][i][tuple(take)].shape, 'limit', 'site %s: %s' % ((i, j), p.data[j][i].shape))
            ctx.ok(np.array_equal(p.data[j][i], big[j][i][tuple(take)]), 'kept', 'values at %s' % ((i, j),))
    if D >= X:
        ctx.close(nets.vector(p.data), v, 'lossless', tol=1e-11, scale=max(1e-12, np.linalg.norm(v)))
        ctx.close(np.reshape(p.recombine(), -1), v, 'lossless', tol=1e-10, scale=max(1e-12, np.linalg.norm(v)))


def neighbours(ctx):
    """a tensor with other bond sizes than its neighbours: all are cut to the smaller"""
    Lx, Ly, d = lattice(ctx)
    rows, _ = network(ctx, Lx, Ly, d)
    v = nets.vector(rows)
    i, j = ctx.int(0, Lx-1), ctx.int(0, Ly-1)
    inner = {1: j > 0, 2: i < Lx-1, 3: j < Ly-1, 4: i > 0}
    grow = [(0, 0)]+[(0, ctx.int(0, 2)*inner[leg]) for leg in range(1, 5)]
    ctx.p(site=(i, j), grow=grow)
    p = fPEPS([[A.copy() for A in r] for r in rows])
    p.data[j][i] = np.pad(rows[j][i], grow)
    p.fix_neighbours(i, j)
    ctx.ok(same(rows, p), 'neighbours', 'tensors beyond %s changed' % ((i, j),))
    # the other way: the tensor is smaller than its neighbours
    p = fPEPS([[A.copy() for A in r] for r in rows])
    for leg, (a, b, o) in {1: (i, j-1, 3), 2: (i+1, j, 4), 3: (i, j+1, 1), 4: (i-1, j, 2)}.items():
        if inner[leg]:
            pad = [(0, 0)]*5
            pad[o] = (0, ctx.int(0, 2))
            p.data[b][a] = np.pad(p.data[b][a], pad)
    p.fix_neighbours(i, j)
    ctx.ok(same(rows, p), 'neighbours', 'tensors around %s not cut' % ((i, j),))
    ctx.close(nets.vector(p.data), v, 'lossless', tol=1e-11, scale=max(1e-12, np.linalg.norm(v)))


SCENARIOS = [('tensors', tensors), ('reflections', reflections), ('isometric', isometric), ('truncations', truncations), ('neighbours', neighbours)]
