"""C01: network contraction equals its defining index sum."""
import numpy as np
from vlib.dense import crandn
from xmps.ncon import ncon
import xmps.fMPS as fm

PID = 'C01'
QUICK, THOROUGH = 60000, 400000
RULE = ('Random networks: 1-6 tensors, rank 0-5 (1-3 tensors with up to 13 open legs and 9 common bonds), leg sizes 1-4, labels drawn at random with self traces, multi-bonds, '
        'outer products; explicit contraction orders and output orders; malformed descriptions by single edits.')
MUST = ['value', 'value:order', 'value:forder', 'arguments', 'rejects:shape', 'rejects:count', 'rejects:label',
        'rejects:rank', 'wrapper', 'wide']


def network(ctx, kind='any'):
    """tensors, labels: the structure is drawn first, then labels are numbered at random"""
    rng = ctx.rng
    n = ctx.int(1, 6)
    legs = [[] for _ in range(n)]
    dims = {}
    nb = ctx.int(0, 7)
    labels = [int(x)+1 for x in rng.permutation(nb*(1 if ctx.flip(.7) else 3))[:nb]]   # possibly with gaps
    if kind == 'chain':
        pairs = [(i, i+1) for i in range(n-1)]
    else:
        pairs = []
    for k in range(nb):
        if k < len(pairs):
            a, b = pairs[k]
        elif ctx.flip(.2):
            a = b = ctx.int(0, n-1)
        else:
            a, b = ctx.int(0, n-1), ctx.int(0, n-1)
        if len(legs[a]) > 4 or len(legs[b]) > 4 or (a == b and len(legs[a]) > 3):
            continue
        legs[a].append(labels[k])
        legs[b].append(labels[k])
        dims[labels[k]] = ctx.int(1, 3)
    no = ctx.int(0, 5)
    for k in range(no):
        a = ctx.int(0, n-1)
        if len(legs[a]) > 4:
            continue
        lab = -(len([x for l in legs for x in l if x < 0])+1)
        legs[a].append(lab)
        dims[lab] = ctx.int(1, 4)
    # permute open labels between legs, and legs within tensors
    opens = sorted([x for l in legs for x in l if x < 0])
    perm = dict(zip(opens, [opens[i] for i in rng.permutation(len(opens))]))
    nd = dict(dims)
    for o in opens:
        nd[perm[o]] = dims[o]
    legs = [[perm.get(x, x) for x in l] for l in legs]
    legs = [[l[i] for i in rng.permutation(len(l))] for l in legs]
    real = ctx.flip(.2)
    ts = []
    for l in legs:
        t = crandn(rng, *[nd[x] for x in l])
        if real:
            t = np.real(t)
        ts.append(np.asarray(t))
        if ts[-1].ndim > 1 and ctx.flip(.3):          # non contiguous memory
            ts[-1] = np.asfortranarray(ts[-1])
    return ts, legs


def model(ts, legs, forder):
    """sum over every positive label, looping over index values"""
    args = []
    names = {x: k for k, x in enumerate(sorted({x for l in legs for x in l}))}
    for t, l in zip(ts, legs):
        args += [t, [names[x] for x in l]]
    return np.einsum(*args, [names[x] for x in forder], optimize=False)


def case(ctx):
    ts, legs = network(ctx, ctx.choice(['any', 'any', 'chain']))
    pos = sorted({x for l in legs for x in l if x > 0})
    opens = sorted({x for l in legs for x in l if x < 0}, reverse=True)
    order = forder = None
    mode = ctx.choice(['plain', 'order', 'forder', 'both'])
    if mode in ('order', 'both'):
        order = [pos[i] for i in ctx.rng.permutation(len(pos))]
    if mode in ('forder', 'both'):
        forder = [opens[i] for i in ctx.rng.permutation(len(opens))]
    ctx.p(legs=legs, shapes=[list(t.shape) for t in ts], order=order, forder=forder)
    if int(np.prod([1.0*t.size for t in ts])) == 0 or len(pos)+len(opens) > 20:
        return
    copies = [t.copy() for t in ts]
    a_legs = [list(l) for l in legs]
    a_order, a_forder = (None if order is None else list(order)), (None if forder is None else list(forder))
    A = ts if len(ts) > 1 or ctx.flip() else ts[0]
    lab = a_legs if not (len(ts) == 1 and len(a_legs[0]) and A is ts[0]) else a_legs[0]
    if ctx.flip(.3) and isinstance(A, list):
        A = tuple(A)
    kw = {}
    if a_order is not None:
        kw['order'] = a_order
    if a_forder is not None:
        kw['forder'] = a_forder
    chk = ctx.flip()
    got = ncon(A, lab, check_indices=chk, **kw)
    want = model(copies, legs, forder if forder is not None else opens)
    mech = {'plain': 'value', 'order': 'value:order', 'forder': 'value:forder', 'both': 'value:forder'}[mode]
    ctx.ok(np.shape(got) == np.shape(want), mech, 'shape %s, expected %s' % (np.shape(got), np.shape(want)))
    scale = max(1e-30, float(np.prod([max(1e-3, np.linalg.norm(t)) for t in copies])))
    ctx.close(np.reshape(got, -1), np.reshape(want, -1), mech, tol=1e-11, scale=max(1., scale))
    same = all(np.array_equal(a, b) and a.shape == b.shape for a, b in zip(ts, copies)) \
        and a_legs == [list(l) for l in legs] and a_order == order and a_forder == forder \
        and (not isinstance(A, (list, tuple)) or len(A) == len(copies))
    ctx.ok(same, 'arguments', 'an argument was changed: legs %s -> %s, order %s -> %s' % (legs, a_legs, order, a_order))
    # a second, reordered contraction of the same objects has the same value
    if pos:
        o2 = [pos[i] for i in ctx.rng.permutation(len(pos))]
        ctx.close(np.reshape(ncon(list(ts), [list(l) for l in legs], order=list(o2), check_indices=False), -1),
                  np.reshape(model(copies, legs, opens), -1), 'value:order', tol=1e-11, scale=max(1., scale))


def wide(ctx):
    """many open legs (more than nine labels of a kind), many bonds between two tensors"""
    n = ctx.int(1, 3)
    bonds, opens = ctx.int(0, 9) if n > 1 else 0, ctx.int(6, 13)
    names = [int(x)+1 for x in ctx.rng.permutation(bonds*ctx.choice([1, 3]))[:bonds]]
    legs, dims = [[] for _ in range(n)], {}
    for x in names:
        a, b = (0, 1) if ctx.flip(.8) else (ctx.int(0, n-1), ctx.int(0, n-1))
        legs[a].append(x)
        legs[b].append(x)
        dims[x] = ctx.choice([1, 2, 2])
    for k in range(opens):
        legs[ctx.int(0, n-1)].append(-k-1)
        dims[-k-1] = ctx.choice([1, 2, 2, 2, 3])
    legs = [[l[i] for i in ctx.rng.permutation(len(l))] for l in legs]
    ctx.p(legs=legs, dims=sorted(dims.items()))
    if max(np.prod([float(dims[x]) for x in l]) for l in legs) > 3e4 or np.prod([float(x) for x in dims.values()]) > 4e5:
        return
    ts = [np.asarray(crandn(ctx.rng, *[dims[x] for x in l])) for l in legs]
    forder = None if ctx.flip() else [int(x) for x in -1-ctx.rng.permutation(opens)]
    order = None if ctx.flip() else [int(x) for x in ctx.rng.permutation(names)] if names else None
    got = ncon(list(ts), [list(l) for l in legs], order=order, forder=None if forder is None else list(forder))
    want = model(ts, legs, forder or [-k-1 for k in range(opens)])
    ctx.ok(np.shape(got) == np.shape(want), 'wide', 'shape %s, expected %s' % (np.shape(got), np.shape(want)))
    ctx.close(np.reshape(got, -1), np.reshape(want, -1), 'wide', tol=1e-11, scale=max(1., np.prod([np.linalg.norm(t) for t in ts])))


def malformed(ctx):
    while True:
        ts, legs = network(ctx)
        pos = [x for l in legs for x in l if x > 0]
        if pos:
            break
    what = ctx.choice(['shape', 'count', 'label', 'rank', 'negative', 'zero', 'extra_order', 'dup_forder'])
    legs = [list(l) for l in legs]
    kw = {}
    lab = ctx.choice(pos)
    where = [(i, j) for i, l in enumerate(legs) for j, x in enumerate(l) if x == lab]
    i, j = where[ctx.int(0, 1)]
    ctx.p(what=what, legs=legs, at=(i, j))
    if what == 'shape':
        sh = list(ts[i].shape)
        sh[j] += 1
        ts[i] = crandn(ctx.rng, *sh)
        m = 'rejects:shape'
    elif what == 'count':
        if ctx.flip():
            ts = ts + [crandn(ctx.rng, 2, 2)]
        else:
            legs = legs + [[-99]]
        m = 'rejects:count'
    elif what == 'label':
        if ctx.flip():
            legs[i][j] = 77                       # both ends dangling
        else:
            other = [x for l in legs for x in l if x > 0 and x != lab]
            if other and ctx.flip():
                legs[i][j] = ctx.choice(other)    # three of one kind
            else:
                legs[i][j] = lab+1000
        m = 'rejects:label'
    elif what == 'rank':
        if ctx.flip():
            legs[i].append(-98)
        else:
            ts[i] = ts[i][..., None]
        m = 'rejects:rank'
    elif what == 'negative':
        # an open label used twice
        a, b = where[0], where[1]
        legs[a[0]][a[1]] = legs[b[0]][b[1]] = -97
        m = 'rejects:label'
    elif what == 'zero':
        a, b = where[0], where[1]
        legs[a[0]][a[1]] = legs[b[0]][b[1]] = 0
        m = 'rejects:label'
    elif what == 'extra_order':
        kw['order'] = sorted(set(pos)) + [991]
        m = 'rejects:label'
    else:
        opens = sorted({x for l in legs for x in l if x < 0}, reverse=True)
        kw['forder'] = opens + [-96]
        m = 'rejects:label'
    ctx.raises(lambda: ncon(ts, legs, **kw), m, exc=(ValueError, RuntimeError, IndexError, TypeError))


def wrapper(ctx):
    """the entry point the chain code uses"""
    ts, legs = network(ctx, 'chain')
    opens = sorted({x for l in legs for x in l if x < 0}, reverse=True)
    ctx.p(legs=legs, shapes=[list(t.shape) for t in ts])
    if len(opens) > 16:
        return
    copies = [t.copy() for t in ts]
    got = fm.ncon(ts, legs)
    want = model(copies, legs, opens)
    scale = max(1., float(np.prod([max(1e-3, np.linalg.norm(t)) for t in copies])))
    ctx.close(np.reshape(got, -1), np.reshape(want, -1), 'wrapper', tol=1e-11, scale=scale)


SCENARIOS = [('network', case), ('network', case), ('network', case), ('malformed', malformed), ('wrapper', wrapper), ('wide', wide)]
