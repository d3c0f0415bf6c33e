"""C07: operations leave their operands and copies alone."""
import os
import numpy as np
from vlib import dense as dn, chain as ch
from xmps.fMPS import fMPS, fTFD, vfMPS
from xmps.iMPS import iMPS
from xmps.fPEPS import fPEPS, fMPO
from xmps.Hamiltonians import Hamiltonian
from xmps import fTDVP, iTDVP

PID = 'C07'
QUICK, THOROUGH = 24000, 400000
RULE = ('Byte fingerprints (shape, dtype, content of every tensor, list lengths) of every operand are taken before and after '
        'each call. Cases: one value-returning operation, or a random history on a pair original/copy where every step '
        'acts on one of the two and the other must keep its fingerprint.')
MUST = ['operand', 'argument', 'copy_untouched', 'copy_equal', 'copy_type', 'hamiltonian', 'peps_copy', 'imps_copy', 'tfd_copy']


def fp(x):
    """fingerprint of anything made of arrays"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fp(y) for y in x])
    if isinstance(x, dict):
        return ('d', [(k, fp(v)) for k, v in x.items()])
    if hasattr(x, 'data') and isinstance(x.data, list):
        return (type(x).__name__, fp(x.data), repr(getattr(x, 'L', None)), getattr(x, 'd', None))
    return ('v', repr(x))


def frozen(ctx, mech, f, *xs, **kw):
    before = [fp(x) for x in xs]
    r = f()
    for k, (b, x) in enumerate(zip(before, xs)):
        ctx.ok(fp(x) == b, mech, 'operand %d changed by %s' % (k, kw))
    return r


def chain(ctx, L, d, canonical=False, kind=None):
    m = fMPS(dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind or ctx.choice(['generic', 'uniform', 'real', 'product', 'overcomplete'])))
    if canonical:
        m.left_canonicalise()
    return m


# ------------------------------------------------------------------ value returning operations
PURE = {
    'add': lambda c, a, b: a.add(b), '__add__': lambda c, a, b: a+b, '__sub__': lambda c, a, b: a-b,
    '__mul__': lambda c, a, b: a*2.5, '__rmul__': lambda c, a, b: 1j*a, '__truediv__': lambda c, a, b: a/3,
    'mul': lambda c, a, b: a.mul(1-2j), 'append': lambda c, a, b: a.append(np.ones((a.d, 1, 1))),
    'extend': lambda c, a, b: a.extend(b), 'apply': None, 'overlap': lambda c, a, b: a.overlap(b),
    'full_overlap': lambda c, a, b: a.full_overlap(b), 'norm': lambda c, a, b: a.norm(),
    'recombine': lambda c, a, b: a.recombine(), 'serialize': lambda c, a, b: a.serialize(c.flip()),
    'store': lambda c, a, b: a.store('s.npy', True), '__eq__': lambda c, a, b: (a == b, a != b),
    'structure': lambda c, a, b: a.structure(), 'get_envs': lambda c, a, b: a.get_envs(),
    'left_transfer': lambda c, a, b: a.left_transfer(np.eye(a[1].shape[1]), 0, 1),
    'str': lambda c, a, b: str(a), 'E_L': None, 'dA_dt': None, 'energy': None, 'projection_error': None,
    'from_fMPS': lambda c, a, b: fTFD().from_fMPS(a), 'copy': lambda c, a, b: a.copy(), 'match_gauge_to': None,
    'left_null_projector': None, 'christoffel': None, 'extract_tangent_vector': None, 'local_overlap_other': None,
}


def pure(ctx):
    name = ctx.choice(sorted(PURE))
    L, d = ch.size(ctx, 70)
    canon = name in ('dA_dt', 'energy', 'projection_error', 'left_null_projector', 'christoffel', 'extract_tangent_vector')
    kind = 'uniform' if canon else None
    a, b = chain(ctx, L, d, canon, kind), chain(ctx, L, d, canon, kind)
    if name in ('__add__', '__sub__', 'christoffel', 'extract_tangent_vector'):
        b = fMPS([dn.crandn(ctx.rng, *x.shape) for x in a.data])
    H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
    op, full = dn.rop(ctx.rng, d), dn.rherm(ctx.rng, d**L)
    v = dn.crandn(ctx.rng, 3)
    ctx.p(op=name, L=L, d=d)
    xs, mech = [a, b, H, op, full], 'operand'
    if name == 'apply':
        f = lambda: a.apply((op, ctx.int(0, L-1)))
    elif name == 'E_L':
        f = lambda: a.E_L(full)
    elif name == 'energy':
        f = lambda: (a.energy(H), a.energy(full, fullH=True))
    elif name == 'dA_dt':
        f = lambda: (a.dA_dt(H), a.dA_dt(full, fullH=True))
    elif name == 'projection_error':
        f = lambda: a.projection_error(H, 0.1)
    elif name == 'match_gauge_to':
        a2 = a.copy()
        f, xs = lambda: a2.match_gauge_to(a), [a, H]
    elif name == 'left_null_projector':
        f = lambda: a.left_null_projector(ctx.int(0, L-1))
    elif name == 'christoffel':
        f = lambda: a.christoffel(0, 1, 0)
    elif name == 'extract_tangent_vector':
        f = lambda: a.extract_tangent_vector(b) if any(np.prod(s) for s in a.tangent_space_dims()) else None
    elif name == 'local_overlap_other':
        # lazily recentres self and other, but changes neither state
        f, xs = lambda: a.product_state_overlap(op[:1].repeat(L, 0)), [a, op]
    else:
        f = lambda: PURE[name](ctx, a, b)
    frozen(ctx, mech, f, *xs, op=name)


ARGS = ['E', 'E_', 'Es', 'E_k', 'E_k_string', 'apply_two_site', 'two_site_D', 'from_state', 'deserialize',
        'from_product_state', 'edint', 'evolve', 'mps_evs', 'right_canonicalise_other', 'fTFD_dA', 'expand', 'vidal']


def arguments(ctx):
    """operators, Hamiltonians, vectors and lists handed to operations that do change their own chain"""
    name = ctx.choice(ARGS)
    L, d = ctx.int(2, 4), 2
    a, b = chain(ctx, L, d), chain(ctx, L, d)
    ops = [dn.rop(ctx.rng, d) for _ in range(L)]
    U = dn.runitary(ctx.rng, d*d)
    H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
    i, j = [int(x) for x in ctx.rng.permutation(L)[:2]]
    T = np.linspace(0, .05, 3)
    v = dn.rvec(ctx.rng, d**L).reshape([d]*L)
    xs = [b, ops, U, H, T, v]
    ctx.p(op=name, L=L)
    if name in ('E', 'E_'):
        f = lambda: getattr(a, name)(ops[0], i)
    elif name == 'Es':
        f = lambda: a.Es(ops, i)
    elif name == 'E_k':
        f = lambda: a.E_k(U, [0, 1])
    elif name == 'E_k_string':
        f = lambda: a.E_k(ops[:2], [0, 1], single_string=True)
    elif name == 'apply_two_site':
        f = lambda: a.apply_two_site((U, (i, j)))
    elif name == 'two_site_D':
        f = lambda: a.apply_two_site((U, (i, j)), D=2)
    elif name == 'from_state':
        f = lambda: (fMPS().left_from_state(v), fMPS().right_from_state(v))
    elif name == 'deserialize':
        s = b.serialize()
        st = [x.shape for x in b.data]
        xs += [s, st]
        f = lambda: fMPS().deserialize(s, structure=st).left_canonicalise()
    elif name == 'from_product_state':
        P = dn.crandn(ctx.rng, L, d)
        xs += [P]
        f = lambda: fMPS().from_product_state(P).left_canonicalise()
    elif name == 'edint':
        f = lambda: fTDVP.Trajectory(a, H=H).edint(T)
    elif name == 'evolve':
        a = chain(ctx, L, d, True, 'uniform')
        f = lambda: getattr(fTDVP.Trajectory(a, H=H), ctx.choice(['eulerint', 'rk4int']))(T)
    elif name == 'mps_evs':
        def f():
            t = fTDVP.Trajectory(chain(ctx, L, d, True, 'uniform'), H=H).eulerint(T)
            return t.mps_evs(ops[:2], 0) if hasattr(t, 'mps_evs') else None
    elif name == 'right_canonicalise_other':
        f = lambda: (a.right_canonicalise(), a.overlap(b), a.match_gauge_to(b) if a.structure() == b.structure() else 0)
    elif name == 'fTFD_dA':
        t = fTFD().from_fMPS(chain(ctx, 2, 2, True))
        f = lambda: (t.E(ops[0], 0, 0), t.Es(ops, 0, 1))
    elif name == 'expand':
        c = chain(ctx, L, d, True, 'product')
        f = lambda: c.dynamical_expand(H, .01, 2, None)
    elif name == 'vidal':
        f = lambda: vfMPS().from_fMPS(chain(ctx, L, d, False, 'uniform')).to_fMPS()
    frozen(ctx, 'argument', f, *xs, op=name)


# ------------------------------------------------------------------ copies
def act(ctx, m):
    """something that changes m in place"""
    L, d = m.L, m.d
    op = ctx.choice(['left', 'right', 'mixed', 'leftq', 'rightq', 'mixedq', 'E', 'gate', 'set', 'rho', 'inplace_set', 'pad', 'data',
                     'post'])
    if op == 'left':
        m.left_canonicalise(ctx.choice([None, 1, 2]))
    elif op == 'right':
        m.right_canonicalise(ctx.choice([None, 1, 2]))
    elif op == 'mixed':
        m.mixed_canonicalise(ctx.int(0, L-1))
    elif op == 'leftq':
        m.left_orthogonalise()
    elif op == 'rightq':
        m.right_orthogonalise()
    elif op == 'mixedq':
        m.mixed_orthogonalise(ctx.int(0, L-1))
    elif op == 'E':
        m.E(dn.rop(ctx.rng, d), ctx.int(0, L-1))
    elif op == 'gate':
        i, j = [int(x) for x in ctx.rng.permutation(L)[:2]]
        m.apply_two_site((dn.runitary(ctx.rng, d*d), (i, j)), D=4)
    elif op in ('set', 'inplace_set'):
        s = ctx.int(0, L-1)
        m[s] = 2*m[s]
    elif op == 'rho':
        m.rho([ctx.int(0, L-1)])
    elif op == 'pad':
        m.match_gauge_to(fMPS([dn.crandn(ctx.rng, *x.shape) for x in m.data]))
    elif op == 'data':
        m.data[ctx.int(0, L-1)] = np.zeros((d, 1, 1))
        return 'stop'
    elif op == 'post' and L > 2:
        s, v = ctx.int(0, L-1), dn.dense(m.data)
        if np.linalg.norm(np.take(v.reshape([d]*L), 0, axis=s)) > 1e-6*np.linalg.norm(v):
            m.post_select(s, 0)
    return op


def copies(ctx):
    """original and copy, every step on one of them"""
    L, d = ch.size(ctx, 70, Lmin=3)
    a = chain(ctx, L, d)
    if ctx.flip():
        getattr(a, ctx.choice(['left_canonicalise', 'right_canonicalise', 'left_orthogonalise', 'right_orthogonalise']))()
    b = frozen(ctx, 'operand', a.copy, a)
    ctx.ok(type(b) is fMPS and b is not a, 'copy_type')
    ctx.ok(fp(b) == fp(a), 'copy_equal')
    ctx.p(L=L, d=d, n=ctx.int(1, 6), u=float(ctx.rng.random()))
    for _ in range(ctx.params['n']):
        x, y = (a, b) if ctx.flip() else (b, a)
        before = fp(y)
        op = act(ctx, x)
        ctx.note(op)
        if not ctx.ok(fp(y) == before, 'copy_untouched', '%s on one of the pair changed the other' % op) or op == 'stop':
            return


def tfd(ctx):
    L = ctx.int(2, 4)
    t = fTFD().from_fMPS(chain(ctx, L, 2, True))
    b = t.copy()
    ctx.p(L=L, u=float(ctx.rng.random()))
    ctx.ok(type(b) is fTFD, 'copy_type', type(b).__name__)
    ctx.ok(fp(b) == fp(t), 'copy_equal')
    before = fp(t)
    op = ctx.choice(['left', 'E', 'mixed', 'set'])
    if op == 'left':
        b.left_canonicalise()
    elif op == 'E':
        b.E(dn.rop(ctx.rng, 2), ctx.int(0, L-1), ctx.int(0, 1))
    elif op == 'mixed':
        b.mixed_orthogonalise(ctx.int(0, L-1))
    else:
        b[0] = 2*b[0]
    ctx.ok(fp(t) == before, 'tfd_copy', op)


def infinite(ctx):
    d, D = ctx.choice([2, 3]), ctx.int(2, 4)
    a = iMPS([dn.crandn(ctx.rng, d, D, D)])
    if ctx.flip():
        a.canonicalise(ctx.choice(['l', 'r', 'm']))
    b = a.copy()
    ctx.p(d=d, D=D, u=float(ctx.rng.random()))
    ctx.ok(type(b) is iMPS and fp(b) == fp(a), 'copy_equal')
    before = fp(a)
    op = ctx.choice(['canonicalise', 'E', 'energy', 'overlap', 'set', 'dA_dt'])
    H = [dn.rherm(ctx.rng, d*d)]
    hb = fp(H)
    if op == 'canonicalise':
        b.canonicalise(ctx.choice(['l', 'r', 'm']))
    elif op == 'E':
        b.E(dn.rop(ctx.rng, d))
    elif op == 'energy':
        b.energy(H)
    elif op == 'overlap':
        b.overlap(iMPS([dn.crandn(ctx.rng, d, D, D)]))
    elif op == 'dA_dt':
        b.canonicalise('l').dA_dt(H)
    else:
        b[0] = 2*b[0]
    ctx.ok(fp(a) == before, 'imps_copy', op)
    ctx.ok(fp(H) == hb, 'argument', op)
    # unit cells of several sites
    p = ctx.int(2, 3)
    a = iMPS([dn.crandn(ctx.rng, d, D, D) for _ in range(p)])
    b = a.copy()
    ctx.ok(type(b) is iMPS and fp(b) == fp(a), 'copy_equal')
    ctx.ok(len(b) == p and b.period == p and b == a and all(np.array_equal(x, y) for x, y in zip(b, a)), 'copy_equal', 'unit cell of %d' % p)
    before, k = fp(a), ctx.int(-p, p-1)
    if ctx.flip():
        b[k] = 2*b[k]
    else:
        b.deserialize(2*b.serialize(), d, D, p)
    ctx.ok(fp(a) == before, 'imps_copy', 'site of a unit cell')
    f = iMPS([dn.crandn(ctx.rng, d, D, D) for _ in range(p)])
    for g in (lambda: a+f, lambda: a-f, lambda: a*2, lambda: a/2, lambda: a.serialize(True), lambda: a == f):
        frozen(ctx, 'operand', g, a, f)
    c = iMPS([dn.crandn(ctx.rng, d, D, D)])
    e = iMPS([dn.crandn(ctx.rng, d, D, D)])
    for f in (lambda: c+e, lambda: c-e, lambda: c*2, lambda: 1j*c, lambda: c/2, lambda: c.serialize(True), lambda: c == e,
              lambda: c.energy(H), lambda: c.eigs(), lambda: c.overlap(e)):
        frozen(ctx, 'operand', f, c, e, H)


def peps(ctx):
    Lx, Ly = ctx.choice([(2, 2), (2, 3), (3, 2), (1, 3), (3, 1)])
    a, b = fPEPS().random(Lx, Ly, 2, ctx.int(1, 2)), fPEPS().random(Lx, Ly, 2, ctx.int(1, 2))
    op = dn.rop(ctx.rng, 2)
    s = (ctx.int(0, Lx-1), ctx.int(0, Ly-1))
    ctx.p(Lx=Lx, Ly=Ly, u=float(ctx.rng.random()))
    def all_of(x):
        return fp(x.data)
    xs = (a, b, op)
    before = [fp(a.data), fp(b.data), fp(op)]
    fs = {'overlap': lambda: a.overlap(b), 'norm': lambda: a.norm(), 'recombine': lambda: a.recombine(),
          'snake': lambda: a.recombine('row_snake'), 'T': lambda: a.T, 'R': lambda: a.R, 'U': lambda: a.U,
          'apply': lambda: a.apply(op, s), 'E': lambda: a.E(op, s), 'copy': lambda: a.copy(), 'eq': lambda: a == b,
          'row_contract': lambda: a.row_contract(0, Ly), 'row_mpos': lambda: a.row_mpos(b)}
    if min(Lx, Ly) > 1:
        fs['add'] = lambda: a.add(b)
    for name in ctx.rng.permutation(sorted(fs))[:3]:
        fs[name]()
        ctx.ok([fp(a.data), fp(b.data), fp(op)] == before, 'operand', 'peps '+str(name))
    c = a.copy()
    ctx.ok(fp(c.data) == fp(a.data), 'copy_equal')
    what = ctx.choice(['normalise', 'set', 'inplace', 'truncate'])
    if what == 'normalise':
        c.normalise()
    elif what == 'set':
        c.data[0][0] = 0*c.data[0][0]
    elif what == 'inplace':
        c.data[-1][-1][...] = 0
    elif Ly > 1:
        c.truncate_above(1, 1)
    ctx.ok(fp(a.data) == before[0], 'peps_copy', what)
    # matrix product operators
    x, y = fMPO().random(2, 2, 2), fMPO().random(2, 2, 2)
    frozen(ctx, 'operand', lambda: x*y, x, y)
    frozen(ctx, 'operand', lambda: x.recombine(), x)


def hamiltonian(ctx):
    keys = ['X', 'Y', 'Z', 'XX', 'ZZ', 'XI', 'IZ']
    strings = {keys[i]: ctx.choice([float(ctx.rng.normal()), float(ctx.rng.normal()), 0., 1e-9]) for i in ctx.rng.permutation(len(keys))[:ctx.int(1, 5)]}
    before = fp(strings)
    ctx.p(strings=sorted(strings))
    h = Hamiltonian(strings)
    own = fp(h.strings)
    for _ in range(ctx.int(1, 4)):
        ctx.choice([h.to_matrix, lambda: h.to_matrices(ctx.int(2, 4)), lambda: h.to_full(ctx.int(2, 4)), lambda: str(h)])()
    ctx.ok(fp(strings) == before, 'hamiltonian', 'the dictionary of the caller changed')
    ctx.ok(fp(h.strings) == own, 'hamiltonian', 'the terms of the object changed')
    ms = [dn.rherm(ctx.rng, 4) for _ in range(ctx.int(1, 3))]
    frozen(ctx, 'hamiltonian', lambda: Hamiltonian(matrices=ms).to_full(), ms)


SCENARIOS = [('pure', pure), ('copies', copies), ('arguments', arguments), ('pure', pure), ('copies', copies),
             ('infinite', infinite), ('peps', peps), ('hamiltonian', hamiltonian), ('tfd', tfd)]
