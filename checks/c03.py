"""C03: finite chains and dense vectors convert into each other."""
import numpy as np
from vlib import dense as dn, chain as ch
from vlib.dense import crandn
from xmps.fMPS import fMPS

PID = 'C03'
QUICK, THOROUGH = 15000, 25000
RULE = 'Chains of length 2-8, d 2-4 from an adversarial catalogue of state shapes; dense vectors split from either end.'
MUST = ['left_from_state', 'right_from_state', 'recombine', 'overlap', 'full_overlap', 'norm', 'random', 'structure',
        'product', 'argument', 'isometry', 'bonds']


def size(ctx, cap=800):
    return ch.size(ctx, cap)


def from_state(ctx):
    L, d = size(ctx)
    kind = ctx.choice(['vector', 'real', 'int', 'fortran', 'steep'] + dn.KINDS)
    if kind in ('vector', 'fortran'):
        v = crandn(ctx.rng, d**L)*10**ctx.rng.uniform(-3, 3)
    elif kind == 'steep':               # a superposition with small components elsewhere
        v = sum(10.**-k*dn.dense(dn.rand_mps(ctx.rng, L, d, 1, 'product')) for k in (0, 3, 6, 9))
    elif kind == 'real':
        v = ctx.rng.standard_normal(d**L)
    elif kind == 'int':
        v = ctx.rng.integers(-1, 2, d**L).astype(float)
        v[ctx.int(0, d**L-1)] = 1
    else:
        v = dn.dense(dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind))
    t = v.reshape([d]*L)
    if kind == 'fortran':
        t = np.asfortranarray(t)
    t0 = t.copy()
    left = ctx.flip()
    ctx.p(L=L, d=d, kind=kind, left=left)
    m = (fMPS().left_from_state if left else fMPS().right_from_state)(t)
    mech = 'left_from_state' if left else 'right_from_state'
    bad = dn.well_formed(m.data, d)
    if not ctx.ok(bad is None, mech, bad):
        return
    psi = dn.dense(m.data)
    ctx.close(dn.same_ray(psi, v), 0, mech, tol=1e-9)
    ctx.close(np.linalg.norm(psi), 1, mech, tol=1e-9)
    r = m.recombine()
    ctx.ok(r.shape == (d,)*L, mech, 'shape %s' % (r.shape,))
    ctx.close(dn.same_ray(r.reshape(-1), v), 0, mech, tol=1e-9)
    ctx.ok(np.array_equal(t, t0), 'argument')
    ctx.ok((m.L, m.d, m.D) == (L, d, max(max(x.shape[1:]) for x in m.data)) and len(m) == L, 'bonds')
    for x in m.data:
        if left:
            ctx.close(np.einsum('pab,pac->bc', x.conj(), x), np.eye(x.shape[2]), 'isometry', tol=1e-9)
        else:
            ctx.close(np.einsum('pab,pcb->ac', x, x.conj()), np.eye(x.shape[1]), 'isometry', tol=1e-9)
    for i in range(1, L):
        ctx.ok(m[i].shape[1] <= min(d**i, d**(L-i)), 'bonds', 'bond %d is %d' % (i, m[i].shape[1]))


def to_state(ctx):
    L, d = size(ctx, 400)
    kind, kind2 = ctx.choice(dn.KINDS), ctx.choice(dn.KINDS)
    D, D2 = ctx.int(1, 5), ctx.int(1, 5)
    a, b = dn.rand_mps(ctx.rng, L, d, D, kind), dn.rand_mps(ctx.rng, L, d, D2, kind2)
    ctx.p(L=L, d=d, D=(D, D2), kind=(kind, kind2))
    A, B = fMPS([x.copy() for x in a]), fMPS([x.copy() for x in b])
    va, vb = dn.dense(a), dn.dense(b)
    s = max(1e-12, np.linalg.norm(va)*np.linalg.norm(vb))
    r = A.recombine()
    ctx.ok(r.shape == (d,)*L, 'recombine', 'shape')
    ctx.close(r.reshape(-1), va, 'recombine', tol=1e-10, scale=max(1e-12, np.linalg.norm(va)))
    ctx.close(A.overlap(B), np.vdot(vb, va), 'overlap', tol=1e-10, scale=s)
    ctx.close(B.overlap(A), np.vdot(va, vb), 'overlap', tol=1e-10, scale=s)
    ctx.close(A.full_overlap(B), np.vdot(va, vb), 'full_overlap', tol=1e-10, scale=s)
    ctx.close(A.norm(), np.vdot(va, va), 'norm', tol=1e-10, scale=max(1e-12, np.linalg.norm(va)**2))
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(A.data, a)) and all(np.array_equal(x, y) for x, y in zip(B.data, b)),
           'argument')
    ctx.ok((A.L, A.d, A.D, A.bond_dimension) == (L, d)+(max(max(x.shape[1:]) for x in a),)*2, 'bonds')
    ctx.ok(A.structure() == [x.shape[1:] for x in a], 'structure')
    if ctx.flip(.3):
        c = fMPS([np.ones((d, 1, 1))]*(L+1))
        ctx.raises(lambda: A.overlap(c), 'overlap:lengths', exc=(AssertionError, ValueError))


def generators(ctx):
    L, d = ctx.int(2, 9), ctx.int(2, 4)
    D = ctx.choice([None, 1, 1, 2, 3, 4, 5, 7, 16, 40])
    real = ctx.flip(.3)
    ctx.p(L=L, d=d, D=D, real=real)
    cap = d**L if D is None else D
    bond = [min(d**min(i, L-i), cap) for i in range(L+1)]
    if D is None:
        st = fMPS().create_structure(min(L, 6), d, None)
        ctx.ok([tuple(x) for x in st] == [(d**min(i, min(L, 6)-i), d**min(i+1, min(L, 6)-i-1)) for i in range(min(L, 6))],
               'structure', 'structure %s' % (st,))
        return
    st = fMPS().create_structure(L, d, D)
    ctx.ok([tuple(x) for x in st] == list(zip(bond, bond[1:])), 'structure', 'structure %s' % (st,))
    m = fMPS()
    st = m.random(L, d, D, real=real)
    bad = dn.well_formed(st.data, d)
    if not ctx.ok(bad is None and len(st) == L, 'random', bad):
        return
    ctx.ok([x.shape[1:] for x in st.data] == list(zip(bond, bond[1:])), 'random', 'bonds')
    ctx.ok((st.L, st.d, st.D) == (L, d, max(bond)), 'random', 'L, d, D')
    if real:
        ctx.ok(all(np.allclose(np.imag(x), 0) for x in st.data), 'random', 'not real')
    else:
        ctx.ok(any(np.abs(np.imag(x)).max() > 1e-8 for x in st.data), 'random', 'no complex amplitude')
    if d**L <= 300:
        n0 = np.linalg.norm(dn.dense(st.data))
        ctx.ok(n0 > 1e-8, 'random', 'zero state')
        two = fMPS().random(L, d, D, real=real)
        ctx.ok(dn.same_ray(dn.dense(two.data), dn.dense(st.data)) > 1e-6, 'random', 'the same state twice')
    ts = fMPS().create_structure(L, d, D, phys=True)
    ctx.ok([tuple(x) for x in ts] == [(d, a, b) for a, b in zip(bond, bond[1:])], 'structure')


def products(ctx):
    L, d = size(ctx, 300)
    k = ctx.int(1, 3)
    ps = crandn(ctx.rng, k, L, d)
    ctx.p(L=L, d=d, k=k)
    want = []
    for p in ps:
        v = np.ones(1)
        for x in p:
            v = np.kron(v, x)
        want.append(v)
    m = fMPS().from_product_state(ps[0] if ctx.flip() else list(ps[0]))
    bad = dn.well_formed(m.data, d)
    if ctx.ok(bad is None, 'product', bad):
        ctx.close(dn.dense(m.data), want[0], 'product', tol=1e-10, scale=max(1e-9, np.linalg.norm(want[0])))
    ms = fMPS().from_product_states(ps)
    ctx.ok(len(ms) == k, 'product', 'number of states')
    for m, w in zip(ms, want):
        ctx.close(dn.dense(m.data), w, 'product', tol=1e-10, scale=max(1e-9, np.linalg.norm(w)))
    a = dn.rand_mps(ctx.rng, L, d, 3, 'generic')
    va = dn.dense(a)
    ctx.close(fMPS(list(a)).product_state_overlap(ps[0]), np.vdot(want[0], va), 'product', tol=1e-10,
              scale=max(1e-9, np.linalg.norm(va)*np.linalg.norm(want[0])))


SCENARIOS = [('from_state', from_state), ('to_state', to_state), ('generators', generators), ('products', products)]
