"""C06: every way of measuring a finite chain agrees with the dense state, after any history."""
import numpy as np
from functools import reduce
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS

PID = 'C06'
QUICK, THOROUGH = 18000, 300000
RULE = ('Histories of 3-12 steps on one chain object, drawn from measurements (all readers, complex non-symmetric operators), '
        'gauge changes of every flavour, gates, item assignments, copies, post selections and additions; a dense shadow '
        'state follows along independently and decides every reading.')
MUST = ['long', 'E', 'E_', 'Es', 'E_k', 'E_k_string', 'E_L', 'energy', 'energy_full', 'rho', 'rho_product', 'rho_proj',
        'local_overlap', 'shadow', 'norm_overlap']

GAUGE = ['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise',
         'mixed_orthogonalise', 'partial_left', 'partial_right', 'left_nomin', 'right_nomin', 'right_noback']
READ = ['E', 'E', 'E_', 'Es', 'E_k', 'E_k', 'E_k_string', 'E_L', 'energy', 'energy_full', 'rho', 'rho', 'local_overlap',
        'norm_overlap', 'envs']
EDIT = ['apply', 'two_site', 'two_site_D', 'one_site_pair', 'setitem', 'setitem_inplace', 'copy', 'post_select', 'add', 'mul', 'roundtrip']


def window(ctx, L, d, most=3):
    k = ctx.int(1, min(L, most if d == 2 else 2))
    a = ctx.int(0, L-k)
    return list(range(a, a+k))


def read(ctx, m, psi, what):
    L, d = m.L, m.d
    n = psi/np.linalg.norm(psi)
    herm = ctx.flip(.3)
    def op(k):
        return dn.rherm(ctx.rng, d**k) if herm else dn.rop(ctx.rng, d**k)
    if what in ('E', 'E_'):
        o, s = op(1), ctx.int(0, L-1)
        ctx.note(what, s)
        ctx.close(getattr(m, what)(o, s), dn.expect(o, [s], n, L, d).real, what, tol=1e-8)
    elif what == 'Es':
        os, s = [op(1) for _ in range(ctx.int(1, 3))], ctx.int(0, L-1)
        ctx.note(what, s)
        ctx.close(m.Es(os, s), [dn.expect(o, [s], n, L, d).real for o in os], what, tol=1e-8)
    elif what == 'E_k':
        w = window(ctx, L, d)
        o = op(len(w))
        ctx.note(what, w)
        ctx.close(m.E_k(o, w), dn.expect(o, w, n, L, d).real, what, tol=1e-8)
    elif what == 'E_k_string':
        w = window(ctx, L, d)
        os = [op(1) for _ in w]
        ctx.note(what, w)
        ctx.close(m.E_k(os, w, single_string=True), dn.expect(reduce(np.kron, os), w, n, L, d).real, what, tol=1e-8)
    elif what == 'rho':
        w = window(ctx, L, d)
        ctx.note(what, w)
        want = dn.rdm(n, w, L, d)
        if max(max(x.shape[1:]) for x in m.data) == 1:
            got = m.rho(w, single_string=True)
            ctx.ok(len(got) == len(w), 'rho_product')
            for g, s in zip(got, w):
                ctx.close(g, dn.rdm(n, [s], L, d), 'rho_product', tol=1e-8)
            got = m.rho(w, single_string=False)
        else:
            got = m.rho(w)
        ctx.close(got, want, 'rho', tol=1e-8)
    elif what in ('E_L', 'energy', 'energy_full'):
        # plain contractions: they measure a normalised chain; term by term energies need a canonical one
        if d**L > 64:
            return
        if what == 'energy':
            if ctx.flip():
                m.left_canonicalise()
            else:
                m.right_canonicalise()
            H = [op(2) for _ in range(L-1)]
            ctx.note(what)
            ctx.close(m.energy(H), np.vdot(n, dn.nn_hamiltonian(H, L, d)@n).real, what, tol=1e-8)
        else:
            if ctx.flip():
                m.mixed_orthogonalise(ctx.int(0, L-1))
            else:
                m.mixed_canonicalise(ctx.int(0, L-1))
            o = op(L)
            ctx.note(what)
            got = m.E_L(o) if what == 'E_L' else m.energy(o, fullH=True)
            ctx.close(got, np.vdot(n, o@n).real, what, tol=1e-8)
    elif what == 'local_overlap':
        other = dn.rand_mps(ctx.rng, L, d, ctx.choice([1, 2, 3]))
        phi = dn.dense(other)
        phi = phi/np.linalg.norm(phi)
        w = window(ctx, L, d)
        ctx.note(what, w)
        want = np.trace(dn.rdm(n, w, L, d)@dn.rdm(phi, w, L, d)).real
        ctx.close(m.local_overlap(fMPS(other), w), want, what, tol=1e-8)
    elif what == 'envs':
        m.get_envs(True)                # keeps the environments on the chain: readings to come must not use them
        ctx.note(what)
    elif what == 'norm_overlap':
        phi = dn.dense(m.data)
        ctx.close(m.norm(), np.vdot(phi, phi), what, tol=1e-8)


def gauge(ctx, m, op):
    L = m.L
    if op == 'partial_left':
        lo = ctx.int(0, L-1)
        m.left_orthogonalise(fr=lo, to=ctx.int(lo, L))
    elif op == 'partial_right':
        lo = ctx.int(0, L)
        m.right_orthogonalise(fr=lo, to=ctx.int(lo, L))
    elif op.startswith('mixed'):
        getattr(m, op)(ctx.int(0, L-1))
    elif op.endswith('nomin'):
        getattr(m, op.split('_')[0]+'_canonicalise')(minD=False)
    elif op == 'right_noback':
        m.right_canonicalise(sweep_back=False)
    else:
        getattr(m, op)()


def edit(ctx, m, psi, op):
    L, d = m.L, m.d
    if op == 'apply':
        s, o = ctx.int(0, L-1), dn.rop(ctx.rng, d)
        return m.apply((o, s)), dn.apply_op(o, [s], psi, L, d)
    if op in ('two_site', 'two_site_D'):
        i, j = [int(x) for x in ctx.rng.permutation(L)[:2]]
        o = dn.runitary(ctx.rng, d*d)
        D = None if op == 'two_site' else d**(L//2)*max(max(x.shape[1:]) for x in m.data)
        if d**L > 64 or max(max(x.shape[1:]) for x in m.data) > 16:
            return m, psi
        r = m.apply_two_site((o, (i, j)), ctx.choice(['l', 'r']), D)
        return r, dn.apply_op(o, [i, j], psi, L, d)
    if op == 'one_site_pair':
        i, o, w = ctx.int(0, L-2), dn.rop(ctx.rng, d), ctx.choice(['l', 'r'])
        return m.apply_two_site((o, (i, i+1)), w), dn.apply_op(o, [i+(w == 'r')], psi, L, d)
    if op == 'setitem':
        s, o = ctx.int(0, L-1), dn.rop(ctx.rng, d)
        m[s] = np.tensordot(o, m[s], [1, 0])
        return m, dn.apply_op(o, [s], psi, L, d)
    if op == 'setitem_inplace':         # m[s] *= z, or a tensor changed in place and put back
        s = ctx.int(0, L-1)
        if ctx.flip():
            m[s] *= ctx.choice([2., .3, -1.7])
            return m, psi
        x, o = m[s], dn.rop(ctx.rng, d)
        x[...] = np.tensordot(o, x, [1, 0]) if np.iscomplexobj(x) else np.tensordot(o, x, [1, 0]).real
        m[s] = x
        return m, dn.dense(m.data)
    if op == 'copy':
        return m.copy(), psi
    if op == 'post_select':
        if L <= 2:
            return m, psi
        s, v = ctx.int(0, L-1), ctx.int(0, d-1)
        out = np.take(psi.reshape([d]*L), v, axis=s).reshape(-1)
        if np.linalg.norm(out) < 1e-3*np.linalg.norm(psi):
            return m, psi
        return m.post_select(s, v), out
    if op == 'add':
        other = dn.rand_mps(ctx.rng, L, d, 2)
        if max(max(x.shape[1:]) for x in m.data) > 12:
            return m, psi
        phi = dn.dense(other)
        other[0] = other[0]/np.linalg.norm(phi)
        cur = dn.dense(m.data)          # vectors, so the scalar matters: read it off the tensors
        return m.add(fMPS(other)), cur+phi/np.linalg.norm(phi)
    if op == 'mul':
        z = complex(dn.crandn(ctx.rng, 1)[0])
        return m.mul(z), z*psi
    if op == 'roundtrip':
        return fMPS().deserialize(m.serialize(True), real=True, structure=[x.shape for x in m.data]), psi


def history(ctx):
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(dn.KINDS)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 5), kind)
    psi = dn.dense(data)
    if not np.linalg.norm(psi) > 1e-100:
        return
    m = fMPS(data)
    todo = []
    for _ in range(ctx.int(3, 12)):
        todo.append(ctx.choice([READ, READ, GAUGE, EDIT])[ctx.int(0, 10**6) % 10])
    todo.append(ctx.choice(READ))
    ctx.p(L=L, d=d, kind=kind, steps=todo)
    for op in todo:
        psi = psi/np.linalg.norm(psi)
        if op in GAUGE:
            gauge(ctx, m, op)
            ctx.note(op)
        elif op in EDIT:
            m, psi = edit(ctx, m, psi, op)
            ctx.note(op)
        else:
            read(ctx, m, psi, op)
        bad = dn.well_formed(m.data, d)
        if not ctx.ok(bad is None and m.L == len(m.data), 'shadow', '%s left a malformed chain: %s' % (op, bad)):
            return
        ctx.close(dn.same_ray(dn.dense(m.data), psi), 0, 'shadow', tol=1e-9, after=op)
        if ctx.violations:
            return


def measure_twice(ctx):
    """a pair of readings with one step between them, the shortest way to a stale centre"""
    L, d = ch.size(ctx, 100)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), ctx.choice(['generic', 'uniform', 'ghz', 'scaled']))
    psi = dn.dense(data)
    m = fMPS(data)
    steps = [ctx.choice(READ), ctx.choice(EDIT+GAUGE), ctx.choice(READ)]
    ctx.p(L=L, d=d, steps=steps)
    for op in steps:
        psi = psi/np.linalg.norm(psi)
        if op in GAUGE:
            gauge(ctx, m, op)
        elif op in EDIT:
            m, psi = edit(ctx, m, psi, op)
        else:
            read(ctx, m, psi, op)
        if ctx.violations:
            return


def product(ctx):
    """readers with a special case for product states"""
    L, d = ch.size(ctx, 100)
    a = dn.rand_mps(ctx.rng, L, d, 1, 'product')
    b = dn.rand_mps(ctx.rng, L, d, 1, 'product')
    va, vb = dn.dense(a), dn.dense(b)
    ctx.p(L=L, d=d)
    m = fMPS([x.copy() for x in a])
    read(ctx, m, va, 'rho')
    w = sorted(int(x) for x in ctx.rng.permutation(L)[:ctx.int(1, min(3, L))])
    got = fMPS([x.copy() for x in a]).rho_proj(fMPS([x.copy() for x in b]), w)
    ctx.close(got, dn.rdm(va, w, L, d, phi=vb), 'rho_proj', tol=1e-9, scale=max(1e-3, np.linalg.norm(va)*np.linalg.norm(vb)))
    read(ctx, m, va, 'local_overlap')
    read(ctx, m, va, 'rho')


def long(ctx):
    """chains beyond dense vectors: readings between changes of gauge and edits"""
    a, L, d = lg.draw(ctx, most=6, kinds=('generic', 'weak', 'uneven', 'product'))
    m = fMPS([x.copy() for x in a])
    for _ in range(ctx.int(2, 6)):
        what = ctx.choice(['E', 'E_k', 'E_k', 'E_k_string', 'rho', 'Es', 'energy', 'local_overlap', 'gauge', 'apply', 'two_site', 'setitem', 'copy'])
        ctx.note(what)
        w = window(ctx, L, d)
        if what in ('E', 'Es'):
            s, o = w[0], dn.rop(ctx.rng, d)
            got = m.E(o, s) if what == 'E' else m.Es([o], s)[0]
            ctx.close(got, np.trace(lg.rdm(a, s, 1)@o).real, 'long:'+what, tol=1e-8)
        elif what == 'E_k':
            o = dn.rop(ctx.rng, d**len(w))
            ctx.close(m.E_k(o, w), np.trace(lg.rdm(a, w[0], len(w))@o).real, 'long:E_k', tol=1e-8)
        elif what == 'E_k_string':
            os = [dn.rop(ctx.rng, d) for _ in w]
            ctx.close(m.E_k(os, w, single_string=True), np.trace(lg.rdm(a, w[0], len(w))@reduce(np.kron, os)).real, 'long:E_k', tol=1e-8)
        elif what == 'rho':
            ctx.close(m.rho(w, single_string=False), lg.rdm(a, w[0], len(w)), 'long:rho', tol=1e-8)
        elif what == 'energy':
            H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
            (m.left_canonicalise if ctx.flip() else m.right_canonicalise)()
            ctx.close(m.energy(H), lg.energy(a, H), 'long:energy', tol=1e-8, scale=L)
        elif what == 'local_overlap':
            b = lg.random(ctx.rng, L, d, ctx.int(1, 3))
            ctx.close(m.local_overlap(fMPS([x.copy() for x in b]), w), np.trace(lg.rdm(a, w[0], len(w))@lg.rdm(b, w[0], len(w))).real, 'long:local_overlap', tol=1e-8)
        elif what == 'gauge':
            gauge(ctx, m, ctx.choice(GAUGE))
        elif what == 'apply':
            s, o = w[0], dn.rop(ctx.rng, d)
            m = m.apply((o, s))
            a = [np.einsum('pq,qab->pab', o, x) if i == s else x for i, x in enumerate(a)]
        elif what == 'setitem':
            s, o = w[0], dn.rop(ctx.rng, d)
            m[s] = np.tensordot(o, m[s], [1, 0])
            a = [np.einsum('pq,qab->pab', o, x) if i == s else x for i, x in enumerate(a)]
        elif what == 'two_site' and max(max(x.shape[1:]) for x in m.data) <= 12:
            i = ctx.int(0, L-2)
            u = dn.runitary(ctx.rng, d*d)
            m = m.apply_two_site((u, (i, i+1)), ctx.choice(['l', 'r']))
            a = lg.act(a, u, i)
        elif what == 'copy':
            m = m.copy()
        ctx.event('decided:long')
        if ctx.violations:
            return


SCENARIOS = [('history', history), ('measure_twice', measure_twice), ('history', history), ('product', product)]*2+[('long', long)]
