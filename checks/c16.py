"""C16: enlarging the bond dimension, error estimate and dynamical enlargement, against dense vectors"""
import numpy as np
from vlib import dense as dn, chain as ch, tangent as tg, traj as tj, long as lg
from xmps.fMPS import fMPS

PID = 'C16'
QUICK, THOROUGH = 12000, 250000
RULE = ('a padded, estimated or dynamically enlarged chain is decided against its dense vector before and after; '
        'enlargement steps against exp(-iH dt), with the first order error predicted from the discarded two-site weights')
MUST = ('pad:state', 'pad:shape', 'error:value', 'error:zero', 'step:below', 'step:order', 'step:limit', 'step:discarded', 'grow:bond', 'error:threshold', 'long')


def bonds(m):
    return [x.shape[2] for x in m.data[:-1]]


def start(ctx, cap=150, Lmin=2, Dmax=4, cond=3e-2):
    L, d = ch.size(ctx, cap, Lmin=Lmin, Lmax=6, ds=(2, 2, 2, 3))
    m, psi, kind, hand = tg.canonical(ctx, L, d, ctx.int(1, Dmax), cond=cond)
    return m, psi, L, d


def s_pad(ctx):
    """padding: state, reached bonds, canonical form"""
    L, d = ch.size(ctx, 300, Lmin=2)
    kind = ctx.choice(dn.KINDS)
    D0 = ctx.int(1, 5)
    m = fMPS(dn.rand_mps(ctx.rng, L, d, D0, kind))
    hand = ctx.choice(('raw', 'left', 'right', 'trunc'))
    if hand == 'left':
        m.left_canonicalise()
    elif hand == 'right':
        m.right_canonicalise()
    elif hand == 'trunc':
        m.left_canonicalise(max(1, max(bonds(m))-1))
    psi = dn.dense(m.data)
    if np.linalg.norm(psi) < 1e-6:
        return
    top = max(bonds(m))
    D = ctx.int(top, top+4)
    want = [min(D, d**min(i+1, L-i-1)) for i in range(L-1)]
    ctx.p(L=L, d=d, kind=kind, hand=hand, bonds=bonds(m), D=D)
    if any(a > b for a, b in zip(bonds(m), want)):
        return                                    # bonds that no regular structure has
    out = m.expand(D)
    ctx.event('decided:pad:shape')
    ctx.ok(bonds(out) == want, 'pad:shape', 'bonds %s not %s' % (bonds(out), want))
    dn.well_formed(out.data)
    ctx.event('decided:pad:state')
    ctx.close(dn.same_ray(dn.dense(out.data), psi), 0, 'pad:state', tol=1e-9)
    ctx.close(dn.state_norm(out.data), 1, 'pad:norm', tol=1e-8)
    for x in out.data:
        ch.left_iso(ctx, x, 'pad:isometry')


def residual(m, psi, H, L, d):
    """per bond: part of h_m|psi> outside the tangent space"""
    q = tg.span(m)
    out = []
    for i, h in enumerate(H):
        v = dn.apply_op(np.asarray(h).reshape(d*d, d*d), [i, i+1], psi, L, d)
        out.append(v-q@(q.conj().T@v))
    return out


def s_error(ctx):
    """projection error"""
    m, psi, L, d = start(ctx)
    local = ctx.flip(.2)
    H, _ = tj.hamiltonian(ctx, L, d)
    if local:
        H = [np.kron(dn.rherm(ctx.rng, d), np.eye(d))+np.kron(np.eye(d), dn.rherm(ctx.rng, d)) for _ in H]
    dt = 10**ctx.rng.uniform(-3, 0)
    ctx.p(L=L, d=d, bonds=bonds(m), local=local, dt=dt)
    w = sum(residual(m, psi, H, L, d))
    before = [x.copy() for x in m.data]
    e = m.projection_error(H, dt)
    ctx.event('decided:error:value')
    if local or np.linalg.norm(w) < 1e-7:
        ctx.event('decided:error:zero')
    ctx.close(e, dt**2*np.vdot(w, w).real, 'error:value', tol=1e-9, scale=dt**2)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(before, m.data)), 'error:mutates', 'estimating the error changed the state')
    want = dt**2*np.vdot(w, w).real
    if want > 1e-9*dt**2:
        f = 1+10**ctx.rng.uniform(-4, 1)
        got = [bool(m.should_expand(H, dt, want*f)), bool(m.should_expand(H, dt, want/f))]
        ctx.ok(got == [False, True], 'error:threshold', 'error %.3e compared with %.3e and %.3e: %s' % (want, want*f, want/f, got))
    if not local:
        # local terms never leave the manifold: they do not change the error
        K = [h+np.kron(dn.rherm(ctx.rng, d), np.eye(d)) for h in H]
        ctx.close(m.projection_error(K, dt), e, 'error:local-terms', tol=1e-9, scale=dt**2)


def s_step(ctx):
    """one dynamical enlargement"""
    m, psi, L, d = start(ctx, cap=90)
    H, full = tj.hamiltonian(ctx, L, d)
    top = max(bonds(m))
    D = top+ctx.int(0, 4)
    full_D = ctx.flip(.4)
    if full_D:
        D = d*top+1
    ws = residual(m, psi, H, L, d)
    w = sum(ws)
    gap = np.vdot(w, w).real
    old = bonds(m)
    ctx.p(L=L, d=d, bonds=old, D=D)
    c = m.copy()
    if gap < 1e-10:
        c.dynamical_expand(H, .1, D)
        ctx.event('decided:step:below')
        ctx.ok(bonds(c) == old, 'step:below', 'enlarged although nothing leaves the manifold')
        ctx.close(dn.dense(c.data), psi, 'step:below', tol=1e-12)
        return
    if gap < 1e-6:
        return
    mode = ctx.choice(('above', 'default', None, 'below', 'below'))
    if mode == 'above' or mode == 'default':
        # the estimate is below the threshold: nothing happens
        dt = ctx.rng.uniform(.3, .95)*np.sqrt(1e-8/gap) if mode == 'default' else 1e-2
        c.dynamical_expand(H, dt, D, **({} if mode == 'default' else dict(threshold=dt**2*gap*1.1)))
        ctx.event('decided:step:below')
        ctx.ok(bonds(c) == old and all(np.array_equal(a, b) for a, b in zip(c.data, m.data)), 'step:below',
               'the state changed although the estimate is below the threshold')
        return
    dt = 1e-3
    errs = []
    for t in (dt, dt/8):
        c = m.copy()
        c.dynamical_expand(H, t, D, threshold=None if mode is None else t**2*gap*.9)
        new = bonds(c)
        dn.well_formed(c.data)
        ctx.event('decided:step:limit')
        ctx.ok(all(o <= n <= max(D, o) for o, n in zip(old, new)), 'step:limit', '%s -> %s with limit %d' % (old, new, D))
        if D > top:
            ctx.ok(new != old, 'step:enlarge', 'no bond enlarged above the threshold')
        ctx.ok(c.D == max(new), 'step:D', 'D is %s, bonds %s' % (c.D, new))
        got = dn.dense(c.data)
        errs.append(np.linalg.norm(got*np.exp(-1j*t*np.vdot(psi, full@psi).real)-dn.evolve(full, psi, t))/t)
    lost = np.sqrt(sum(np.sum(dn.schmidt(x, i+1, L, d)[D-top:]**2) for i, x in enumerate(ws)))
    ctx.p(errs=[float(x) for x in errs], lost=float(lost))
    # first order: exactly the discarded two site weights; what remains shrinks linearly with dt
    ctx.event('decided:step:order')
    if lost > 1e-6:
        ctx.event('decided:step:discarded')
    a, b = abs(errs[0]-lost), abs(errs[1]-lost)
    ctx.le(b, max(a/4, 1e-4), 'step:order')


def s_grow(ctx):
    """repeated enlargement"""
    L, d = ch.size(ctx, 90, Lmin=2, Lmax=6, ds=(2, 2, 3))
    m, psi, kind, hand = tg.canonical(ctx, L, d, ctx.int(1, 2), cond=.1, kinds=('uniform',))
    if [x.shape for x in m.data] != tj.regular(L, d, m.D):
        return
    H, full = tj.hamiltonian(ctx, L, d)
    D = ctx.int(1, d**(L//2)+2)
    w = [np.linalg.norm(x) for x in residual(m, psi, H, L, d)]
    ctx.p(L=L, d=d, bonds=bonds(m), D=D)
    top = max(bonds(m))
    dt = .1
    out = m.grow(H, dt, D)
    ctx.event('decided:grow:bond')
    want = max(top, min(D, d**(L//2)))
    ctx.ok(max(bonds(out)) == want == out.D, 'grow:bond', 'bonds %s, D %s, wanted %d' % (bonds(out), out.D, want))
    dn.well_formed(out.data)
    if want == top:
        ctx.close(dn.same_ray(dn.dense(out.data), psi), 0, 'grow:still', tol=1e-8)
    elif want <= d*top:
        t = tj.distance(dn.dense(out.data), dn.evolve(full, psi, dt))
        ctx.le(t, dt, 'grow:close')


def s_long(ctx):
    """padding of chains beyond dense vectors"""
    a, L, d = lg.draw(ctx, kinds=('generic', 'weak', 'uneven', 'product'))
    m = fMPS([x.copy() for x in a])
    hand = ctx.choice(('raw', 'left', 'right', 'mixed'))
    if hand == 'mixed':
        m.mixed_canonicalise(ctx.int(0, L-1))
    elif hand != 'raw':
        getattr(m, hand+'_canonicalise')()
    D = max(bonds(m))+ctx.int(0, 6)
    want = [min(D, d**min(i+1, L-i-1)) for i in range(L-1)]
    ctx.p(hand=hand, bonds=bonds(m), D=D)
    out = m.expand(D)
    ctx.ok(bonds(out) == want, 'pad:shape', 'bonds %s not %s' % (bonds(out), want))
    dn.well_formed(out.data)
    ctx.event('decided:long')
    lg.same(ctx, out.data, a, 'pad:state')
    ctx.close(lg.lognorm(out.data), 0, 'pad:norm', tol=1e-8)
    for x in out.data:
        ch.left_iso(ctx, x, 'pad:isometry')


SCENARIOS = [('pad', s_pad), ('error', s_error), ('step', s_step), ('step', s_step), ('grow', s_grow)]*3+[('long', s_long)]
