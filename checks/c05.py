"""C05: truncation respects the bond limit and loses only discarded weight."""
import numpy as np
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS
from checks.c04 import isometries

PID = 'C05'
QUICK, THOROUGH = 24000, 150000
RULE = ('Chains of length 2-8 (d 2-4) with generic, decaying, flat, degenerate and rank-deficient spectra, every bond limit '
        'from 1 to beyond full rank, every truncating canonicalisation, from canonical and arbitrary gauges.')
MUST = ['limit', 'isometry', 'error_bound', 'not_worse_than_best', 'single_cut', 'lossless', 'no_growth', 'redundant_limit',
        'wellformed', 'norm', 'long']


def bonds(data):
    return [x.shape[2] for x in data[:-1]]


def spectrum(ctx, n):
    s = np.zeros(n)
    k = ctx.int(1, n)
    pat = ctx.choice(['flat', 'pairs', 'decay', 'random'])
    s[:k] = {'flat': np.ones(k), 'pairs': np.repeat(np.arange(k, 0, -1.), 2)[:k],
             'decay': np.exp(-ctx.rng.uniform(.2, 2)*np.arange(k)), 'random': np.sort(ctx.rng.random(k)+.05)[::-1]}[pat]
    return s, pat


def designed(ctx):
    """a dense vector with a designed spectrum at one bond"""
    L, d = ch.size(ctx, 300)
    cut = ctx.int(1, L-1)
    v = dn.rvec(ctx.rng, d**L).reshape(d**cut, -1)
    u, s, w = np.linalg.svd(v, full_matrices=False)
    s, pat = spectrum(ctx, len(s))
    return L, d, ((u*s)@w).reshape(-1), 'designed-'+pat


def start(ctx):
    if ctx.flip(.4):
        L, d, v, kind = designed(ctx)
        data = dn.mps_from_vec(v, L, d)
    else:
        L, d = ch.size(ctx, 300)
        kind = ctx.choice(dn.KINDS)
        data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 8), kind)
    if ctx.flip(.3):
        data = ch.gauge(ctx.rng, data, 30., ctx.flip())
    return L, d, data, kind


def forms(ctx, m, op, D, oc):
    L = m.L
    if op == 'left':
        m.left_canonicalise(D); lo, hi = L, L
    elif op == 'right':
        m.right_canonicalise(D); lo, hi = 0, 0
    else:
        m.mixed_canonicalise(oc, D); lo, hi = oc, oc+1
    # an isometry towards the centre, on each side
    # (in bond directions the state does not occupy C04 has a recorded finding)
    isometries(ctx, m, op+'_canonicalise', range(lo), range(hi, L), null=None)


def common(ctx, m, D, L, d, before):
    bad = dn.well_formed(m.data, d)
    if not ctx.ok(bad is None and len(m.data) == L, 'wellformed', bad):
        return None
    b = bonds(m.data)
    ctx.ok(max(b) <= D, 'limit', 'bonds %s, limit %d' % (b, D))
    ctx.ok(all(x <= y for x, y in zip(b, before)), 'no_growth', 'bonds %s from %s' % (b, before))
    phi = dn.dense(m.data)
    ctx.close(np.linalg.norm(phi), 1, 'norm', tol=1e-8)
    return phi


def fidelity(a, b):
    return abs(np.vdot(a, b))**2/np.vdot(a, a).real/np.vdot(b, b).real


def near_degenerate(w, D):
    return len(w) > D and w[D-1]-w[D] < 1e-9


def canonical(ctx):
    """every cut is a Schmidt cut: from the opposite canonical form, and from any other gauge"""
    L, d, data, kind = start(ctx)
    psi = dn.dense(data)
    if np.linalg.norm(psi) < 1e-100:
        return
    m = fMPS(data)
    op = ctx.choice(['left', 'right', 'mixed'])
    oc = ctx.int(0, L-1)
    form = ctx.choice(['opposite', 'opposite', 'same', 'same_orthogonal', 'as it is'])
    if form == 'opposite':
        (m.right_canonicalise if op == 'left' else m.left_canonicalise)()
    elif form == 'same':
        (m.left_canonicalise if op == 'left' else m.right_canonicalise)()
    elif form == 'same_orthogonal':
        (m.left_orthogonalise if op == 'left' else m.right_orthogonalise)()
    w = ch.weights(psi, L, d)
    ranks = [int(np.sum(x > 1e-14)) for x in w[1:-1]]
    D = ctx.int(1, max(ranks)+1)
    before = bonds(m.data)
    ctx.p(L=L, d=d, kind=kind, op=op, oc=oc if op == 'mixed' else None, D=D, ranks=ranks, form=form)
    forms(ctx, m, op, D, oc)
    phi = common(ctx, m, D, L, d, before)
    if phi is None:
        return
    f = fidelity(phi, psi)
    tails = [float(np.sum(np.sort(x)[::-1][D:])) for x in w[1:-1]]
    ctx.event('cut bonds', sum(t > 1e-12 for t in tails))
    lossy = [t for t in tails if t > 1e-12]
    ctx.le(1-f, sum(tails), 'error_bound', 1e-9, tails=tails)
    ctx.le(f, 1-max(tails), 'not_worse_than_best', 1e-9, tails=tails)
    if len(lossy) == 1:
        # one single cut: the best approximation of that rank, which keeps exactly the leading weights
        ctx.close(f, 1-lossy[0], 'single_cut', tol=1e-8)
    if D >= max(ranks):
        ctx.close(f, 1, 'lossless', tol=1e-9)
        ctx.le(dn.same_ray(phi, psi), 2*np.sqrt(sum(tails)), 'lossless', slack=2e-9)


def arbitrary(ctx):
    """from any gauge: form and limits, and nothing lost when no bond is over the limit"""
    L, d, data, kind = start(ctx)
    psi = dn.dense(data)
    if np.linalg.norm(psi) < 1e-100:
        return
    m = fMPS(data)
    before = bonds(m.data)
    op = ctx.choice(['left', 'right', 'mixed'])
    oc = ctx.int(0, L-1)
    D = ctx.int(1, max(before)+1)
    ctx.p(L=L, d=d, kind=kind, op=op, oc=oc if op == 'mixed' else None, D=D, bonds=before)
    pre = ctx.choice([None, None, 'left_orthogonalise', 'right_orthogonalise'])
    if pre:
        getattr(m, pre)()
    forms(ctx, m, op, D, oc)
    phi = common(ctx, m, D, L, d, before)
    if phi is None:
        return
    if D >= max(before):
        ctx.close(dn.same_ray(phi, psi), 0, 'redundant_limit', tol=1e-9)


def schmidt_after(ctx):
    """the weights stored by a truncating sweep describe the truncated state"""
    L, d, data, kind = start(ctx)
    m = fMPS(data)
    psi = dn.dense(data)
    if np.linalg.norm(psi) < 1e-100:
        return
    D = ctx.int(1, 6)
    op = ctx.choice(['left', 'right'])
    ctx.p(L=L, d=d, kind=kind, op=op, D=D)
    before = bonds(m.data)
    forms(ctx, m, op, D, 0)
    phi = common(ctx, m, D, L, d, before)
    if phi is None:
        return
    w = ch.weights(phi, L, d)
    for i in range(L+1):
        ch.same_spectrum(ctx, np.diag(np.atleast_2d(m.Ls[i])), w[i], 'weights_of_result', tol=1e-8)


def long(ctx):
    """chains beyond dense vectors"""
    a, L, d = lg.draw(ctx)
    m = fMPS([x.copy() for x in a])
    for _ in range(ctx.int(0, 2)):
        f = ctx.choice(['left_canonicalise', 'right_canonicalise', 'left_orthogonalise', 'right_orthogonalise', 'mixed_orthogonalise'])
        getattr(m, f)(*([ctx.int(0, L-1)] if f[0] == 'm' else []))
    before = bonds(m.data)
    D, op, oc = ctx.int(1, max(before)+1), ctx.choice(['left', 'right', 'mixed']), ctx.int(0, L-1)
    ctx.p(limit=D, op=op)
    tails = [np.sum(w[D:]) for w in lg.weights(a)]
    forms(ctx, m, op, D, oc)
    b = bonds(m.data)
    ctx.ok(max(b) <= D, 'limit', 'bonds %s, limit %d' % (b, D))
    ctx.ok(all(x <= y for x, y in zip(b, before)), 'no_growth', 'bonds %s from %s' % (b, before))
    ctx.close(lg.lognorm(m.data), 0, 'norm', tol=1e-8)
    # no more is lost than what the cuts discard, no less than what the worst one must
    lost = lg.apart(m.data, a)**2
    ctx.event('decided:long')
    ctx.le(lost, sum(tails), 'long', slack=1e-9)
    ctx.le(max(tails), lost, 'long', slack=1e-9)
    if D >= max(before):
        lg.same(ctx, m.data, a, 'long')


SCENARIOS = [('canonical', canonical), ('arbitrary', arbitrary), ('schmidt_after', schmidt_after)]*6+[('long', long)]
