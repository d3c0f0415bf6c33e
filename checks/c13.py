"""C13: entanglement diagnostics equal those of the dense state."""
import numpy as np
from vlib import dense as dn, chain as ch, traj as tj, long as lg
from checks.c05 import spectrum
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PID = 'C13'
QUICK, THOROUGH = 4000, 90000
RULE = ('One case measures entropies at bonds of a chain (generic, decaying, flat, degenerate, rank-deficient, product) in random '
        'order between gauge changes, edits and other measurements, or of every recorded state of a short trajectory, and '
        'compares with Schmidt decompositions of the dense vectors.')
MUST = ['long', 'entropy', 'entropy:product', 'entropy:end', 'ray', 'spectrum', 'trajectory:schmidt', 'trajectory:von_neumann',
        'trajectory:renyi', 'trajectory:exact']


FORMS = [{}, {}, {'sweep_back': False}, {'minD': False}]       # ways to bring a chain into form, with and without its spectra


def shannon(w):
    w = w[w > 1e-300]
    return float(-(w*np.log(w)).sum())


def slack(w):
    """weights below 1e-8 are left out by definition"""
    t = w[(w < 2e-8) & (w > 0)]
    return float(-(t*np.log(t)).sum())+1e-7


def designed(ctx, L, d):
    cut = ctx.int(1, L-1)
    v = dn.rvec(ctx.rng, d**L).reshape(d**cut, -1)
    u, s, w = np.linalg.svd(v, full_matrices=False)
    s, pat = spectrum(ctx, len(s))
    return dn.mps_from_vec(((u*s)@w).reshape(-1), L, d), 'designed-'+pat


def entropy(ctx):
    L, d = ch.size(ctx, 300)
    if ctx.flip(.4):
        data, kind = designed(ctx, L, d)
    else:
        kind = ctx.choice(dn.KINDS)
        data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), kind)
    if ctx.flip(.3):
        data = ch.gauge(ctx.rng, data, 10., ctx.flip())
    m = fMPS([x.copy() for x in data])
    psi = dn.dense(data)
    ctx.p(L=L, d=d, kind=kind, u=int(ctx.rng.integers(1 << 30)))
    n = ctx.int(1, 6)
    for k in range(n):
        what = 'entropy' if k == n-1 else ctx.choice(['entropy', 'entropy', 'left', 'right', 'mixed', 'orth', 'E', 'gate', 'two', 'scale', 'set'])
        ctx.note(what)
        site = ctx.int(0, L-1)
        if what == 'entropy':
            site = ctx.int(0, L)
            w = ch.weights(psi, L, d)[site]
            got = m.entanglement_entropy(site)
            mech = 'entropy:end' if site in (0, L) else 'entropy:product' if len(w[w > 1e-20]) == 1 else 'entropy'
            ctx.le(abs(got-shannon(w)), 0, mech, slack=slack(w))
            ctx.close(dn.same_ray(dn.dense(m.data), psi), 0, 'ray', tol=1e-9)
            if hasattr(m, 'Ls') and len(m.Ls) == L+1 and ctx.flip(.3):
                b = ctx.int(0, L)
                ch.same_spectrum(ctx, np.diag(m.Ls[b]), ch.weights(psi, L, d)[b], 'spectrum', tol=1e-8)
        elif what == 'left':
            m.left_canonicalise(**ctx.choice(FORMS))
        elif what == 'right':
            m.right_canonicalise(**ctx.choice(FORMS))
        elif what == 'mixed':
            m.mixed_canonicalise(site)
        elif what == 'orth':
            m.left_orthogonalise() if ctx.flip() else m.right_orthogonalise()
        elif what == 'E':
            m.E(dn.rherm(ctx.rng, d), site)
        elif what == 'gate':
            u = dn.runitary(ctx.rng, d)
            m = m.apply((u, site))
            psi = dn.apply_op(u, [site], psi, L, d)
        elif what == 'two' and L > 2:
            site = min(site, L-2)
            u = dn.runitary(ctx.rng, d*d)
            m.apply_two_site((u, [site, site+1]))
            psi = dn.apply_op(u, [site, site+1], psi, L, d)
        elif what == 'scale':
            m[site] = m[site]*ctx.rng.uniform(.2, 5)*np.exp(1j*ctx.rng.uniform(0, 6))
        elif what == 'set':
            m[site] = dn.crandn(ctx.rng, *m[site].shape)
            psi = dn.dense(m.data)


def compare(ctx, t, states, L, d, tag):
    W = [ch.weights(p, L, d) for p in states]
    got = t.schmidts()
    if not ctx.ok(len(got) == len(states), 'trajectory:schmidt', '%d spectra for %d states' % (len(got), len(states))):
        return
    for g, w in zip(got, W):
        ctx.ok(len(g) == L+1, 'trajectory:schmidt', '%d bonds' % len(g))
        for a, b in zip(g, w):
            ch.same_spectrum(ctx, a, b, 'trajectory:schmidt', tol=1e-8)
    want = [max(shannon(x) for x in w) for w in W]
    ctx.close(np.array(t.von_neumann(), float), want, 'trajectory:von_neumann', tol=1e-9)
    a = float(ctx.choice([2, 2, 3, .5, 1.5, 4]))
    want = [max(np.log((x[x > 0]**a).sum())/(1-a) for x in w) for w in W]
    ctx.close(np.array(t.renyi(a), float), want, 'trajectory:renyi', tol=1e-6 if a >= 1 else 1e-3)
    ctx.event('decided:'+tag)


def trajectory(ctx):
    m, psi, L, d, hand = tj.start(ctx)
    H, full = tj.hamiltonian(ctx, L, d)
    dt, n = ctx.rng.uniform(.01, .1), ctx.int(2, 5)
    T = ctx.rng.uniform(-1, 1)*ctx.int(0, 1)+dt*np.arange(n)
    how = ctx.choice(['eulerint', 'rk4int'])
    ctx.p(L=L, d=d, how=how, n=n, hand=hand, D=m.D, u=int(ctx.rng.integers(1 << 30)))
    t = Trajectory(m, full if ctx.flip(.3) else H)
    t.fullH = t.H is full
    getattr(t, how)(T)
    states = [tj.read(v, [x.shape for x in m.data]) for v in t.mps_history]
    compare(ctx, t, states, L, d, how)
    if ctx.flip(.3):
        t.clear()
        t.edint(T)
        compare(ctx, t, [dn.evolve(full, psi, x-T[0]) for x in T], L, d, 'trajectory:exact')


def exact(ctx):
    """exact evolution, from product and other rank-deficient states too"""
    L, d = ch.size(ctx, 100)
    kind = ctx.choice(['product', 'product', 'generic', 'ghz', 'dimers', 'real'])
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind)
    psi = dn.dense(data)
    H, full = tj.hamiltonian(ctx, L, d)
    ctx.p(L=L, d=d, kind=kind, u=int(ctx.rng.integers(1 << 30)))
    fH = ctx.flip(.4)
    t = Trajectory(fMPS(data), full if fH else H, fullH=fH)
    T = np.arange(ctx.int(2, 5))*ctx.rng.uniform(.05, .8)
    t.edint(T)
    states = [dn.evolve(full, psi, x) for x in T]
    compare(ctx, t, states, L, d, "trajectory:exact")


def long(ctx):
    """chains beyond dense vectors"""
    a, L, d = lg.draw(ctx, kinds=('generic', 'weak', 'uneven', 'product'))
    m = fMPS([x.copy() for x in a])
    w = lg.weights(a)
    for site in {0, L, ctx.int(0, L), ctx.int(1, L-1), ctx.int(1, L-1)}:
        if ctx.flip(.3):
            (m.right_canonicalise if ctx.flip() else m.left_canonicalise)(**ctx.choice(FORMS))
        ctx.le(abs(m.entanglement_entropy(site)-shannon(w[site])), 0, 'long', slack=slack(w[site]))
        ctx.event('decided:long')


SCENARIOS = [('entropy', entropy), ('entropy', entropy), ('trajectory', trajectory), ('exact', exact)]*4+[('long', long)]
