"""C15: the exact reference evolution solves the Schrodinger equation."""
import numpy as np
from vlib import dense as dn, chain as ch, traj as tj
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PID = 'C15'
QUICK, THOROUGH = 4000, 120000
RULE = ('One case evolves a chain (any shape, normalised or not) exactly under a generic Hamiltonian given as bond terms or as a '
        'full matrix and compares every recorded vector and every series derived from it with the spectral evolution of the '
        'dense vector.')
MUST = ['history', 'uneven', 'norm', 'energy', 'current', 'initial', 'length', 'evs', 'energies', 'otoc', 'otoc:nontrivial', 'loschmidt', 'mps_list', 'mps_evs',
        'long', 'untouched', 'repeat', 'schmidts']


def herm(ctx, L, d, local):
    """an operator on the whole chain"""
    if local:
        k = ctx.int(1, min(2, L))
        s = [int(x) for x in ctx.rng.permutation(L)[:k]]
        return dn.embed(dn.rherm(ctx.rng, d**k), s, L, d)
    return dn.rherm(ctx.rng, d**L)/np.sqrt(d**L)


def setup_run(ctx, cap=140):
    L, d = ch.size(ctx, cap)
    kind = ctx.choice(dn.KINDS)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 4), kind)
    if ctx.flip(.6):
        data[0] = data[0]/dn.state_norm(data)
    psi = dn.dense(data)
    strength = 10.**ctx.rng.uniform(-1, 1)
    H, full = tj.hamiltonian(ctx, L, d, strength)
    if ctx.flip(.15):
        full = dn.rherm(ctx.rng, d**L)*strength/np.sqrt(d**L)
        form = 'full'
    else:
        form = ctx.choice(['list', 'list', 'full'])
    n = ctx.int(2, 6)
    dt = 10.**ctx.rng.uniform(-2, .3)*ctx.choice([1, 1, 1, -1])
    T = dt*np.arange(n)
    if n > 2 and ctx.flip(.3):          # times need not be evenly spaced
        ctx.event('decided:uneven')
        T = np.concatenate([[0.], np.cumsum(dt*ctx.rng.uniform(.2, 2., n-1))])
    T = (ctx.rng.uniform(-3, 3) if ctx.flip(.3) else 0.)+T
    m = fMPS([x.copy() for x in data])
    t = Trajectory(m, full if form == 'full' else H, fullH=form == 'full')
    ctx.p(L=L, d=d, kind=kind, form=form, n=n, u=int(ctx.rng.integers(1 << 30)))
    return L, d, data, psi, H, full, t, T


def states(full, psi, T):
    e, v = np.linalg.eigh(full)
    c = v.conj().T@psi
    return [v@(np.exp(-1j*e*(x-T[0]))*c) for x in T]


def judge(ctx, t, want, full, tol):
    h = np.asarray(t.ed_history)
    if not ctx.ok(h.shape == (len(want), len(want[0])), 'length', str(h.shape)):
        return False
    s = max(1e-300, np.linalg.norm(want[0]))
    ctx.close(h[0], want[0], 'initial', tol=1e-10, scale=s)
    for a, b in zip(h, want):
        ctx.close(a, b, 'history', tol=tol, scale=s)
        ctx.close(np.linalg.norm(a), s, 'norm', tol=tol, scale=s)
        ctx.close(np.vdot(a, full@a).real, np.vdot(want[0], full@want[0]).real, 'energy', tol=tol, scale=s*s*max(1, np.linalg.norm(full, 2)))
    ctx.close(t.psi, h[-1], 'current', tol=1e-12, scale=s)
    ctx.close(dn.same_ray(dn.dense(t.mps.data), want[-1]), 0, 'current', tol=max(1e-9, tol))
    return True


def evolve(ctx):
    L, d, data, psi, H, full, t, T = setup_run(ctx)
    H0, T0, f0 = [h.copy() for h in H], T.copy(), full.copy()
    want = states(full, psi, T)
    tol = 1e-9*max(1, abs(T[-1]-T[0])*np.linalg.norm(full, 2))
    r = t.edint(T)
    ctx.ok(r is t, 'current', 'returned %r' % type(r))
    if not judge(ctx, t, want, full, tol):
        return
    s = np.linalg.norm(psi)
    ops = [herm(ctx, L, d, ctx.flip(.7)) for _ in range(ctx.int(1, 3))]
    sc = s*s*max([1]+[np.linalg.norm(o, 2) for o in ops])
    ctx.close(t.ed_evs(ops), [[np.vdot(w, o@w).real for o in ops] for w in want], 'evs', tol=10*tol, scale=sc)
    ctx.close(t.ed_energies(), [[np.vdot(w, full@w).real] for w in want], 'energies', tol=10*tol, scale=s*s*max(1, np.linalg.norm(full, 2)))
    ctx.close(t.loschmidt(), [abs(np.vdot(want[0], w)) for w in want], 'loschmidt', tol=10*tol, scale=max(s*s, 1e-300))
    sp = t.schmidts()
    for g, w in zip(sp, want):
        for a, b in zip(g, ch.weights(w, L, d)):
            ch.same_spectrum(ctx, a, b, 'schmidts', tol=1e-7)
    if ctx.flip():
        got = t.mps_list()
        if ctx.ok(len(got) == len(want), 'mps_list', '%d states' % len(got)):
            for a, b in zip(got, want):
                ctx.close(dn.same_ray(dn.dense(a.data), b), 0, 'mps_list', tol=max(1e-9, tol))
    if ctx.flip():
        site, o = ctx.int(0, L-1), [dn.rherm(ctx.rng, d) for _ in range(2)]
        ctx.close(t.mps_evs(o, site), [[dn.expect(x, [site], w/np.linalg.norm(w), L, d).real for x in o] for w in want], 'mps_evs', tol=max(1e-8, tol), scale=10)
    ctx.ok(np.array_equal(T, T0) and np.array_equal(full, f0) and all(np.array_equal(a, b) for a, b in zip(H, H0)), 'untouched', 'arguments')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(t.mps_0.data, data)), 'untouched', 'initial state')


def repeat(ctx):
    """runs that go on from the last state, and cleared ones"""
    L, d, data, psi, H, full, t, T = setup_run(ctx, cap=70)
    for _ in range(ctx.int(2, 3)):
        want = states(full, psi, T)
        tol = 1e-8*max(1, abs(T[-1]-T[0])*np.linalg.norm(full, 2))
        t.edint(T)
        if not judge(ctx, t, want, full, tol):
            return
        ctx.event('decided:repeat')
        if ctx.flip():
            t.clear()
            psi = dn.dense(data)
            ctx.close(dn.dense(t.mps.data), psi, 'repeat', tol=1e-12, scale=max(1e-300, np.linalg.norm(psi)))
        else:
            psi = dn.dense(t.mps.data)
        T = T[0]+np.arange(ctx.int(2, 5))*ctx.rng.uniform(.01, 1)
    # many equal steps against one
    n = ctx.int(20, 60)
    T = np.linspace(0, ctx.rng.uniform(.5, 3), n)
    t.edint(T)
    judge(ctx, t, states(full, psi, T), full, 1e-7*max(1, T[-1]*np.linalg.norm(full, 2)))
    ctx.event('decided:long')


def otoc(ctx):
    L, d, data, psi, H, full, t, T = setup_run(ctx, cap=40)
    t = Trajectory(fMPS(data), full, fullH=True)
    s = np.linalg.norm(psi)
    V, W = [herm(ctx, L, d, ctx.flip(.7)) for _ in range(2)]
    arbitrary = ctx.flip(.3)
    if arbitrary:                       # as documented, -<[W, V][W, V]>, whatever the operators
        V, W = [dn.rop(ctx.rng, d**L) for _ in range(2)]
    if ctx.flip(.1):
        V = np.eye(d**L)
    e, v = np.linalg.eigh(full)
    want = []
    for x in T:
        U = (v*np.exp(-1j*e*x))@v.conj().T
        Wt = U.conj().T@W@U
        C = Wt@V-V@Wt
        want.append(-np.vdot(psi, C@(C@psi)).real if arbitrary else np.vdot(C@psi, C@psi).real)
    sc = max(1e-300, s*s*np.linalg.norm(V, 2)**2*np.linalg.norm(W, 2)**2)
    ctx.close(t.ed_OTOC(T, (V, W)), want, 'otoc', tol=1e-8*max(1, np.max(np.abs(T))*np.linalg.norm(full, 2)), scale=sc)
    if max(want) > 1e-3*sc:
        ctx.event('decided:otoc:nontrivial')
    ctx.close(dn.dense(t.mps.data), psi, 'untouched', tol=1e-12, scale=max(s, 1e-300))


SCENARIOS = [('evolve', evolve), ('repeat', repeat), ('otoc', otoc), ('evolve', evolve)]
