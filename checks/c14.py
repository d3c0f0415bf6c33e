"""C14: recorded trajectories are the evolution at the recorded times."""
import numpy as np
import scipy.linalg as la
from vlib import dense as dn, chain as ch, traj as tj, long as lg
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PID = 'C14'
QUICK, THOROUGH = 2400, 26000
RULE = ('One case runs an integrator (with histories of runs, clears, splits, copies and bond changes) from a regular canonical '
        'chain and judges every recorded step with an independent high accuracy integration of the projected flow in tensor '
        'space; at full bond dimension also with exp(-iHt). The tolerance of a step is a multiple of the error one own step of '
        'the same order makes.')
MUST = ['length', 'initial', 'current', 'step:euler', 'step:rk4', 'step:ode', 'exact:euler', 'exact:rk4', 'exact:ode', 'norm', 'mps_list', 'mps_evs',
        'mps_energies', 'loschmidt', 'deserialize', 'split', 'again', 'untouched', 'copy', 'bonds', 'prepared', 'steps:recorded', 'order:euler', 'order:rk4', 'uneven', 'backwards', 'long']
ASSUMPTIONS = ['regular bond structure (the recorded vectors carry no shapes)', 'Schmidt coefficients of the start at least 1e-2',
               'time grids of two or more points, forwards or backwards, even or not']
CASE_LIMIT = 60
INT = {'euler': 'eulerint', 'rk4': 'rk4int', 'ode': 'odeint'}


def grid(ctx, dt, n):
    """n times, even or not, forwards or backwards"""
    T = dt*np.arange(n)
    if n > 2 and ctx.flip(.35):
        ctx.event('decided:uneven')
        T = np.concatenate([[0.], np.cumsum(dt*ctx.rng.uniform(.2, 1., n-1))])
    if ctx.flip(.2):
        ctx.event('decided:backwards')
        T = -T
    return T


def setup_run(ctx, full=.3, cap=70):
    m, psi, L, d, hand = tj.start(ctx, full=full, cap=cap)
    H, Hf = tj.hamiltonian(ctx, L, d, 10.**ctx.rng.uniform(-.3, .3))
    s = sum(np.linalg.norm(h, 2) for h in H)
    dt = ctx.rng.uniform(.02, .1)/s
    n = ctx.int(2, 4)
    t0 = ctx.rng.uniform(-2, 2) if ctx.flip(.3) else 0.
    form = ctx.choice(['list', 'list', 'full', 'reshaped'])
    arg = Hf if form == 'full' else [h.reshape([d]*4) for h in H] if form == 'reshaped' else H
    if ctx.flip(.3):                    # neither canonical nor normalised: integrators canonicalise
        m = fMPS(ch.gauge(ctx.rng, [x.copy() for x in m.data], 5., False))
        m[0] = m[0]*complex(*ctx.rng.uniform(.3, 3, 2))
        hand = 'none'
    t = Trajectory(m, arg, fullH=form == 'full')
    ctx.p(L=L, d=d, D=m.D, hand=hand, form=form, n=n, u=int(ctx.rng.integers(1 << 30)))
    return m, psi, L, d, H, Hf, t, t0+grid(ctx, dt, n), dt


def judge_steps(ctx, vecs, shapes, H, L, d, T, how, skip=()):
    """consecutive entries are one step of the flow apart"""
    ref = tj.Reference(H, L, d)
    for k, dt in enumerate(np.diff(T)):
        if k in skip:
            continue
        A = tj.tensors(vecs[k], shapes)
        want = dn.dense(ref.step(A, dt, 4))
        got = tj.read(vecs[k+1], shapes)
        if how == 'euler':
            own = [dn.dense(A)+dt*tj.flow(H, A, L, d), dn.dense([a+dt*b for a, b in zip(A, ref.rhs(A))])]
            tol = 5*max(tj.distance(x, want) for x in own)+1e-9
        elif how == 'rk4':
            tol = 100*tj.distance(dn.dense(ref.step(A, dt, 1)), want)+1e-9
        else:
            tol = 1e-3
        ctx.close(tj.distance(got, want), 0, 'step:'+how, tol=tol, step=k)
        ctx.close(np.linalg.norm(got), 1, 'norm', tol=1e-9 if how != 'ode' else 1e-2)


def basics(ctx, t, m, psi, T, shapes, extra=0):
    h = t.mps_history
    if not ctx.ok(len(h) == len(T)+extra, 'length', '%d entries for %d times' % (len(h), len(T)+extra)):
        return False
    ctx.close(tj.distance(tj.read(h[0], shapes), psi), 0, 'initial', tol=1e-8)
    ctx.close(dn.dense(t.mps.data), tj.read(h[-1], shapes), 'current', tol=1e-12)
    return True


def series(ctx, t, states, L, d, Hf):
    """everything computed from a history is aligned with its entries"""
    what = ctx.choice(['mps_list', 'mps_evs', 'mps_energies', 'loschmidt', 'deserialize'])
    if what in ('mps_list', 'deserialize'):
        got = getattr(t, what)()
        if ctx.ok(len(got) == len(states), what, '%d for %d' % (len(got), len(states))):
            for a, b in zip(got, states):
                ctx.close(dn.dense(a.data), b, what, tol=1e-10)
    elif what == 'mps_evs':
        ops = [dn.rherm(ctx.rng, d) for _ in range(ctx.int(1, 3))]
        site = ctx.int(0, L-1)
        want = [[dn.expect(o, [site], p/np.linalg.norm(p), L, d).real for o in ops] for p in states]
        ctx.close(t.mps_evs(ops, site), want, what, tol=1e-8, scale=10)
    elif what == 'mps_energies':
        want = [np.vdot(p, Hf@p).real/np.vdot(p, p).real for p in states]
        ctx.close(t.mps_energies(), want, what, tol=1e-8, scale=max(1., np.linalg.norm(Hf, 2)))
    else:
        want = [abs(np.vdot(states[0], p)) for p in states]
        ctx.close(t.loschmidt(), want, what, tol=1e-9)


def run(ctx):
    m, psi, L, d, H, Hf, t, T, dt = setup_run(ctx)
    shapes = [x.shape for x in m.data]
    keep, T0, H0 = [x.copy() for x in m.data], T.copy(), [h.copy() for h in H]
    how = ctx.choice(['euler', 'rk4', 'rk4', 'ode'])
    ctx.p(how=how)
    r = getattr(t, INT[how])(T)
    ctx.ok(r is t, 'current', 'returned %r' % type(r))
    if not basics(ctx, t, m, psi, T, shapes):
        return
    judge_steps(ctx, t.mps_history, shapes, H, L, d, T, how)
    states = [tj.read(v, shapes) for v in t.mps_history]
    before = [np.array(v) for v in t.mps_history]
    for _ in range(2):
        series(ctx, t, states, L, d, Hf)
    ctx.ok(len(before) == len(t.mps_history) and all(np.array_equal(a, b) for a, b in zip(before, t.mps_history)), 'untouched',
           'reading a series changed the history')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'untouched', 'the chain given was evolved')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, t.mps_0.data)), 'untouched', 'the recorded initial state was evolved')
    ctx.ok(np.array_equal(T, T0) and all(np.array_equal(a, b) for a, b in zip(H, H0)), 'untouched', 'the arguments changed')


def exact(ctx):
    """bond dimension that suffices: the Schrodinger evolution itself"""
    m, psi, L, d, H, Hf, t, T, dt = setup_run(ctx, full=1., cap=40)
    if m.D < d**(L//2):
        return
    shapes = [x.shape for x in m.data]
    how = ctx.choice(['euler', 'rk4', 'ode'])
    ctx.p(how=how)
    getattr(t, INT[how])(T)
    if not basics(ctx, t, m, psi, T, shapes):
        return
    dt = max(np.diff(T), key=abs)
    s = sum(np.linalg.norm(h, 2) for h in H)*abs(dt)
    ref = tj.Reference(H, L, d)
    own = [tj.distance(dn.dense(ref.step(m.data, dt, k)), dn.evolve(Hf, psi, dt)) for k in (1,)]
    smin = min(dn.schmidt(psi, i, L, d)[m[i].shape[1]-1] for i in range(1, L))
    tol = {'euler': 2*s**2+s**2/smin, 'rk4': 100*own[0]+5*s**5/smin+1e-8, 'ode': 2e-3}[how]*len(T)
    for x, v in zip(T, t.mps_history):
        got = tj.read(v, shapes)
        ctx.close(tj.distance(got, dn.evolve(Hf, psi, x-T[0])), 0, 'exact:'+how, tol=tol)


def split(ctx):
    """one run in two pieces, cleared and repeated runs, copies"""
    m, psi, L, d, H, Hf, t, T, dt = setup_run(ctx, cap=30)
    shapes = [x.shape for x in m.data]
    T = T[0]+grid(ctx, dt, ctx.int(4, 6))
    how = ctx.choice(['euler', 'rk4', 'ode'])
    ctx.p(how=how, n=len(T))
    go = lambda x, T: getattr(x, INT[how])(T)
    go(t, T)
    if not basics(ctx, t, m, psi, T, shapes):
        return
    whole = [tj.read(v, shapes) for v in t.mps_history]
    tol = 1e-7 if how != 'ode' else 1e-3
    c = t.copy()
    n0 = len(t.mps_history)
    t.clear()
    ctx.ok(len(t.mps_history) == 0, 'again', 'history kept after clear')
    ctx.close(dn.dense(t.mps.data), dn.dense(m.data), 'again', tol=1e-12)
    ctx.ok(len(c.mps_history) == n0, 'copy', 'clearing one cleared the other')
    a = ctx.int(2, len(T)-2)
    go(t, T[:a])
    if how != 'ode' or ctx.flip():
        go(t, T[a-1:])
        second = how
    want = whole[:a]+whole[a-1:]
    if ctx.ok(len(t.mps_history) == len(want) or len(t.mps_history) == a, 'split', '%d entries' % len(t.mps_history)):
        for v, w in zip(t.mps_history, want):
            ctx.close(tj.distance(tj.read(v, shapes), w), 0, 'split', tol=tol)
        series(ctx, t, [tj.read(v, shapes) for v in t.mps_history], L, d, Hf)
    # the copy still holds the whole run; going on with it leaves the other alone
    ctx.close(np.array([tj.read(v, shapes) for v in c.mps_history]), np.array(whole), 'copy', tol=1e-12)
    k, now = len(t.mps_history), dn.dense(t.mps.data)
    go(c, T[:2])
    ctx.ok(len(t.mps_history) == k and np.array_equal(dn.dense(t.mps.data), now), 'copy', 'running a copy changed the original')
    ctx.ok(len(c.mps_history) == n0+2, 'copy', 'the copy recorded %d' % len(c.mps_history))
    # and once more from the start
    t.clear()
    go(t, T)
    if ctx.ok(len(t.mps_history) == len(T), 'again', '%d entries' % len(t.mps_history)):
        ctx.close(np.array([tj.read(v, shapes) for v in t.mps_history]), np.array(whole), 'again', tol=1e-9 if how != 'ode' else 1e-6)


def bonds(ctx):
    """the bond dimension changes between runs: entries keep their own shapes"""
    for _ in range(50):
        m, psi, L, d, hand = tj.start(ctx, full=.5, cap=64)
        if m.D > 1:
            break
    else:
        return
    H, Hf = tj.hamiltonian(ctx, L, d)
    s = sum(np.linalg.norm(h, 2) for h in H)
    dt = ctx.rng.uniform(.02, .1)/s
    D2 = ctx.int(1, m.D)
    how = ctx.choice(['euler', 'rk4', 'ode'])
    n1, n2 = ctx.int(2, 3), ctx.int(2, 3)
    ctx.p(L=L, d=d, D=m.D, D2=D2, how=how, n=[n1, n2], u=int(ctx.rng.integers(1 << 30)))
    t = Trajectory(m, H)
    getattr(t, INT[how])(dt*np.arange(n1))
    first = tj.regular(L, d, m.D)
    phi = tj.read(t.mps_history[-1], first)
    t.contract(D2)
    cut = dn.dense(t.mps.data)
    if [x.shape for x in t.mps.data] != tj.regular(L, d, D2):
        return
    tails = [np.sum(dn.schmidt(phi, i, L, d)[D2:]**2)/np.vdot(phi, phi).real for i in range(1, L)]
    ctx.le(tj.distance(cut, phi)**2, sum(tails), 'bonds', slack=1e-9)
    if min(dn.schmidt(cut, i, L, d)[t.mps[i].shape[1]-1] for i in range(1, L)) < 1e-3:
        return
    second = tj.regular(L, d, D2)
    T = grid(ctx, dt, n2)
    getattr(t, INT[how])(T)
    if not ctx.ok(len(t.mps_history) == n1+n2, 'bonds', '%d entries' % len(t.mps_history)):
        return
    states = [tj.read(v, first) for v in t.mps_history[:n1]]+[tj.read(v, second) for v in t.mps_history[n1:]]
    ctx.close(tj.distance(states[n1], cut), 0, 'bonds', tol=1e-8)
    judge_steps(ctx, t.mps_history[n1:], second, H, L, d, T, how)
    got = t.mps_list()
    if ctx.ok(len(got) == len(states), 'bonds', '%d states' % len(got)):
        for a, b in zip(got, states):
            ctx.close(dn.dense(a.data), b, 'bonds', tol=1e-10)
    for _ in range(2):
        series(ctx, t, states, L, d, Hf)


def steps(ctx):
    """single steps: the Hamiltonian given takes precedence, recording is optional, rk4 is of fourth order"""
    while True:
        m, psi, L, d, hand = tj.start(ctx, cap=40, cond=.15)
        if m.D > 1 and L > 2:
            break
    H, Hf = tj.hamiltonian(ctx, L, d)
    H1, Hf1 = tj.hamiltonian(ctx, L, d)
    s = sum(np.linalg.norm(h, 2) for h in H)
    form = ctx.choice(['list', 'list', 'full'])
    own, arg = (Hf1, Hf) if form == 'full' else (H1, H)
    given = ctx.flip()
    t = Trajectory(m, own if given else arg, fullH=form == 'full')
    extra = dict(H=arg) if given else {}
    ctx.p(L=L, d=d, D=m.D, form=form, given=given, u=int(ctx.rng.integers(1 << 30)))
    shapes = [x.shape for x in m.data]
    ref = tj.Reference(H, L, d)
    vec = m.serialize(real=True)
    A = tj.tensors(vec, shapes)
    how = ctx.choice(['euler', 'rk4', 'rk4'])
    err = []
    for k, dt in enumerate([.16/s, .08/s, .04/s]):
        store = ctx.flip()
        n = len(t.mps_history)
        r = getattr(t, how)(m.copy(), dt, store=store, **extra)
        ctx.ok(len(t.mps_history) == n+store, 'steps:recorded', '%d entries' % (len(t.mps_history)-n))
        if store:
            ctx.close(t.mps_history[-1], vec, 'steps:recorded', tol=1e-12)
        err.append(tj.distance(dn.dense(r.data), dn.dense(ref.step(A, dt, 6))))
    order = {'euler': 2, 'rk4': 5}[how]     # of the error of one step
    ctx.note(how, err)
    ctx.le(err[2], err[0]/4**(order-.9)+1e-11, 'order:'+how, slack=0)
    ctx.le(err[0], {'euler': 1., 'rk4': 1e-2}[how], 'order:'+how, slack=0)


def prepared(ctx):
    """bond dimension changed, or an exact run done and cleared, before the evolution is recorded"""
    m, psi, L, d, hand = tj.start(ctx, cap=40)
    H, Hf = tj.hamiltonian(ctx, L, d)
    dt = ctx.rng.uniform(.02, .1)/sum(np.linalg.norm(h, 2) for h in H)
    what = ctx.choice(['exact', 'exact', 'contract', 'contract', 'expand', 'grown'])
    how = ctx.choice(['euler', 'rk4', 'ode'])
    t = Trajectory(m, H)
    ctx.p(L=L, d=d, D=m.D, what=what, how=how, u=int(ctx.rng.integers(1 << 30)))
    if what == 'exact':
        t.edint(dt*np.arange(3))
        if ctx.flip():
            t.mps_list()
        t.clear()
        shapes, phi = [x.shape for x in m.data], psi
    else:
        if what == 'contract':
            t.contract(ctx.choice([m.D, m.D+1, 2*m.D, d**L]))
        elif what == 'expand':
            t.expand(m.D+ctx.int(1, 3)).contract(ctx.int(1, m.D))
        else:
            step = 10.**ctx.rng.uniform(-6, -2)
            D = min(d*m.D, d**(L//2), m.D+ctx.int(0, 2))
            t.dynamical_expand(D, step)
            if not ctx.ok(t.mps.D == D and max(max(x.shape[1:]) for x in t.mps.data) == D, 'prepared', 'bond dimension %s' % t.mps.D):
                return
            ctx.ok(t.Ds == [D], 'prepared', 'recorded %s' % t.Ds)
            t.contract(m.D)
        shapes, phi = [x.shape for x in t.mps.data], dn.dense(t.mps.data)
        if shapes != tj.regular(L, d, t.mps.D) or min(dn.schmidt(phi, i, L, d)[shapes[i][1]-1] for i in range(1, L)) < 5e-3:
            return
        if t.mps.D == m.D and what != 'grown':
            ctx.close(tj.distance(phi, psi), 0, 'prepared', tol=1e-8)
    T = grid(ctx, dt, ctx.int(2, 3))
    getattr(t, INT[how])(T)
    if not basics(ctx, t, m, phi, T, shapes):
        return
    judge_steps(ctx, t.mps_history, shapes, H, L, d, T, how)
    states = [tj.read(v, shapes) for v in t.mps_history]
    ctx.event('decided:prepared')
    for _ in range(2):
        series(ctx, t, states, L, d, Hf)
    S = t.schmidts()
    if ctx.ok(len(S) == len(states), 'prepared', '%d entries' % len(S)):
        for p, s in zip(states, S):
            for i in range(1, L):
                w = np.sort(np.real(s[i]))[::-1]
                v = dn.schmidt(p, i, L, d)[:len(w)]**2
                ctx.close(w/w.sum(), v/v.sum(), 'prepared', tol=1e-9)


def long(ctx):
    """chains beyond dense vectors: every site in a field of its own evolves exactly, with interactions the energy stays"""
    a, L, d = lg.draw(ctx, most=3, kinds=('generic',), Lmin=9, Lmax=20)
    m = fMPS([x.copy() for x in a])
    (m.left_canonicalise if ctx.flip() else m.right_canonicalise)()
    if [x.shape for x in m.data] != tj.regular(L, d, m.D) or min(w[len(np.atleast_1d(np.diag(x)))-1] for w, x in zip(lg.weights(m.data), m.Ls)) < 1e-3:
        return
    free = ctx.flip()
    X, I = [dn.rherm(ctx.rng, d) for _ in range(L)], np.eye(d)
    X = [x/np.linalg.norm(x, 2) for x in X]
    if free:                            # the fields shared between the bonds at random
        f = [0.]+list(ctx.rng.uniform(-.5, 1.5, L-2))+[1.]
        H = [np.kron((1-f[i])*X[i], I)+np.kron(I, f[i+1]*X[i+1]) for i in range(L-1)]
    else:
        H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
        H = [h/np.linalg.norm(h, 2) for h in H]
    how = ctx.choice(['rk4', 'rk4', 'ode'])
    T = ctx.rng.uniform(-1, 1)+grid(ctx, .03, ctx.int(2, 4))
    ctx.p(free=free, how=how, n=len(T))
    t = Trajectory(m, H)
    getattr(t, INT[how])(T)
    hist = t.mps_list()
    if not ctx.ok(len(hist) == len(T), 'length', '%d entries for %d times' % (len(hist), len(T))):
        return
    ctx.event('decided:long')
    E = lg.energy(a, H)
    got = t.mps_energies()
    for k, h in enumerate(hist):
        ctx.close(got[k], lg.energy(h.data, H), 'mps_energies', tol=1e-8, scale=L)
        ctx.close(lg.lognorm(h.data), 0, 'norm', tol=1e-8 if how == 'rk4' else 1e-2)
        ctx.close(lg.energy(h.data, H), E, 'energy', tol=1e-4 if how == 'rk4' else 1e-2, scale=L)
        if free:
            U = [la.expm(-1j*(T[k]-T[0])*x) for x in X]
            want = [np.einsum('pq,qab->pab', u, x) for u, x in zip(U, a)]
            e = 1e-5 if how == 'rk4' else 5e-3
            ctx.close(lg.apart(h.data, want), 0, 'long', tol=1e-4 if how == 'rk4' else 2e-2, step=k)
            for i in (0, ctx.int(0, L-2), L-2):
                ctx.close(lg.rdm(h.data, i, 2), lg.rdm(want, i, 2), 'long', tol=e, step=k)


SCENARIOS = [('steps', steps), ('prepared', prepared), ('run', run), ('split', split), ('run', run), ('exact', exact), ('bonds', bonds)]*3+[('long', long)]
