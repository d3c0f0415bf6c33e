"""C18: time evolution and ground states of uniform chains, against the energy gradient from dense linear algebra"""
import numpy as np
from vlib import dense as dn, uni
from xmps.iMPS import iMPS
from xmps.iTDVP import Trajectory
from xmps.iOptimize import find_ground_state

PID = 'C18'
QUICK, THOROUGH = 800, 9000
RULE = ('derivatives are decided against finite differences of the energy density and an independent dense solution, '
        'trajectories entry by entry against an accurate integration of that flow, ground states against rigorous bounds')
MUST = ('slope:gauge', 'slope:gradient', 'slope:value', 'slope:energy', 'euler:entries', 'rk4:entries', 'run:entries', 'run:uneven', 'loschmidt:value',
        'ground:descends', 'ground:bound', 'lh:equation', 'rh:equation', 'null:left', 'null:right',
        'steps', 'search', 'search:stop')


def pick(ctx, Dmax=4, ds=(2, 2, 2, 3), gap=.85, small=.08):
    d, D = ctx.choice(ds), ctx.int(1, Dmax)
    kind = ctx.choice(('generic', 'generic', 'real', 'clock'))
    A = uni.random(ctx.rng, d, D, kind, gap=gap, small=small)
    h = dn.rherm(ctx.rng, d*d)
    h = h/np.linalg.norm(h, 2)
    if ctx.flip(.2):
        h = h.real+0j
    ctx.p(d=d, D=D, kind=kind)
    return A, h, d, D


def energy(A, h):
    return np.real(uni.expect(A, h))


def s_slope(ctx):
    """derivative in an arbitrary gauge and normalisation"""
    A, h, d, D = pick(ctx)
    X = uni.gauge(ctx.rng, A, cond=4)*ctx.choice((1., 1., .3, 2., 1-1e-4, 1+1e-6, 1e-3))
    m = iMPS([X.copy()])
    if ctx.flip(.4):
        m.canonicalise(ctx.choice(('l', 'r', 'm')))
        X = m[0].copy()
    B = m.dA_dt([h if ctx.flip(.5) else h.reshape([d]*4)])
    B = B[0]
    ctx.ok(np.array_equal(m[0], X), 'slope:mutates', 'the state changed')
    eta, l, r, _ = uni.envs(X)
    size = max(1e-3, np.linalg.norm(B))
    ctx.event('decided:slope:gauge')
    ctx.close(np.einsum('pab,ac,pcd->bd', X.conj(), l, B), np.zeros((D, D)), 'slope:gauge', tol=1e-9, scale=size*np.linalg.norm(X)*np.linalg.norm(l))
    want, e = uni.slope(X, h)
    ctx.event('decided:slope:value')
    ctx.close(B, want, 'slope:value', tol=1e-9, scale=size)
    ctx.close(np.real(m.e), e, 'slope:energy', tol=1e-10)
    # energy: stationary in real time, steepest descent in imaginary time
    eps = 1e-5/size*np.linalg.norm(X)
    ctx.event('decided:slope:energy')
    ctx.close((energy(X+eps*B, h)-energy(X-eps*B, h))/(2*eps)*np.linalg.norm(X)/size, 0, 'slope:energy', tol=1e-6)
    W = dn.crandn(ctx.rng, d, D, D)
    W = W-X@(np.linalg.inv(l)@np.einsum('pba,bc,pcd->ad', X.conj(), l, W))/eta
    eps = 1e-5*np.linalg.norm(X)/np.linalg.norm(W)
    got = (energy(X+eps*W, h)-energy(X-eps*W, h))/(2*eps)
    ctx.event('decided:slope:gradient')
    ctx.close(2*np.real(np.einsum('pab,ac,pcd,db->', W.conj(), l, 1j*B, r))/eta, got, 'slope:gradient', tol=1e-6,
              scale=max(1, np.linalg.norm(W)/np.linalg.norm(X)))


def s_parts(ctx):
    """effective environments and null spaces"""
    A, h, d, D = pick(ctx)
    X = uni.gauge(ctx.rng, A, cond=4)
    m = iMPS([X.copy()])
    _, l, r = m.eigs()                            # decided by C19; only their scale is taken from here
    K = m.Lh([h])
    HAA = np.einsum('pqrs,rab,sbc->pqac', h.reshape([d]*4), X, X)
    e = energy(X, h)
    k0 = np.einsum('ba,pqac,pbx,qxd->dc', l, HAA, X.conj(), X.conj())-e*l
    ctx.event('decided:lh:equation')
    ctx.close(K-np.einsum('pab,ac,pcd->bd', X.conj(), K, X)+l*np.trace(K@r), k0, 'lh:equation', tol=1e-9)
    ctx.close(np.trace(K@r), 0, 'lh:equation', tol=1e-9)
    if D > 1:
        R = m.Rh([h])
        r0 = np.einsum('pqac,cd,qxd,pyx->ay', HAA, r, X.conj(), X.conj())-e*r
        ctx.event('decided:rh:equation')
        ctx.close(R-np.einsum('pab,bc,pdc->ad', X, R, X.conj())+r*np.trace(l@R), r0, 'rh:equation', tol=1e-9)
    pr, vL = m.left_null_projector(True)
    n = d*D
    P = pr.reshape(n, n)
    ctx.event('decided:null:left')
    met = np.kron(np.eye(d), l)
    ctx.close(np.einsum('pab,ac,pcQ->bQ', X.conj(), l, pr.reshape(d, D, n)), np.zeros((D, n)), 'null:left', tol=1e-9, scale=np.linalg.norm(P))
    ctx.close(P@met@P, P, 'null:left', tol=1e-9, scale=np.linalg.norm(P))
    ctx.close(np.trace(P@met), (d-1)*D, 'null:left', tol=1e-9)
    pr, vR = m.right_null_projector(True)
    ctx.event('decided:null:right')
    Q = pr.reshape(n, n)                         # [(p, ket), (q, bra)] acting on the right leg
    ctx.close(np.einsum('pab,bc,pcQ->aQ', X.conj(), r.T, pr.reshape(d, D, n)), np.zeros((D, n)), 'null:right', tol=1e-9, scale=np.linalg.norm(Q))
    ctx.close(Q@np.kron(np.eye(d), r.T)@Q, Q, 'null:right', tol=1e-9, scale=np.linalg.norm(Q))
    ctx.close(np.trace(Q@np.kron(np.eye(d), r.T)), (d-1)*D, 'null:right', tol=1e-9)


def apart(A, B):
    """distance of two uniform states by two-site density matrices"""
    return np.linalg.norm(uni.rdm(A, 2)-uni.rdm(B, 2))


def entries(ctx, t, d, D, n, mech):
    ctx.event('decided:run:entries')
    ctx.ok(len(t.mps_history) == n, 'run:entries', '%d entries for %d times' % (len(t.mps_history), n))
    out = []
    for v in t.mps_history:
        v = np.asarray(v)
        out.append((v[:v.size//2]+1j*v[v.size//2:]).reshape(d, D, D))
    return out


def s_order(ctx):
    """accuracy of one run with two step sizes"""
    A, h, d, D = pick(ctx, Dmax=3, ds=(2, 2, 3), small=.12)
    rk = ctx.flip(.6)
    T = .2 if rk else .1
    exact = uni.flow(A, h, T, 12)
    drift = apart(exact, A)
    size = np.linalg.norm(uni.slope(A, h)[0])
    errs = []
    for n in (2, 8):
        t = Trajectory(iMPS([uni.gauge(ctx.rng, A, unitary=True)]), [h])
        (t.rk4int if rk else t.eulerint)(np.linspace(0, T, n+1))
        xs = entries(ctx, t, d, D, n+1, 'run')
        ctx.close(apart(xs[0], A), 0, 'run:start', tol=1e-8)
        errs.append(apart(xs[-1], exact))
        for x in xs:
            ctx.close(np.einsum('pab,pac->bc', x.conj(), x), np.eye(D), 'run:canonical', tol=1e-7)
        ctx.close(apart(t.mps[0], xs[-1]), 0, 'run:current', tol=1e-9)
    ctx.p(rk=rk, errs=errs, drift=drift)
    ctx.event('decided:rk4:entries' if rk else 'decided:euler:entries')
    # four times the steps: the error shrinks by 4 (first order), 256 (fourth order)
    ctx.le(errs[1], max(errs[0]/(40 if rk else 2.2), 2e-9 if rk else 1e-5), 'rk4:order' if rk else 'euler:order')
    if rk:
        ctx.le(errs[1], .01*drift+1e-8, 'rk4:entries')


def s_run(ctx):
    """every entry of a history, and repeated runs"""
    A, h, d, D = pick(ctx, Dmax=3, ds=(2, 2, 3), small=.12)
    m = iMPS([uni.gauge(ctx.rng, A)])
    start = m[0].copy()
    t = Trajectory(m, [h])
    n, dt = ctx.int(2, 6), ctx.choice((.01, .03))
    T = np.arange(n)*dt
    if n > 2 and ctx.flip(.4):          # times need not be evenly spaced, nor go forwards
        ctx.event('decided:run:uneven')
        T = np.concatenate([[0.], np.cumsum(dt*ctx.rng.uniform(.2, 1., n-1))])
    T = T*ctx.choice((1, 1, -1))+ctx.choice((0., 1.))
    euler = ctx.flip(.3)
    (t.eulerint if euler else t.rk4int)(T)
    xs = entries(ctx, t, d, D, n, 'run')
    ref = A
    for k, x in enumerate(xs):
        if k:
            ref = uni.flow(xs[k-1] if euler else ref, h, T[k]-T[k-1], 2)
        ctx.le(apart(x, ref), 1e-5 if not euler else 30*(T[k]-T[k-1])**2+1e-7, 'run:entry')
        ctx.close(np.einsum('pab,pac->bc', x.conj(), x), np.eye(D), 'run:canonical', tol=1e-8)
        if not euler:
            ctx.close(energy(x, h), energy(A, h), 'run:energy', tol=1e-5)
    ctx.ok(np.array_equal(m[0], start), 'run:mutates', 'the initial state changed')
    ctx.close(apart(t.mps_0[0], A), 0, 'run:start', tol=1e-8)
    les = t.loschmidts()
    ctx.event('decided:loschmidt:value')
    ctx.close(les, [-np.log(uni.fidelity(xs[0], x)) for x in xs], 'loschmidt:value', tol=1e-9)
    t.rk4int(T)
    ys = entries(ctx, t, d, D, 2*n, 'run')
    ctx.close(apart(ys[n], xs[-1]), 0, 'run:append', tol=1e-8)


def s_ground(ctx):
    """ground state search"""
    D = ctx.int(1, 3)
    h = dn.rherm(ctx.rng, 4)
    h = h/np.linalg.norm(h, 2)
    lower = np.linalg.eigvalsh(dn.nn_hamiltonian([h]*5, 6, 2))[0]/5
    steps = ctx.int(20, 60)
    # the states the search passes through: the step is only first order small where they are well conditioned
    fine, slope = [], iMPS.dA_dt

    def watched(self, *args, **kw):
        A = self[0].copy()
        B = slope(self, *args, **kw)
        fine.append(uni.envs(A)[3] < .98 and uni.schmidt(A)[-1] > 5e-2 and np.linalg.norm(np.asarray(B[0])) < 4)
        return B
    iMPS.dA_dt = watched
    try:
        psi, es = find_ground_state(h, D, maxiters=steps)
    finally:
        iMPS.dA_dt = slope
    es = np.real(np.array(es))
    ctx.p(D=D, steps=steps)
    if uni.envs(psi[0])[3] > .98 or uni.schmidt(psi[0])[-1] < 2e-2:
        return
    ctx.ok(psi.D == D and psi[0].shape == (2, D, D), 'ground:shape', 'shape %s' % (psi[0].shape,))
    ctx.ok(len(es) <= steps, 'ground:steps', '%d steps' % len(es))
    if len(es) > 1:
        # steps of size 1e-2 along the gradient: first order descent
        if len(fine) in (len(es), len(es)+1):
            rises = [b-a for a, b, p, q in zip(es, es[1:], fine, fine[1:]) if p and q]
            if rises:
                ctx.event('decided:ground:descends')
                ctx.le(max(rises), 1e-5, 'ground:descends')
        if all(fine):
            ctx.le(energy(psi[0], h), es[0]+1e-8, 'ground:descends')
            ctx.close(energy(psi[0], h), es[-1], 'ground:energy', tol=5e-2)
    ctx.event('decided:ground:bound')
    if len(es):
        ctx.le(lower, np.min(es)+1e-8, 'ground:bound')
    ctx.le(lower, energy(psi[0], h)+1e-8, 'ground:bound')


def s_steps(ctx):
    """single steps, under the Hamiltonian of the trajectory or another one"""
    A, h, d, D = pick(ctx, Dmax=3, ds=(2, 2, 3), small=.12)
    g = dn.rherm(ctx.rng, d*d)
    g = g/np.linalg.norm(g, 2)
    m = iMPS([uni.gauge(ctx.rng, A)])
    t = Trajectory(m, [h])
    m[0] = dn.crandn(ctx.rng, d, D, D)           # the caller goes on with its own
    ctx.close(apart(t.mps_0[0], A), 0, 'steps:start', tol=1e-8)
    ctx.close(apart(t.mps[0], A), 0, 'steps:start', tol=1e-8)
    m = iMPS([uni.gauge(ctx.rng, A)])
    n = 0
    for _ in range(ctx.int(1, 3)):
        X = m[0].copy()
        rk, other, store, dt = ctx.flip(), ctx.flip(), ctx.flip(), ctx.choice((.02, -.01))
        out = (t.rk4 if rk else t.euler)(m, dt, *(([g],) if other else ()), **({} if store and ctx.flip() else {'store': store}))
        ctx.note('rk4' if rk else 'euler', other, store, dt)
        n += store
        ctx.event('decided:steps')
        ctx.ok(len(t.mps_history) == n, 'steps:stored', '%d entries after %d stored steps' % (len(t.mps_history), n))
        if store:
            ctx.close(t.mps_history[-1], np.concatenate([X.real.ravel(), X.imag.ravel()]), 'steps:stored', tol=1e-12)
        ctx.ok(np.array_equal(m[0], X), 'steps:mutates', 'the state changed')
        ctx.close(np.einsum('pab,pac->bc', out[0].conj(), out[0]), np.eye(D), 'steps:canonical', tol=1e-7)
        want = uni.flow(X, g if other else h, dt, 2) if rk else X+dt*uni.slope(X, g if other else h)[0]
        ctx.close(apart(out[0], want), 0, 'steps:state', tol=1e-6 if rk else 1e-8)
        m = out


def s_search(ctx):
    """a search step by step: the same random start, stopped after any number of steps"""
    D = ctx.int(1, 3)
    h = dn.rherm(ctx.rng, 4)
    h = h/np.linalg.norm(h, 2)
    seed, k = int(ctx.rng.integers(1 << 30)), ctx.int(1, 4)
    kw = ctx.choice(({}, {'ε': .03}, {'ε': .002}))
    eps = kw.get('ε', 1e-2)
    ctx.p(D=D, k=k, eps=eps)

    def go(n, **more):
        np.random.seed(seed)
        psi, es = find_ground_state(h, D, maxiters=n, **kw, **more)
        return psi[0], np.real(np.array(es))
    runs = [go(n, tol=0) for n in range(k+2)]
    if any(uni.envs(A)[3] > .95 or uni.schmidt(A)[-1] < 5e-2 for A, _ in runs):
        return
    slopes = [uni.slope(A, h)[0] for A, _ in runs]
    size = [eps*np.linalg.norm(B) for B in slopes]
    for j, (A, es) in enumerate(runs):
        ctx.event('decided:search')
        ctx.close(np.einsum('pab,pac->bc', A.conj(), A), np.eye(D), 'search:canonical', tol=1e-7)
        ctx.close(es, [energy(B, h) for B, _ in runs[:j]], 'search:energies', tol=1e-7)
        if j:
            B = runs[j-1][0]
            ctx.close(apart(A, B-1j*eps*slopes[j-1]), 0, 'search:step', tol=1e-7)
    # it ends at the first state whose next step is shorter than the tolerance
    tol = float(ctx.choice(size)*ctx.choice((.7, 1.4)))
    A, es = go(k+1, tol=tol)
    stop = next((j for j in range(k+1) if size[j] < tol), k+1)
    if min(abs(x-tol) for x in size) > 1e-3*tol:
        ctx.event('decided:search:stop')
        ctx.ok(len(es) == stop, 'search:stop', '%d steps, step lengths %s, tolerance %s' % (len(es), size, tol))
        ctx.close(apart(A, runs[stop][0]), 0, 'search:stop', tol=1e-7)


SCENARIOS = [('steps', s_steps), ('search', s_search), ('slope', s_slope), ('parts', s_parts), ('order', s_order), ('run', s_run), ('ground', s_ground)]
