"""C32: Lyapunov spectra along projected trajectories."""
import numpy as np
from scipy.linalg import expm
from vlib import dense as dn, tangent as tg, traj as tj
from checks.c12 import Frame
from xmps.fMPS import fMPS
from xmps.fTDVP import Trajectory

PID = 'C32'
QUICK, THOROUGH = 300, 3500
RULE = ('Canonical chains of 2-4 sites (d 2-3, D 1-4, Schmidt coefficients above 0.1), random nearest-neighbour Hamiltonians. An independent dense '
        'integration of perturbed states gives the volumes spanned by the first k tangent vectors of a random basis; the recorded exponents of runs '
        'with dt and dt/2 are compared with them; further cases check the first step, running means, stopping, continuation, offsets, and runs with no instability.')
MUST = ['volumes', 'inverse', 'first', 'means', 'conserved', 'offset', 'flat:full', 'flat:product', 'resume', 'single', 'basis', 'stop', 'state', 'grow', 'gauge', 'cleared']
ASSUMPTIONS = ['Schmidt coefficients of the chains are at least 0.1 at the start (the null-space metric inverts them)',
               'no matrix product operator is given (its integrator is not part of this repository)']
CASE_LIMIT = 120


def real(J1, J2):
    a, b = J1, J2
    return np.block([[a.real+b.real, b.imag-a.imag], [a.imag+b.imag, a.real-b.real]])


def draw(ctx, full=0., cap=17, ds=(2, 2, 2, 3), hands=('left', 'right')):
    for _ in range(200):
        m, psi, L, d, hand = tj.start(ctx, cap=cap, Dmax=3, cond=.1, full=full, Lmax=4, hands=hands, ds=ds)
        n = sum((d*x.shape[1]-x.shape[2])*x.shape[2] for x in m.data)
        if 0 < n <= 16:
            break
    H, F = tj.hamiltonian(ctx, L, d)
    ctx.p(L=L, d=d, hand=hand, structure=str(m.structure()), u=int(ctx.rng.integers(1 << 30)))
    return m, psi, L, d, H, F, n


def run(m, H, dt, N, Q=None, **kw):
    t = Trajectory(m.copy(), [h.copy() for h in H])
    if Q is not None:
        kw['initial_basis'] = Q.copy()
    r = t.lyapunov(np.arange(N)*dt, thresh=kw.pop('thresh', None), **kw)
    return t, r


def frame(m, H):
    x = m.copy()
    x.jac([h.copy() for h in H])
    return Frame(m, x.new_vL)


def orth(ctx, n):
    return np.linalg.qr(ctx.rng.standard_normal((n, n)))[0]


def linearised(m, f, H, L, d, T, dirs, fine=1, eps=1e-4):
    """dense tangent vectors at time T (real coordinates) that start as the directions given"""
    ref = tj.Reference(H, L, d)
    N = fine*max(6, int(np.ceil(T/.04)))

    def go(A):
        p = dn.dense(ref.step([x.copy() for x in A], T, N))
        return p/np.linalg.norm(p)
    A = [x.astype(complex) for x in m.data]
    end = go(A)
    out = []
    n = len(f.keys)
    for v in dirs:
        z = v[:n]+1j*v[n:]
        B = [np.zeros(x.shape, complex) for x in A]
        for c, k in zip(z, f.keys):
            B[k[0]] = B[k[0]]+c*f.T[k]
        y = []
        for s in (1, -1):
            p = go([a+s*eps*b for a, b in zip(A, B)])
            y.append(p*np.exp(-1j*np.angle(np.vdot(end, p))))
        w = (y[0]-y[1])/(2*eps)
        w = w-end*np.vdot(end, w)
        out.append(np.concatenate([w.real, w.imag]))
    return np.array(out).T


def logdiag(M):
    return np.log(np.abs(np.diag(np.linalg.qr(M)[1])))


def judge(ctx, mech, got, slack, want):
    """want(fine=, eps=) is a finite-difference reference: a disagreement counts only once the reference itself has converged"""
    w = want()
    if np.max(np.abs(got-w)) > .5*slack:
        w, v = want(fine=4, eps=1e-4), want(fine=8, eps=3e-5)
        slack = slack+2*np.max(np.abs(w-v))
        ctx.event('reference refined')
        if slack > 3e-2:
            return
        w = v
    ctx.le(np.max(np.abs(got-w)), slack, mech)


def volumes(ctx):
    m, psi, L, d, H, F, n = draw(ctx)
    T = ctx.choice([.2, .4, .6])
    f = frame(m, H)
    Q = orth(ctx, 2*n)
    whole = 2*n <= 14 and ctx.flip(.4)
    k = 2*n if whole else min(2*n, 3)
    N = int(np.ceil(T/.04))
    l, b = [], []
    for j in (N, 2*N):
        t, r = run(m, H, T/j, j, Q)
        if not ctx.ok(np.shape(t.lys) == (j, 2*n), 'volumes', 'recorded %s' % (np.shape(t.lys),)):
            return
        l.append(np.cumsum(np.sum(t.lys, 0)[:k]))
        b.append(np.cumsum(np.sum(2*t.lys_-t.lys, 0)))
    # first order in dt
    got, slack = 2*l[1]-l[0], 2e-3+.5*np.max(np.abs(l[1]-l[0]))
    ctx.p(converged=bool(slack < 2e-2))
    if slack < 3e-2:
        judge(ctx, 'volumes', got, slack, lambda **kw: np.cumsum(logdiag(linearised(m, f, H, L, d, T, Q.T[:k], **kw))))
    if whole:
        def inverse(**kw):
            R = np.linalg.qr(linearised(m, f, H, L, d, T, Q.T[:k], **kw)@Q.T[:k])[1]   # the linear map itself, in a basis at the end
            return np.cumsum(logdiag(np.linalg.inv(R).T@Q))
        got, slack = 2*b[1]-b[0], 4e-3+.5*np.max(np.abs(b[1]-b[0]))
        if slack < 3e-2:
            judge(ctx, 'inverse', got, slack, inverse)


def steps(ctx):
    m, psi, L, d, H, F, n = draw(ctx)
    dt, N = ctx.choice([.01, .05, .1]), ctx.int(2, 5)
    f = frame(m, H)
    Q = orth(ctx, 2*n)
    w = ctx.int(1, 6)
    skip = ctx.int(0, N-1) if ctx.flip(.4) else 0       # results of the first steps left out
    t, r = run(m, H, dt, N, Q, conv_window=w, **({'k': skip} if skip else {}))
    if not ctx.ok(np.shape(t.lys) == np.shape(t.lys_) == (N, 2*n), 'first', 'recorded %s' % (np.shape(t.lys),)):
        return
    # the first step, from the definitions
    V, hv = f.V, F@f.V
    E = np.vdot(psi, F@psi).real
    psid = V@(V.conj().T@(-1j*(F@psi)))
    J2 = np.zeros((n, n), complex)
    for a, x in enumerate(f.keys):
        for b, y in enumerate(f.keys):
            if x[0] != y[0]:
                v = f.two(x, y).conj()
                J2[a, b] = -1j*v@(F@psi)-v@psid
    J = real(-1j*(V.conj().T@hv-E*np.eye(n)), J2)
    ctx.close(t.lys[0], logdiag(expm(J*dt)@Q), 'first', tol=1e-8, scale=1)
    ctx.close(2*t.lys_[0]-t.lys[0], logdiag(expm(-J.T*dt)@Q), 'first', tol=1e-8, scale=1)
    ctx.close(np.sum(t.lys, 1), np.zeros(N), 'conserved', tol=1e-9, scale=1)
    # averages
    mean = np.cumsum(t.lys, 0)/np.arange(1, N+1)[:, None]
    mean_ = np.cumsum(t.lys_, 0)/np.arange(1, N+1)[:, None]
    times, (exps, lys, conv, paired), (exps_, lys_, conv_, paired_) = r
    ctx.close(np.asarray(times), np.arange(skip, N)*dt, 'means', tol=1e-12, scale=1)
    ctx.close(exps, mean[skip:]/dt, 'means', tol=1e-9, scale=1)
    ctx.close(exps_, mean_[skip:]/dt, 'means', tol=1e-9, scale=1)
    ctx.close(t.exps, exps, 'means', tol=0, scale=1)
    ctx.close(t.exps_, exps_, 'means', tol=0, scale=1)
    ctx.close(lys, t.lys, 'means', tol=0, scale=1)
    ctx.close(lys_, t.lys_, 'means', tol=0, scale=1)
    for e, c, p in ((mean, conv, paired), (mean_, conv_, paired_)):
        e = np.concatenate([np.zeros((1, 2*n)), e])
        ctx.close(np.asarray(c), np.array([np.mean(np.var(e[max(0, i+1-w):i+2]/dt, axis=0)) for i in range(N)]), 'means', tol=1e-8, scale=1)
        ctx.close(np.asarray(p), np.array([np.linalg.norm(x+x[::-1]) for x in e[1:]]), 'means', tol=1e-9, scale=1)
    # the trajectory underneath
    if L*n < 40:
        ref = tj.Reference(H, L, d)
        A = [x.astype(complex) for x in m.data]
        shapes = [x.shape for x in m.data]
        if ctx.ok(len(t.mps_history) == N, 'state', '%d states recorded for %d times' % (len(t.mps_history), N)):
            for k in range(N):
                ctx.le(tj.distance(tj.read(t.mps_history[k], shapes), dn.dense(A)), 1e-9+3*k*dt**3, 'state')
                A = ref.step(A, dt, 4)
            ctx.le(tj.distance(dn.dense(t.mps.data), dn.dense(A)), 1e-9+3*N*dt**3, 'state')
    # the zero of energy is a convention
    c = ctx.rng.uniform(-5, 5, L-1)
    t2, _ = run(m, [h+x*np.eye(d*d) for h, x in zip(H, c)], dt, N, Q)
    ctx.close(t2.lys, t.lys, 'offset', tol=1e-9, scale=1)
    ctx.close(t2.lys_, t.lys_, 'offset', tol=1e-9, scale=1)
    if thresholds(ctx, m, H, dt, N, Q, conv, t):
        pass


def thresholds(ctx, m, H, dt, N, Q, conv, t):
    """stopping as soon as the averages vary less than asked"""
    if N < 2 or not ctx.flip(.5):
        return
    cut = ctx.choice(list(conv))*(1+1e-6)
    w = [i for i, x in enumerate(conv) if x < cut]
    stop = w[0]+1 if w else N
    if any(abs(x-cut) < 1e-7*cut and x != cut/(1+1e-6) for x in conv):
        return
    t2 = Trajectory(m.copy(), [h.copy() for h in H])
    t2.Q = Q.copy()
    r = t2.lyapunov(np.arange(N)*dt, thresh=None)
    k = len(t2.lys)
    ctx.ok(k == N, 'stop', 'stopped after %d of %d steps without a threshold' % (k, N))
    t3, r = run(m, H, dt, N, Q, thresh=cut, conv_window=100)
    full = np.concatenate([np.zeros((1, Q.shape[0])), np.cumsum(t.lys, 0)/np.arange(1, N+1)[:, None]])
    cv = [np.mean(np.var(full[:i+2]/dt, axis=0)) for i in range(N)]
    if any(abs(x-cut) < 1e-6*cut+1e-12 for x in cv):
        return
    w = [i for i, x in enumerate(cv) if x < cut]
    stop = w[0]+1 if w else N
    ctx.ok(len(t3.lys) == stop and len(r[0]) == stop and len(r[1][0]) == stop, 'stop', 'stopped after %d steps, not %d' % (len(t3.lys), stop))
    ctx.close(t3.lys[:stop], t.lys[:stop], 'stop', tol=1e-8, scale=1)


def flat(ctx):
    """flows without instability: nothing projected, or nothing that entangles"""
    if ctx.flip():
        m, psi, L, d, H, F, n = draw(ctx, full=1., cap=9, ds=(2, 2, 3))
        mech = 'flat:full'
        if any(x.shape != y for x, y in zip(m.data, [(d, min(d**i, d**(L-i)), min(d**(i+1), d**(L-i-1))) for i in range(L)])):
            return
    else:
        m, psi, L, d, H, F, n = draw(ctx)
        mech = 'flat:product'
        h = [dn.rherm(ctx.rng, d) for _ in range(L)]
        s = [1]+[ctx.rng.uniform(0, 1) for _ in range(L-2)]+[0]
        H = [np.kron(h[i]*(s[i] if i else 1), np.eye(d))+np.kron(np.eye(d), h[i+1]*(1-s[i+1])) for i in range(L-1)]
    dt, N = ctx.choice([.01, .05, .1]), ctx.int(2, 5)
    t, r = run(m, H, dt, N, orth(ctx, 2*n))
    ctx.p(dt=dt, N=N)
    ctx.close(t.lys, np.zeros((N, 2*n)), mech, tol=1e-7, scale=1)
    ctx.close(t.lys_, np.zeros((N, 2*n)), mech, tol=1e-7, scale=1)
    ctx.close(np.asarray(r[1][0]), np.zeros((N, 2*n)), mech, tol=1e-6/dt, scale=1)


def resume(ctx):
    m, psi, L, d, H, F, n = draw(ctx)
    dt, N, k = ctx.choice([.02, .05]), ctx.int(2, 4), ctx.int(2, 3)
    Q = orth(ctx, 2*n)
    t, _ = run(m, H, dt, N+k, Q)
    t2, r = run(m, H, dt, N, Q)
    r2 = t2.lyapunov(np.arange(k)*dt, thresh=None)
    ctx.close(t2.lys, t.lys, 'resume', tol=1e-8, scale=1)
    ctx.close(np.asarray(r2[1][0]), np.cumsum(t.lys[N:], 0)/np.arange(1, k+1)[:, None]/dt, 'resume', tol=1e-9, scale=1)
    ctx.le(tj.distance(dn.dense(t2.mps.data), dn.dense(t.mps.data)), 1e-9, 'resume')
    ctx.ok(len(t2.mps_history) == N+k, 'resume', '%d states' % len(t2.mps_history))
    # cleared, the trajectory starts again: nothing of the last run is left
    t2.clear()
    r2 = t2.lyapunov(np.arange(N)*dt, thresh=None, initial_basis=Q.copy())
    t4, r = run(m, H, dt, N, Q)
    ctx.close(t2.lys, t4.lys, 'cleared', tol=1e-8, scale=1)
    ctx.close(t2.lys_, t4.lys_, 'cleared', tol=1e-8, scale=1)
    ctx.close(np.asarray(r2[1][0]), np.asarray(r[1][0]), 'cleared', tol=1e-9, scale=1)
    ctx.ok(len(t2.mps_history) == N, 'cleared', '%d states' % len(t2.mps_history))
    # another gauge of the start
    U = [None]+[dn.runitary(ctx.rng, x.shape[2]) for x in m.data]
    y = fMPS([x.copy() for x in m.data])
    y = y.left_canonicalise() if ctx.flip() else y.right_canonicalise()
    if [x.shape for x in y.data] == [x.shape for x in m.data]:
        f, g = frame(m, H), frame(y, H)
        X = g.V.conj().T@f.V*np.exp(-1j*np.angle(np.vdot(g.psi, f.psi)))
        if np.linalg.norm(X.conj().T@X-np.eye(n)) < 1e-7:
            t3, _ = run(y, H, dt, N+k, real(X, 0*X)@Q)
            ctx.close(t3.lys, t.lys, 'gauge', tol=1e-9, scale=1)


def single(ctx):
    """following one vector only"""
    m, psi, L, d, H, F, n = draw(ctx)
    T = ctx.choice([.2, .4])
    f = frame(m, H)
    Q = np.eye(2*n)
    a = ctx.int(0, 2*n-1)
    Q[[0, a]] = Q[[a, 0]]
    N = int(np.ceil(T/.04))
    l = []
    for j in (N, 2*N):
        t, r = run(m, H, T/j, j, Q, just_max=True)
        ctx.ok(np.shape(t.lys) == (j,), 'single', 'recorded %s' % (np.shape(t.lys),))
        l.append(np.sum(t.lys))
        ctx.ok(abs(np.linalg.norm(t.q)-1) < 1e-9, 'single', 'vector not normalised')
    got, slack = 2*l[1]-l[0], 2e-3+.5*abs(l[1]-l[0])
    if slack < 3e-2:
        judge(ctx, 'single', got, slack, lambda **kw: np.log(np.linalg.norm(linearised(m, f, H, L, d, T, [Q[0]], **kw)[:, 0])))


def bases(ctx):
    m, psi, L, d, H, F, n = draw(ctx)
    kind = ctx.choice(['eye', 'rand', 'F2', None])
    dt, N = .02, ctx.int(2, 3)
    kw = {} if kind is None else {'initial_basis': kind}
    ctx.p(basis=str(kind))
    t = Trajectory(m.copy(), [h.copy() for h in H])
    r = t.lyapunov(np.arange(N)*dt, thresh=None, **kw)
    ctx.ok(np.shape(t.lys) == (N, 2*n) and np.all(np.isfinite(t.lys)), 'basis', 'recorded %s' % (np.shape(t.lys),))
    ctx.close(np.sum(t.lys, 1), np.zeros(N), 'basis', tol=1e-8, scale=1)
    if kind == 'eye':
        t2, _ = run(m, H, dt, N, np.eye(2*n))
        ctx.close(t.lys, t2.lys, 'basis', tol=1e-9, scale=1)
    ctx.close(np.asarray(t.Q).conj().T@np.asarray(t.Q), np.eye(2*n), 'basis', tol=1e-8)


def grow(ctx):
    """the bond dimension grown, and a stretch of evolution before anything is recorded"""
    L, d = ctx.int(2, 3), 2
    m = fMPS(dn.rand_mps(ctx.rng, L, d, 1, 'uniform')).right_canonicalise()
    H, F = tj.hamiltonian(ctx, L, d, 2.)
    D = 2
    ctx.p(L=L, u=int(ctx.rng.integers(1 << 30)))
    t = Trajectory(m.copy(), H)
    psi = dn.dense(m.data)
    Q = 'eye'
    r = t.lyapunov(np.arange(2)*.01, D=D, thresh=None, initial_basis=Q)
    ctx.ok(t.mps.D == D, 'grow', 'bond dimension %s' % t.mps.D)
    n = sum((d*x.shape[1]-x.shape[2])*x.shape[2] for x in t.mps.data)
    ctx.ok(np.shape(t.lys) == (2, 2*n), 'grow', 'recorded %s' % (np.shape(t.lys),))
    # with bond dimension 2 nothing of two or three spins is projected: the start is the exact evolution of the state,
    # apart from what growing does (another copy, same seedless arithmetic)
    first = tj.read(t.mps_history[0], [x.shape for x in t.mps.data])
    g = m.copy().grow([h.copy() for h in H], 0.1, D)
    ctx.le(tj.distance(first, dn.dense(g.data)), 1e-5, 'grow')
    ctx.ok(len(t.mps_history) == 102, 'grow', '%d states' % len(t.mps_history))
    ctx.le(tj.distance(tj.read(t.mps_history[100], [x.shape for x in t.mps.data]), dn.evolve(F, first, 1.)), 5e-3, 'grow')


SCENARIOS = [('volumes', volumes), ('steps', steps), ('volumes', volumes), ('flat', flat), ('resume', resume), ('steps', steps),
             ('single', single), ('bases', bases), ('volumes', volumes), ('flat', flat), ('resume', resume), ('grow', grow)]
