"""C33: random states and unitaries are what was asked for."""
import numpy as np
from scipy.stats import kstest
from vlib import dense as dn, chain as ch, traj as tj
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS, ivMPS
from xmps.fPEPS import fPEPS, fMPO
from xmps.tensor import haar_unitary

PID = 'C33'
QUICK, THOROUGH = 240, 4000
RULE = ('Random chains are asked for at energies between those of reference states (every d, D, tolerance) and far outside the spectrum; the dense energy decides. '
        'Ensembles of unitaries and tensors are compared with the moments and distributions of the uniform and normal ensembles (thresholds of 7 standard deviations).')
MUST = ['energy', 'form', 'source', 'unreachable', 'patience', 'distinct', 'haar:unitary', 'haar:moments', 'haar:invariance', 'normal', 'normal:finite', 'normal:uniform',
        'normal:vidal', 'normal:lattice', 'normal:operator', 'reused']
ASSUMPTIONS = ['energies asked for lie between those of two states of the same bond dimension, or at least 0.3 outside the spectrum',
               'Hamiltonians of norm of order one (the search takes steps of 0.1)']
CASE_LIMIT = 120


def search(m, *args, **kw):
    try:
        return m.random_with_energy_E(*args, **kw)
    except Exception as e:
        if 'local minimum' in str(e):
            return None
        raise


def target(ctx):
    L, d, D = ctx.int(2, 5), ctx.choice([2, 2, 3]), ctx.int(1, 4)
    if d**L > 100:
        L = 4
    H, F = tj.hamiltonian(ctx, L, d, 1.)
    s = max(np.linalg.norm(h, 2) for h in H)
    H, F = [h/s for h in H], F/s
    return L, d, D, H, F


def energy(ctx):
    L, d, D, H, F = target(ctx)
    tol = ctx.choice([None, 1e-10, 1e-6, 1e-3])
    # between two states of this bond dimension
    e = []
    for _ in range(2):
        v = dn.dense(fMPS().random(L, d, D).data)
        v = v/np.linalg.norm(v)
        e.append(np.vdot(v, F@v).real)
    E = e[0]+(e[1]-e[0])*ctx.rng.random()
    ctx.p(L=L, d=d, D=D, tol=str(tol), E=round(float(E), 6))
    keep = [h.copy() for h in H]
    kw = {} if tol is None else {'tol': tol}
    tol = tol or 1e-10
    first = fMPS() if ctx.flip() else fMPS().random(L+1, 2, 3).left_canonicalise()
    m = search(first, E, H, L, d, D, **kw)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, H)), 'source', 'Hamiltonian changed')
    if m is None:
        ctx.event('gave up')
        return
    bond = [min(d**min(i, L-i), D) for i in range(L+1)]
    bad = dn.well_formed(m.data, d)
    if not ctx.ok(bad is None and len(m) == L and all(x.shape[1] <= a for x, a in zip(m.data, bond)), 'form', 'structure %s' % (m.structure(),)):
        return
    v = dn.dense(m.data)
    ctx.close(np.linalg.norm(v), 1, 'form', tol=1e-9)
    ctx.le(abs(np.vdot(v, F@v).real-E), tol+1e-13*L, 'energy')
    if first.L == L and len(first) == L:
        ctx.event('same object')
    m2 = search(fMPS(), E, H, L, d, D, **kw)
    if m2 is not None:
        v2 = dn.dense(m2.data)
        ctx.le(abs(np.vdot(v2, F@v2).real-E), tol+1e-13*L, 'energy')
        ctx.ok(dn.same_ray(v, v2) > 1e-6, 'distinct', 'the same state twice')
    # the object is as good as new
    m.left_canonicalise()
    ctx.close(np.vdot(v, F@v).real, m.energy(H), 'reused', tol=1e-9, scale=1)


def unreachable(ctx):
    L, d, D, H, F = target(ctx)
    w = np.linalg.eigvalsh(F)
    E = w[0]-ctx.rng.uniform(.3, 2) if ctx.flip() else w[-1]+ctx.rng.uniform(.3, 2)
    ctx.p(L=L, d=d, D=D, E=round(float(E), 6))
    ctx.raises(lambda: fMPS().random_with_energy_E(E, H, L, d, D), 'unreachable', Exception)
    # precision below that of the numbers
    E = np.trace(F).real/d**L
    ctx.raises(lambda: fMPS().random_with_energy_E(E, H, L, d, D, tol=-1, maxiters=ctx.int(1, 5)), 'patience', Exception)


def within(ctx, samples, want, sigma, mech, what):
    """mean of independent samples of standard deviation sigma (at most)"""
    N = len(samples)
    ctx.le(np.max(np.abs(np.mean(samples, 0)-want)), 7*sigma/np.sqrt(N), mech)


def haar(ctx):
    n, N = ctx.int(1, 6), 1500
    ctx.p(n=n, u=int(ctx.rng.integers(1 << 30)))
    Q = np.array([haar_unitary(n) for _ in range(N)])
    if not ctx.ok(Q.shape == (N, n, n), 'haar:unitary', 'shape %s' % (Q.shape,)):
        return
    ctx.close(np.einsum('kij,kil->kjl', Q.conj(), Q), np.broadcast_to(np.eye(n), Q.shape), 'haar:unitary', tol=1e-12, scale=1)
    # moments of Haar measure in a random frame: traces of powers, entries and their phases
    V, W = dn.runitary(ctx.rng, n), dn.runitary(ctx.rng, n)
    for X in (Q, Q@V, V@Q, V@Q@W):
        tr = np.trace(X, axis1=1, axis2=2)
        within(ctx, tr, 0, 1., 'haar:moments', 'trace')
        within(ctx, np.abs(tr)**2, 1, 1.5, 'haar:moments', 'trace')
        within(ctx, X, 0, 1/np.sqrt(n), 'haar:moments', 'entry')
        within(ctx, X/np.abs(X), 0, 1., 'haar:moments', 'phase')
        within(ctx, np.abs(X)**2, 1/n, 1/n, 'haar:moments', 'modulus')
        within(ctx, np.linalg.det(X), 0, 1., 'haar:moments', 'determinant')
    # spectra: phases of the eigenvalues are uniform
    w = np.angle(np.linalg.eigvals(Q[:, :, :]))
    for k in (1, 2):
        within(ctx, np.mean(np.exp(1j*k*w), 1), 0, 1., 'haar:invariance', 'spectrum')
    within(ctx, np.abs(np.sum(np.exp(2j*w), 1))**2, min(2, n), 4., 'haar:invariance', 'spectrum')


def gaussian(ctx):
    """independent standard normal parts"""
    which = ctx.choice(['finite', 'finite', 'uniform', 'vidal', 'lattice', 'operator'])
    N = 400
    cplx = True
    ctx.p(which=which, u=int(ctx.rng.integers(1 << 30)))
    if which == 'finite':
        L, d, D = ctx.int(2, 6), ctx.int(2, 4), ctx.int(2, 4)
        cplx = ctx.flip(.7)
        draw = [fMPS().random(L, d, D, real=not cplx).data for _ in range(N)]
    elif which == 'uniform':
        d, D, p = ctx.int(2, 4), ctx.int(1, 4), ctx.int(1, 3)
        draw = [iMPS().random(d, D, p).data for _ in range(N)]
        ctx.ok(all(len(x) == p and all(y.shape == (d, D, D) for y in x) for x in draw), 'normal:uniform', 'shapes')
    elif which == 'vidal':
        d, D = ctx.int(2, 4), ctx.int(1, 4)
        draw = [ivMPS().random(d, D).data for _ in range(N)]
        for (G, l), in draw:
            ctx.ok(l.shape == (D, D) and np.array_equal(l, np.diag(np.sort(np.diag(l))[::-1])) and np.min(np.diag(l)) >= 0, 'normal:vidal', 'weights')
        draw = [[x[0][0]] for x in draw]
    elif which == 'lattice':
        Lx, Ly, d, X = ctx.int(2, 3), ctx.int(2, 3), 2, 2
        draw = [[x for row in fPEPS().random(Lx, Ly, d, X).data for x in row] for _ in range(N)]
    else:
        cplx = False
        draw = [fMPO().random(ctx.int(2, 4) if 0 else 3, 2, ctx.int(1, 3) if 0 else 2).data for _ in range(N)]
    z = np.array([np.concatenate([np.ravel(x) for x in data]) for data in draw])
    mech = 'normal:'+which
    scale = np.sqrt(np.mean(np.abs(z)**2))
    z = z/scale*(np.sqrt(2) if cplx else 1)
    parts = [z.real, z.imag] if cplx else [z.real]
    if not cplx:
        ctx.ok(np.all(np.imag(z) == 0), mech, 'not real')
    for x in parts:
        p = kstest(np.ravel(x), 'norm').pvalue
        ctx.ok(p > 1e-11, 'normal', 'entries are not normally distributed (p=%.1e, %s)' % (p, which))
        within(ctx, x, 0, 1., mech, 'mean')
        within(ctx, x**2, 1, 2., mech, 'variance')
    # independent of one another
    if z.shape[1] <= 400:
        for c in (z.T@z/N, z.conj().T@z/N):
            ctx.le(np.max(np.abs(c-np.diag(np.diag(c)))), 1.2 if cplx else .6, mech)


SCENARIOS = [('energy', energy), ('haar', haar), ('energy', energy), ('unreachable', unreachable), ('gaussian', gaussian)]
