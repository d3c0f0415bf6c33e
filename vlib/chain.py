"""monitors shared by the finite chain checks"""
import numpy as np
from vlib import dense as dn


def left_iso(ctx, x, mech, tol=1e-8, **kw):
    ctx.close(np.einsum('pab,pac->bc', np.conj(x), x), np.eye(x.shape[2]), mech, tol=tol, **kw)


def right_iso(ctx, x, mech, tol=1e-8, **kw):
    ctx.close(np.einsum('pab,pcb->ac', x, np.conj(x)), np.eye(x.shape[1]), mech, tol=tol, **kw)


def right_envs(data):
    """r[i]: matrix on the bond left of site i"""
    r = [np.ones((1, 1))]
    for x in data[::-1]:
        r.append(np.einsum('pab,bc,pdc->ad', x, r[-1], np.conj(x)))
    return r[::-1]


def left_envs(data):
    """l[i]: matrix on the bond left of site i"""
    l = [np.ones((1, 1))]
    for x in data:
        l.append(np.einsum('pab,ac,pcd->bd', np.conj(x), l[-1], x))
    return l


def gauge(rng, data, cond=1e2, unitary=False):
    """the same chain in a random gauge"""
    L = len(data)
    out, ginv = [], np.eye(1)
    for i, x in enumerate(data):
        n = x.shape[2]
        if i == L-1:
            g = np.eye(1)
        elif unitary:
            g = dn.runitary(rng, n)
        else:
            g = (dn.runitary(rng, n)*np.exp(rng.uniform(-.5, .5, n)*np.log(cond)))@dn.runitary(rng, n)
        out.append(ginv@x@g)
        ginv = np.linalg.inv(g)
    return out


UNUSUAL = [(9, 2), (10, 2), (11, 2), (2, 5), (3, 5), (4, 5), (2, 6), (3, 6), (6, 3), (7, 3), (5, 4), (2, 8), (3, 8)]


def size(ctx, cap=300, Lmin=2, Lmax=8, ds=(2, 2, 2, 3, 4)):
    """length and local dimension: mostly small, now and then beyond what is usual"""
    if Lmax >= 8 and len(ds) > 4 and ctx.flip(.02):
        fit = [(L, d) for L, d in UNUSUAL if d**L <= (2100 if cap >= 300 else 520 if cap >= 100 else 300) and L >= Lmin]
        ctx.event('unusual size')
        return ctx.choice(fit)
    while True:
        L, d = ctx.int(Lmin, Lmax), ctx.choice(ds)
        if d**L <= cap:
            return L, d


def weights(psi, L, d):
    """squared Schmidt coefficients of the normalised state at the bonds 0..L"""
    psi = psi/np.linalg.norm(psi)
    return [np.ones(1)] + [dn.schmidt(psi, i, L, d)**2 for i in range(1, L)] + [np.ones(1)]


def same_spectrum(ctx, got, want, mech, tol=1e-8):
    """equal up to order and trailing zeros"""
    a, b = np.sort(np.real(np.atleast_1d(got)).ravel())[::-1], np.sort(np.asarray(want).ravel())[::-1]
    n = max(len(a), len(b))
    ctx.ok(np.max(np.abs(np.imag(np.atleast_1d(got)))) <= tol, mech, 'complex spectrum')
    ctx.close(np.pad(a, (0, n-len(a))), np.pad(b, (0, n-len(b))), mech, tol=tol)
