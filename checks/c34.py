"""C34: the disentangling gate of a two-site wavefunction."""
import contextlib
import io
import numpy as np
from vlib import dense as dn
from xmps import peps_tools as pt

PID = 'C34'
QUICK, THOROUGH = 8000, 80000
RULE = ('Two-site wavefunctions with local dimensions 1-4 and bonds 1-6, of different sizes, complex or real, of any norm: '
        'generic, product, maximally entangled, weakly entangled and products hidden behind a gate; purity and its '
        'derivative taken from the matrix across the cut. Limits on change between 1e-4 and 1e-10.')
MUST = ['unitary', 'reported', 'never_rises', 'lower', 'stopped', 'environment', 'purity', 'untouched', 'lowered']


def across(U, th):
    """matrix of the wavefunction after the gate, across the cut"""
    d1, d2, l, r = th.shape
    x = (U@th.reshape(d1*d2, l*r)).reshape(d1, d2, l, r)
    return x.transpose(0, 2, 1, 3).reshape(d1*l, d2*r)


def purity(U, th):
    return np.sum(np.linalg.svd(across(U, th), compute_uv=False)**4)


def wavefunction(ctx, top=4):
    d1, d2, l, r = ctx.int(1, top), ctx.int(1, top), ctx.int(1, 6), ctx.int(1, 6)
    kind = ctx.choice(['generic', 'generic', 'product', 'entangled', 'weak', 'hidden', 'half'])
    if kind == 'product':
        th = np.einsum('al,br->ablr', dn.crandn(ctx.rng, d1, l), dn.crandn(ctx.rng, d2, r))
    elif kind == 'weak':
        th = np.einsum('al,br->ablr', dn.crandn(ctx.rng, d1, l), dn.crandn(ctx.rng, d2, r))
        th = th+ctx.choice([1e-1, 1e-3, 1e-6])*dn.crandn(ctx.rng, d1, d2, l, r)
    elif kind == 'hidden':
        th = np.einsum('al,br->ablr', dn.crandn(ctx.rng, d1, l), dn.crandn(ctx.rng, d2, r))
        th = (dn.runitary(ctx.rng, d1*d2)@th.reshape(d1*d2, -1)).reshape(th.shape)
    elif kind == 'entangled':
        th = np.eye(d1*l, d2*r).reshape(d1, l, d2, r).transpose(0, 2, 1, 3)+0j
    else:
        th = dn.crandn(ctx.rng, d1, d2, l, r)
        if kind == 'half':
            th[:, :, l//2:] *= 1e-4
    if ctx.flip(.15):
        th = th.real.copy()
    th = th/np.linalg.norm(th)
    f = 1. if ctx.flip(.7) else ctx.choice([.3, 1.7, 10.])
    ctx.p(dims=(d1, d2, l, r), kind=kind, real=not np.iscomplexobj(th), factor=f)
    return f*th, f


def environment(ctx):
    th, f = wavefunction(ctx)
    d1, d2, l, r = th.shape
    U = dn.runitary(ctx.rng, d1*d2)
    th0, U0 = th.copy(), U.copy()
    E = np.asarray(pt.E2(U.reshape(d1, d2, d1, d2), th))
    if not ctx.ok(E.size == (d1*d2)**2, 'environment', 'shape %s' % (E.shape,)):
        return
    E = E.reshape(d1*d2, d1*d2)
    x = across(U, th)
    sc = max(np.linalg.norm(x)**4, np.linalg.norm(x)**3*np.linalg.norm(th))
    ctx.close(np.trace(U@E), purity(U, th), 'environment', tol=1e-11, scale=sc)
    # the other gates stay: linear in the one replaced
    V = dn.crandn(ctx.rng, d1*d2, d1*d2)
    ctx.close(np.trace(V@E), np.trace(x.conj().T@x@x.conj().T@across(V, th)), 'environment', tol=1e-11,
              scale=sc*np.linalg.norm(V))
    ctx.close(pt.renyi(U.reshape(d1, d2, d1, d2), th), -np.log(purity(U, th)), 'purity', tol=1e-10,
              scale=max(1, sc/purity(U, th)))
    ctx.ok(np.array_equal(th, th0) and np.array_equal(U, U0), 'untouched', 'arguments changed')


def disentangled(ctx):
    th, f = wavefunction(ctx, 3 if not ctx.thorough else 4)
    d1, d2, l, r = th.shape
    n = d1*d2
    eps = ctx.choice([None, 1e-4, 1e-6, 1e-8])
    th0 = th.copy()
    ctx.p(eps=eps)
    with contextlib.redirect_stdout(io.StringIO()):
        U, Ss = pt.renyi_2_disentangler(th, **({} if eps is None else {'eps': eps, 'max_iter': 20000}))
    ctx.ok(np.array_equal(th, th0), 'untouched', 'the wavefunction was changed')
    eps = 1e-6 if eps is None else eps
    U = np.asarray(U).reshape(n, n)
    Ss = np.asarray(Ss, float)
    ctx.event('iterations', len(Ss))
    ctx.close(U.conj().T@U, np.eye(n), 'unitary', tol=1e-10)
    S0, S = -np.log(purity(np.eye(n), th)), -np.log(purity(U, th))
    ctx.close(Ss[-1], S, 'reported', tol=1e-9)
    ctx.le(S, S0, 'lower', slack=1e-9)
    ctx.le(Ss[0], S0, 'lower', slack=1e-9)
    ctx.le(np.max(np.diff(Ss), initial=0.), 0, 'never_rises', slack=1e-9)
    ctx.ok(len(Ss) > 1 and abs(Ss[-1]-Ss[-2]) <= eps*(1+1e-9), 'stopped', 'last change %s' % np.diff(Ss[-2:]))
    # a start that some small gate improves is improved
    x = across(np.eye(n), th)
    G = np.array([[np.trace(x.conj().T@x@x.conj().T@across(np.outer(a, b), th)) for a in np.eye(n)] for b in np.eye(n)])
    slope = np.linalg.norm(G-G.conj().T)/purity(np.eye(n), th)
    if slope > 1e-2:
        ctx.ok(S < S0-1e-6, 'lowered', 'slope %.3g, entropy %.9f to %.9f' % (slope, S0, S))


SCENARIOS = [('environment', environment), ('disentangled', disentangled)]
