"""C31: named example states are the states they name."""
import numpy as np
from vlib import dense as dn, uni
from xmps import mps_examples as X
from xmps.fMPS import fMPS
from xmps.iMPS import iMPS

PID = 'C31'
QUICK, THOROUGH = 3000, 40000
RULE = ('Every named state (Bell, computational basis in z and x, uniform products, cat states over the whole range of their parameter, AKLT), measured with '
        'random operators and rotations on one to several sites, after random other calls; asked for again after the first one was changed.')
MUST = ['bell', 'comp_z', 'comp_x', 'i_comp_z', 'i_cat', 'i_cat:limit', 'AKLT', 'AKLT:string', 'AKLT:ground', 'norm', 'fresh', 'orthogonal', 'measured', 'attributes']

S = np.sqrt(.5)
E2 = np.eye(4)
PLUS, MINUS = np.array([S, S]), np.array([S, -S])
WANT = {'bell': [(E2[3]+E2[0])*S, (E2[3]-E2[0])*S, (E2[2]+E2[1])*S, (E2[2]-E2[1])*S],
        'comp_z': list(E2),
        'comp_x': [np.kron(a, b) for a in (PLUS, MINUS) for b in (PLUS, MINUS)]}


def finite(ctx):
    name, i = ctx.choice(list(WANT)), ctx.int(1, 4)
    ctx.p(name=name, i=i, u=int(ctx.rng.integers(1 << 20)))
    f = getattr(X, name)
    want = WANT[name][i-1]
    m = f(i)
    ctx.ok(isinstance(m, fMPS) and m.L == 2 and m.d == 2 and len(m.data) == 2, 'attributes', 'not a chain of two spins')
    psi = dn.dense(m.data)
    ctx.close(np.linalg.norm(psi), 1., 'norm', tol=1e-10)
    ctx.close(m.norm(), 1., 'norm', tol=1e-10)
    ctx.close(dn.same_ray(psi, want), 0, name, tol=1e-9)
    j = ctx.int(1, 4)
    ctx.close(abs(f(i).overlap(f(j))), float(i == j), 'orthogonal', tol=1e-9, scale=1)
    op = dn.rherm(ctx.rng, 2)
    k = ctx.int(0, 1)
    ctx.close(m.E(op, k), dn.expect(op, [k], want, 2, 2).real, 'measured', tol=1e-9, scale=np.linalg.norm(op, 2))
    again = f(i)
    for n in range(2):
        again.data[n] = again.data[n]*ctx.rng.uniform(2, 3)
        again.data[n][0] += 1
    ctx.close(dn.same_ray(dn.dense(f(i).data), want), 0, 'fresh', tol=1e-9)


def product(ctx):
    i = ctx.int(1, 2)
    ctx.p(i=i, u=int(ctx.rng.integers(1 << 20)))
    m = X.i_comp_z(i)
    ctx.ok(isinstance(m, iMPS) and m.d == 2 and m.D == 1 and len(m.data) == 1, 'attributes', 'not a uniform product state')
    v = np.eye(2)[i-1]
    n = ctx.int(1, 4)
    w = v
    for _ in range(n-1):
        w = np.kron(w, v)
    ctx.close(uni.rdm(m.data[0], n), np.outer(w, w), 'i_comp_z', tol=1e-10)
    op = dn.rop(ctx.rng, 2)
    ctx.close(np.complex128(m.E(op)), op[i-1, i-1] if np.iscomplexobj(m.E(op)) else op[i-1, i-1].real, 'measured', tol=1e-9, scale=np.linalg.norm(op, 2))
    m.data[0][0] += 3
    ctx.close(uni.rdm(X.i_comp_z(i).data[0], 1), np.outer(v, v), 'fresh', tol=1e-10)


def cat(ctx):
    """nearly a superposition of all up and all down"""
    e = float(ctx.choice([1e-2, 10.**ctx.rng.uniform(-3, -.4)]))
    ctx.p(e='%.3e' % e, u=int(ctx.rng.integers(1 << 20)))
    m = X.i_cat(e) if e != 1e-2 or ctx.flip() else X.i_cat()
    ctx.ok(isinstance(m, iMPS) and m.d == 2 and m.D == 2, 'attributes', 'not a uniform chain of spins with two bond states')
    A = m.data[0].copy()
    eta, l, r, gap = uni.envs(A)
    Z, Xx = np.diag([1., -1.]), np.array([[0, 1.], [1, 0]])
    n = ctx.int(2, 4)
    rho = uni.rdm(A, n)
    flip = Xx
    for _ in range(n-1):
        flip = np.kron(flip, Xx)
    ctx.close(flip@rho@flip, rho, 'i_cat', tol=1e-8)          # no side preferred
    ZZ = np.kron(np.kron(Z, np.eye(2**(n-2))), Z)
    c = np.trace(rho@ZZ).real
    ctx.ok(1-c <= 8*n*e*e+1e-9 or e > .15, 'i_cat:limit', 'correlation %.6f at distance %d for %.3g' % (c, n-1, e))
    ctx.ok(0 <= c < 1, 'i_cat', 'correlation %.6f' % c)
    # each direction reproduces itself with amplitude 1 and leaves with the given one
    ctx.close(np.abs(A/A[0, 0, 0]), np.array([[[1, e], [e, e]], [[e, e], [e, 1]]]), 'i_cat', tol=1e-12, scale=1)
    got = m.E(Z)
    ctx.close(np.float64(np.real(got)), 0., 'measured', tol=1e-7, scale=1)
    got = np.real(m.E(Xx))
    ctx.close(np.float64(got), np.trace(uni.rdm(A, 1)@Xx).real, 'measured', tol=1e-7, scale=1)


def spin1():
    z = np.diag([1., 0, -1])
    p = np.sqrt(2)*np.diag([1., 1], 1)
    x, y = (p+p.T)/2, (p-p.T)/2j
    return x, y, z


def aklt(ctx):
    m = X.AKLT()
    ctx.ok(isinstance(m, iMPS) and m.d == 3 and m.D == 2 and len(m.data) == 1, 'attributes', 'not a uniform spin-1 chain with two bond states')
    A = m.data[0].copy()
    n = ctx.int(2, 5)
    v = ctx.rng.standard_normal(3)
    v /= np.linalg.norm(v)
    ctx.p(n=n, u=int(ctx.rng.integers(1 << 20)))
    s = spin1()
    sv = sum(a*b for a, b in zip(v, s))
    eta = uni.envs(A)[0]
    ctx.close(np.abs(np.asarray(eta).ravel()[0]), 1., 'norm', tol=1e-10)
    rho = uni.rdm(A, n)
    one = np.eye(3)

    def string(ops):
        o = np.eye(1)
        for x in ops:
            o = np.kron(o, x)
        return np.trace(rho@o)
    # unique ground state of the sum of projectors on total spin 2 of neighbours
    SS = sum(np.kron(a, a) for a in s)
    P2 = SS/2+SS@SS/6+np.eye(9)/3
    ctx.close(np.trace(uni.rdm(A, 2)@P2), 0, 'AKLT:ground', tol=1e-9, scale=1)
    ctx.close(np.trace(uni.rdm(A, 2)@SS), -4/3, 'AKLT', tol=1e-9, scale=1)
    # correlations (4/3)(-1/3)^r along every direction
    ctx.close(string([sv]+[one]*(n-2)+[sv]), (4/3)*(-1/3.)**(n-1), 'AKLT', tol=1e-9, scale=1)
    ctx.close(string([sv]+[one]*(n-1)), 0, 'AKLT', tol=1e-9, scale=1)
    # hidden order
    U = np.diag([-1., 1, -1])
    ctx.close(string([s[2]]+[U]*(n-2)+[s[2]]), -4/9 if n > 2 else (4/3)*(-1/3.), 'AKLT:string', tol=1e-9, scale=1)
    op = dn.rherm(ctx.rng, 3)
    ctx.close(np.float64(np.real(m.E(op))), np.trace(op).real/3, 'measured', tol=1e-9, scale=np.linalg.norm(op, 2))
    m.data[0][1] += 1
    ctx.close(uni.rdm(X.AKLT().data[0], 2), uni.rdm(A, 2), 'fresh', tol=1e-10)


SCENARIOS = [('finite', finite), ('finite', finite), ('product', product), ('cat', cat), ('aklt', aklt)]
