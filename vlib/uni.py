"""uniform chains: dense transfer matrices, reduced density matrices and energy densities (numpy only)"""
import numpy as np
from vlib import dense as dn


def tm(A, B=None):
    """(ket, bra) x (ket, bra)"""
    B = A if B is None else B
    t = np.einsum('pab,pcd->acbd', A, np.conj(B))
    return t.reshape(t.shape[0]*t.shape[1], -1)


def dominant(M):
    w, v = np.linalg.eig(M)
    i = np.argsort(-np.abs(w))
    return w[i], v[:, i[0]]


def envs(A):
    """eta, l[bra, ket], r[ket, bra] with tr(l r) = 1, and the ratio of the second to the first eigenvalue"""
    D = A.shape[1]
    T = tm(A)
    w, r = dominant(T)
    _, l = dominant(T.T)
    r, l = r.reshape(D, D), l.reshape(D, D).T
    r, l = r/np.trace(r), l/np.trace(l)
    r, l = (r+r.conj().T)/2, (l+l.conj().T)/2
    return np.real(w[0]), l/np.trace(l@r), r, (abs(w[1])/abs(w[0]) if len(w) > 1 else 0.)


def schmidt(A):
    _, l, r, _ = envs(A)
    w = np.linalg.eigvals(l@r)
    return np.sqrt(np.sort(np.abs(np.real(w)))[::-1])


def rdm(A, n):
    """reduced density matrix of n neighbouring sites, [ket, bra]"""
    eta, l, r, _ = envs(A)
    d, D = A.shape[:2]
    x = A/np.sqrt(eta)
    P = x
    for _ in range(n-1):
        P = np.einsum('Pab,pbc->Ppac', P, x).reshape(-1, D, D)
    return np.einsum('ca,Pab,bd,Qcd->PQ', l, P, r, P.conj())


def expect(A, op):
    n = int(round(np.log(len(op))/np.log(A.shape[0])))
    return np.trace(np.asarray(op)@rdm(A, n))


def fidelity(A, B):
    a, b = np.abs(np.linalg.eigvals(tm(A))).max(), np.abs(np.linalg.eigvals(tm(B))).max()
    return np.abs(np.linalg.eigvals(tm(A, B))).max()**2/(a*b)


def gauge(rng, A, cond=10., unitary=False):
    D = A.shape[1]
    g = dn.runitary(rng, D)
    if not unitary:
        g = g*np.exp(rng.uniform(-.5, .5, D)*np.log(cond))@dn.runitary(rng, D)
    return np.linalg.inv(g)@A@g


KINDS = ('generic', 'generic', 'real', 'near-product', 'decaying', 'clock')


def random(rng, d, D, kind, gap=.95, small=1e-3):
    """an injective tensor: gapped transfer matrix, Schmidt coefficients not below small"""
    for _ in range(500):
        A = dn.crandn(rng, d, D, D)
        if kind == 'real':
            A = A.real+0j
        elif kind == 'near-product':
            A = np.einsum('p,ab->pab', dn.crandn(rng, d), dn.crandn(rng, D, D))+.3*A
        elif kind == 'decaying':
            s = 2.**-np.arange(D)
            A = A*s[:, None]
        elif kind == 'clock':
            A = A*np.exp(1j*rng.uniform(0, 2*np.pi))
        _, l, r, g = envs(A)
        if g < gap and np.linalg.eigvalsh(l)[0] > 0 and np.linalg.eigvalsh(r)[0] > 0 and schmidt(A)[-1] > small:
            return A/np.sqrt(envs(A)[0])
    raise RuntimeError('no injective tensor found')


def slope(A, h):
    """left gauge tangent vector of -i times the energy gradient (dense linear solve), A normalised"""
    d, D = A.shape[:2]
    eta, l, r, _ = envs(A)
    n = np.sqrt(eta)
    A = A/n
    h4 = np.asarray(h).reshape([d]*4)
    HAA = np.einsum('pqrs,rab,sbc->pqac', h4, A, A)
    e = np.einsum('ba,pqac,cd,pbx,qxd->', l, HAA, r, A.conj(), A.conj())
    k0 = np.einsum('ba,pqac,pbx,qxd->dc', l, HAA, A.conj(), A.conj()) - e*l          # [bra, ket]
    E = np.einsum('pab,pcd->bdac', A.conj(), A).reshape(D*D, D*D)                    # (bra, ket) <- (bra, ket)
    M = np.eye(D*D) - E + np.outer(l.ravel(), r.T.ravel())
    K = np.linalg.solve(M, k0.ravel()).reshape(D, D)
    F = (np.einsum('ca,pqab,bd,qed->pce', l, HAA, r, A.conj())                       # gradient: derivative by conj(A)
         + np.einsum('ba,pqac,pbx,cd->qxd', l, HAA, A.conj(), r)
         + np.einsum('ab,pbc,cd->pad', K, A, r))
    G = np.einsum('ab,pbc,cd->pad', np.linalg.inv(l), F, np.linalg.inv(r))
    G = G - A@(np.linalg.inv(l)@np.einsum('pba,bc,pcd->ad', A.conj(), l, G))
    return -1j*n*G, np.real(e)


def flow(A, h, t, n):
    """n fourth order steps of the flow"""
    dt = t/n
    for _ in range(n):
        a = slope(A, h)[0]
        b = slope(A+a*dt/2, h)[0]
        c = slope(A+b*dt/2, h)[0]
        f = slope(A+c*dt, h)[0]
        A = A+(a+2*b+2*c+f)*dt/6
        A = A/np.sqrt(envs(A)[0])
    return A
