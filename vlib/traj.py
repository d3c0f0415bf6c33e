"""recorded histories, read without the library"""
import numpy as np
from vlib import dense as dn, tangent as tg


def regular(L, d, D):
    return [(d, min(D, d**min(i, L-i)), min(D, d**min(i+1, L-i-1))) for i in range(L)]


def read(vec, shapes):
    """the dense vector of a serialised (real encoding) entry"""
    vec = np.asarray(vec)
    n = sum(int(np.prod(s)) for s in shapes)
    assert vec.shape == (2*n,), 'entry of length %s, not %d' % (vec.shape, 2*n)
    z = vec[:n]+1j*vec[n:]
    out = []
    for s in shapes:
        k = int(np.prod(s))
        out.append(z[:k].reshape(s))
        z = z[k:]
    return dn.dense(out)


def start(ctx, cap=70, Dmax=4, cond=1e-2, full=.3, Lmax=6, hands=('left', 'right'), ds=(2, 2, 2, 3)):
    """a canonical, well conditioned chain whose bonds follow the regular pattern"""
    while True:
        L, d = ctx.int(2, Lmax), ctx.choice(ds)
        if d**L <= cap:
            break
    if ctx.flip(full):
        Dmax = d**(L//2)
    for _ in range(400):
        m, psi, kind, hand = tg.canonical(ctx, L, d, Dmax, cond=cond, kinds=('uniform',), hands=hands)
        if [x.shape for x in m.data] == regular(L, d, m.D):
            return m, psi, L, d, hand
    raise RuntimeError('no regular chain found')


def hamiltonian(ctx, L, d, strength=1.):
    H = [dn.rherm(ctx.rng, d*d) for _ in range(L-1)]
    H = [h*strength/max(1e-9, np.linalg.norm(h, 2)) for h in H]
    return H, dn.nn_hamiltonian(H, L, d)


def distance(a, b):
    """sine of the angle between two rays"""
    a, b = a/np.linalg.norm(a), b/np.linalg.norm(b)
    return np.linalg.norm(a-b*np.vdot(b, a))


def flow(H, psi_tensors, L, d):
    """right hand side of the projected flow for explicit tensors"""
    from xmps.fMPS import fMPS
    m = fMPS([x.copy() for x in psi_tensors])
    psi = dn.dense(m.data)
    return tg.tangent_projection(m, psi, -1j*tg.apply_nn(H, psi, L, d))


class Reference:
    """high accuracy integration of the projected flow in tensor space (dense linear algebra, no canonical forms)"""

    def __init__(self, H, L, d):
        self.H, self.L, self.d = H, L, d

    def rhs(self, A):
        """minimum norm variation of the tensors that produces the projected -iH|psi> (its psi component dropped)"""
        L, d = self.L, self.d
        left = [np.ones((1, 1))]
        for x in A[:-1]:
            left.append(np.einsum('Pa,pab->Ppb', left[-1], x).reshape(-1, x.shape[2]))
        right = [np.ones((1, 1))]
        for x in A[:0:-1]:
            right.append(np.einsum('pab,bQ->apQ', x, right[-1]).reshape(x.shape[1], -1))
        right = right[::-1]
        M = np.concatenate([np.einsum('Pa,pq,bQ->PpQqab', left[i], np.eye(d), right[i]).reshape(d**L, -1) for i in range(L)], 1)
        psi = dn.dense(A)
        f = -1j*tg.apply_nn(self.H, psi, L, d)
        f = f - psi*np.vdot(psi, f)/np.vdot(psi, psi)
        u, s, w = np.linalg.svd(M, full_matrices=False)
        k = s > 1e-9*s[0]
        x = w[k].conj().T @ ((u[:, k].conj().T @ f)/s[k])
        out = []
        for a in A:
            out.append(x[:a.size].reshape(a.shape))
            x = x[a.size:]
        return out

    def step(self, A, dt, n):
        h = dt/n
        for _ in range(n):
            k1 = self.rhs(A)
            k2 = self.rhs([a+h/2*b for a, b in zip(A, k1)])
            k3 = self.rhs([a+h/2*b for a, b in zip(A, k2)])
            k4 = self.rhs([a+h*b for a, b in zip(A, k3)])
            A = [a+h/6*(p+2*q+2*r+s) for a, p, q, r, s in zip(A, k1, k2, k3, k4)]
        return A


def tensors(vec, shapes):
    vec = np.asarray(vec)
    n = len(vec)//2
    z = vec[:n]+1j*vec[n:]
    out = []
    for s in shapes:
        k = int(np.prod(s))
        out.append(z[:k].reshape(s))
        z = z[k:]
    return out
