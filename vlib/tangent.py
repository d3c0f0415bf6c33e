"""dense tangent spaces of finite chains (independent of the library)"""
import numpy as np
from vlib import dense as dn, chain as ch
from xmps.fMPS import fMPS


def canonical(ctx, L, d, Dmax, cond=1e-3, kinds=('uniform', 'uniform', 'generic', 'real'), hands=('left', 'right')):
    """a well conditioned chain in canonical form: every Schmidt coefficient is at least cond"""
    for _ in range(200):
        kind = ctx.choice(kinds)
        m = fMPS(dn.rand_mps(ctx.rng, L, d, ctx.int(1, Dmax), kind))
        hand = ctx.choice(hands)
        if hand == 'left':
            m.left_canonicalise()
        else:
            m.right_canonicalise()
        psi = dn.dense(m.data)
        if all(dn.schmidt(psi, i, L, d)[m[i].shape[1]-1] > cond for i in range(1, L)):
            return m, psi, kind, hand
    raise RuntimeError('no well conditioned chain found')


def span(m):
    """orthonormal basis (columns) of all first order variations of the tensors"""
    A = m.data
    L, d = len(A), A[0].shape[0]
    left = [np.ones((1, 1))]                       # P, a
    for x in A[:-1]:
        left.append(np.einsum('Pa,pab->Ppb', left[-1], x).reshape(-1, x.shape[2]))
    right = [np.ones((1, 1))]                      # b, Q
    for x in A[:0:-1]:
        right.append(np.einsum('pab,bQ->apQ', x, right[-1]).reshape(x.shape[1], -1))
    right = right[::-1]
    cols = []
    for i in range(L):
        t = np.einsum('Pa,pq,bQ->PpQaqb', left[i], np.eye(d), right[i])
        cols.append(t.reshape(d**L, -1))
    M = np.concatenate(cols, 1)
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    return u[:, s > 1e-9*s[0]]


def tangent_projection(m, psi, v):
    """projection of v on the tangent space, without its component along psi"""
    q = span(m)
    v = q @ (q.conj().T @ v)
    return v - psi*np.vdot(psi, v)/np.vdot(psi, psi)


def derivative(A, B):
    """d/dt of the dense vector when every tensor A[n] moves along B[n]"""
    tot = None
    left = np.ones((1, 1), complex)                # amplitudes, then the accumulated variation
    var = np.zeros((1, 1), complex)
    for a, b in zip(A, B):
        var = np.einsum('Pa,pab->Ppb', var, a) + np.einsum('Pa,pab->Ppb', left, b)
        var = var.reshape(-1, a.shape[2])
        left = np.einsum('Pa,pab->Ppb', left, a).reshape(-1, a.shape[2])
    return var[:, 0]


def apply_nn(H, psi, L, d):
    out = np.zeros(psi.shape, complex)
    for i, h in enumerate(H):
        out += dn.apply_op(np.asarray(h).reshape(d*d, d*d), [i, i+1], psi, L, d)
    return out


def insertions(m, vLs):
    """{(site, a, b): tensor} for the orthonormal tangent coordinates given by the null spaces vLs"""
    l, r = ch.left_envs(m.data), ch.right_envs(m.data)
    out = {}
    for i in range(len(m.data)):
        if vLs[i].size == 0 or vLs[i].shape[-1] == 0:
            continue
        il = np.diag(1/np.sqrt(np.real(np.diag(l[i]))))
        ir = np.diag(1/np.sqrt(np.real(np.diag(r[i+1]))))
        for a in range(vLs[i].shape[-1]):
            for b in range(ir.shape[0]):
                out[i, a, b] = np.einsum('xy,py->px', il, vLs[i][:, :, a])[:, :, None]*ir[b][None, None, :]
    return out


def with_tensors(m, new):
    return dn.dense([new.get(k, x) for k, x in enumerate(m.data)])
