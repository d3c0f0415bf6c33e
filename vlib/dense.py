"""Independent dense oracles and workload generators.

Nothing in this file calls the code under test: states are contracted, embedded,
traced and evolved with plain einsum/reshape/eigh on full vectors."""
import numpy as np
from functools import reduce

PX = np.array([[0, 1], [1, 0]], complex)
PY = np.array([[0, -1j], [1j, 0]])
PZ = np.array([[1, 0], [0, -1]], complex)
ID = np.eye(2, dtype=complex)


# ---------------------------------------------------------------- random matter
def crandn(rng, *shape):
    return rng.standard_normal(shape) + 1j*rng.standard_normal(shape)


def rherm(rng, n):
    a = crandn(rng, n, n)
    return (a + a.conj().T)/2


def rop(rng, n):
    """a generic, non Hermitian operator"""
    return crandn(rng, n, n)/np.sqrt(n)


def runitary(rng, n):
    q, r = np.linalg.qr(crandn(rng, n, n))
    return q*(np.diag(r)/np.abs(np.diag(r)))


def rvec(rng, n):
    v = crandn(rng, n)
    return v/np.linalg.norm(v)


# ---------------------------------------------------------------- dense states
def dense(data):
    """|psi> of a list of (d, Dl, Dr) tensors, first site slowest"""
    v = np.asarray(data[0])                      # d, a, b
    a0 = v.shape[1]
    v = v.transpose(1, 0, 2)                     # a, P, b
    for t in data[1:]:
        v = np.einsum('apb,qbc->apqc', v, np.asarray(t))
        v = v.reshape(a0, -1, v.shape[-1])
    assert v.shape[0] == 1 and v.shape[2] == 1, 'open ends %s' % (v.shape,)
    return v[0, :, 0]


def well_formed(data, d=None):
    """None, or what is wrong with a list of tensors as an open MPS"""
    if len(data) == 0:
        return 'empty'
    for k, t in enumerate(data):
        if not hasattr(t, 'shape') or len(t.shape) != 3:
            return 'site %d is no rank 3 tensor' % k
        if d is not None and t.shape[0] != d:
            return 'site %d has physical dimension %d' % (k, t.shape[0])
        if not np.all(np.isfinite(t)):
            return 'site %d is not finite' % k
    if data[0].shape[1] != 1 or data[-1].shape[2] != 1:
        return 'ends are not of dimension one'
    for k in range(len(data)-1):
        if data[k].shape[2] != data[k+1].shape[1]:
            return 'bond %d is %d|%d' % (k, data[k].shape[2], data[k+1].shape[1])
    return None


def same_ray(a, b):
    """1-|<a|b>| for the normalised vectors"""
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na == 0 or nb == 0 or not np.isfinite(na) or not np.isfinite(nb):
        return 1.0
    a, b = a/na, b/nb
    ph = np.vdot(b, a)
    ph = ph/abs(ph) if abs(ph) > 0 else 1
    return float(np.linalg.norm(a - ph*b))


def phase_of(a, b):
    ph = np.vdot(b, a)
    return ph/abs(ph)


def embed(op, sites, L, d):
    """operator on the listed sites (in that order) as a d^L matrix; sites arbitrary"""
    k = len(sites)
    op = np.asarray(op, complex).reshape([d]*(2*k))
    rest = [s for s in range(L) if s not in sites]
    full = np.tensordot(op, np.eye(d**len(rest)).reshape([d]*(2*len(rest))), 0) if rest else op
    # axes now: out(sites), in(sites), out(rest), in(rest)
    outs = {s: i for i, s in enumerate(sites)}
    ins = {s: k+i for i, s in enumerate(sites)}
    for i, s in enumerate(rest):
        outs[s] = 2*k+i
        ins[s] = 2*k+len(rest)+i
    return full.transpose([outs[s] for s in range(L)] + [ins[s] for s in range(L)]).reshape(d**L, d**L)


def apply_op(op, sites, psi, L, d):
    k = len(sites)
    op = np.asarray(op).reshape([d]*(2*k))
    t = np.tensordot(op, psi.reshape([d]*L), [list(range(k, 2*k)), list(sites)])
    rest = [s for s in range(L) if s not in sites]
    order = list(sites) + rest
    return t.transpose([order.index(s) for s in range(L)]).reshape(-1)


def expect(op, sites, psi, L, d):
    return np.vdot(psi, apply_op(op, sites, psi, L, d))


def rdm(psi, sites, L, d, phi=None):
    """Tr_rest |psi><phi| with the sites in the listed order"""
    phi = psi if phi is None else phi
    rest = [s for s in range(L) if s not in sites]
    perm = list(sites) + rest
    a = psi.reshape([d]*L).transpose(perm).reshape(d**len(sites), -1)
    b = phi.reshape([d]*L).transpose(perm).reshape(d**len(sites), -1)
    return a @ b.conj().T


def schmidt(psi, cut, L, d):
    """Schmidt coefficients across the bond with `cut` sites on its left"""
    return np.linalg.svd(psi.reshape(d**cut, d**(L-cut)), compute_uv=False)


def nn_hamiltonian(H, L, d):
    """sum of two site terms"""
    M = np.zeros((d**L, d**L), complex)
    for i, h in enumerate(H):
        M += np.kron(np.kron(np.eye(d**i), np.asarray(h).reshape(d*d, d*d)), np.eye(d**(L-2-i)))
    return M


def evolve(H, psi, t):
    e, v = np.linalg.eigh(H)
    return v @ (np.exp(-1j*e*t) * (v.conj().T @ psi))


# ---------------------------------------------------------------- MPS generators
def bonds(rng, L, D, capped, d):
    b = [1] + [int(rng.integers(1, D+1)) for _ in range(L-1)] + [1]
    if capped:
        for i in range(1, L):
            b[i] = min(b[i], d*b[i-1])
        for i in range(L-1, 0, -1):
            b[i] = min(b[i], d*b[i+1])
    return b


KINDS = ['generic', 'uniform', 'real', 'product', 'scaled', 'ghz', 'dimers', 'padded', 'overcomplete', 'decaying',
         'symmetric', 'nearly']


def rand_mps(rng, L, d, D, kind='generic'):
    """list of tensors for one of the KINDS (an adversarial catalogue of state shapes)"""
    if kind == 'product':
        return [crandn(rng, d, 1, 1) for _ in range(L)]
    if D > 1 and rng.random() < .02:
        D = D+int(rng.integers(4, 14))          # now and then larger than usual
    if kind in ('generic', 'real', 'scaled', 'decaying'):
        b = bonds(rng, L, D, True, d)
        out = [crandn(rng, d, b[i], b[i+1]) for i in range(L)]
        if kind == 'real':
            out = [x.real.copy() for x in out]
        if kind == 'scaled':
            far = rng.uniform(-12, 12)/L if rng.random() < .3 else 0.      # norms many orders of magnitude from one
            out = [x*10.0**(far+rng.uniform(-2, 2))*np.exp(2j*np.pi*rng.random()) for x in out]
        if kind == 'decaying':
            out = [x*(0.3**np.arange(x.shape[2])) for x in out]
        return out
    if kind == 'uniform':
        b = [min(D, d**min(i, L-i)) for i in range(L+1)]
        return [crandn(rng, d, b[i], b[i+1]) for i in range(L)]
    if kind == 'overcomplete':
        b = bonds(rng, L, D, False, d)
        return [crandn(rng, d, b[i], b[i+1]) for i in range(L)]
    if kind == 'ghz':
        # a|00..> + b|11..> + ... in a random product frame: degenerate or not
        k = min(d, max(2, D))
        w = np.ones(k) if rng.random() < .5 else rng.uniform(.3, 1, k)
        out = []
        for i in range(L):
            u = runitary(rng, d)
            t = np.zeros((d, k, k), complex)
            for s in range(k):
                t[:, s, s] = u[:, s]*(w[s] if i == 0 else 1)
            if i == 0:
                t = t.sum(1, keepdims=True)
            if i == L-1:
                t = t.sum(2, keepdims=True)
            out.append(t)
        return out
    if kind == 'dimers':
        # chain of maximally entangled pairs (degenerate Schmidt spectra), rotated locally and in the gauge
        out = []
        i = 0
        while i < L:
            if i+1 < L and rng.random() < .85:
                u, v, g = runitary(rng, d), runitary(rng, d), runitary(rng, d)
                m = u @ v.T/np.sqrt(d)
                out.append((u @ g).reshape(d, 1, d))
                out.append((g.conj().T @ v.T).reshape(d, d, 1).transpose(1, 0, 2).copy())
                i += 2
            else:
                out.append(crandn(rng, d, 1, 1))
                i += 1
        return out
    if kind == 'padded':
        # exactly rank deficient: zero blocks rotated into a random gauge
        b = bonds(rng, L, max(1, D-1), True, d)
        out = [crandn(rng, d, b[i], b[i+1]) for i in range(L)]
        g = [np.eye(1)] + [runitary(rng, b[i]+1) for i in range(1, L)] + [np.eye(1)]
        res = []
        for i, t in enumerate(out):
            l, r = (0 if i == 0 else 1), (0 if i == L-1 else 1)
            t = np.pad(t, ((0, 0), (0, l), (0, r)))
            res.append(g[i].conj().T @ t @ g[i+1])
        return res
    if kind == 'symmetric':
        a = crandn(rng, d, D, D)
        a = a + a.transpose(0, 2, 1)
        e = crandn(rng, D)
        out = [a.copy() for _ in range(L)]
        out[0] = np.einsum('a,pab->pb', e, out[0])[:, None, :]
        out[-1] = np.einsum('pab,b->pa', out[-1], e)[:, :, None]
        return out
    if kind == 'nearly':
        # canonical and normalised up to an error that loose comparisons overlook
        b = bonds(rng, L, D, True, d)
        out = [crandn(rng, d, b[i], b[i+1]) for i in range(L)]
        c = rng.choice([0, L-1, int(rng.integers(0, L))])
        for i in range(c):
            a = out[i]
            q, r = np.linalg.qr(a.reshape(-1, a.shape[2]))
            out[i], out[i+1] = q.reshape(d, a.shape[1], -1), np.einsum('ab,pbc->pac', r, out[i+1])
        for i in range(L-1, c, -1):
            a = out[i].transpose(1, 0, 2).reshape(out[i].shape[1], -1)
            q, r = np.linalg.qr(a.conj().T)
            out[i] = q.conj().T.reshape(-1, d, out[i].shape[2]).transpose(1, 0, 2)
            out[i-1] = out[i-1] @ r.conj().T
        out[c] = out[c]/np.linalg.norm(out[c])
        e = 10.**rng.uniform(-9, -3)
        few = rng.random() < .5
        for i in range(L):
            if not few or rng.random() < .4:
                out[i] = out[i]*(1+e*rng.normal()) + e*np.abs(out[i]).max()*crandn(rng, *out[i].shape)
        return out
    raise ValueError(kind)


def state_norm(data):
    return np.linalg.norm(dense(data))


def mps_from_vec(psi, L, d):
    """exact left canonical tensors of a dense vector (independent of the library)"""
    out, r, D = [], psi.reshape(1, -1), 1
    for i in range(L-1):
        u, s, v = np.linalg.svd(r.reshape(D*d, -1), full_matrices=False)
        keep = max(1, int(np.sum(s > 1e-13*s[0])))
        out.append(u[:, :keep].reshape(D, d, keep).transpose(1, 0, 2).copy())
        r = s[:keep, None]*v[:keep]
        D = keep
    out.append(r.reshape(D, d, 1).transpose(1, 0, 2).copy())
    return out
