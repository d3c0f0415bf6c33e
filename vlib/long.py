"""chains too long for dense vectors: quantities from environments that are renormalised site by site"""
import numpy as np
from vlib import dense as dn


def random(rng, L, d, D, kind='generic'):
    """generic: entangled everywhere; product: bond one; weak: small second Schmidt values; uneven: bonds of all sizes"""
    cap = [min(d**min(i, 12), d**min(L-i, 12), D) for i in range(L+1)]
    b = [max(1, int(rng.integers(1, c+1))) for c in cap] if kind == 'uneven' else [1]*(L+1) if kind == 'product' else cap
    b[0] = b[L] = 1
    for i in range(1, L):               # attainable from the left
        b[i] = min(b[i], b[i-1]*d)
    for i in range(L-1, 0, -1):
        b[i] = min(b[i], b[i+1]*d)
    out = [dn.crandn(rng, d, b[i], b[i+1]) for i in range(L)]
    if kind == 'weak':
        out = [x*(.1**np.arange(x.shape[2])) for x in out]
    return [x/np.sqrt(d*max(x.shape[1:])) for x in out]


def lefts(a, b=None):
    """environments <b|a> left of every site, each of norm one, and their logarithmic sizes"""
    b = a if b is None else b
    E, s = [np.ones((1, 1), complex)], [0.]
    for x, y in zip(a, b):
        F = np.einsum('pab,ac,pcd->bd', x, E[-1], np.conj(y))
        n = np.linalg.norm(F)
        E.append(F/n if n > 0 else F)
        s.append(s[-1]+(np.log(n) if n > 0 else -np.inf))
    return E, s


def rights(a, b=None):
    b = a if b is None else b
    E, s = [np.ones((1, 1), complex)], [0.]
    for x, y in zip(a[::-1], b[::-1]):
        F = np.einsum('pab,bd,pcd->ac', x, E[-1], np.conj(y))
        n = np.linalg.norm(F)
        E.append(F/n if n > 0 else F)
        s.append(s[-1]+(np.log(n) if n > 0 else -np.inf))
    return E[::-1], s[::-1]


def lognorm(a):
    return lefts(a)[1][-1]/2


def overlap(a, b):
    """<b|a> of the normalised chains"""
    E, s = lefts(a, b)
    return complex(E[-1][0, 0])*np.exp(s[-1]-lognorm(a)-lognorm(b))


def apart(a, b):
    """distance of the rays"""
    E, s = lefts(a, b)
    f = np.exp(s[-1]-lognorm(a)-lognorm(b))
    return np.sqrt(max(0., 1-min(1., f)**2))


def weights(a):
    """squared Schmidt coefficients at the bonds 0..L, largest first"""
    l, r = lefts(a)[0], rights(a)[0]
    out = []
    for x, y in zip(l, r):
        w, u = np.linalg.eigh((x+x.conj().T)/2)
        h = np.sqrt(np.clip(w, 0, None))[:, None]*u.conj().T      # x = h'h
        v = np.linalg.eigvalsh((lambda z: (z+z.conj().T)/2)(h.conj()@y@h.T))
        v = np.clip(v, 0, None)[::-1]
        out.append(v/v.sum())
    return out


def rdm(a, lo, n):
    """density matrix of the sites lo..lo+n-1"""
    d = a[0].shape[0]
    l, r = lefts(a)[0][lo], rights(a)[0][lo+n]
    T = np.einsum('ac,pab->cpb', l, a[lo])              # c: conjugate bond, p: sites so far, b: bond
    for x in a[lo+1:lo+n]:
        T = np.einsum('cpb,qbe->cpqe', T, x).reshape(T.shape[0], -1, x.shape[2])
    B = a[lo]
    for x in a[lo+1:lo+n]:
        B = np.einsum('pcb,qbe->pqce', B, x).reshape(-1, B.shape[1], x.shape[2])
    rho = np.einsum('cpb,bd,qcd->pq', T, r, B.conj())
    return rho/np.trace(rho)


def dense_window(a, lo, n):
    """the tensor of the sites lo..lo+n-1 with their outer bonds: (d**n, left, right)"""
    B = a[lo]
    for x in a[lo+1:lo+n]:
        B = np.einsum('pcb,qbe->pqce', B, x).reshape(-1, B.shape[1], x.shape[2])
    return B


def element(a, b, op, lo, n, raw=False):
    """<b|op|a> of the normalised (or else the raw) chains, op on the sites lo..lo+n-1"""
    E, s = lefts(a, b)
    F, t = rights(a, b)
    v = np.einsum('ac,pab,qp,bd,qcd->', E[lo], dense_window(a, lo, n), op, F[lo+n], np.conj(dense_window(b, lo, n)), optimize=True)
    return v*np.exp(s[lo]+t[lo+n]-(0 if raw else lognorm(a)+lognorm(b)))


def energy(a, H):
    d = a[0].shape[0]
    return sum(np.trace(rdm(a, i, 2)@h.reshape(d*d, d*d)) for i, h in enumerate(H)).real


def draw(ctx, most=8, kinds=('generic', 'generic', 'weak', 'uneven'), Lmin=12, Lmax=40):
    """a long chain in a random gauge, not normalised"""
    L, d, D = ctx.int(Lmin, Lmax), ctx.choice((2, 2, 3)), ctx.int(1, most)
    kind = ctx.choice(kinds)
    if kind == 'weak':
        D = min(D, 3)
    a = random(ctx.rng, L, d, D, kind)
    if ctx.flip(.5):
        a = [x*10.**ctx.rng.uniform(-1, 1)*np.exp(1j*ctx.rng.uniform(0, 6)) for x in a]
    ctx.event('long chain')
    ctx.p(L=L, d=d, D=D, kind=kind, u=int(ctx.rng.integers(1 << 30)))
    return a, L, d


def same(ctx, got, want, mech, n=2):
    """the same ray: globally (to rounding of a fidelity), and in windows exactly"""
    ctx.close(apart(got, want), 0, mech, tol=1e-6)
    for _ in range(n):
        k = ctx.int(1, 3)
        lo = ctx.int(0, len(got)-k)
        ctx.close(rdm(got, lo, k), rdm(want, lo, k), mech, tol=1e-9)


def act(a, op, lo):
    """op on neighbouring sites lo, lo+1, split again without loss"""
    d = a[lo].shape[0]
    l, r = a[lo].shape[1], a[lo+1].shape[2]
    t = np.einsum('pq,qab->pab', op, dense_window(a, lo, 2)).reshape(d, d, l, r)
    u, s, v = np.linalg.svd(t.transpose(0, 2, 1, 3).reshape(d*l, d*r), full_matrices=False)
    k = max(1, int(np.sum(s > 1e-15*s[0])))
    out = list(a)
    out[lo] = (u*s)[:, :k].reshape(d, l, k)
    out[lo+1] = v[:k].reshape(k, d, r).transpose(1, 0, 2)
    return out


def act_far(a, op, i, j):
    """op on sites i and j, in that order"""
    d = a[0].shape[0]
    swap = np.eye(d*d).reshape([d]*4).transpose(1, 0, 2, 3).reshape(d*d, d*d)
    if i > j:
        i, j, op = j, i, swap@op@swap
    for k in range(j-1, i, -1):
        a = act(a, swap, k)
    a = act(a, op, i)
    for k in range(i+1, j):
        a = act(a, swap, k)
    return a
