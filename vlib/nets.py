"""Dense oracles for two-dimensional networks (tensors: physical, up, right, down, left) and matrix product operators."""
import string
import numpy as np


def dense(rows):
    """the vector, one axis per site in reading order: sum over every bond (outer legs of any size are summed with ones
    only when they have size one)"""
    letters = iter(string.ascii_letters)
    down, terms, ops, phys = {}, [], [], []
    for j, row in enumerate(rows):
        right = None
        for i, A in enumerate(row):
            p = next(letters)
            up = down.get(i)
            A = np.asarray(A)
            lab, take = [p], [slice(None)]
            for leg, l in (('u', up), ('r', None), ('d', None), ('l', right)):
                inner = {'u': j > 0, 'r': i < len(row)-1, 'd': j < len(rows)-1, 'l': i > 0}[leg]
                if not inner:
                    take.append(0)
                    continue
                take.append(slice(None))
                if l is None:
                    l = next(letters)
                    if leg == 'r':
                        nr = l
                    else:
                        down[i] = l
                lab.append(l)
            outer = [A.shape[k+1] for k, s in enumerate(take[1:]) if not isinstance(s, slice)]
            assert all(n == 1 for n in outer), 'outer legs %s' % (A.shape,)
            if i < len(row)-1:
                right = nr
            ops.append(A[tuple(take)])
            terms.append(''.join(lab))
            phys.append(p)
    return np.einsum(','.join(terms)+'->'+''.join(phys), *ops, optimize='greedy')


def vector(rows):
    return dense(rows).reshape(-1)


def random(rng, Lx, Ly, d, X, vary=False, real=False):
    """Ly rows of Lx tensors; bonds of size X, or of any size up to X"""
    h = [[X if not vary else int(rng.integers(1, X+1)) for _ in range(Lx-1)] for _ in range(Ly)]
    v = [[X if not vary else int(rng.integers(1, X+1)) for _ in range(Lx)] for _ in range(Ly-1)]

    def tensor(i, j):
        sh = (d, v[j-1][i] if j else 1, h[j][i] if i < Lx-1 else 1, v[j][i] if j < Ly-1 else 1, h[j][i-1] if i else 1)
        a = rng.standard_normal(sh)
        return a/np.sqrt(np.prod(sh)**.5) if real else (a+1j*rng.standard_normal(sh))/np.sqrt(np.prod(sh)**.5)
    return [[tensor(i, j) for i in range(Lx)] for j in range(Ly)]


def mpo(tensors):
    """the array of a matrix product operator (up, right, down, left): axes all ups, then all downs"""
    n = len(tensors)
    ls = iter(string.ascii_letters)
    ups, downs, terms, ops = [], [], [], []
    b = None
    for k, W in enumerate(tensors):
        u, dn = next(ls), next(ls)
        r = next(ls) if k < n-1 else None
        W = np.asarray(W)
        if k == n-1:
            assert W.shape[1] == 1
            W = W[:, 0][:, None]
        if k == 0:
            assert W.shape[3] == 1
        lab = u+(r or '')+dn+(b or '')
        take = (slice(None), 0 if r is None else slice(None), slice(None), 0 if b is None else slice(None))
        ops.append(W[take])
        terms.append(lab)
        ups.append(u)
        downs.append(dn)
        b = r
    return np.einsum(','.join(terms)+'->'+''.join(ups)+''.join(downs), *ops, optimize='greedy')


def mpo_matrix(tensors):
    """rows: lower legs, columns: upper legs"""
    a = mpo(tensors)
    n = len(tensors)
    return a.reshape(int(np.prod(a.shape[:n])), -1).T
