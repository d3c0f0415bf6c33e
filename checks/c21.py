"""C21: Hamiltonian builders produce the operator they describe."""
import numpy as np
from functools import reduce
from vlib import core, dense as dn
from xmps.Hamiltonians import Hamiltonian

PID = 'C21'
QUICK, THOROUGH = 15000, 60000
RULE = ('Random sets of spin strings (one-site, left/right fields, couplings, mixed pairs) with random real weights, '
        'insertion orders and lengths 2-7; histories of conversions on one object; matrices of d = 2, 3, 4.')
MUST = ['two_site', 'terms_sum', 'full', 'hermitian', 'history', 'caller_dict', 'roundtrip', 'given_matrices', 'mpo', 'count']

S = {'I': dn.ID, 'X': dn.PX, 'Y': dn.PY, 'Z': dn.PZ}
ONE = ['X', 'Y', 'Z']
PAIRS = [a+b for a in ONE for b in ONE]
SIDES = [a+'I' for a in ONE]+['I'+a for a in ONE]


def draw(ctx, heis=False):
    keys = ONE + (['XX', 'YY', 'ZZ'] if heis else PAIRS+SIDES)
    n = ctx.int(1, min(len(keys), 7))
    ks = [keys[i] for i in ctx.rng.permutation(len(keys))[:n]]
    def val():
        return ctx.choice([1, -2, 0, 0.5, float(ctx.rng.normal()), float(ctx.rng.normal())])
    if ctx.flip(.2):                    # weak and strong ones next to each other, other units
        u = 10.**ctx.rng.uniform(-12, 6)
        return {k: val()*u*(10.**ctx.rng.uniform(-6, 0) if ctx.flip() else 1) for k in ks}
    return {k: val() for k in ks}


def size(strings):
    return sum(map(abs, strings.values())) or 1.


def chain(strings, L):
    """the sum of the named terms: couplings once per bond, a named field once per site; a field given for one side
    of the bond acts on every bond with half weight where the other half comes from the neighbouring bond"""
    d = 2
    M = np.zeros((d**L, d**L), complex)
    for k, w in strings.items():
        if len(k) == 1:
            for i in range(L):
                M += w*dn.embed(S[k], [i], L, d)
        elif 'I' not in k:
            for i in range(L-1):
                M += w*dn.embed(np.kron(S[k[0]], S[k[1]]), [i, i+1], L, d)
        else:
            left = k[1] == 'I'
            o = S[k[0] if left else k[1]]
            for i in range(L):
                if 0 < i < L-1:
                    M += w/2*dn.embed(o, [i], L, d)
                elif (i == 0) == left:
                    M += w*dn.embed(o, [i], L, d)
    return M


def bond(strings):
    M = np.zeros((4, 4), complex)
    for k, w in strings.items():
        M += w*(np.kron(S[k], S['I'])+np.kron(S['I'], S[k]) if len(k) == 1 else np.kron(S[k[0]], S[k[1]]))
    return M


def herm(ctx, M):
    ctx.close(np.asarray(M).conj().T, M, 'hermitian', tol=1e-12)


def named(ctx):
    strings = draw(ctx)
    given = dict(strings)
    L = ctx.int(2, 7)
    ctx.p(strings=sorted(strings.items()), L=L, order=list(strings))
    h = Hamiltonian(strings)
    ctx.ok(strings == given and list(strings) == list(given), 'caller_dict', 'became %s' % strings)
    M = h.to_matrix()
    ctx.close(M, bond(given), 'two_site', tol=1e-11, scale=size(given))
    herm(ctx, M)
    ms = h.to_matrices(L)
    if ctx.ok(len(ms) == L-1, 'count', '%d terms for %d sites' % (len(ms), L)):
        for m in ms:
            herm(ctx, m)
        ctx.close(dn.nn_hamiltonian(ms, L, 2), chain(given, L), 'terms_sum', tol=1e-11, scale=size(given))
    if L <= 6:
        ctx.close(h.to_full(L), chain(given, L), 'full', tol=1e-11, scale=size(given))
    ctx.ok(strings == given, 'caller_dict', 'became %s' % strings)


def history(ctx):
    """several conversions of one object: none depends on the ones before"""
    strings = draw(ctx)
    given = dict(strings)
    h = Hamiltonian(strings)
    steps = []
    for _ in range(ctx.int(2, 6)):
        op, L = ctx.choice(['to_matrix', 'to_matrices', 'to_full']), ctx.int(2, 5)
        steps.append((op, L))
        if op == 'to_matrix':
            ctx.close(h.to_matrix(), bond(given), 'history', tol=1e-11, scale=size(given))
        elif op == 'to_matrices':
            ms = h.to_matrices(L)
            ctx.close(dn.nn_hamiltonian(ms, L, 2) if len(ms) == L-1 else np.zeros(1), chain(given, L), 'history', tol=1e-11, scale=size(given))
        else:
            ctx.close(h.to_full(L), chain(given, L), 'history', tol=1e-11, scale=size(given))
        ctx.note(op, L)
    ctx.p(strings=sorted(strings.items()), steps=steps)


def roundtrip(ctx):
    m = dn.rherm(ctx.rng, 4)
    if ctx.flip():
        m = bond(draw(ctx))
    if ctx.flip(.2):
        m = m+dn.crandn(ctx.rng, 4, 4)          # any operator of two sites has components
    m = m-np.trace(m)/4*np.eye(4)
    ctx.p(m=m)
    h = Hamiltonian()
    if ctx.flip(.4):
        # an object that described something else before
        h = Hamiltonian(draw(ctx))
        for _ in range(ctx.int(1, 3)):
            ctx.choice((h.to_matrix, lambda: h.to_matrices(4), lambda: h.to_full(3)))()
    h = h.from_matrix(m.copy())
    for k, v in h.strings.items():
        ctx.close(v, np.trace(np.kron(S[k[0]], S[k[1]])@m)/4, 'roundtrip', tol=1e-11)
    ctx.ok(len(h.strings) == 15, 'roundtrip', 'keys %s' % sorted(h.strings))
    for _ in range(ctx.int(1, 2)):
        ctx.close(h.to_matrix(), m, 'roundtrip', tol=1e-11)
    ctx.close(h.to_full(2), m, 'roundtrip', tol=1e-11)


def matrices(ctx):
    """Hamiltonians given as matrices, for any local dimension and number of sites per term"""
    d = ctx.choice([2, 2, 3, 4])
    k = ctx.int(1, {2: 4, 3: 3, 4: 2}[d])
    L = ctx.int(k, max(k, {2: 6, 3: 4, 4: 3}[d]))
    ms = [dn.rherm(ctx.rng, d**k) for _ in range(L-k+1)]
    ctx.p(d=d, k=k, L=L)
    h = Hamiltonian(matrices=[m.copy() for m in ms], d=d)
    ctx.ok(h.k == k and h.L == L, 'given_matrices', 'k, L = %s, %s; should be %s, %s' % (h.k, h.L, k, L))
    want = sum(dn.embed(m, list(range(i, i+k)), L, d) for i, m in enumerate(ms))
    ctx.close(h.to_full(), want, 'given_matrices', tol=1e-11)
    ctx.close(h.to_full(), want, 'given_matrices', tol=1e-11)


def mpo(ctx):
    strings = draw(ctx, heis=True)
    L = ctx.int(2, 6)
    ctx.p(strings=sorted(strings.items()), L=L)
    W = Hamiltonian(dict(strings)).to_mpo(L)
    ctx.ok(len(W) == L, 'mpo', '%d tensors' % len(W))
    v = np.asarray(W[0])[0]                       # chi, d, d: the row the automaton starts in
    for w in W[1:]:
        v = np.einsum('aij,abkl->bikjl', v, w)
        n = v.shape[1]*v.shape[2]
        v = v.reshape(v.shape[0], n, n)
    ctx.close(v[-1], chain(strings, L), 'mpo', tol=1e-11, scale=size(strings))
    # anything else: refused, or the operator it describes
    strings = draw(ctx)
    if ctx.flip():
        k = ctx.choice(SIDES)
        strings = {k: 1.5}
        if ctx.flip():
            strings[k[::-1]] = ctx.choice([1.5, -1.5, 1.])
        strings[ctx.choice(['XX', 'YY', 'ZZ'])] = .5
    try:
        W = Hamiltonian(dict(strings)).to_mpo(L)
    except NotImplementedError:
        ctx.event('decided:mpo:refused')
        return
    ctx.event('decided:mpo:other')
    v = np.asarray(W[0])[0]
    for w in W[1:]:
        v = np.einsum('aij,abkl->bikjl', v, w)
        v = v.reshape(v.shape[0], v.shape[1]*v.shape[2], -1)
    # fields given for one side of the bond: once on every site when the two sides agree
    M = np.zeros((2**L, 2**L), complex)
    for k, w in strings.items():
        if len(k) == 1 or 'I' not in k:
            M += chain({k: w}, L)
        elif k[0] == 'I' or k[::-1] not in strings:
            if not ctx.ok(strings.get(k[::-1], 0) == w or w == 0, 'mpo', 'accepted a field on one side %s' % strings):
                return
            M += w*sum(dn.embed(S[k.replace('I', '')], [i], L, 2) for i in range(L))
    if not any(len(k) == 1 for k in strings):
        ctx.close(v[-1], M, 'mpo', tol=1e-11, scale=size(strings))


def long_terms(ctx):
    """terms on many sites: the number of sites is a logarithm that rounding must not change"""
    for d, k in ((3, 5), (5, 3), (10, 2), (2, 8), (6, 3), (7, 3)):
        m = dn.rherm(ctx.rng, d**k)
        h = Hamiltonian(matrices=[m], d=d)
        ctx.ok(h.k == k and h.L == k, 'given_matrices', 'd %d: k, L = %s, %s; should be %s' % (d, h.k, h.L, k))
        if d**k < 300:
            ctx.close(h.to_full(), m, 'given_matrices', tol=1e-11)


def extra(tier, seed):
    return core.one_off(PID, seed, tier, long_terms)


SCENARIOS = [('named', named), ('history', history), ('matrices', matrices), ('roundtrip', roundtrip), ('mpo', mpo)]
