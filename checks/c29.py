"""C29: gauge matching moves the gauge only, as close to the other chain as its sweep says."""
import numpy as np
from scipy.linalg import expm
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS

PID = 'C29'
QUICK, THOROUGH = 16000, 160000
RULE = ('Pairs of chains of equal shapes (2-8 sites, d 2-4, D 1-6, right and left canonical, general gauge, products, padded): the same tensors, the same state in '
        'another unitary gauge (dense, diagonal, permuted, infinitesimal), slightly moved states, unrelated ones; matched once and repeatedly, in both orders.')
MUST = ['ray', 'isometric', 'optimal', 'idempotent', 'exact', 'other', 'returns', 'phase', 'nearer', 'shapes', 'composed', 'continuous', 'long']


def gauged(ctx, data, how):
    out = [x.copy() for x in data]
    for i in range(len(out)-1):
        D = out[i].shape[2]
        if how == 'dense':
            U = dn.runitary(ctx.rng, D)
        elif how == 'diagonal':
            U = np.diag(np.exp(1j*ctx.rng.uniform(0, 2*np.pi, D)))
        elif how == 'permuted':
            U = np.eye(D)[ctx.rng.permutation(D)]
        elif how == 'signs':
            U = np.diag(ctx.rng.choice([-1., 1.], D))
        else:
            U = expm(1e-3j*dn.rherm(ctx.rng, D))
        out[i] = out[i]@U
        out[i+1] = U.conj().T@out[i+1]
    if ctx.flip():
        out[0] = out[0]*np.exp(1j*ctx.rng.uniform(0, 2*np.pi))
    return out


def overlaps(a, b):
    return [np.einsum('pab,pcb->ac', x, y.conj()) for x, y in zip(a, b)]


def dist(a, b):
    return np.sqrt(sum(np.linalg.norm(x-y)**2 for x, y in zip(a, b)))


def match(ctx):
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(dn.KINDS)
    form = ctx.choice(['right', 'right', 'left', 'none', 'mixed'])
    b = fMPS(dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), kind))
    if form == 'right':
        b.right_canonicalise()
    elif form == 'left':
        b.left_canonicalise()
    elif form == 'mixed':
        b.mixed_canonicalise(ctx.int(0, L-1))
    b = [np.array(x) for x in b.data]
    how = ctx.choice(['dense', 'dense', 'diagonal', 'permuted', 'signs', 'small', 'same', 'near', 'unrelated'])
    ctx.p(L=L, d=d, kind=kind, form=form, how=how, u=int(ctx.rng.integers(1 << 20)))
    same = how not in ('near', 'unrelated')
    if how == 'same':
        a = [x.copy() for x in b]
    elif same:
        a = gauged(ctx, b, how)
    elif how == 'near':
        a = gauged(ctx, [x+1e-3*dn.crandn(ctx.rng, *x.shape)*np.abs(x).max() for x in b], ctx.choice(['dense', 'diagonal', 'small']))
    else:
        a = [dn.crandn(ctx.rng, *x.shape) for x in b]
    A, B = fMPS([x.copy() for x in a], d), fMPS([x.copy() for x in b], d)
    psi = dn.dense(a)
    size = np.linalg.norm(psi)
    if size < 1e-200 or size > 1e200:
        return
    before = overlaps(a, b)
    r = A.match_gauge_to(B)
    ctx.ok(r is A, 'returns', 'returns something else')
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(B.data, b)), 'other', 'the other chain was changed')
    if not ctx.ok([x.shape for x in A.data] == [x.shape for x in a], 'shapes', 'shapes changed'):
        return
    phi = dn.dense(A.data)
    ctx.close(np.linalg.norm(phi), size, 'ray', tol=1e-9)
    ctx.close(dn.same_ray(phi, psi), 0, 'ray', tol=1e-8)
    for x, y in zip(A.data, a):
        # environments of single sites only move by unitaries: the spectra stay
        for f in ('pab,pcb->ac', 'pab,pac->bc'):
            u, v = np.einsum(f, x, x.conj()), np.einsum(f, y, y.conj())
            ctx.close(np.linalg.eigvalsh(u), np.linalg.eigvalsh(v), 'isometric', tol=1e-8)
    if form == 'right' and same:
        for x in A.data:
            ctx.close(np.einsum('pab,pcb->ac', x, x.conj()), np.eye(x.shape[1]), 'isometric', tol=1e-8)
    for x, y, S in zip(A.data, b, overlaps(A.data, b)):
        # no rotation of this bond brings the tensor nearer to the other's
        sc = np.linalg.norm(x)*np.linalg.norm(y)
        ctx.close(S, S.conj().T, 'optimal', tol=1e-8, scale=sc)
        ctx.le(-np.linalg.eigvalsh((S+S.conj().T)/2).min(), 1e-8*sc, 'optimal')
    last = np.linalg.norm(A.data[-1]-b[-1])-np.linalg.norm(a[-1]-b[-1])
    ctx.le(last, 1e-8*(np.linalg.norm(a[-1])+np.linalg.norm(b[-1])), 'nearer')
    A2 = fMPS([np.array(x) for x in A.data], d).match_gauge_to(B)
    sing = [np.linalg.svd(S, compute_uv=False) for S in before]
    after = [np.linalg.svd(S, compute_uv=False) for S in overlaps(A.data, b)]
    regular = all(s.min() > 1e-6*np.linalg.norm(x)*np.linalg.norm(y) for s, x, y in zip(after, A.data, b))
    if regular:
        ctx.le(dist(A2.data, A.data), 1e-7*max(1., max(np.linalg.norm(x) for x in A.data)), 'idempotent')
    if same and regular:
        for x, y in zip(A.data, b):
            ctx.close(x, y, 'exact', tol=1e-9, scale=np.linalg.norm(y))
        ctx.close(phi, dn.dense(b), 'phase', tol=1e-9, scale=size)
    if regular:
        # the result does not depend on the gauge the chain came in
        C = fMPS(gauged(ctx, a, 'dense'), d).match_gauge_to(B)
        for x, y in zip(C.data, A.data):
            ctx.close(x, y, 'composed', tol=1e-9, scale=np.linalg.norm(y))


def continuous(ctx):
    """along a smooth path of states, canonicalised afresh at every point, matched tensors move little"""
    L, d = ch.size(ctx, 100)
    D = ctx.int(2, 4)
    base = dn.rand_mps(ctx.rng, L, d, D, 'uniform')
    step = [dn.crandn(ctx.rng, *x.shape)*np.abs(x).max() for x in base]
    old = fMPS([x.copy() for x in base]).right_canonicalise()
    psi = dn.dense(old.data)
    ctx.p(L=L, d=d, D=D, u=int(ctx.rng.integers(1 << 20)))
    W = [w for i in range(1, L) for w in ch.weights(psi, L, d)[i][:old[i].shape[1]]]
    if min(W, default=1) < 1e-3:
        return
    e = 1e-5
    new = fMPS(gauged(ctx, [x+e*s for x, s in zip(base, step)], 'dense')).right_canonicalise()
    if [x.shape for x in new.data] != [x.shape for x in old.data]:
        return
    new.match_gauge_to(old)
    ctx.le(dist(new.data, old.data), 1e4*e*np.sqrt(L), 'continuous')
    for i in range(len(new.data)):
        S = np.einsum('pab,pcb->ac', new.data[i], old.data[i].conj())
        ctx.close(S, np.eye(len(S)), 'continuous', tol=1e-3, scale=1)


def long(ctx):
    """chains beyond dense vectors, equal up to gauge or not"""
    a, L, d = lg.draw(ctx, most=4, kinds=('generic', 'uneven', 'product'), Lmax=30)
    B = fMPS([x.copy() for x in a]).right_canonicalise()
    b = [x.copy() for x in B.data]
    how = ctx.choice(['dense', 'diagonal', 'permuted', 'signs', 'small', 'same', 'unrelated'])
    ctx.p(how=how)
    c = [dn.crandn(ctx.rng, *x.shape)/np.sqrt(d*max(x.shape)) for x in b] if how == 'unrelated' else b if how == 'same' else gauged(ctx, b, how)
    A = fMPS([x.copy() for x in c]).match_gauge_to(B)
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(B.data, b)), 'other', 'the other chain was changed')
    ctx.event('decided:long')
    lg.same(ctx, A.data, c, 'ray')
    ctx.close(lg.lognorm(A.data), lg.lognorm(c), 'ray', tol=1e-8)
    regular = True
    for x, y, S in zip(A.data, b, overlaps(A.data, b)):
        sc = np.linalg.norm(x)*np.linalg.norm(y)
        ctx.close(S, S.conj().T, 'optimal', tol=1e-8, scale=sc)
        ctx.le(-np.linalg.eigvalsh((S+S.conj().T)/2).min(), 1e-8*sc, 'optimal')
        regular &= np.linalg.svd(S)[1].min() > 1e-6*sc
    if how != 'unrelated' and regular:
        for x, y in zip(A.data, b):
            ctx.close(x, y, 'exact', tol=1e-9, scale=np.linalg.norm(y))


SCENARIOS = [('match', match), ('match', match), ('match', match), ('continuous', continuous)]*4+[('long', long)]
