"""C30: the predicates for canonical forms accept exactly what satisfies the defining equations."""
import numpy as np
from vlib import dense as dn, chain as ch
from xmps import tests as T
from xmps.fMPS import fMPS

PID = 'C30'
QUICK, THOROUGH = 18000, 250000
RULE = ('Lists of tensors and bond matrices: canonical ones of 1-8 sites (d 1-4, bonds 1-8, real and complex, products, padded), the same with one tensor, '
        'one column, one entry, one bond matrix or one eigenvalue changed at a random position by 1e-12 to 1, and arbitrary ones. Each predicate is judged by an '
        'independent evaluation of its equations, away from its tolerance.')
MUST = ['right:yes', 'right:no', 'left:yes', 'left:no', 'right_env:yes', 'right_env:no', 'left_env:yes', 'left_env:no', 'rank:yes', 'rank:no', 'trace:yes', 'trace:no',
        'error', 'untouched', 'attributes', 'last']


def dag(x):
    return x.conj().swapaxes(-1, -2)


def defect(x, left):
    e = np.einsum('pab,pac->bc', x.conj(), x) if left else np.einsum('pab,pcb->ac', x, x.conj())
    return np.abs(e-np.eye(len(e)))


def settle(ctx, mech, got, yes, no):
    """got must be true when yes, false when no; anything is right in between"""
    if yes:
        ctx.event('decided:%s:yes' % mech)
        ctx.ok(bool(got) is True, mech, 'rejects what satisfies its equations')
    elif no:
        ctx.event('decided:%s:no' % mech)
        ctx.ok(bool(got) is False, mech, 'accepts what violates its equations')


def isometries(ctx, left, mats=None, c=1e-8, z=1e-8, explicit=False):
    f = T.is_left_canonical if left else T.is_right_canonical
    keep = [x.copy() for x in mats]
    kw = {'c': c, 'z': z} if explicit else {}
    got = f(mats, **kw)
    d = [defect(x, left) for x in mats]
    worst = max((x.max() for x in d), default=0)
    tot = max((x.sum() for x in d), default=0)
    mech = 'left' if left else 'right'
    settle(ctx, mech, got, tot < .1*c or worst < .1*z, worst > 3*max(c, z))
    if ctx.flip(.4):
        ok, errs = f(mats, error=True, **kw)
        ctx.ok(bool(ok) == bool(got), 'error', 'another answer when asked for the errors')
        # entries below z count as none
        want = [np.where(x < z, 0, x).sum() for x in d]
        ctx.ok(len(errs) == len(mats), 'error', '%d errors for %d tensors' % (len(errs), len(mats)))
        for e, w, x in zip(errs, want, d):
            ctx.le(abs(e-w), x.size*2.1*z+1e-9*max(1., w), 'error')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, mats)), 'untouched', 'the tensors were changed')


def envs(ctx, left, mats, Ls):
    f = T.is_left_env_canonical if left else T.is_right_env_canonical
    keep = [x.copy() for x in mats], [x.copy() for x in Ls]
    got = f(mats, Ls)
    bad, good = [], []
    for n, A in enumerate(mats):
        if left:
            a, b = np.einsum('pab,bc,pdc->ad', A, Ls[n+1], A.conj()), Ls[n]
        else:
            a, b = np.einsum('pab,ac,pcd->bd', A.conj(), Ls[n], A), Ls[n+1]
        e = np.abs(a-b)
        bad.append(np.max(e-3e-8-3e-5*np.abs(b)))
        good.append(np.max(e-3e-9-3e-6*np.abs(b)))
    mech = 'left_env' if left else 'right_env'
    no = max(bad) > 0
    if no and np.max(bad[:-1], initial=-1) <= 0:
        ctx.event('decided:last')
    settle(ctx, mech, got, max(good) < 0, no)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep[0]+keep[1], list(mats)+list(Ls))), 'untouched', 'the matrices were changed')


def disturb(ctx, mats, Ls):
    """change one thing at one place"""
    k = ctx.int(0, len(mats)-1)
    e = 10.**ctx.rng.uniform(-12, 0)
    how = ctx.choice(['tensor', 'entry', 'column', 'bond', 'eigenvalue', 'rotate', 'scale', 'phase', 'offdiagonal'])
    ctx.p(how=how, site=k, e='%.0e' % e)
    A = mats[k]
    cplx = np.iscomplexobj(A)
    if how == 'tensor':
        mats[k] = A+e*(dn.crandn(ctx.rng, *A.shape) if cplx else ctx.rng.standard_normal(A.shape))
    elif how == 'entry':
        i = tuple(ctx.int(0, s-1) for s in A.shape)
        mats[k] = A.copy()
        mats[k][i] += e
    elif how == 'column':
        j = ctx.int(0, A.shape[2]-1)
        mats[k] = A.copy()
        mats[k][:, :, j] *= 1+e
    elif how == 'scale':
        mats[k] = A*(1+e)
    elif how == 'phase':                             # changes nothing
        mats[k] = A*np.exp(1j*ctx.rng.uniform(0, 6))
    elif how == 'rotate':
        mats[k] = dn.runitary(ctx.rng, A.shape[1])@A if ctx.flip() else A@dn.runitary(ctx.rng, A.shape[2])
    elif Ls is not None:
        k = ctx.int(0, len(Ls)-1)
        Ls[k] = Ls[k]+0
        D = len(Ls[k])
        if how == 'bond':
            Ls[k] = Ls[k]+e*ctx.rng.standard_normal((D, D))
        elif how == 'eigenvalue':
            i = ctx.int(0, D-1)
            Ls[k][i, i] += e
        else:
            i, j = ctx.int(0, D-1), ctx.int(0, D-1)
            Ls[k][i, j] += e
    return mats, Ls


def chain(ctx):
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(dn.KINDS)
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 8), kind)
    m = fMPS([A.copy() for A in data])
    left = ctx.flip()
    ctx.p(L=L, d=d, kind=kind, left=left)
    m.left_canonicalise() if left else m.right_canonicalise()
    mats, Ls = [np.array(x) for x in m.data], [np.array(x) for x in m.Ls]
    return mats, Ls, left


def judged(ctx):
    mats, Ls, left = chain(ctx)
    n = ctx.choice([0, 1, 1, 1, 2])
    for _ in range(n):
        mats, Ls = disturb(ctx, mats, Ls)
    c, z = 10.**ctx.rng.uniform(-10, -2), 10.**ctx.rng.uniform(-10, -2)
    explicit = ctx.flip(.3)
    for hand in (left, not left):
        part = mats if ctx.flip(.7) else mats[ctx.int(0, len(mats)-1):]
        isometries(ctx, hand, part, *((c, z) if explicit else ()), explicit=explicit)
        envs(ctx, hand, mats, Ls)
    weights(ctx, Ls)


def weights(ctx, Ls):
    keep = [x.copy() for x in Ls]
    zeros = sum(int(np.sum(np.diag(x) == 0)) for x in Ls)
    settle(ctx, 'rank', T.is_full_rank(Ls), zeros == 0, zeros > 0)
    e = np.array([np.trace(x)-1 for x in Ls])
    got = T.has_trace_1(Ls)
    settle(ctx, 'trace', got, np.max(np.abs(e)) < 3e-9, np.max(np.abs(e)) > 3e-8)
    if ctx.flip(.3):
        ok, errs = T.has_trace_1(Ls, error=True)
        ctx.ok(bool(ok) == bool(got), 'error', 'another answer when asked for the errors')
        ctx.close(np.asarray(errs), e, 'error', tol=1e-12, scale=1)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, Ls)), 'untouched', 'the matrices were changed')


def bare(ctx):
    """bond matrices and tensors that come from no chain"""
    n = ctx.int(1, 6)
    D = [ctx.int(1, 6) for _ in range(n+1)]
    Ls = []
    for x in D:
        w = ctx.rng.uniform(.1, 1, x)
        w /= w.sum()
        Ls.append(np.diag(w))
    ctx.p(D=str(D))
    k = ctx.int(0, n)
    how = ctx.choice(['none', 'none', 'zero', 'trace', 'tiny', 'compensated', 'negative'])
    i = ctx.int(0, D[k]-1)
    if how == 'zero':
        Ls[k][i, i] = 0
        s = np.trace(Ls[k])
        if s > 0 and ctx.flip():
            Ls[k] /= s
    elif how == 'trace':
        Ls[k] = Ls[k]*(1+10.**ctx.rng.uniform(-12, 1)*ctx.choice([-1, 1]))
    elif how == 'tiny' and D[k] > 1:
        Ls[k][i, i] = 1e-30
        Ls[k] /= np.trace(Ls[k])
    elif how == 'compensated' and n > 0:             # the sum of the traces is right
        j = (k+1) % (n+1)
        Ls[k][0, 0] += .25
        Ls[j][0, 0] -= .25
    elif how == 'negative':
        Ls[k][i, i] *= -1
    ctx.p(how=how, site=k)
    if ctx.flip(.3):
        Ls = [x.astype(complex) for x in Ls]
    weights(ctx, Ls)
    mats = []
    for j in range(n):
        d = ctx.int(1, 4)
        A = dn.crandn(ctx.rng, d, D[j], D[j+1])
        if ctx.flip(.6):
            if d*D[j] >= D[j+1]:
                A = np.linalg.qr(A.reshape(-1, D[j+1]))[0].reshape(A.shape)
        elif d*D[j+1] >= D[j]:
            q = np.linalg.qr(A.transpose(0, 2, 1).reshape(-1, D[j]).conj())[0]
            A = q.conj().reshape(d, D[j+1], D[j]).transpose(0, 2, 1)
        mats.append(A)
    for left in (True, False):
        isometries(ctx, left, mats)
        for A in mats:
            isometries(ctx, left, [A])
        envs(ctx, left, mats, Ls)


def attributes(ctx):
    """what a chain says of itself"""
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(['uniform', 'generic', 'real', 'product'])
    m = fMPS(dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), kind))
    how = ctx.choice(['none', 'left', 'right', 'mixed'])
    ctx.p(L=L, d=d, kind=kind, how=how)
    if how == 'left':
        m.left_canonicalise(testing=True)
    elif how == 'right':
        m.right_canonicalise(testing=True)
    elif how == 'mixed':
        m.mixed_canonicalise(ctx.int(0, L-1), testing=True)
    psi = dn.dense(m.data)
    small = min((ch.weights(psi, L, d)[i][min(len(ch.weights(psi, L, d)[i]), m[i].shape[1])-1] for i in range(1, L)), default=1)
    if how in ('left', 'right') and small > 1e-6:
        ctx.ok(bool(m.ok) is True, 'attributes', 'a canonical chain fails its own test')
    elif how == 'mixed':
        ctx.ok(bool(m.ok) is True, 'attributes', 'a canonical chain fails its own test')
    if ctx.flip() and how != 'none':
        k = ctx.int(0, L-1)
        m.data[k] = m.data[k]*1.01
    m.update_properties()
    for left, got in ((True, m.is_left_canonical), (False, m.is_right_canonical)):
        w = max(defect(x, left).max() for x in m.data)
        settle(ctx, 'attributes', got, w < 1e-10, w > 1e-7)
    nrm = np.linalg.norm(dn.dense(m.data))
    settle(ctx, 'attributes', m.has_norm_1, abs(nrm-1) < 1e-9, abs(nrm-1) > 1e-4)
    if how == 'none':
        ctx.ok(not m.is_left_env_canonical and not m.is_right_env_canonical, 'attributes', 'says it is canonical with no bond matrices')
        ctx.ok(not m.is_full_rank and not m.has_trace_1, 'attributes', 'judges bond matrices it does not have')
    else:
        envs_attr(ctx, m)


def envs_attr(ctx, m):
    if not hasattr(m, 'Ls') or len(m.Ls) != m.L+1 or any(x.shape[0] != y.shape[1] for x, y in zip(m.Ls, m.data)):
        return
    tr = max(abs(np.trace(x)-1) for x in m.Ls)
    settle(ctx, 'attributes', m.has_trace_1, tr < 1e-10, tr > 1e-4)
    ctx.ok(bool(m.is_full_rank) == all(np.all(np.diag(x) != 0) for x in m.Ls), 'attributes', 'full rank')
    for left, got in ((True, m.is_left_env_canonical), (False, m.is_right_env_canonical)):
        worst = []
        for n, A in enumerate(m.data):
            e = (np.einsum('pab,bc,pdc->ad', A, m.Ls[n+1], A.conj())-m.Ls[n]) if left else (np.einsum('pab,ac,pcd->bd', A.conj(), m.Ls[n], A)-m.Ls[n+1])
            worst.append(np.abs(e).max())
        settle(ctx, 'attributes', got, max(worst) < 1e-9, max(worst) > 1e-4)


SCENARIOS = [('judged', judged), ('judged', judged), ('bare', bare), ('attributes', attributes)]
