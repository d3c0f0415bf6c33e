"""C11: the time derivative is the tangent-space projection of -iH|psi>."""
import numpy as np
from vlib import dense as dn, chain as ch, tangent as tg, long as lg
from xmps.fMPS import fMPS

PID = 'C11'
QUICK, THOROUGH = 6000, 200000
RULE = ('One case draws a well conditioned canonical chain and a Hamiltonian (generic complex, different on every bond, with or '
        'without fields; or a dense one coupling everything) and compares the derivative with the projection of -iH|psi> onto '
        'the numerically spanned tangent space (SVD of all tensor variations).')
MUST = ['projection', 'full', 'agree', 'norm', 'energy', 'exact', 'gauge', 'difference', 'untouched', 'shapes', 'linear', 'long']
ASSUMPTIONS = ['Schmidt coefficients of the drawn chains are at least 1e-3 (the code inverts them)']


def terms(ctx, L, d):
    kind = ctx.choice(['generic', 'generic', 'one', 'fields', 'real', 'imag'])
    if kind == 'one':
        H = [np.zeros((d*d, d*d), complex) for _ in range(L-1)]
        H[ctx.int(0, L-2)] = dn.rherm(ctx.rng, d*d)
    elif kind == 'fields':
        H = [np.kron(dn.rherm(ctx.rng, d), np.eye(d)) + np.kron(np.eye(d), dn.rherm(ctx.rng, d)) for _ in range(L-1)]
    elif kind == 'real':
        H = [dn.rherm(ctx.rng, d*d).real.copy() for _ in range(L-1)]
    elif kind == 'imag':
        H = [1j*dn.rherm(ctx.rng, d*d).imag for _ in range(L-1)]
    else:
        H = [dn.rherm(ctx.rng, d*d)*10.**ctx.rng.uniform(-1, 1) for _ in range(L-1)]
    return kind, H


def check(ctx, m, psi, dA, Hpsi, mech, scale):
    L, d = m.L, m.d
    ctx.ok([x.shape for x in dA.data] == [x.shape for x in m.data], 'shapes', str(dA.structure()))
    v = tg.derivative(m.data, dA.data)
    want = tg.tangent_projection(m, psi, -1j*Hpsi)
    ctx.close(v, want, mech, tol=1e-7, scale=scale)
    ctx.le(abs(np.vdot(psi, v)), 0, 'norm', slack=1e-7*scale)
    ctx.le(abs(np.vdot(Hpsi, v).real), 0, 'energy', slack=1e-7*scale*max(1., np.linalg.norm(Hpsi)))
    # left tangent gauge
    l = ch.left_envs(m.data)
    for n in range(L):
        ctx.close(np.einsum('pab,ac,pcd->bd', np.conj(m[n]), l[n], dA[n]), 0*np.einsum('pab,pad->bd', m[n], m[n]), 'gauge', tol=1e-9,
                  scale=scale*max(1., np.abs(dA[n]).max()))
    return v


def derivative(ctx):
    L, d = ch.size(ctx, 150)
    m, psi, kind, hand = tg.canonical(ctx, L, d, 5)
    hk, H = terms(ctx, L, d)
    ctx.p(L=L, d=d, kind=kind, hand=hand, H=hk, shapes=str(m.structure()))
    Hpsi = tg.apply_nn(H, psi, L, d)
    full = dn.nn_hamiltonian(H, L, d)
    s = max(1., np.linalg.norm(Hpsi))
    keep = [x.copy() for x in m.data]
    arg = [h.reshape([d]*4) for h in H] if ctx.flip(.3) else [h.copy() for h in H]
    dA = m.dA_dt(arg)
    v = check(ctx, m, psi, dA, Hpsi, 'projection', s)
    dF = m.dA_dt(full, fullH=True)
    w = check(ctx, m, psi, dF, Hpsi, 'full', s)
    ctx.close(v, w, 'agree', tol=1e-7, scale=s)
    for a, b in zip(dA.data, dF.data):
        ctx.close(a, b, 'agree', tol=1e-6, scale=max(1., np.abs(b).max()))
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'untouched', 'the chain changed')
    ctx.ok(all(np.array_equal(a.reshape(b.shape), b) for a, b in zip(arg, H)), 'untouched', 'the Hamiltonian changed')
    # item-wise step as the integrators take it
    eps = 1e-5
    k, k_ = (m + dA*eps), (m - dA*eps)
    big = max(1., max(np.abs(x).max() for x in dA.data))
    if big < 30:
        ctx.close((dn.dense(k.data)-dn.dense(k_.data))/(2*eps), v, 'difference', tol=1e-8*big**3*L**3, scale=s)
    # linear in the Hamiltonian
    _, G = terms(ctx, L, d)
    x = float(ctx.rng.normal())
    both = m.dA_dt([h+x*g for h, g in zip(H, G)])
    sG = max(s, abs(x)*np.linalg.norm(tg.apply_nn(G, psi, L, d)))
    ctx.close(tg.derivative(m.data, both.data), v + x*tg.derivative(m.data, m.dA_dt(G).data), 'linear', tol=1e-9, scale=sG)


def dense_h(ctx):
    """a Hamiltonian without any locality, in full form"""
    L, d = ch.size(ctx, 130)
    m, psi, kind, hand = tg.canonical(ctx, L, d, 4)
    ctx.p(L=L, d=d, kind=kind, hand=hand, shapes=str(m.structure()))
    H = dn.rherm(ctx.rng, d**L)/np.sqrt(d**L)
    if ctx.flip(.3):
        H = dn.embed(dn.rherm(ctx.rng, d*d), [int(x) for x in ctx.rng.permutation(L)[:2]], L, d)
    Hpsi = H@psi
    check(ctx, m, psi, m.dA_dt(H, fullH=True), Hpsi, 'full', max(1., np.linalg.norm(Hpsi)))


def exact(ctx):
    """chains that span the whole space: nothing is projected away"""
    L, d = ch.size(ctx, 70, Lmax=6)
    for _ in range(100):
        m = fMPS(dn.mps_from_vec(dn.rvec(ctx.rng, d**L), L, d))
        hand = ctx.choice(['left', 'right'])
        m.left_canonicalise() if hand == 'left' else m.right_canonicalise()
        psi = dn.dense(m.data)
        if min(dn.schmidt(psi, i, L, d)[-1] for i in range(1, L)) > 1e-3:
            break
    ctx.p(L=L, d=d, hand=hand, u=int(ctx.rng.integers(1 << 30)))
    hk, H = terms(ctx, L, d)
    Hpsi = tg.apply_nn(H, psi, L, d)
    want = -1j*(Hpsi - psi*np.vdot(psi, Hpsi))
    s = max(1., np.linalg.norm(Hpsi))
    ctx.close(tg.derivative(m.data, m.dA_dt(H).data), want, 'exact', tol=1e-9, scale=s)
    ctx.close(tg.derivative(m.data, m.dA_dt(dn.nn_hamiltonian(H, L, d), fullH=True).data), want, 'exact', tol=1e-9, scale=s)


def history(ctx):
    """one object, several Hamiltonians, edits in between"""
    L, d = ch.size(ctx, 70, Lmax=6)
    m, psi, kind, hand = tg.canonical(ctx, L, d, 4)
    ctx.p(L=L, d=d, kind=kind, hand=hand, u=int(ctx.rng.integers(1 << 30)))
    for _ in range(ctx.int(2, 5)):
        hk, H = terms(ctx, L, d)
        Hpsi = tg.apply_nn(H, psi, L, d)
        s = max(1., np.linalg.norm(Hpsi))
        if ctx.flip():
            dA = m.dA_dt(H)
        else:
            dA = m.dA_dt(dn.nn_hamiltonian(H, L, d), fullH=True)
        ctx.close(tg.derivative(m.data, dA.data), tg.tangent_projection(m, psi, -1j*Hpsi), 'projection', tol=1e-9, scale=s)
        what = ctx.choice(['phase', 'other', 'step', 'canonical', 'none', 'unitary'])
        ctx.note(hk, what)
        if what == 'phase':
            n = ctx.int(0, L-1)
            m[n] = m[n]*np.exp(1j*ctx.rng.uniform(0, 6))
        elif what == 'unitary':
            m = m.apply((dn.runitary(ctx.rng, d), ctx.int(0, L-1)))
        elif what == 'other':
            m, psi, kind, hand = tg.canonical(ctx, L, d, 4)
        elif what == 'step':
            k = (m + dA*.01).left_canonicalise()
            if k.structure() == m.structure() and min(dn.schmidt(dn.dense(k.data), i, L, d)[k[i].shape[1]-1] for i in range(1, L)) > 1e-3:
                m = k
        elif what == 'canonical':
            m.left_canonicalise() if ctx.flip() else m.right_canonicalise()
        psi = dn.dense(m.data)


def long(ctx):
    """chains beyond dense vectors: components along random tangent vectors, each with one tensor varied"""
    for _ in range(20):
        a, L, d = lg.draw(ctx, most=4, kinds=('generic', 'uneven'), Lmin=10, Lmax=18)
        m = fMPS(a)
        (m.left_canonicalise if ctx.flip() else m.right_canonicalise)()
        if all(w[len(np.atleast_1d(np.diag(x)))-1] > 1e-5 for w, x in zip(lg.weights(m.data), m.Ls)):
            break
    else:
        return
    hk, H = terms(ctx, L, d)
    ctx.p(H=hk)
    A = m.data
    dA = m.dA_dt([h.copy() for h in H])
    ctx.ok([x.shape for x in dA.data] == [x.shape for x in A], 'shapes', str(dA.structure()))
    l, s = lg.lefts(A)
    scale = max(1., np.sqrt(sum(np.linalg.norm(h, 2)**2 for h in H)))
    for n in sorted({0, L-1, ctx.int(0, L-1), ctx.int(0, L-1)}):
        e = l[n]*np.exp(s[n])
        ctx.close(np.einsum('pab,ac,pcd->bd', A[n].conj(), e.T, dA[n]), np.zeros([A[n].shape[2]]*2), 'gauge', tol=1e-9, scale=scale*max(1., np.abs(dA[n]).max()))
        # a variation of one tensor, orthogonal to what changes of the bond basis on its right can do
        x = dn.crandn(ctx.rng, *A[n].shape)
        g, o = np.einsum('pab,ac,pcd->bd', A[n].conj(), e.T, A[n]), np.einsum('pab,ac,pcd->bd', A[n].conj(), e.T, x)
        x = x-A[n]@np.linalg.solve(g, o)
        b = A[:n]+[x]+A[n+1:]
        size = np.exp(lg.lognorm(b))
        if not size > 1e-8:
            continue                    # the last tensor of a product chain and the like: nothing to vary
        got = sum(lg.element(A[:k]+[dA[k]]+A[k+1:], b, np.eye(d), 0, 1, raw=True) for k in range(L))
        want = -1j*sum(lg.element(A, b, np.asarray(h).reshape(d*d, d*d), i, 2, raw=True) for i, h in enumerate(H))
        ctx.close(got/size, want/size, 'long', tol=1e-7, scale=scale)


SCENARIOS = [('derivative', derivative), ('dense_h', dense_h), ('derivative', derivative), ('exact', exact), ('history', history)]*3+[('long', long)]
