"""C17: uniform chains: canonical forms, overlaps and expectation values, against dense transfer matrices"""
import numpy as np
from vlib import dense as dn, uni
from xmps.iMPS import iMPS, ivMPS

PID = 'C17'
QUICK, THOROUGH = 5000, 90000
RULE = ('a canonicalised, measured or compared uniform chain is decided against reduced density matrices and Schmidt '
        'spectra from dense diagonalisation of its transfer matrix')
MUST = ('canon:l', 'canon:r', 'canon:m', 'canon:vidal', 'canon:state', 'canon:replaced', 'mixed:form', 'expect:hand', 'expect:none', 'energy:value',
        'overlap:same', 'overlap:value', 'vidal:form', 'vidal:expect', 'history:expect')


def pick(ctx, Dmax=6, ds=(2, 2, 3, 4)):
    d, D = ctx.choice(ds), ctx.int(1, Dmax)
    kind = ctx.choice(uni.KINDS)
    A = uni.random(ctx.rng, d, D, kind)
    scale = ctx.choice((1., 1., 10**ctx.rng.uniform(-2, 2), 10**ctx.rng.uniform(-30, 30)))
    ctx.p(d=d, D=D, kind=kind, scale=scale)
    B = uni.gauge(ctx.rng, A)*scale*(np.exp(2j*np.pi*ctx.rng.uniform()) if ctx.flip(.5) else 1)
    return A, B, d, D


def same(ctx, A, m, mech, n=2):
    ctx.close(uni.rdm(m.data[0], n), uni.rdm(A, n), mech, tol=1e-7)


def schmidts(ctx, A, L, mech):
    L = np.asarray(L)
    ctx.close(L, np.diag(np.diag(L)), mech, tol=1e-8)
    s = np.real(np.diag(L))
    ctx.ok(np.all(s > 0) and np.all(np.diff(s) <= 1e-9), mech, 'Schmidt coefficients %s' % s)
    ctx.close(s, uni.schmidt(A), mech, tol=1e-7)
    ctx.close(np.sum(s**2), 1, mech, tol=1e-8)


def form(ctx, m, hand, mech):
    X, L = m.data[0], m.L
    eye = np.eye(X.shape[1])
    if hand == 'l':
        ctx.close(np.einsum('pab,pac->bc', X.conj(), X), eye, mech, tol=1e-7)
        ctx.close(np.einsum('pab,bc,pdc->ad', X, L@L, X.conj()), L@L, mech, tol=1e-7)
    elif hand == 'r':
        ctx.close(np.einsum('pab,pcb->ac', X, X.conj()), eye, mech, tol=1e-7)
        ctx.close(np.einsum('pab,ac,pcd->bd', X.conj(), L@L, X), L@L, mech, tol=1e-7)
    else:
        ctx.close(np.einsum('pab,bc,pdc->ad', X, L, X.conj()), L, mech, tol=1e-7)
        ctx.close(np.einsum('pab,ac,pcd->bd', X.conj(), L, X), L, mech, tol=1e-7)


def s_canon(ctx):
    """canonical forms"""
    A, B, d, D = pick(ctx)
    m = iMPS([B.copy()])
    for _ in range(ctx.int(1, 3)):
        hand = ctx.choice(('l', 'r', 'm', 'left', 'right', 'vidal'))
        ctx.p(hand=hand)
        if ctx.flip(.25):
            # other tensors in the same object
            A = uni.random(ctx.rng, d, D if ctx.flip(.7) else ctx.int(1, 5), ctx.choice(uni.KINDS))
            B = uni.gauge(ctx.rng, A)*ctx.choice((1., .3, 2j))
            if ctx.flip():
                m.data = [B]
            else:
                m.data[0] = B
            ctx.event('decided:canon:replaced')
        if hand == 'vidal':
            v = m.copy().canonicalise(to_vidal=True)
            G, L = v.data[0]
            ctx.event('decided:canon:vidal')
            schmidts(ctx, A, L, 'canon:vidal')
            t = iMPS([G@L]); t.L = L
            form(ctx, t, 'r', 'canon:vidal')
            t = iMPS([L@G]); t.L = L
            form(ctx, t, 'l', 'canon:vidal')
            same(ctx, A, v.to_iMPS(), 'canon:state', 3)
            continue
        if hand in ('left', 'right'):
            out = m.left_canonicalise() if hand == 'left' else m.right_canonicalise()
            hand = hand[0]
        else:
            out = m.canonicalise(hand)
        ctx.event('decided:canon:'+hand)
        form(ctx, out, hand, 'canon:'+hand)
        schmidts(ctx, A, out.L, 'canon:schmidt')
        ctx.event('decided:canon:state')
        same(ctx, A, out, 'canon:state', 3)
        ctx.ok(out.canonical == hand, 'canon:mark', 'form recorded as %r' % (out.canonical,))
        m = out


def s_mixed(ctx):
    """inverse free mixed canonical form"""
    A, B, d, D = pick(ctx, Dmax=5)
    AL, AR, C = iMPS([B.copy()]).mixed(1e-12)
    C = np.asarray(C)
    ctx.event('decided:mixed:form')
    ctx.close(np.einsum('pab,pac->bc', AL[0].conj(), AL[0]), np.eye(D), 'mixed:form', tol=1e-8)
    ctx.close(np.einsum('pab,pcb->ac', AR[0], AR[0].conj()), np.eye(D), 'mixed:form', tol=1e-8)
    x, y = AL[0]@C, C@AR[0]
    lam = np.vdot(y, x)/np.vdot(y, y)
    ctx.close(abs(lam), 1, 'mixed:form', tol=1e-8)
    ctx.close(x, lam*y, 'mixed:form', tol=1e-8)
    ctx.close(np.linalg.svd(C)[1], uni.schmidt(A), 'mixed:schmidt', tol=1e-6)
    same(ctx, A, AL, 'mixed:state')
    same(ctx, A, AR, 'mixed:state')


def s_expect(ctx):
    """one-site expectation values in each form"""
    A, B, d, D = pick(ctx)
    m = iMPS([B.copy()])
    ops = [dn.rop(ctx.rng, d) for _ in range(2)]+[dn.rherm(ctx.rng, d)]
    want = [uni.expect(A, o) for o in ops]
    for _ in range(ctx.int(1, 4)):
        hand = ctx.choice(('l', 'r', 'm', None))
        if ctx.flip(.25):
            A = uni.random(ctx.rng, d, D, ctx.choice(uni.KINDS))
            m.data[0] = uni.gauge(ctx.rng, A)
            want = [uni.expect(A, o) for o in ops]
        if hand is not None:
            m.canonicalise(hand)
        ctx.event('decided:expect:none' if hand is None else 'decided:expect:hand')
        ctx.close([m.E(o, hand) for o in ops], want, 'expect:E-%s' % hand, tol=1e-7)
        if hand is None and ctx.flip(.5):
            m = iMPS([uni.gauge(ctx.rng, m[0])])
        elif hand is not None:
            ctx.close(m.Es(ops, hand), want, 'expect:Es-%s' % hand, tol=1e-7)
    ctx.close(m.Es(ops), want, 'expect:Es', tol=1e-8)


def s_energy(ctx):
    """energy density in any gauge"""
    A, B, d, D = pick(ctx, Dmax=5, ds=(2, 2, 3))
    h = dn.rherm(ctx.rng, d*d)
    m = iMPS([B.copy()])
    hand = ctx.choice(('raw', 'l', 'r', 'm'))
    if hand != 'raw':
        m.canonicalise(hand)
    ctx.p(hand=hand)
    ctx.event('decided:energy:value')
    ctx.close(m.energy([h]), np.real(uni.expect(A, h)), 'energy:value', tol=1e-8)
    ctx.close(m.energy([h.reshape([d]*4)]), np.real(uni.expect(A, h)), 'energy:value', tol=1e-8)


def s_overlap(ctx):
    """overlap per site"""
    A, B, d, D = pick(ctx, Dmax=5)
    m = iMPS([B.copy()])
    other = iMPS([uni.gauge(ctx.rng, A)*ctx.choice((1., 3.))])
    ctx.event('decided:overlap:same')
    ctx.close(m.overlap(other), 1, 'overlap:same', tol=1e-8)
    E = ctx.int(1, 5) if ctx.flip(.5) else D
    X = uni.random(ctx.rng, d, E, ctx.choice(uni.KINDS))
    if ctx.flip(.3):
        E, X = D, A+dn.crandn(ctx.rng, d, D, D)*10**ctx.rng.uniform(-4, -1)
    w = np.sort(np.abs(np.linalg.eigvals(uni.tm(A, X))))
    if len(w) > 1 and w[-2] > .999*w[-1]:
        return
    want = uni.fidelity(A, X)
    ctx.p(E=E)
    ctx.event('decided:overlap:value')
    o = iMPS([X.copy()])
    ctx.close(m.overlap(o), want, 'overlap:value', tol=1e-8)
    ctx.close(o.overlap(m), want, 'overlap:symmetric', tol=1e-8)
    ctx.le(np.real(m.overlap(o)), 1+1e-9, 'overlap:bound')


def s_vidal(ctx):
    """site tensors and bond weights"""
    d, D = ctx.choice((2, 2, 3)), ctx.int(1, 5)
    A = uni.random(ctx.rng, d, D, ctx.choice(uni.KINDS))
    ctx.p(d=d, D=D)
    w = np.diag(np.sort(ctx.rng.uniform(.2, 2, D))[::-1])
    G = np.linalg.inv(w)@A if ctx.flip(.5) else A@np.linalg.inv(w)
    ref = G@w
    v = ivMPS([(G.copy(), w.copy())])
    v.d, v.D = d, D
    v = v.canonicalise()
    g, L = v.data[0]
    ctx.event('decided:vidal:form')
    schmidts(ctx, ref, L, 'vidal:schmidt')
    t = iMPS([g@L]); t.L = L
    form(ctx, t, 'r', 'vidal:form')
    t = iMPS([L@g]); t.L = L
    form(ctx, t, 'l', 'vidal:form')
    same(ctx, ref, v.to_iMPS(), 'vidal:state', 3)
    o = dn.rop(ctx.rng, d)
    ctx.event('decided:vidal:expect')
    ctx.close(v.E(o), uni.expect(ref, o), 'vidal:expect', tol=1e-8)


def s_history(ctx):
    """random histories on one object"""
    A, B, d, D = pick(ctx, Dmax=4, ds=(2, 2, 3))
    m = iMPS([B.copy()])
    for _ in range(ctx.int(2, 6)):
        k = ctx.choice(('canon', 'E', 'energy', 'overlap', 'copy', 'edit', 'serial'))
        ctx.event('history:'+k)
        if k == 'canon':
            m.canonicalise(ctx.choice(('l', 'r', 'm')))
        elif k == 'E':
            o = dn.rop(ctx.rng, d)
            ctx.event('decided:history:expect')
            ctx.close(m.E(o), uni.expect(A, o), 'history:expect', tol=1e-8)
        elif k == 'energy':
            h = dn.rherm(ctx.rng, d*d)
            ctx.close(m.energy([h]), np.real(uni.expect(A, h)), 'history:energy', tol=1e-8)
        elif k == 'overlap':
            ctx.close(m.overlap(iMPS([A.copy()])), 1, 'history:overlap', tol=1e-8)
        elif k == 'copy':
            m = m.copy()
        elif k == 'edit':
            A = uni.random(ctx.rng, d, D, 'generic')
            m[0] = uni.gauge(ctx.rng, A)
        else:
            m = iMPS().deserialize(m.serialize(real=True), d, D, real=True)


SCENARIOS = [('canon', s_canon), ('mixed', s_mixed), ('expect', s_expect), ('energy', s_energy), ('overlap', s_overlap),
             ('vidal', s_vidal), ('history', s_history)]
