"""C12: tangent vectors, null spaces, Jacobian blocks, second derivatives and connection coefficients."""
import numpy as np
from vlib import dense as dn, chain as ch, tangent as tg
from checks.c11 import terms
from xmps.fMPS import fMPS

PID = 'C12'
QUICK, THOROUGH = 3000, 45000
RULE = ('One case draws a well conditioned canonical chain (up to 13 sites), builds the orthonormal dense tangent vectors V of '
        'every null-space coordinate by inserting them one (or two) at a time, and compares packing, null spaces, F1, F2, '
        'connection coefficients, Jacobian and its action with -i<V|H|V>, -i<V2|H|psi>, -<V2|psi_dot>; call histories reuse one '
        'object with other Hamiltonians, tensors, orders and explicit cache ids.')
MUST = ['null:annihilates', 'null:complete', 'null:right', 'pack:roundtrip', 'pack:isometry', 'pack:derivative', 'state', 'basis',
        'jac:J1', 'jac:J2', 'jac:G', 'jac:real', 'jac:action', 'F1', 'F2', 'F1:open', 'F2:open', 'chr', 'chr:open', 'cache:F1', 'cache:F2',
        'cache:chr', 'align', 'linearised', 'long', 'untouched', 'dims', 'cache:jac']
ASSUMPTIONS = ['Schmidt coefficients of the drawn chains are at least 1e-3 (the code inverts them)',
               'Hamiltonians are lists of nearest-neighbour terms; explicit cache ids are reused only for one state and Hamiltonian']
CASE_LIMIT = 60


def room(m):
    """sites with tangent directions"""
    return [i for i in range(m.L) if m[i].shape[0]*m[i].shape[1] > m[i].shape[2]]


def draw(ctx, cap, Dmax=3, Lmin=2, Lmax=7, ds=(2, 2, 2, 3)):
    for _ in range(100):
        L, d = ch.size(ctx, cap, Lmin=Lmin, Lmax=Lmax, ds=ds)
        m, psi, kind, hand = tg.canonical(ctx, L, d, Dmax)
        if room(m):
            break
    ctx.p(L=L, d=d, kind=kind, hand=hand, shapes=str(m.structure()), u=int(ctx.rng.integers(1 << 30)))
    return m, psi


class Frame:
    """dense tangent vectors of one chain in the coordinates of given null spaces"""

    def __init__(self, m, vLs=None):
        self.m = m
        self.A = [x.copy() for x in m.data]
        self.psi = dn.dense(self.A)
        if vLs is None:
            vLs = [m.left_null_projector(n, get_vL=True)[1] for n in range(m.L)]
        self.vLs = vLs
        self.T = tg.insertions(m, vLs)
        self.keys = sorted(self.T)
        self.V = np.array([self.one(k) for k in self.keys]).T.reshape(len(self.psi), -1)

    def vec(self, new):
        return dn.dense([new.get(k, x) for k, x in enumerate(self.A)])

    def one(self, k):
        return self.vec({k[0]: self.T[k]})

    def two(self, a, b):
        return self.vec({a[0]: self.T[a], b[0]: self.T[b]})

    def at(self, i):
        return [k for k in self.keys if k[0] == i]

    def cols(self, i):
        return [n for n, k in enumerate(self.keys) if k[0] == i]


def big(H):
    return max(1., sum(np.linalg.norm(h, 2) for h in H))


def null(ctx):
    m, psi = draw(ctx, 300, Dmax=5)
    L, d = m.L, m.d
    keep = [x.copy() for x in m.data]
    l, r = ch.left_envs(m.data), ch.right_envs(m.data)
    for n in range(L):
        pr, v = m.left_null_projector(n, get_vL=True)
        x, y = m[n].shape[1:]
        ctx.ok(v.shape[:2] == (d, x) and v.shape[2] == max(0, d*x-y), 'null:shape', '%s for %s' % (v.shape, m[n].shape))
        ctx.close(np.einsum('pak,pal->kl', v.conj(), v), np.eye(v.shape[2]), 'null:complete', tol=1e-9)
        sq = np.sqrt(l[n].real.diagonal())
        ctx.close(np.einsum('pab,a,pak->bk', m[n].conj(), sq, v), np.zeros((y, v.shape[2])), 'null:annihilates', tol=1e-8)
        w = v/sq[None, :, None]
        ctx.close(pr, np.einsum('pak,qbk->paqb', w, w.conj()), 'null:complete', tol=1e-8, scale=max([1.]+list(np.abs(w).ravel()**2)))
        pr, v = m.right_null_projector(n, get_vR=True)
        # v[p, k, b]: rows orthogonal to A sqrt(r)
        sq = np.sqrt(r[n+1].real.diagonal())
        ctx.ok(v.shape == (d, max(0, d*y-x), y), 'null:shape', 'right %s for %s' % (v.shape, m[n].shape))
        ctx.close(np.einsum('pkb,plb->kl', v.conj(), v), np.eye(v.shape[1]), 'null:right', tol=1e-9)
        ctx.close(np.einsum('pab,b,pkb->ak', m[n].conj(), sq, v), np.zeros((x, v.shape[1])), 'null:right', tol=1e-8)
    dims = m.tangent_space_dims()
    want = [(max(0, d*x.shape[1]-x.shape[2]), x.shape[2]) for x in m.data]
    ctx.ok([tuple(map(int, s)) for s in dims] == want, 'dims', '%s, not %s' % (dims, want))
    F = Frame(m)
    ctx.close(F.V.conj().T@F.V, np.eye(len(F.keys)), 'dims', tol=1e-9)
    ctx.close(F.V.conj().T@psi, np.zeros(len(F.keys)), 'dims', tol=1e-9)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'untouched', 'the chain changed')


def pack(ctx):
    m, psi = draw(ctx, 200, Dmax=4)
    keep = [x.copy() for x in m.data]
    F = Frame(m)
    n = len(F.keys)
    v = dn.crandn(ctx.rng, n)
    if ctx.flip(.2):
        v = v.real.copy()
    B = m.import_tangent_vector(v.copy())
    ctx.ok([x.shape for x in B.data] == [x.shape for x in m.data], 'pack:shapes', str(B.structure()))
    big_ = max(1., np.linalg.norm(v))
    ctx.close(tg.derivative(m.data, B.data), F.V@v, 'pack:derivative', tol=1e-9, scale=big_)
    ctx.close(np.linalg.norm(tg.derivative(m.data, B.data)), np.linalg.norm(v), 'pack:isometry', tol=1e-9, scale=big_)
    back = m.extract_tangent_vector(B)
    ctx.close(back, v, 'pack:roundtrip', tol=1e-9, scale=big_)
    # extraction of the derivative gives the coordinates of the projection
    _, H = terms(ctx, m.L, m.d)
    x = m.extract_tangent_vector(m.dA_dt(H))
    ctx.close(x, F.V.conj().T@(-1j*tg.apply_nn(H, psi, m.L, m.d)), 'pack:derivative', tol=1e-9, scale=big(H))
    # one site at a time
    i = ctx.choice(room(m))
    ks = F.at(i)
    x = dn.crandn(ctx.rng, ks[-1][1]+1, ks[-1][2]+1)
    st = m.tangent_state(x.copy(), i)
    ctx.close(dn.dense(st.data), F.V[:, F.cols(i)]@x.reshape(-1), 'state', tol=1e-9, scale=max(1., np.linalg.norm(x)))
    for t in ['eye', 'rand']:
        b = m.tangent_space_basis(t)
        ctx.ok(b.shape == (n, n), 'basis', 'shape %s for %d directions' % (b.shape, n))
        ctx.close(b@b.conj().T, np.eye(n), 'basis', tol=1e-9)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'untouched', 'the chain changed')


def wanted(ctx, F, H, psid, pairs=None):
    """dense J1, J2, G on all (or the given) pairs of coordinates"""
    L, d = F.m.L, F.m.d
    n = len(F.keys)
    HV = np.array([tg.apply_nn(H, F.V[:, i], L, d) for i in range(n)]).T
    Hpsi = tg.apply_nn(H, F.psi, L, d)
    J1 = -1j*F.V.conj().T@HV
    J2, G = np.zeros((n, n), complex), np.zeros((n, n), complex)
    for x in range(n):
        for y in range(x):
            if F.keys[x][0] == F.keys[y][0]:
                continue
            v = F.two(F.keys[x], F.keys[y]).conj()
            J2[x, y] = J2[y, x] = -1j*v@Hpsi
            G[x, y] = G[y, x] = -v@psid
    return J1, J2, G


def real(J1, K):
    """matrix on (Re, Im) of x -> J1 x + K conj(x)"""
    return np.block([[J1.real+K.real, -J1.imag+K.imag], [J1.imag+K.imag, J1.real-K.real]])


def jac(ctx):
    m, psi = draw(ctx, 90, Dmax=3, Lmax=6)
    L, d = m.L, m.d
    keep = [x.copy() for x in m.data]
    for rep in range(ctx.int(1, 2)):
        hk, H = terms(ctx, L, d)
        arg = [h.copy() for h in H]
        F = Frame(m)
        s = big(H)
        psid = F.V@(F.V.conj().T@(-1j*tg.apply_nn(H, psi, L, d)))
        W1, W2, W3 = wanted(ctx, F, H, psid)
        J1, J2, G = m.jac(arg, real_matrix=False)
        c = 30*s
        ctx.close(J1, W1, 'jac:J1', tol=1e-8, scale=c)
        ctx.close(J2, W2, 'jac:J2', tol=1e-8, scale=c)
        ctx.close(G, W3, 'jac:G', tol=1e-8, scale=c)
        J = m.jac(arg)
        ctx.close(J, real(W1, W2+W3), 'jac:real', tol=1e-8, scale=c)
        v = dn.crandn(ctx.rng, len(F.keys))
        ctx.close(m.ddA_dt(v.copy(), arg), W1@v+(W2+W3)@v.conj(), 'jac:action', tol=1e-9, scale=c*max(1., np.linalg.norm(v)))
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(arg, H)), 'untouched', 'the Hamiltonian changed')
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, m.data)), 'untouched', 'the chain changed')


def linearised(ctx):
    """the Jacobian is the derivative of the projected flow: compare with finite differences of the flow itself"""
    m, psi = draw(ctx, 40, Dmax=2, Lmax=5)
    L, d = m.L, m.d
    hk, H = terms(ctx, L, d)
    F = Frame(m)
    v = dn.crandn(ctx.rng, len(F.keys))
    v /= np.linalg.norm(v)
    B = m.import_tangent_vector(v)
    step = max(1., max(np.abs(x).max() for x in B.data))
    if step > 20:
        return
    got = m.ddA_dt(v, H)

    def flow(eps):
        k = fMPS([a+eps*b for a, b in zip(F.A, B.data)])
        phi = dn.dense(k.data)
        return tg.tangent_projection(k, phi, -1j*tg.apply_nn(H, phi, L, d))
    e = 1e-4
    diff = (flow(e)-flow(-e))/(2*e)
    # coordinates in the original tangent space; the code's flow keeps the phase -<H>, the projected one does not
    want = F.V.conj().T@diff - 1j*np.vdot(F.psi, tg.apply_nn(H, F.psi, L, d)).real*v
    ctx.close(got, want, 'linearised', tol=2e-5*step**3, scale=30*big(H))


def blocks(ctx):
    """F1, F2 and connection coefficients called directly, in any order, with or without an explicit cache id"""
    m, psi = draw(ctx, 130, Dmax=3, Lmax=7)
    L, d = m.L, m.d
    sites = room(m)
    F = Frame(m)
    l, r = ch.left_envs(m.data), ch.right_envs(m.data)
    hk, H = terms(ctx, L, d)
    Hpsi = tg.apply_nn(H, psi, L, d)
    cache = ctx.flip()
    tag = 'run%d' % ctx.int(0, 9) if cache else None
    c = 30*big(H)
    seen = set()
    for _ in range(ctx.int(3, 10)):
        what = ctx.choice(['F1', 'F2', 'F1', 'F2', 'chr', 'chrb'])
        i, j, k = (ctx.choice(sites) for _ in range(3))
        kw = {'id': tag} if cache else {}
        again = (what, i, j) in seen or (what, j, i) in seen
        seen.add((what, i, j))
        if what == 'F1':
            HV = np.array([tg.apply_nn(H, x, L, d) for x in F.V[:, F.cols(j)].T]).T
            want = F.V[:, F.cols(i)].conj().T@HV
            got = m.F1(i, j, H, **kw)
            ctx.close(got.reshape(want.shape), want, 'cache:F1' if again and cache else 'F1', tol=1e-8, scale=c)
            if not cache and ctx.flip(.3):
                op = m.F1(i, j, H, testing=True)
                ti = np.array([F.T[q] for q in F.at(i)])
                tj = np.array([F.T[q] for q in F.at(j)])
                big_ = c*max(1., np.abs(ti).max()*np.abs(tj).max())*len(want)
                ctx.close(op, np.einsum('xy,xpab,yqcd->pabqcd', want, ti, tj.conj()), 'F1:open', tol=1e-8, scale=big_)
        elif what == 'F2':
            want = np.zeros((len(F.at(i)), len(F.at(j))), complex)
            if i != j:
                for x, a in enumerate(F.at(i)):
                    for y, b in enumerate(F.at(j)):
                        want[x, y] = F.two(a, b).conj()@Hpsi
            got = m.F2(i, j, H, **kw)
            ctx.close(got.reshape(want.shape), want, 'cache:F2' if again and cache else 'F2', tol=1e-8, scale=c)
            if not cache and ctx.flip(.3):
                op = m.F2(i, j, H, testing=True)
                ti = np.array([F.T[q] for q in F.at(i)])
                tj = np.array([F.T[q] for q in F.at(j)])
                big_ = c*max(1., np.abs(ti).max()*np.abs(tj).max())*len(want)
                ctx.close(op, np.einsum('xy,xpab,yqcd->pabqcd', want, ti, tj), 'F2:open', tol=1e-8, scale=big_)
        else:
            if ctx.flip(.7):
                k = min(i, j)
            mix = [sum(dn.crandn(ctx.rng, 1)[0]*F.T[q] for q in F.at(n)) for n in (i, j, k)]
            X = [l[n]@(b if p == 2 else b.conj())@r[n+1] for p, (n, b) in enumerate(zip((i, j, k), mix))]
            want = 0. if i == j else -F.vec({i: mix[0], j: mix[1]}).conj()@F.vec({k: mix[2]})
            s = 30*max(1., np.prod([np.linalg.norm(F.vec({n: b})) for n, b in zip((i, j, k), mix)]),
                       np.linalg.norm(F.vec({i: mix[0], j: mix[1]}))*np.linalg.norm(F.vec({k: mix[2]})))
            if what == 'chr':
                ctx.close(m.christoffel(i, j, k, closed=tuple(X)), want, 'chr', tol=1e-8, scale=s)
            else:
                if np.prod([m[n].size for n in (i, j, k)]) > 60000:
                    continue
                op = m.christoffel(i, j, k, **kw)
                again = cache and len(seen) > 1
                ctx.close(np.einsum('pabqcdres,pab,qcd,res->', op, *X), want, 'cache:chr' if again else 'chr:open', tol=1e-8,
                          scale=s*max(1., np.abs(op).max()))
                # close one leg in the call, the others afterwards
                w = ctx.int(0, 1)
                cl = [None, None, None]
                cl[w] = X[w]
                part = m.christoffel(i, j, k, closed=tuple(cl))
                rest = [x for n, x in enumerate(X) if n != w]
                ctx.close(np.einsum('pabqcd,pab,qcd->', part, *rest), want, 'chr', tol=1e-8, scale=s*max(1., np.abs(op).max()))
            got = m.christoffel(i, j, k, closed=(None, None, X[2]))
            want = np.zeros((len(F.at(i)), len(F.at(j))), complex)
            if i != j:
                vk = F.vec({k: mix[2]})
                for x, a in enumerate(F.at(i)):
                    for y, b in enumerate(F.at(j)):
                        want[x, y] = -F.two(a, b).conj()@vk
            ctx.close(got.reshape(want.shape), want, 'chr', tol=1e-8, scale=30*max(1., np.linalg.norm(F.vec({k: mix[2]}))))


def history(ctx):
    """one object: Hamiltonians, tensors and gauges change between calls"""
    m, psi = draw(ctx, 50, Dmax=3, Lmax=5)
    L, d = m.L, m.d
    old = None
    for step in range(ctx.int(2, 4)):
        hk, H = terms(ctx, L, d)
        call = ctx.choice(['jac', 'jac', 'F1', 'F2', 'ddA', 'dA', 'chr'])
        aligned = old is not None and ctx.flip(.5) and [x.shape for x in old] == \
            [m.left_null_projector(n, get_vL=True)[1].shape for n in range(L)]
        if aligned:
            m.old_vL = [x.copy() for x in old]
        elif hasattr(m, 'old_vL'):
            del m.old_vL
        ctx.note(call, aligned)
        c = 30*big(H)
        if call == 'jac' or aligned:
            J1, J2, G = m.jac(H, real_matrix=False)
            F = Frame(m, m.new_vL) if aligned else Frame(m)
            old = [x.copy() for x in m.new_vL]
            if aligned:
                for n in room(m):
                    v, o = m.new_vL[n], m.old_vL[n]
                    ctx.close(np.einsum('pak,pal->kl', v.conj(), v), np.eye(v.shape[2]), 'align', tol=1e-8)
                    raw = m.left_null_projector(n, get_vL=True)[1]
                    ctx.close(np.einsum('pak,qbk->paqb', v, v.conj()), np.einsum('pak,qbk->paqb', raw, raw.conj()), 'align', tol=1e-8)
                    ov = np.einsum('pak,pal->kl', o.conj(), v)
                    sv = np.linalg.svd(np.einsum('pak,pal->kl', o.conj(), raw))[1]
                    # the aligned basis is the closest to the old one
                    ctx.close(np.trace(ov), sv.sum(), 'align', tol=1e-9, scale=len(sv))
            psid = F.V@(F.V.conj().T@(-1j*tg.apply_nn(H, F.psi, L, d)))
            W1, W2, W3 = wanted(ctx, F, H, psid)
            for a, b in [(J1, W1), (J2, W2), (G, W3)]:
                ctx.close(a, b, 'cache:jac', tol=1e-8, scale=c)
        else:
            F = Frame(m)
            Hpsi = tg.apply_nn(H, F.psi, L, d)
            i, j = ctx.choice(room(m)), ctx.choice(room(m))
            if call == 'F1':
                HV = np.array([tg.apply_nn(H, x, L, d) for x in F.V[:, F.cols(j)].T]).T
                want = F.V[:, F.cols(i)].conj().T@HV
                ctx.close(m.F1(i, j, H).reshape(want.shape), want, 'cache:F1', tol=1e-8, scale=c)
            elif call == 'F2':
                want = np.array([[0 if i == j else F.two(a, b).conj()@Hpsi for b in F.at(j)] for a in F.at(i)])
                ctx.close(m.F2(i, j, H).reshape(want.shape), want, 'cache:F2', tol=1e-8, scale=c)
            elif call == 'ddA':
                v = dn.crandn(ctx.rng, len(F.keys))
                W1, W2, W3 = wanted(ctx, F, H, F.V@(F.V.conj().T@(-1j*Hpsi)))
                ctx.close(m.ddA_dt(v, H), W1@v+(W2+W3)@v.conj(), 'cache:jac', tol=1e-9, scale=c*max(1., np.linalg.norm(v)))
            elif call == 'dA':
                m.dA_dt(H)
            else:
                l, r = ch.left_envs(m.data), ch.right_envs(m.data)
                k = min(i, j)
                b = sum(dn.crandn(ctx.rng, 1)[0]*F.T[q] for q in F.at(k))
                vk = F.vec({k: b})
                want = np.array([[0 if i == j else -F.two(x, y).conj()@vk for y in F.at(j)] for x in F.at(i)])
                got = m.christoffel(i, j, k, closed=(None, None, l[k]@b@r[k+1]))
                ctx.close(got.reshape(want.shape), want, 'cache:chr', tol=1e-8, scale=30*max(1., np.linalg.norm(vk)))
        what = ctx.choice(['phase', 'unitary', 'other', 'canonical', 'none'])
        ctx.note(what)
        if what == 'phase':
            n = ctx.int(0, L-1)
            m[n] = m[n]*np.exp(1j*ctx.rng.uniform(0, 6))
        elif what == 'unitary':
            m = m.apply((dn.runitary(ctx.rng, d), ctx.int(0, L-1)))
        elif what == 'other':
            shapes = m.structure()
            for _ in range(30):
                k, _, _, _ = tg.canonical(ctx, L, d, 3)
                if k.structure() == shapes:
                    for n in range(L):
                        m[n] = k[n]
                    break
        elif what == 'canonical':
            m.left_canonicalise() if ctx.flip() else m.right_canonicalise()
            old = None if [x.shape[1:] for x in m.data] != list(m.structure()) else old


def long(ctx):
    """two-digit site numbers: cached intermediates of different pairs must not be confused"""
    L = ctx.int(11, 13)
    m, psi, kind, hand = tg.canonical(ctx, L, 2, 2, cond=1e-2)
    ctx.p(L=L, kind=kind, hand=hand, u=int(ctx.rng.integers(1 << 30)))
    hk, H = terms(ctx, L, 2)
    F = Frame(m)
    if not F.keys:
        return
    c = 30*big(H)
    J1, J2, G = m.jac(H, real_matrix=False)
    HV = np.array([tg.apply_nn(H, x, L, 2) for x in F.V.T]).T
    Hpsi = tg.apply_nn(H, psi, L, 2)
    psid = F.V@(F.V.conj().T@(-1j*Hpsi))
    ctx.close(J1, -1j*F.V.conj().T@HV, 'long', tol=1e-8, scale=c)
    n = len(F.keys)
    for _ in range(150):
        x, y = (int(q) for q in ctx.rng.integers(n, size=2))
        if F.keys[x][0] == F.keys[y][0]:
            w2 = w3 = 0.
        else:
            v = F.two(F.keys[x], F.keys[y]).conj()
            w2, w3 = -1j*v@Hpsi, -v@psid
        ctx.close(J2[x, y], w2, 'long', tol=1e-8, scale=c)
        ctx.close(G[x, y], w3, 'long', tol=1e-8, scale=c)


SCENARIOS = [('null', null), ('pack', pack), ('jac', jac), ('blocks', blocks), ('blocks', blocks), ('history', history),
             ('linearised', linearised), ('pack', pack), ('jac', jac), ('blocks', blocks), ('long', long)]
