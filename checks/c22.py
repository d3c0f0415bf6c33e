"""C22: spin algebra, generators, embeddings, parametrised gates"""
import itertools
import numpy as np
from functools import reduce
from scipy.linalg import expm
from vlib import core, dense as dn
from xmps import spin as sp

PID = 'C22'
QUICK, THOROUGH = 8000, 150000
RULE = ('operators are enumerated over all spins, groups and sites and decided by their defining algebra; gates and '
        'extractions are drawn at random and decided against scipy.linalg.expm of the generators')
MUST = ('spin:commutator', 'spin:casimir', 'ladder', 'su:hermitian', 'su:orthogonal', 'su:complete', 'embed:site', 'embed:pair',
        'gate:unitary', 'gate:value', 'extract:inverse', 'symmetrise', 'phase:true', 'phase:false', 'insert', 'trace', 'predicate')

EPS = np.zeros((3, 3, 3))
for p in itertools.permutations(range(3)):
    EPS[p] = np.linalg.det(np.eye(3)[list(p)])


def algebra(ctx, S, c, mech):
    for j, k in itertools.product(range(3), repeat=2):
        ctx.close(S[j]@S[k]-S[k]@S[j], 1j*c*sum(EPS[j, k, m]*S[m] for m in range(3)), mech, tol=1e-10)


def s_spin(ctx):
    """spin matrices, ladders and their predicates"""
    s = ctx.int(1, 8)/2
    ctx.p(S=s)
    S = [np.asarray(x) for x in sp.spins(s)]
    n = int(2*s+1)
    ctx.event('decided:spin:commutator')
    ctx.ok(all(x.shape == (n, n) for x in S), 'spin:shape', str([x.shape for x in S]))
    algebra(ctx, S, 1, 'spin:commutator')
    for x in S:
        ctx.close(x, x.conj().T, 'spin:hermitian', tol=1e-12)
    ctx.close(np.diag(S[2]), s-np.arange(n), 'spin:z', tol=1e-12)
    ctx.event('decided:spin:casimir')
    ctx.close(sum(x@x for x in S), s*(s+1)*np.eye(n), 'spin:casimir', tol=1e-10)
    if s <= 1.5:
        m, p = sp.ladders(s)
        ctx.event('decided:ladder')
        ctx.close(p, S[0]+1j*S[1], 'ladder', tol=1e-12)
        ctx.close(m, S[0]-1j*S[1], 'ladder', tol=1e-12)
    ctx.event('decided:predicate')
    ctx.ok(bool(sp.CR(*S)), 'predicate', 'spin relations not recognised')
    u = dn.runitary(ctx.rng, n)
    ctx.ok(bool(sp.CR(*[u@x@u.conj().T for x in S])), 'predicate', 'rotated spin relations not recognised')
    bad = list(S)
    how = ctx.choice(('swap', 'scale', 'sign', 'add'))
    k = ctx.int(0, 2)
    if how == 'swap':
        bad[k], bad[(k+1) % 3] = bad[(k+1) % 3], bad[k]
    elif how == 'scale':
        bad[k] = 1.1*bad[k]
    elif how == 'sign':
        bad[k] = -bad[k]
    else:
        bad[k] = bad[k]+.05*np.eye(n)
    ctx.ok(not sp.CR(*bad), 'predicate', 'accepted '+how)
    P = [np.asarray(x) for x in sp.paulis(ctx.choice((.5, .5, 1, 1.5)))]
    algebra(ctx, P, 2, 'spin:pauli')
    ctx.ok(bool(sp.pCR(*P)) and not sp.pCR(*S), 'predicate', 'Pauli relations')
    if s == .5:
        Q = [2*x for x in bad]
        ctx.ok(not sp.pCR(*Q), 'predicate', 'Pauli accepted '+how)
    for f in (sp.antiferro, sp.ferro):
        algebra(ctx, f(), 2, 'spin:spinor')
    A, B = dn.rop(ctx.rng, n), dn.rop(ctx.rng, n)
    ctx.close(sp.comm(A, B), A@B-B@A, 'spin:comm', tol=1e-10)
    ctx.close(sp.acomm(A, B), A@B+B@A, 'spin:comm', tol=1e-10)
    dim = ctx.int(2, 4)
    e = np.asarray(sp.levi_civita(dim))
    want = np.zeros([dim]*dim)
    for q in itertools.permutations(range(dim)):
        want[q] = np.linalg.det(np.eye(dim)[list(q)])
    ctx.close(e, want, 'spin:levi-civita', tol=1e-12)


def s_su(ctx):
    """generators of su(N)"""
    which = ctx.choice(('su', 'su', 'su', 'lambdas', 'slambdas', 'locals'))
    N = ctx.int(2, 8) if which == 'su' else 4
    ctx.p(which=which, N=N)
    G = np.asarray(sp.su(N) if which == 'su' else getattr(sp, which)())
    size = {'su': N*N-1, 'lambdas': 15, 'slambdas': 9, 'locals': 6}[which]
    ctx.ok(G.shape == (size, N, N), 'su:shape', str(G.shape))
    ctx.event('decided:su:hermitian')
    ctx.close(G, np.transpose(G, (0, 2, 1)).conj(), 'su:hermitian', tol=1e-12)
    ctx.close(np.einsum('kaa->k', G), np.zeros(len(G)), 'su:traceless', tol=1e-12)
    gram = np.einsum('kab,lba->kl', G, G)
    ctx.event('decided:su:orthogonal')
    if which in ('su', 'lambdas'):
        ctx.close(gram, 2*np.eye(len(G)), 'su:orthogonal', tol=1e-10)
    else:
        ctx.close(gram, np.diag(np.diag(gram)), 'su:orthogonal', tol=1e-10)
        ctx.ok(np.diag(gram).real.min() > .1, 'su:orthogonal', 'a generator vanishes')
    if which in ('su', 'lambdas'):
        X = dn.rherm(ctx.rng, N)
        X = X-np.trace(X)*np.eye(N)/N
        v = np.einsum('kab,ba->k', G, X)/2
        ctx.event('decided:su:complete')
        ctx.close(np.tensordot(v, G, [0, 0]), X, 'su:complete', tol=1e-9)
        if which == 'su':
            ctx.close(sp.components(X), v, 'su:components', tol=1e-9)
    S = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
    if which == 'slambdas':
        ctx.event('decided:su:complete')
        for g in G:
            ctx.close(S@g@S, g, 'su:symmetric', tol=1e-12)
    if which == 'locals':
        P = sp.spins(.5)
        ctx.close(G, [np.kron(np.eye(2), p) for p in P]+[np.kron(p, np.eye(2)) for p in P], 'su:locals', tol=1e-12)
    ctx.raises(lambda: sp.su(N, rep='fundamental'), 'su:rep', NotImplementedError)


def s_embed(ctx):
    """embeddings in many bodies"""
    n = ctx.int(1, 6)
    d = ctx.choice((2, 2, 3, 4)) if n < 5 else 2
    ctx.p(n=n, d=d)
    op = dn.rop(ctx.rng, d)
    i = ctx.int(1, n)
    want = reduce(np.kron, [op if k == i-1 else np.eye(d) for k in range(n)])
    ctx.event('decided:embed:site')
    ctx.close(sp.n_body(op, i, n), want, 'embed:site', tol=1e-10)
    ctx.raises(lambda: sp.n_body(op, n+1+ctx.int(0, 2), n), 'embed:outside', Exception)
    if n > 1:
        two = dn.rop(ctx.rng, d*d)
        i = ctx.int(0, n-2)
        want = np.kron(np.kron(np.eye(d**i), two), np.eye(d**(n-2-i)))
        ctx.event('decided:embed:pair')
        ctx.close(sp.n_body(two, i, n-1, d=d), want, 'embed:pair', tol=1e-10)
    s = ctx.choice((.5, 1, 1.5))
    n = ctx.int(1, 4 if s == .5 else 3)
    i = ctx.int(1, n)
    k = int(2*s+1)

    def at(x):
        return reduce(np.kron, [x if j == i-1 else np.eye(k) for j in range(n)])
    for got, x in zip(sp.N_body_spins(s, i, n), sp.spins(s)):
        ctx.close(got, at(x), 'embed:spins', tol=1e-12)
    for got, x in zip(sp.N_body_ladders(s, i, n), sp.ladders(s)):
        ctx.close(got, at(x), 'embed:ladders', tol=1e-12)
    if s == .5:
        for got, x in zip(sp.N_body_paulis(s, i, n), sp.spins(s)):
            ctx.close(got, at(2*x), 'embed:paulis', tol=1e-12)
    ops = [dn.crandn(ctx.rng, ctx.int(1, 3), ctx.int(1, 3)) for _ in range(ctx.int(1, 4))]
    ctx.close(sp.tensor(ops), reduce(np.kron, ops), 'embed:tensor', tol=1e-10)


def s_gate(ctx):
    """parametrised gates"""
    P = [np.array(x) for x in sp.spins(.5)]
    name = ctx.choice(('U1', 'U2', 'U4', 'U4s', 'SU4', 'SU8', 'SU', 'SU', 'CRy', 'fixed'))
    x = ctx.choice((.01, 1., 4.))
    ctx.p(name=name)
    if name == 'CRy':
        t = ctx.rng.uniform(-7, 7)
        U = sp.CRy(t)
        c, s = np.cos(t/2), np.sin(t/2)
        want = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, c, s], [0, 0, -s, c]])
    elif name == 'fixed':
        ctx.close(sp.CNOT(), [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], 'gate:value', tol=0)
        ctx.close(sp.CZ(), np.diag([1, 1, 1, -1]), 'gate:value', tol=0)
        a, b = dn.rvec(ctx.rng, 2), dn.rvec(ctx.rng, 2)
        ctx.close(sp.swap()@np.kron(a, b), np.kron(b, a), 'gate:value', tol=1e-12)
        ctx.close(sp.H, np.array([[1, 1], [1, -1]])/np.sqrt(2), 'gate:value', tol=1e-12)
        return
    else:
        N = {'SU4': 4, 'SU8': 8}.get(name, ctx.int(2, 6))
        G = {'U1': lambda: [np.kron(np.eye(2), p) for p in P], 'U2': lambda: [np.kron(p, np.eye(2)) for p in P],
             'U4': sp.lambdas, 'U4s': sp.slambdas}.get(name, lambda: sp.su(N))()
        v = ctx.rng.normal(size=len(G))*x
        U = sp.SU(v, N) if name == 'SU' else getattr(sp, name)(v)
        want = expm(-1j*np.tensordot(v, np.asarray(G), [0, 0]))
    U = np.asarray(U)
    ctx.event('decided:gate:unitary')
    ctx.close(U@U.conj().T, np.eye(len(U)), 'gate:unitary', tol=1e-9)
    ctx.event('decided:gate:value')
    ctx.close(U, want, 'gate:value', tol=1e-8)
    if name == 'U4s':
        S = sp.swap()
        ctx.close(S@U@S, U, 'gate:symmetric', tol=1e-9)


def s_extract(ctx):
    """parameters of a unitary"""
    N = ctx.int(2, 8)
    U = dn.runitary(ctx.rng, N)
    how = ctx.choice(('haar', 'small', 'permutation', 'phase'))
    if how == 'small':
        U = expm(-1j*.05*dn.rherm(ctx.rng, N))
    elif how == 'permutation':
        # antidiagonal blocks: the first element vanishes; eigenvalue -1 is avoided by a phase
        U = np.roll(np.eye(N), 1, 0)*np.exp(.3j)
    elif how == 'phase':
        U = np.diag(np.exp(1j*ctx.rng.uniform(-3, 3, N)))
    ctx.p(N=N, how=how)
    v = sp.extractv(U)
    # the principal logarithm: angles within one turn, also of a vector that winds further
    wide = ctx.rng.normal(size=N*N-1)*ctx.choice((.5, 3., 10.))
    for x in (v, sp.to_new_v(wide)):
        e = np.linalg.eigvalsh(np.tensordot(np.real(x), np.asarray(sp.su(N)), [0, 0]))
        ctx.le(e[-1]-e[0], 2*np.pi, 'extract:principal', slack=1e-6)
    ctx.close(abs(np.vdot(sp.SU(np.real(x), N), sp.SU(wide, N))), N, 'extract:again', tol=1e-8)
    Q = dn.crandn(ctx.rng, N, N)
    ctx.close(np.tensordot(sp.components(Q), np.asarray(sp.su(N)), [0, 0]), Q-np.trace(Q)/N*np.eye(N), 'su:components', tol=1e-9)
    ctx.ok(np.shape(v) == (N*N-1,), 'extract:shape', str(np.shape(v)))
    ctx.close(np.imag(v), np.zeros(N*N-1), 'extract:real', tol=1e-9)
    W = sp.SU(np.real(v), N)
    ctx.event('decided:extract:inverse')
    ctx.close(abs(np.vdot(W, U)), N, 'extract:inverse', tol=1e-9)
    ctx.ok(bool(sp.equal_up_to_phase(U, W)) and bool(sp.equal_up_to_phase(W, U)), 'phase:true', 'extraction not recognised')
    w = sp.to_new_v(np.real(v))
    ctx.close(abs(np.vdot(sp.SU(np.real(w), N), U)), N, 'extract:again', tol=1e-9)
    z = np.exp(1j*ctx.rng.uniform(0, 7))
    X = dn.crandn(ctx.rng, N, N) if ctx.flip(.3) else U
    ctx.event('decided:phase:true')
    ctx.ok(bool(sp.equal_up_to_phase(X, z*X)), 'phase:true', 'equal up to a phase')
    ctx.ok(bool(sp.equal_up_to_phase(X, z*X, True)), 'phase:true', 'equal up to a phase, printed')
    Y = X.copy()
    kind = ctx.choice(('element', 'column', 'scale'))
    if kind == 'element':
        Y.flat[ctx.int(0, N*N-1)] += .3
    elif kind == 'column':
        k = ctx.int(0, N-1)
        Y[:, k] = Y[:, k]*np.exp(1j)
    else:
        Y = 1.2*Y
    ctx.event('decided:phase:false')
    if kind != 'column' or N > 1:
        ctx.ok(not sp.equal_up_to_phase(X, z*Y), 'phase:false', 'accepted a changed '+kind)
        ctx.ok(not sp.equal_up_to_phase(X, z*Y, True), 'phase:false', 'accepted a changed %s, printed' % kind)


def s_sym(ctx):
    """swap symmetrisers"""
    U = dn.rop(ctx.rng, 4)
    S = np.eye(4)[[0, 2, 1, 3]]
    s, a = sp.swap_symmetrise(U), sp.swap_antisymmetrise(U)
    ctx.event('decided:symmetrise')
    ctx.close(s, (U+S@U@S)/2, 'symmetrise', tol=1e-12)
    ctx.close(a, (U-S@U@S)/2, 'symmetrise', tol=1e-12)
    ctx.close(s+a, U, 'symmetrise', tol=1e-12)
    ctx.close(sp.swap_symmetrise(s), s, 'symmetrise', tol=1e-12)
    ctx.close(sp.swap_antisymmetrise(a), a, 'symmetrise', tol=1e-12)
    ctx.close(sp.swap_symmetrise(a), np.zeros((4, 4)), 'symmetrise', tol=1e-12)
    ctx.ok(bool(sp.is_swap_symmetric(s)) and not sp.is_swap_symmetric(U) and not sp.is_swap_symmetric(a), 'symmetrise', 'predicate')
    half = U@(np.eye(4)+S)/2                   # symmetric from one side only
    ctx.ok(not sp.is_swap_symmetric(half) and not sp.is_swap_symmetric(half.T) and not sp.is_swap_symmetric(s+1e-4*a/np.abs(a).max()),
           'symmetrise', 'predicate accepts what is nearly or half symmetric')
    n = ctx.int(2, 5)
    A = dn.rop(ctx.rng, n)
    i, j = ctx.int(0, n-1), ctx.int(0, n-1)
    keep = A.copy()
    p = list(range(n))
    p[i], p[j] = p[j], p[i]
    ctx.ok(np.array_equal(sp.swap_rows(A, i, j), A[p]) and np.array_equal(A, keep), 'swap_rows', 'rows %d %d' % (i, j))
    v = ctx.rng.uniform(-7, 7, ctx.int(1, 6))
    x = sp.Nsphere(v)
    ctx.ok(x.shape == (len(v)+1,), 'sphere', str(x.shape))
    ctx.close(np.linalg.norm(x), 1, 'sphere', tol=1e-9)
    want = [np.prod(np.sin(v[:k]))*np.cos(v[k]) for k in range(len(v))]+[np.prod(np.sin(v))]
    ctx.close(x, want, 'sphere', tol=1e-9)


def s_insert(ctx):
    """embedding of su(n) in su(2n), partial traces"""
    q = ctx.int(1, 2)
    N = 2**q
    v = ctx.rng.normal(size=N*N-1)
    where = ctx.choice(('left', 'mid', 'right'))
    ctx.p(q=q, where=where)
    X = np.tensordot(v, np.asarray(sp.su(N)), [0, 0])
    if where == 'left':
        want = np.kron(np.eye(2), X)
    elif where == 'right':
        want = np.kron(X, np.eye(2))
    else:
        S = np.kron(np.eye(2**(q-1)), np.eye(4)[[0, 2, 1, 3]])
        want = S@np.kron(X, np.eye(2))@S
    got = np.tensordot(sp.insu2N(v, where), np.asarray(sp.su(2*N)), [0, 0])
    ctx.event('decided:insert')
    ctx.close(got, want, 'insert', tol=1e-9)
    if where == 'mid':
        ctx.close(sp.SU(v, N, rep='2N'), expm(-1j*want), 'insert', tol=1e-8)
    dims = [ctx.int(1, 3) for _ in range(ctx.int(1, 4))]
    keep = sorted(int(x) for x in ctx.rng.permutation(len(dims))[:ctx.int(1, len(dims))])
    n = int(np.prod(dims))
    rho = dn.rop(ctx.rng, n)
    t = rho.reshape(dims*2)
    k = len(dims)
    for j in sorted(set(range(k))-set(keep), reverse=True):
        t = np.trace(t, axis1=j, axis2=j+t.ndim//2)
    m = int(np.prod([dims[j] for j in keep]))
    ctx.event('decided:trace')
    ctx.close(sp.partial_trace(rho, keep, dims), t.reshape(m, m), 'trace', tol=1e-9)


def wide(ctx):
    """sizes beyond the random ones"""
    e = np.asarray(sp.levi_civita(5))
    want = np.zeros([5]*5)
    for q in itertools.permutations(range(5)):
        want[q] = np.linalg.det(np.eye(5)[list(q)])
    ctx.close(e, want, 'spin:levi-civita', tol=1e-12)
    for d, k in ((3, 5), (5, 3), (2, 8), (6, 3)):
        op = dn.rop(ctx.rng, d**k)
        ctx.close(sp.n_body(op, 0, k-1, d=d), op, 'embed:pair', tol=1e-10)
        if d**k < 250:
            ctx.close(sp.n_body(op, 1, k, d=d), np.kron(np.eye(d), op), 'embed:pair', tol=1e-10)
    v = ctx.rng.normal(size=63)
    X = np.tensordot(v, np.asarray(sp.su(8)), [0, 0])
    S = np.kron(np.eye(4), np.eye(4)[[0, 2, 1, 3]])
    G = np.asarray(sp.su(16))
    for where, want in (('left', np.kron(np.eye(2), X)), ('right', np.kron(X, np.eye(2))), ('mid', S@np.kron(X, np.eye(2))@S)):
        ctx.close(np.tensordot(sp.insu2N(v, where), G, [0, 0]), want, 'insert', tol=1e-9)


def extra(tier, seed):
    return core.one_off(PID, seed, tier, wide)


SCENARIOS = [('spin', s_spin), ('su', s_su), ('embed', s_embed), ('gate', s_gate), ('extract', s_extract), ('sym', s_sym), ('insert', s_insert)]
