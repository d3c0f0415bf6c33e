"""C04: canonicalisation preserves the state and establishes the form it names."""
import numpy as np
from vlib import core, dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS

PID = 'C04'
QUICK, THOROUGH = 20000, 200000
RULE = ('Histories of 1-5 canonicalisations/orthogonalisations (all flavours, all centres) on one chain from an '
        'adversarial catalogue of shapes (GHZ, dimers, zero padded, over-complete, badly scaled, ill conditioned gauge).')
MUST = ['ray', 'isometry', 'schmidt', 'environment', 'centre', 'norm', 'partial', 'exact', 'wellformed', 'long']

OPS = ['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'left_orthogonalise', 'right_orthogonalise',
       'mixed_orthogonalise', 'partial_left', 'partial_right', 'left_nomin', 'right_nomin', 'left_noback', 'right_noback']


def start(ctx):
    L, d = ch.size(ctx, 300)
    kind = ctx.choice(dn.KINDS)
    D = ctx.int(1, 6)
    data = dn.rand_mps(ctx.rng, L, d, D, kind)
    g = ctx.choice([None, None, 'unitary', 'bad'])
    if g:
        data = ch.gauge(ctx.rng, data, 1e3, g == 'unitary')
    ctx.p(L=L, d=d, D=D, kind=kind, gauge=g)
    return L, d, data


def isometries(ctx, m, op, left, right, null='isometry:unoccupied'):
    '''A'A = 1 (BB' = 1) on the sites left (right) of the centre'''
    rs, ls = ch.right_envs(m.data), ch.left_envs(m.data)
    for sites, env, spec, off in ((left, rs, 'pab,pac->bc', 1), (right, ls, 'pab,pcb->ac', 0)):
        for i in sites:
            x = m.data[i]
            E = np.einsum(spec, *((np.conj(x), x) if off else (x, np.conj(x))))
            E = E-np.eye(len(E))
            mech = 'isometry'
            if np.max(np.abs(E)) > 1e-8 and op in ('left_canonicalise', 'right_canonicalise', 'mixed_canonicalise'):
                # does it fail only in directions the state does not occupy?
                w, Q = np.linalg.eigh((lambda r: r+r.conj().T)(env[i+off])/2)
                Q = Q[:, w > 1e-13*max(w)] if off else np.conj(Q[:, w > 1e-13*max(w)])
                if Q.shape[1] < len(E) and np.max(np.abs(Q.conj().T@E@Q)) <= 1e-8:
                    mech = null
            if mech:
                ctx.close(E, np.zeros_like(E), mech, tol=1e-8, op=op, site=i)


def step(ctx, m, op, psi, L, d):
    """apply op to m, whose state is psi (dense); decide everything about the result; returns the new dense state"""
    n0 = np.linalg.norm(psi)
    full, lo, hi = None, 0, L
    exact = False
    if op == 'left_canonicalise':
        r = m.left_canonicalise(); full, left, right, oc = 'left', range(L), [], L
    elif op == 'right_canonicalise':
        r = m.right_canonicalise(); full, left, right, oc = 'right', [], range(L), 0
    elif op == 'left_nomin':
        r = m.left_canonicalise(minD=False); left, right, oc = range(L), [], L
    elif op == 'right_nomin':
        r = m.right_canonicalise(minD=False); left, right, oc = [], range(L), 0
    elif op == 'left_noback':
        r = m.left_canonicalise(sweep_back=False); left, right, oc = range(L), [], L
    elif op == 'right_noback':
        r = m.right_canonicalise(sweep_back=False); left, right, oc = [], range(L), 0
    elif op == 'mixed_canonicalise':
        oc = ctx.int(0, L-1)
        r = m.mixed_canonicalise(oc, sweep_back=ctx.flip()); left, right = range(oc), range(oc+1, L)
    elif op == 'mixed_orthogonalise':
        oc = ctx.int(0, L-1)
        r = m.mixed_orthogonalise(oc); left, right = range(oc), range(oc+1, L)
    elif op == 'left_orthogonalise':
        r = m.left_orthogonalise(); left, right, oc = range(L), [], L
        exact = True
    elif op == 'right_orthogonalise':
        r = m.right_orthogonalise(); left, right, oc = [], range(L), 0
        exact = True
    elif op == 'partial_left':
        lo = ctx.int(0, L-1); hi = ctx.int(lo, L-1)
        r = m.left_orthogonalise(fr=lo, to=hi); left, right, oc = range(lo, hi), [], None
    elif op == 'partial_right':
        lo = ctx.int(1, L); hi = ctx.int(lo, L)
        r = m.right_orthogonalise(fr=lo, to=hi); left, right, oc = [], range(lo, hi), None
    ctx.note(op, oc, lo, hi)
    ctx.ok(r is m, 'returns_self')
    bad = dn.well_formed(m.data, d)
    if not ctx.ok(bad is None and len(m.data) == L and m.L == L, 'wellformed', '%s: %s' % (op, bad)):
        return None
    phi = dn.dense(m.data)
    ctx.close(dn.same_ray(phi, psi), 0, 'ray', tol=1e-9, op=op)
    if op.startswith('partial'):
        ctx.close(phi/n0, psi/n0, 'partial', tol=1e-9, op=op)
    else:
        ctx.close(np.linalg.norm(phi), 1, 'norm', tol=1e-9, op=op)
    if exact:
        # the scalar split off is recorded
        ctx.close(phi*np.asarray(m.norm_).reshape(-1)[0]/n0, psi/n0, 'exact', tol=1e-9, op=op)
    isometries(ctx, m, op, left, right)
    if oc is not None:
        ctx.ok(m.oc == oc, 'centre', '%s recorded centre %s, expected %s' % (op, m.oc, oc))
        ctx.ok(m.orthogonal is True, 'centre', 'not marked orthogonal')
        if 'canonicalise' in op:
            ctx.ok(m.canonical is True, 'centre', 'not marked canonical')
    if oc is not None and 0 <= oc < L:
        ctx.close(np.linalg.norm(m.data[oc]), 1, 'centre', tol=1e-9)
    if full:
        w = ch.weights(psi, L, d)
        Ls = m.Ls
        if ctx.ok(len(Ls) == L+1, 'schmidt', '%d bond matrices for %d sites' % (len(Ls), L)):
            envs = ch.right_envs(m.data) if full == 'left' else ch.left_envs(m.data)
            for i in range(L+1):
                X = np.atleast_2d(np.asarray(Ls[i]))
                ctx.close(X, np.diag(np.diag(X)), 'schmidt', tol=1e-9, op=op, bond=i)
                ch.same_spectrum(ctx, np.diag(X), w[i], 'schmidt', tol=1e-8)
                ctx.ok(X.shape == envs[i].shape, 'environment', 'bond %d: weights %s, bond %s' % (i, X.shape, envs[i].shape))
                ctx.close(envs[i], X, 'environment', tol=1e-8, op=op, bond=i)
    return phi


def history(ctx):
    L, d, data = start(ctx)
    psi = dn.dense(data)
    if not np.linalg.norm(psi) > 1e-200:
        return
    m = fMPS(data)
    ops = [ctx.choice(OPS) for _ in range(ctx.int(1, 5))]
    ctx.p(ops=ops)
    for op in ops:
        psi = step(ctx, m, op, psi, L, d)
        if psi is None or ctx.violations:
            return


def single(ctx):
    """each full form on a fresh chain"""
    L, d, data = start(ctx)
    psi = dn.dense(data)
    m = fMPS(data)
    op = ctx.choice(['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'mixed_orthogonalise'])
    ctx.p(ops=[op])
    step(ctx, m, op, psi, L, d)


def from_dense(ctx):
    """chains made from vectors with designed Schmidt spectra, flat pieces included"""
    L, d = ch.size(ctx, 130)
    v = dn.rvec(ctx.rng, d**L)
    cut = ctx.int(1, L-1)
    u, s, w = np.linalg.svd(v.reshape(d**cut, -1), full_matrices=False)
    k = ctx.int(1, len(s))
    pat = ctx.choice(['flat', 'pairs', 'gap'])
    s = np.zeros(len(s))
    s[:k] = {'flat': np.ones(k), 'pairs': np.repeat(np.arange(k, 0, -1.), 2)[:k], 'gap': 10.**(-2*np.arange(k))}[pat]
    v = ((u*s)@w).reshape(-1)
    ctx.p(L=L, d=d, cut=cut, k=k, pat=pat)
    m = (fMPS().left_from_state if ctx.flip() else fMPS().right_from_state)(v.reshape([d]*L))
    psi = dn.dense(m.data)
    for op in [ctx.choice(['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise']) for _ in range(2)]:
        psi = step(ctx, m, op, psi, L, d)
        if psi is None or ctx.violations:
            return


def long(ctx):
    """chains beyond dense vectors: environments and fidelities from transfer matrices"""
    a, L, d = lg.draw(ctx)
    m = fMPS([x.copy() for x in a])
    w = lg.weights(a)
    for _ in range(ctx.int(1, 3)):
        op = ctx.choice(['left_canonicalise', 'right_canonicalise', 'mixed_canonicalise', 'mixed_orthogonalise',
                         'left_orthogonalise', 'right_orthogonalise'])
        oc = ctx.int(0, L-1)
        (getattr(m, op)(oc) if op.startswith('mixed') else getattr(m, op)())
        oc = oc if op.startswith('mixed') else L if op.startswith('left') else 0
        ctx.note(op, oc)
        bad = dn.well_formed(m.data, d)
        if not ctx.ok(bad is None and m.L == L, 'wellformed', bad):
            return
        lg.same(ctx, m.data, a, 'long:ray')
        ctx.close(lg.lognorm(m.data), 0, 'long:norm', tol=1e-8)
        isometries(ctx, m, op, range(min(oc, L)), range(oc+1, L) if op.startswith('mixed') else range(oc, L))
        if op in ('left_canonicalise', 'right_canonicalise'):
            envs = ch.right_envs(m.data) if op[0] == 'l' else ch.left_envs(m.data)
            if ctx.ok(len(m.Ls) == L+1, 'long:schmidt', '%d bond matrices' % len(m.Ls)):
                for X, e, x in zip(m.Ls, envs, w):
                    X = np.atleast_2d(np.asarray(X))
                    ch.same_spectrum(ctx, np.diag(X), x, 'long:schmidt', tol=1e-8)
                    ctx.close(e, X, 'long:environment', tol=1e-8)
        ctx.event('decided:long')
        if ctx.violations:
            return


SCENARIOS = [('history', history), ('single', single), ('from_dense', from_dense)]*4+[('long', long)]


def null_space_history(ctx):
    """the recorded finding: product chains with zero-padded bonds, orthogonalised and then canonicalised"""
    for seed in range(40):
        rng = np.random.default_rng(seed)
        m = fMPS([np.pad(rng.normal(size=(2, 1, 1)), ((0, 0), (0, int(i > 0)), (0, int(i < 2)))) for i in range(3)])
        m.right_orthogonalise().right_canonicalise()
        isometries(ctx, m, 'right_canonicalise', [], range(3))


def extra(tier, seed):
    return core.one_off(PID, seed, tier, null_space_history)
