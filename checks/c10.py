"""C10: stored and serialised states come back identical."""
import os
import pickle
import shutil
import numpy as np
from vlib import dense as dn, chain as ch, long as lg
from xmps.fMPS import fMPS, fTFD
from xmps.iMPS import iMPS
from xmps import fTDVP

PID = 'C10'
QUICK, THOROUGH = 8000, 250000
RULE = ('One case writes one or several states (serialised vectors or files, in an order different from the order they are '
        'read in) and compares every tensor that comes back, element by element without any tolerance.')
MUST = ['vector', 'real_vector', 'file', 'file_structured', 'imps_vector', 'imps_file', 'short', 'layout', 'history_file', 'source', 'stopped']


def tensors(ctx, L, d):
    kind = ctx.choice(['generic', 'uniform', 'real', 'product', 'scaled', 'overcomplete', 'padded', 'ghz'])
    data = dn.rand_mps(ctx.rng, L, d, ctx.int(1, 6), kind)
    if ctx.flip(.1):
        data = [x*10.**ctx.int(-200, 200) for x in data]
    if ctx.flip(.1):
        data[ctx.int(0, L-1)][...] = 0
    return kind, data


def regular(L, d, D):
    return [(d, min(D, d**min(i, L-i)), min(D, d**min(i+1, L-i-1))) for i in range(L)]


def same(ctx, got, want, mech, **kw):
    ctx.ok(len(got) == len(want) and all(np.shape(a) == np.shape(b) for a, b in zip(got, want)), mech,
           'shapes %s instead of %s' % ([np.shape(a) for a in got], [np.shape(b) for b in want]), **kw)
    for k, (a, b) in enumerate(zip(got, want)):
        if np.shape(a) == np.shape(b):
            ctx.ok(np.array_equal(np.asarray(a), np.asarray(b)), mech, 'site %d differs' % k, **kw)


def vector(ctx):
    L, d = ctx.int(2, 9), ctx.choice([2, 2, 3, 4])
    if ctx.flip(.05):
        L, d = ctx.int(10, 60), 2
        kind, data = 'long', lg.random(ctx.rng, L, d, ctx.int(1, 8), ctx.choice(['generic', 'uneven', 'product']))
    else:
        kind, data = tensors(ctx, L, d)
    real = ctx.flip()
    m = fMPS([x.copy() for x in data])
    v = m.serialize(real)
    n = sum(x.size for x in data)
    ctx.p(L=L, d=d, kind=kind, real=real, shapes=str([x.shape for x in data]))
    ctx.ok(v.shape == (2*n if real else n,), 'layout', 'length %s for %d numbers' % (v.shape, n))
    if real:
        ctx.ok(np.isrealobj(v), 'layout', 'real encoding of type %s' % v.dtype)
    v0 = v.copy()
    back = fMPS().deserialize(v, structure=[x.shape for x in data], real=real)
    mech = 'real_vector' if real else 'vector'
    same(ctx, back.data, data, mech)
    same(ctx, m.data, data, 'source')
    ctx.ok(np.array_equal(v, v0), 'source', 'deserialising changed the vector')
    ctx.ok(back.L == L and back.d == d and back.structure() == m.structure(), mech, 'header')
    ctx.ok(np.array_equal(back.serialize(real), v), mech, 'second encoding differs from the first')
    if [x.shape for x in data] == regular(L, d, m.D):
        ctx.event('regular')
        same(ctx, fMPS().deserialize(v, L, d, m.D, real=real).data, data, mech)
    # too short a vector is rejected, not completed
    cut = ctx.int(1, min(n, 4))*(2 if real else 1)
    ctx.raises(lambda: fMPS().deserialize(v[:-cut], structure=[x.shape for x in data], real=real), 'short')


def uniform(ctx):
    """the default description by L, d and D"""
    L, d, D = ctx.int(2, 10) if ctx.flip(.95) else ctx.int(11, 40), ctx.choice([2, 2, 3, 4]), ctx.int(1, 7)
    shapes = regular(L, d, D)
    real = ctx.flip()
    data = [dn.crandn(ctx.rng, *s) for s in shapes]
    ctx.p(L=L, d=d, D=D, real=real, form=ctx.choice(['none', 'l', 'r', 'random', 'random_real']))
    if ctx.params['form'] == 'random':
        m = fMPS().random(L, d, D)
    elif ctx.params['form'] == 'random_real':
        m = fMPS().random(L, d, D, real=True)
    else:
        m = fMPS(data)
    if ctx.params['form'] == 'l':
        m.left_canonicalise()
    if ctx.params['form'] == 'r':
        m.right_canonicalise()
    want = [x.copy() for x in m.data]
    if [x.shape for x in want] != shapes:
        D = None
    v = m.serialize(real)
    mech = 'real_vector' if real else 'vector'
    if D is not None:
        same(ctx, fMPS().deserialize(v, L, d, D, real=real).data, want, mech)
        same(ctx, fMPS().deserialize(v, L=L, d=d, D=d**min(L, 20), real=real).data if D >= d**(L//2) else want, want, mech)
        ctx.raises(lambda: fMPS().deserialize(v[:(-2 if real else -1)], L, d, D, real=real), 'short')
        m.store('u.npy')
        same(ctx, fMPS().load('u.npy').data, want, 'file')
    m.store('s.npy', structured=True)
    same(ctx, fMPS().load('s.npy', structured=True).data, want, 'file_structured')


def wide(ctx):
    """large dimensions: the description of the shapes has to hold them"""
    d, D = ctx.choice([2, 2, 3, 300]), ctx.choice([127, 128, 255, 256, 257, 1000, 4100])
    L = ctx.int(2, 3)
    bond = [1]+[D if k == 0 else ctx.int(1, 4) for k in range(L-1)]+[1]
    data = [dn.crandn(ctx.rng, d if d*a*b < 10**6 else 2, a, b) for a, b in zip(bond, bond[1:])]
    if len({x.shape[0] for x in data}) > 1:
        return
    ctx.p(L=L, d=d, D=D)
    m = fMPS([x.copy() for x in data])
    m.store('w.npy', structured=True)
    same(ctx, fMPS().load('w.npy', structured=True).data, data, 'file_structured')
    real = ctx.flip()
    same(ctx, fMPS().deserialize(m.serialize(real), structure=[x.shape for x in data], real=real).data, data,
         'real_vector' if real else 'vector')


def files(ctx):
    """several chains of both formats on disk at once, read in another order by one or several readers"""
    n = ctx.int(1, 4)
    reader = fMPS()
    jobs = []
    for k in range(n):
        L, d = ctx.int(2, 7), ctx.choice([2, 3, 4])
        if ctx.flip():
            kind, data, st = 'regular', None, False
            D = ctx.int(1, 6)
            data = [dn.crandn(ctx.rng, *s) for s in regular(L, d, D)]
        else:
            kind, data = tensors(ctx, L, d)
            st = True
        m = fMPS([x.copy() for x in data])
        name = 'f%d' % k + ctx.choice(['.npy', ''])
        m.store(name, structured=st)
        same(ctx, m.data, data, 'source')
        jobs.append((name if name.endswith('.npy') else name+'.npy', st, data, kind))
    ctx.p(n=n, kinds=[j[3] for j in jobs], shapes=str([[x.shape for x in j[2]] for j in jobs]))
    for k in ctx.rng.permutation(n):
        name, st, data, kind = jobs[k]
        back = (reader if ctx.flip() else fMPS()).load(name, structured=st)
        mech = 'file_structured' if st else 'file'
        same(ctx, back.data, data, mech)
        ctx.ok(back.L == len(data) and back.d == data[0].shape[0] and back.D == max(x.shape[-1] for x in data), mech, 'header')
        ctx.ok(back == fMPS([x.copy() for x in data]), mech, 'not equal to what was stored')
    # a file that lost its end is rejected
    name, st, data, kind = ctx.choice(jobs)
    v = np.load(name)
    np.save('cut.npy', v[:-ctx.int(1, 3)])
    ctx.raises(lambda: fMPS().load('cut.npy', structured=st), 'short')


def infinite(ctx):
    d, D, p = ctx.int(2, 4), ctx.int(1, 6), ctx.int(1, 3)
    data = [dn.crandn(ctx.rng, d, D, D) for _ in range(p)]
    if ctx.flip(.3):
        data = [x.real.copy() for x in data]
    m = iMPS([x.copy() for x in data])
    if p == 1 and D > 2 and ctx.flip():
        m.canonicalise(ctx.choice(['l', 'r', 'm']))
        data = [x.copy() for x in m.data]
    real = ctx.flip()
    ctx.p(d=d, D=D, period=p, real=real, seed=int(ctx.rng.integers(1 << 30)))
    v = m.serialize(real)
    ctx.ok(v.size == (2 if real else 1)*p*d*D*D and (not real or np.isrealobj(v)), 'layout')
    back = iMPS().deserialize(v, d, D, p, real=real)
    same(ctx, back.data, data, 'imps_vector')
    ctx.ok((back.d, back.D, back.period) == (d, D, p), 'imps_vector', 'header')
    same(ctx, m.data, data, 'source')
    ctx.raises(lambda: iMPS().deserialize(v[:(-2 if real else -1)], d, D, p, real=real), 'short')
    m.store('i.npy')
    other = iMPS().random(2, 2)
    other.store('j.npy')
    b = (iMPS() if ctx.flip() else iMPS().random(2, 3)).load('i.npy')
    same(ctx, b.data, data, 'imps_file')
    ctx.ok((b.d, b.D, b.period) == (d, D, p), 'imps_file', 'header')
    same(ctx, m.data, data, 'source')
    np.save('c.npy', np.load('i.npy')[:-1])
    ctx.raises(lambda: iMPS().load('c.npy'), 'short')


def trajectory(ctx):
    """a recorded history written to disk by the trajectory itself"""
    L, D = ctx.int(2, 4), ctx.int(1, 3)
    H = [dn.rherm(ctx.rng, 4) for _ in range(L-1)]
    m = fMPS([dn.crandn(ctx.rng, *s) for s in regular(L, 2, D)]).left_canonicalise()
    N = ctx.int(2, 4)
    ctx.p(L=L, D=D, N=N, seed=int(ctx.rng.integers(1 << 30)))
    t = fTDVP.Trajectory(m, H=H, run_name='run')
    getattr(t, ctx.choice(['eulerint', 'rk4int']))(np.linspace(0, .01, N))
    hist = [np.array(x) for x in t.mps_history]
    chains = [x.data for x in t.mps_list()]
    clear = ctx.flip()
    t.save(loc='./', exps=False, clear=clear)
    got = np.load('./' + t.id + '.npy')
    same(ctx, list(got), hist, 'history_file')
    for v, c in zip(got, chains):
        same(ctx, fMPS().deserialize(v, L, 2, m.D, real=True).data, c, 'history_file')
    if clear:
        ctx.ok(t.mps_history == [], 'history_file', 'history kept after clearing')
    # basis and state, saved after an exponent run
    if not clear and ctx.flip():
        os.makedirs('bases', exist_ok=True)
        t.lys = ctx.rng.standard_normal((3, 4))
        which = ctx.choice('qQ')
        basis = ctx.rng.standard_normal((4, 4))
        setattr(t, which, basis)
        t.exps = ctx.rng.standard_normal((2, 4))
        state = [x.copy() for x in t.mps.data]
        t.save(loc='./', exps=True, clear=False)
        same(ctx, [np.load('./'+t.id+'.npy')], [t.lys], 'history_file')
        same(ctx, [np.load('./bases/'+t.id+'_basis.npy')], [basis], 'history_file')
        same(ctx, fMPS().load('./bases/'+t.id+'_state.npy').data, state, 'history_file')


def snapshot(folder):
    return {name: open(os.path.join(folder, name), 'rb').read() for name in sorted(os.listdir(folder))}


def stop(ctx):
    """folders of stopped runs: complete, one per stop, none disturbed by the next"""
    L, D = ctx.int(2, 4), 2
    H = [dn.rherm(ctx.rng, 4) for _ in range(L-1)]
    W = [dn.crandn(ctx.rng, 2, 2, 3, 3) for _ in range(L)] if ctx.flip() else None
    m = fMPS([dn.crandn(ctx.rng, *s) for s in regular(L, 2, D)]).left_canonicalise()
    loc = ctx.choice(['data', 'data/a/b', './data/'])
    shutil.rmtree('data', ignore_errors=True)
    name = ctx.choice(['run', 'r2', 'my_run'])
    times = ctx.int(1, 3)
    ctx.p(L=L, loc=loc, name=name, times=times, seed=int(ctx.rng.integers(1 << 30)))
    t = fTDVP.Trajectory(m, H=H, W=W, run_name=name)
    start = [x.copy() for x in m.data]
    before, near = {}, False
    for k in range(times):
        t.W = None
        if ctx.flip(.8):
            t.rk4int(np.linspace(0, .01, ctx.int(2, 3)))
        elif ctx.flip():                # an exact run: the state has another bond dimension now
            t.edint(np.linspace(0, .01, 3))
        lyap = ctx.flip(.4) and not hasattr(t, 'ed_history')
        if lyap:
            t.lyapunov(np.linspace(0, .02, 2), thresh=None, initial_basis='eye')
        t.W = W
        state = [x.copy() for x in t.mps.data]
        folder = t.stop(loc=loc) if loc != 'data' else t.stop()
        ctx.ok(os.path.isdir(folder) and folder not in before, 'stopped', 'folder %s used twice' % folder)
        ctx.ok(near or os.path.normpath(folder) == os.path.normpath(os.path.join(loc, '%s_%d' % (name, k+1))), 'stopped', 'folder %s' % folder)
        for f, s in before.items():
            ctx.ok(snapshot(f) == s, 'stopped', 'stopping a run changed the folder of an earlier one')
        before[folder] = snapshot(folder)
        stem = os.path.join(folder, 'L%d_D%d_N%d' % (L, t.mps.D, len(t.mps_history)))
        same(ctx, fMPS().load(stem+'_state.npy').data, state, 'stopped')
        same(ctx, fMPS().load(stem+'_initial_state.npy').data, start, 'stopped')
        with open(stem+'_ham', 'rb') as f:
            same(ctx, pickle.load(f), H, 'stopped')
        with open(stem+'_mpo', 'rb') as f:
            w = pickle.load(f)
        if W is None:
            ctx.ok(w is None, 'stopped', 'operator from nowhere')
        else:
            same(ctx, w, W, 'stopped')
        same(ctx, t.mps.data, state, 'source')
        if hasattr(t, 'lys'):
            same(ctx, [np.load(stem+'_inst_exps.npy'), np.load(stem+'_inst_exps_.npy'), np.load(stem+'_basis.npy')], [t.lys, t.lys_, t.Q], 'stopped')
            with open(stem+'_vL', 'rb') as f:
                same(ctx, pickle.load(f), t.vL, 'stopped')
        else:
            ctx.ok(not any(n.endswith(('exps.npy', 'basis.npy')) for n in os.listdir(folder)), 'stopped', 'results of a run that never was')
        if ctx.flip(.3):
            t.clear()
        if k and ctx.flip(.3):          # an old run is thrown away: the numbers of the others stay theirs
            f = list(before)[ctx.int(0, len(before)-2)]
            del before[f]
            shutil.rmtree(f)
        if ctx.flip(.2):                # a run of a similar name next to it
            near = True
            o = fTDVP.Trajectory(fMPS([x.copy() for x in start]), H=H, run_name=name+'_b')
            f = o.stop(loc=loc)
            ctx.ok(f not in before, 'stopped', 'folder of another run')
            before[f] = snapshot(f)


SCENARIOS = [('wide', wide), ('vector', vector), ('files', files), ('uniform', uniform), ('infinite', infinite), ('vector', vector),
             ('files', files), ('uniform', uniform), ('trajectory', trajectory), ('stop', stop)]
