"""Mutation campaign over /repo: python3 tools/mutate.py OUT.jsonl [PER_FUNCTION] [SEED] [FILE_REGEX]

Makes small changes in functions the checks execute (needs the line coverage of tools/mutcov.py in /tmp/mut), runs the check of the
property each function belongs to, on copies, and records which changes stay unnoticed. Used to find blind spots; no check needs it."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/mut'
PRIMARY = [
    ('ncon:', 'C01'), ('tensor:truncate', 'C05 C04 C02'), ('tensor:(.*eigenmatrix|rotate)', 'C19 C17'), ('tensor:', 'C02'),
    ('fMPS:fTFD', 'C27'), ('fMPS:vfMPS', 'C28'),
    (r'fMPS:fMPS\.(left_from|right_from|recombine|random|create_str|from_prod|product_state|full_overlap|norm|overlap|structure)', 'C03 C08 C06'),
    (r'fMPS:fMPS\.(right_canon|left_canon|mixed_canon)', 'C04 C05'), (r'fMPS:fMPS\.(right_orth|left_orth|mixed_orth|forget)', 'C04 C06'),
    (r'fMPS:fMPS\.entang', 'C13'), (r'fMPS:fMPS\.update_prop', 'C30'),
    (r'fMPS:fMPS\.(E|E_|Es|E_k|rho|rho_proj|local_overlap|energy|E_L|links|k_local.*|approx_overlap)$', 'C06'),
    (r'fMPS:fMPS\.(get_envs|left_transfer|right_transfer)', 'C20'),
    (r'fMPS:fMPS\.(apply.*|post_select)|fMPS:(swap|factors|separate)', 'C09'), (r'fMPS:fMPS\.(serialize|deserialize|store|load)', 'C10'),
    (r'fMPS:fMPS\.(two_site_overlaps|projection_error|expand|dynamical_expand|grow)', 'C16'), (r'fMPS:fMPS\.dA_dt', 'C11'),
    (r'fMPS:fMPS\.match', 'C29'), (r'fMPS:fMPS\.(ddA|jac|F1|F2|christ|left_null|right_null|tangent|extract|import)|fMPS:symp', 'C12 C32'),
    (r'fMPS:', 'C08 C07 C03'),
    (r'iMPS:ivMPS', 'C28 C17'), (r'iMPS:(Map|TransferMatrix|dominant)', 'C19'), (r'iMPS:iMPS\.(serialize|deserialize|store|load|random)', 'C10 C17'),
    (r'iMPS:iMPS\.(Lh|Rh|left_null|right_null|dA|extract|import|tangent)', 'C18'), (r'iMPS:iMPS\.__', 'C08 C17'), ('iMPS:', 'C17 C18'),
    (r'fTDVP:Trajectory\.lyap', 'C32'), (r'fTDVP:.*(ed|OTOC)', 'C15 C13'), ('fTDVP:', 'C14 C13'), ('iTDVP:', 'C18'),
    ('fPEPS:fMPO', 'C25'), (r'fPEPS:fPEPS\.(R|U|truncate|isomet|iso_|trans)|fPEPS:tensor_', 'C24'), ('fPEPS:', 'C23 C24'), ('peps_tools:', 'C24 C02 C09'),
    ('spin:', 'C22'), ('Hamiltonians:', 'C21'), ('svd_robust:', 'C26'), ('tests:', 'C30'), ('mps_examples:', 'C31')]
SWAP = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'FloorDiv': '/', 'Pow': '*', 'Mod': '//'}
CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in', 'NotIn': 'in'}
UNWRAP = {'c', 'cT', 'C', 'H', 'T', 'conj', 'abs', 're', 'real', 'sqrt', 'copy', 'deepcopy', 'array', 'inv', 'ch', 'reversed', 'norm'}
UNMETHOD = {'conj', 'copy', 'conjugate', 'transpose'}


def mutants(path):
    """(function, line, start, end, replacement bytes, kind) of one file"""
    raw = open(path, 'rb').read()
    starts = [0]
    for line in raw.split(b'\n'):
        starts.append(starts[-1]+len(line)+1)

    def span(n):
        return starts[n.lineno-1]+n.col_offset, starts[n.end_lineno-1]+n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b]
    out = []

    def scan(fn, name):
        inner = [x for x in ast.walk(fn)]
        for n in inner:
            def put(new, kind, node=n):
                a, b = span(node)
                if raw[a:b] != new:
                    out.append((name, node.lineno, a, b, new, kind))
            if isinstance(n, ast.BinOp):
                op = type(n.op).__name__
                l, r = text(n.left), text(n.right)
                if op in SWAP:
                    put(b'('+l+b')'+SWAP[op].encode()+b'('+r+b')', 'binop')
                if op in ('Sub', 'MatMult', 'Div'):
                    put(b'('+r+b')'+{'Sub': b'-', 'MatMult': b'@', 'Div': b'/'}[op]+b'('+l+b')', 'operands')
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = type(n.ops[0]).__name__
                put(text(n.left)+b' '+CMP[op].encode()+b' '+text(n.comparators[0]), 'compare')
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                put(text(n.values[0])+(b' or ' if isinstance(n.op, ast.And) else b' and ')+text(n.values[1]), 'bool')
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    put(str(not n.value).encode(), 'flag')
                elif isinstance(n.value, int):
                    put(str(n.value+1).encode(), 'int+')
                    put(str(n.value-1).encode() if n.value else b'-1', 'int-')
                elif isinstance(n.value, float):
                    put(repr(n.value*2).encode(), 'float')
                elif isinstance(n.value, complex):
                    put(b'(-'+text(n)+b')', 'complex')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                put(b'('+text(n.operand)+b')', 'unary')
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in UNWRAP and len(n.args) == 1 and not n.keywords:
                    put(b'('+text(n.args[0])+b')', 'unwrap')
                if isinstance(f, ast.Attribute) and f.attr in UNMETHOD and not n.args:
                    put(text(f.value), 'unwrap')
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    a, b = n.args[:2]
                    A, B = span(a), span(b)
                    out.append((name, n.lineno, A[0], B[1], raw[B[0]:B[1]]+raw[A[1]:B[0]]+raw[A[0]:A[1]], 'args'))
            elif isinstance(n, ast.List) and len(n.elts) >= 2 and all(isinstance(e, (ast.Constant, ast.UnaryOp)) for e in n.elts):
                for i in range(len(n.elts)-1):
                    e = [text(x) for x in n.elts]
                    e[i], e[i+1] = e[i+1], e[i]
                    put(b'['+b', '.join(e)+b']', 'list')
            elif isinstance(n, (ast.If, ast.IfExp)):
                put(b'not ('+text(n.test)+b')', 'if', n.test)
            elif isinstance(n, ast.Slice):
                if n.lower is not None and n.upper is None and n.step is None:
                    put(text(n.lower)+b'+1:', 'slice')
                elif n.upper is not None and n.lower is None and n.step is None:
                    put(b':'+text(n.upper)+b'-1', 'slice')
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, 'target', None) or n.targets[0], (ast.Attribute, ast.Subscript)):
                put(b'pass', 'drop')
            elif isinstance(n, ast.AugAssign):
                put(b'pass', 'drop')
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(b'pass', 'drop')

    def visit(n, pre):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.FunctionDef):
                scan(x, pre+x.name)
            elif isinstance(x, ast.ClassDef) and not x.name.startswith('Test'):
                visit(x, x.name+'.')
    visit(ast.parse(raw), '')
    return raw, out


def primary(full):
    for rx, pids in PRIMARY:
        if re.match(rx, full):
            return pids.split()
    return []


def main():
    out, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    rx = sys.argv[4] if len(sys.argv) > 4 else '.*'
    cov = {}
    for i in range(1, 33):
        p = '%s/C%02d.json' % (WORK, i)
        if os.path.exists(p):
            for f, ls in json.load(open(p)).items():
                for x in ls:
                    cov.setdefault((f, x), set()).add('C%02d' % i)
    jobs = []
    for f in ['ncon', 'tensor', 'fMPS', 'iMPS', 'fTDVP', 'iTDVP', 'fPEPS', 'peps_tools', 'spin', 'Hamiltonians', 'svd_robust', 'tests', 'mps_examples']:
        raw, ms = mutants('/repo/xmps/%s.py' % f)
        by = {}
        for m in ms:
            full = f+':'+m[0]
            if re.match(rx, full) and ('xmps/%s.py' % f, m[1]) in cov:
                by.setdefault(full, []).append(m)
        for full, xs in by.items():
            rng.shuffle(xs)
            kinds, pick = {}, []
            for x in xs:                            # different kinds and lines first
                kinds[x[5]] = kinds.get(x[5], 0)+1
                pick.append((kinds[x[5]], rng.random(), x))
            pick.sort(key=lambda y: y[:2])
            lines = sum(1 for k in {x[1] for x in xs})
            n = max(2, min(per*4, int(per*lines/8)+1))
            for _, _, x in pick[:n]:
                jobs.append((f, full, x))
    rng.shuffle(jobs)
    print(len(jobs), 'mutants')
    shutil.rmtree(WORK+'/verif', ignore_errors=True)
    shutil.copytree(VERIF, WORK+'/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', '__pycache__'))
    import queue
    slots = queue.Queue()
    for k in range(8):
        t = '%s/t%d' % (WORK, k)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree('/repo', t, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        slots.put(t)
    res = open(out, 'a')

    def job(j):
        f, full, (name, line, a, b, new, kind) = j
        t = slots.get()
        path = '%s/xmps/%s.py' % (t, f)
        raw = open('/repo/xmps/%s.py' % f, 'rb').read()
        try:
            mut = raw[:a]+new+raw[b:]
            try:
                compile(mut, path, 'exec')
            except SyntaxError:
                return
            open(path, 'wb').write(mut)
            pids = primary(full)
            rec = {'f': full, 'line': line, 'old': raw[a:b].decode(), 'new': new.decode(), 'kind': kind, 'a': a, 'b': b, 'caught': None, 'ran': [],
                   'src': raw.split(b'\n')[line-1].decode().strip()}
            env = dict(os.environ, XMPS_REPO=t, VERIF_PROCS='1', OMP_NUM_THREADS='1', VERIF_SEED='1')
            for stage in ('--cases 120', ''):
                for pid in pids:
                    if stage and rec['caught']:
                        break
                    try:
                        r = subprocess.run('timeout 400 ./run %s %s' % (pid, stage), shell=True, cwd=WORK+'/verif', env=env, capture_output=True, text=True)
                        if r.returncode == 1:
                            rec['caught'] = pid
                        rec['ran'].append((pid, r.returncode))
                    except Exception as e:
                        rec['ran'].append((pid, str(e)))
                    if rec['caught']:
                        break
                if rec['caught']:
                    break
            rec['covered'] = sorted(cov[('xmps/%s.py' % f, line)])
            res.write(json.dumps(rec)+'\n')
            res.flush()
        finally:
            open(path, 'wb').write(raw)
            slots.put(t)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(job, jobs))


if __name__ == '__main__':
    main()
