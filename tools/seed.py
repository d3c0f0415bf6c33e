"""Confirm a planted bug and keep it: python3 tools/seed.py SPEC.py [--nocheck]
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with cwd /repo)."""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
    return r.returncode, r.stdout+r.stderr


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    work = '/tmp/seed_%s_%d' % (spec['ID'], os.getpid())
    tree = work+'/repo'
    os.makedirs(work)
    try:
        sh('cp -a /repo %s' % tree)
        for f, old, new in spec['EDITS']:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(spec['ID'], 'edit matches %d times: %r' % (s.count(old), old[:60]))
                return 1
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', tree)[1]
        # lines taken away must be the original repository's
        mine = set()
        for f in {e[0] for e in spec['EDITS']}:
            blame = sh('git blame -s --abbrev=12 %s' % f, '/repo')[1].splitlines()
            root = sh('git rev-list --max-parents=0 HEAD', '/repo')[1].split()[0]
            n = 0
            own = [not re.match(r'\^', b) for b in blame]
            cur = None
            infile = False
            for line in patch.splitlines():
                if line.startswith('+++ '):
                    infile = line[6:] == f
                m = re.match(r'@@ -(\d+)', line)
                if m:
                    cur = int(m.group(1))
                    continue
                if not infile or cur is None:
                    continue
                if line.startswith('-') and not line.startswith('---'):
                    if own[cur-1]:
                        mine.add((f, cur))
                    cur += 1
                elif line.startswith(' '):
                    cur += 1
        if mine:
            print(spec['ID'], 'WARNING: changes lines of our own commits', sorted(mine))
        out = os.path.join(VERIF, 'seeded', spec['ID'])
        os.makedirs(out, exist_ok=True)
        open(out+'/patch.diff', 'w').write(patch)
        open(out+'/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\n"+spec['DEMO'].strip()+'\n')
        open(out+'/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': spec['PROPERTY'], 'needs': ' '.join(spec['NEEDS'].split()), 'what_it_breaks': ' '.join(spec['BREAKS'].split())},
                  open(out+'/meta.json', 'w'), indent=1)
        env = {'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '2'}
        a, oa = sh('sh %s/demo.sh' % out, '/repo', env)
        b, ob = sh('sh %s/demo.sh' % out, tree, env)
        if a or not b:
            print(spec['ID'], 'DEMO BAD: clean %d, patched %d' % (a, b), oa[-600:], ob[-600:])
            return 1
        # the stable tests, on the patched copy
        sh('cp /opt/vp/test.sh {w}/test.sh && sed -i "s#=/repo#={t}#;s#W=/opt/vp/work#W={w}/work#;s#/opt/vp/plugin#/opt/vp/plugin:{t}#" {w}/test.sh'.format(w=work, t=tree))
        sh('bash %s/test.sh %s/t.json' % (work, work), tree)
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = set(base[next(k for k in ('stable', 'passed', 'tests') if k in base)])
        got = json.load(open(work+'/t.json'))
        miss = names-set(got['passed'])
        if miss:
            print(spec['ID'], 'TESTS NOTICE:', sorted(miss)[:5])
            shutil.rmtree(out)
            return 1
        rc, o = sh('%s/run %s' % (VERIF, spec['PROPERTY']), VERIF, {'XMPS_REPO': tree, 'VERIF_SEED': '1'})
        print(spec['ID'], spec['PROPERTY'], {1: 'CAUGHT', 0: 'MISSED'}.get(rc, rc), '|'.join(o.strip().splitlines()[-3:])[:300])
        sh('git -C %s checkout -q -- evidence; rm -f %s/replays/%s_*' % (VERIF, VERIF, spec['PROPERTY']))
    finally:
        shutil.rmtree(work)
    return 0


if __name__ == '__main__':
    sys.exit(main())
