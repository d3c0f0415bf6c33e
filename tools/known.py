"""Writes the 'fixed:' lines of known_findings.txt from the fix commits in /repo (python3 tools/known.py)."""
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = '''15370cd C01
f265ed9 C01
276bd83 C02
8954ffd C02
91c574d C02
6b7fe8b C02
96113a1 C02
a729a60 C04
fbaf847 C06
d89856e C08
179990a C20
4a5a1b5 C04
01919d1 C06
8212d0f C08
ef085c5 C12
b7f1619 C12
73be109 C12
be78e9b C06
1b0865a C03
730622a C27
fa66531 C27
ca2974b C27
efda2aa C27
fcf0526 C09
f672779 C06
ef7402d C06
29112fd C21
2865e1d C21
1f8c397 C21
9396df0 C21
95e1dbe C21
dc03a35 C25
b4042ee C17
7f55d66 C10
210f995 C20
433ac9b C12
2fe3f5a C12
e859d3a C12
b0da9fe C12
64de1b9 C12
f20f865 C12
4048bfe C12
0a33475 C14
4b8a0cd C14
bb54ea6 C15
0488673 C14
0f69890 C13
74cf40c C14
5ffaab5 C15
ad7cc25 C22
86e45b8 C14
82ee31f C32
059327e C14
3578b6a C16
3b75917 C17
8c9581f C17
6e1e96f C18
cb6448e C18
328fccb C19
0d0b939 C18
cb57b5b C22
819d50e C22
0b7e35a C24
8a7edf6 C23
42ce43b C23
ba6aa7a C23
b53551d C23
45627aa C28
820cdb0 C32
89353de C32
3b42b93 C32
0d6743a C31
efeace6 C30
f081a2e C32
f312b1f C10
52121af C33
66e2883 C27
5cd76f5 C05
75b6c3a C19
3b55d84 C34
6d0b3a2 C14
6f10859 C15
d33e895 C18
86e5003 C14
fa795fc C17
0dd8d0d C21
4c1b974 C19
'''


def main():
    path = os.path.join(VERIF, 'known_findings.txt')
    ids = dict(x.split() for x in PROPS.splitlines())
    kept = [x for x in open(path).read().splitlines() if not x.startswith('fixed:')]
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            kept.append('fixed: property=%s %s %s' % (ids[h], h, s[5:]))
    open(path, 'w').write('\n'.join(kept)+'\n')


if __name__ == '__main__':
    main()
