#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from the fix commits in /repo (the 'known:' lines are kept by hand)."""
import subprocess, re, sys
MAP = dict(l.split() for l in '''
33b18c9 C01
18d3edf C01
83f08f3 C26
66030a6 C10
605e3d5 C22
9a27914 C02
270b385 C22
8469204 C01
01a78b2 C28
8cbcfc0 C04
c39b5ff C04
7298a70 C03
1166d79 C08
7f1ec63 C03
12e0f7e C03
9ab54a8 C03
bc55f45 C25
0773131 C04
712cbce C20
9acb77d C04
ca2ab69 C03
3c9e4cf C22
5e9b38d C09
38a2cca C10
fcee7a0 C09
b01272d C10
ac25ee8 C11
57e8343 C09
1c04897 C06
aa501c5 C06
a39b046 C16
f772f71 C07
98b70c8 C09
44fad88 C22
450e67b C08
6f6e1f1 C30
5af17a6 C10
0cff287 C16
07fde8a C16
243017b C05
21e4e32 C08
d9aff04 C10
086e64f C08
70a54e2 C08
48061c1 C08
f23e6aa C08
412eb5d C10
9e38d39 C08
4286ad3 C08
18c38f1 C08
18d4f87 C08
3f65c2e C30
df92833 C08
86f4ede C08
'''.strip().splitlines())
try: exec(open('/verif/tools/fixed_more.py').read())
except FileNotFoundError: pass
log = subprocess.run('git -C /repo log --reverse --format="%h %s" 56a8888..HEAD', shell=True, capture_output=True, text=True).stdout.strip().splitlines()
out = []; miss = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    if h not in MAP: miss.append(l); continue
    out.append('fixed: property=%s %s %s' % (MAP[h], h, s[5:]))
p = '/verif/known-findings.txt'
keep = [l for l in open(p).read().splitlines() if not l.startswith('fixed:')]
open(p, 'w').write('\n'.join(keep).rstrip() + '\n' + '\n'.join(out) + '\n')
for m in miss: print('unmapped', m)
