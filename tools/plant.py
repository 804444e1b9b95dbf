#!/usr/bin/env python3
"""plant.py: development helper for /verif/seeded (no check uses it).
   plant.py new SPEC.py      create seeded/<id> from a spec (id, prop, edits, demo, needs, breaks), validate it
   plant.py check ID [...]   apply to /repo, run that property's quick check, undo; prints caught/missed
"""
import sys, os, subprocess, json, shutil
WT = '/tmp/wt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def sync():
    if not os.path.isdir(WT): sh(f'git clone -q /repo {WT}')
    sh(f'cd {WT} && git fetch -q origin && git checkout -q -f --detach origin/HEAD || git checkout -q -f origin/master')
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    r = sh(f'cd {WT} && git fetch -q /repo HEAD && git checkout -q -f --detach {head}')
    assert sh(f'git -C {WT} rev-parse HEAD').stdout.strip() == head, r.stderr
    os.makedirs('/tmp/wtvp', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', WT).replace('/opt/vp/build.sh', '/tmp/wtvp/build.sh')
        open('/tmp/wtvp/' + f, 'w').write(s)
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; 1: broken. Run with cwd at the repository after the build.
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build/lib/x64; T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
g++ -w -I"$PWD/DevIL/include" "$D/demo.cpp" -o "$T/demo" -L"$B" -lILUT -lILU -lIL -lm -Wl,-rpath,"$B" || exit 3
cd "$T" && timeout 60 ./demo
'''
HEAD = '''#include <IL/il.h>
#include <IL/ilu.h>
#include <IL/ilut.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CHECK(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)
'''
def demo(d, repo):
    r = sh(f'bash {d}/demo.sh', cwd=repo); return r.returncode, (r.stdout + r.stderr)[-300:]
def new(spec):
    g = {}; exec(spec if '\n' in spec else open(spec).read(), g)
    d = f'/verif/seeded/{g["id"]}'; os.makedirs(d, exist_ok=True); sync()
    for path, a, b, *nth in g['edits']:
        p = f'{WT}/DevIL/{path}'; s = open(p, newline='', errors='surrogateescape').read()
        if '\r\n' in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        c = s.count(a); assert c == 1 if not nth else c > nth[0], (path, c, a)
        i = -1
        for _ in range((nth or [0])[0] + 1): i = s.index(a, i + 1)
        open(p, 'w', newline='', errors='surrogateescape').write(s[:i] + b + s[i + len(a):])
    open(d + '/patch.diff', 'w').write(sh(f'git -C {WT} diff').stdout)
    open(d + '/demo.sh', 'w').write(g.get('demosh', DEMO)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(HEAD + g['demo'])
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    # every changed line must be an original line
    bl = sh("git -C /repo log --format=%H --reverse | head -1").stdout.strip()
    r = sh(f'bash /tmp/wtvp/build.sh && bash /tmp/wtvp/test.sh /tmp/wtvp/o.json | tail -1')
    print('tests:', r.stdout.strip().split('\n')[-1] or r.stderr[-300:])
    base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open('/tmp/wtvp/o.json'))
    stable = base.get('passed') or base.get('stable') or base.get('tests') or []
    miss = [t for t in stable if t not in res['passed']]
    if miss: print('!! failing tests', miss[:5]); ok = False
    c, o = demo(d, WT); print('demo patched:', c, o.strip()[-160:]); ok &= c == 1 or c >= 124
    c, o = demo(d, '/repo'); print('demo clean:', c, o.strip()[-160:]); ok &= c == 0
    print('SEED', g['id'], 'ok' if ok else 'BAD'); return ok
def check(i, tier='quick'):
    d = f'/verif/seeded/{i}'; p = json.load(open(d + '/meta.json'))['property']
    sync(); r = sh(f'git -C {WT} apply {d}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stderr[:200]); return
    try: r = sh(f'MC_REPO={WT} python3 run.py {p} --tier {tier}', cwd='/verif')
    finally: sh(f'git -C {WT} checkout -- .')
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i, p, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, (v or r.stdout.split('\n')[-2:])[0][:150])
    if v: print('   ', [l for l in r.stdout.split('\n') if l.strip() and not l.startswith('VIOLATION')][:1])
if sys.argv[1] == 'new':
    for f in sys.argv[2:]:
        for part in open(f).read().split('\n####\n'): new(part + '\n')
else:
    for i in (sys.argv[2:] or sorted(os.listdir('/verif/seeded'))): check(i)
