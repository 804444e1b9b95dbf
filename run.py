#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--suite NAME] [--budget S]: decides one property.
   run.py --replay FILE : re-executes a recorded violation."""
import sys, os, json, time, subprocess, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/mc'); sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build
from meta import META

def known_lines(pid):
    pats = []
    for l in open(V + '/known-findings.txt'):
        l = l.rstrip('\n')
        m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)', l)
        if m and m.group(1) == pid: pats.append((m.group(2), m.group(3)))
    return pats

def env():
    e = dict(os.environ); e['LC_ALL'] = 'C'; e['TZ'] = 'UTC'; e['ASAN_OPTIONS'] = ''
    return e

def run_bin(binary, args, work, timeout):
    e = env(); e['ASAN_OPTIONS'] = 'log_path=%s/asan' % work
    with open(work + '/log', 'ab') as log:
        return subprocess.run([binary] + args, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e, timeout=timeout, cwd=work).returncode

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        r = json.load(open(a[1])); pid = r['property']; var = r['variant']
        binary = build.build([META[pid]['check']], [var])[(META[pid]['check'], var)]
        work = V + '/.build/run/replay-%d' % os.getpid(); os.makedirs(work, exist_ok=True)
        viol = work + '/viol'
        rc = run_bin(binary, ['--prop', pid, '--tier', r['tier'], '--work', work, '--viol', viol, '--replay', r['replay']], work, 900)
        sys.stdout.write(open(viol).read() if os.path.exists(viol) else ''); sys.stdout.write(open(work + '/log', errors='replace').read()[-3000:])
        shutil.rmtree(work, ignore_errors=True)
        print('reproduced' if rc == 1 else 'not reproduced (rc=%d)' % rc); sys.exit(rc)
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); suite = None; budget = None; maxv = 3
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]
        if a[i] == '--suite': suite = a[i+1]
        if a[i] == '--budget': budget = float(a[i+1])
        if a[i] == '--all': maxv = 1000; i -= 1
        i += 2
    if tier not in ('quick', 'thorough'): tier = 'quick'
    m = META[pid]; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = budget or (m.get('budget', 150) if tier == 'quick' else m.get('tbudget', 3000))
    bins = build.build([m['check']], m['variants'])
    build_s = time.time() - t0
    kn = known_lines(pid); kfile = None
    tot = {}; suites = []; samples = []; lines = []; capped = False
    work0 = V + '/.build/run/%s-%d' % (pid, os.getpid()); shutil.rmtree(work0, ignore_errors=True); os.makedirs(work0)
    try:
        kfile = work0 + '/known'; open(kfile, 'w').write(''.join(k + '\n' for k, _ in kn))
        for var in m['variants']:
            work = work0 + '/' + var; os.makedirs(work)
            args = ['--prop', pid, '--tier', tier, '--work', work, '--out', work + '/out', '--viol', work + '/viol', '--known', kfile, '--seed', str(seed), '--budget', str(budget / len(m['variants']))]
            if suite: args += ['--suite', suite]
            rc = run_bin(bins[(m['check'], var)], args, work, budget + 600)
            if rc != 0 or not os.path.exists(work + '/out'):
                sys.stderr.write(open(work + '/log', errors='replace').read()[-3000:]); print('check %s ended abnormally (rc=%s)' % (pid, rc)); sys.exit(2)
            o = json.load(open(work + '/out'))
            for k in ('states', 'transitions', 'executions', 'cases', 'evaluations', 'distinct'): tot[k] = tot.get(k, 0) + o[k]
            for s in o['suites']: s['variant'] = var; suites.append(s)
            samples += o['samples']; capped = capped or o['capped']
            if os.path.exists(work + '/viol'):
                for l in open(work + '/viol', errors='replace'): lines.append((var, l.rstrip('\n').split('\t')))
        known_hit = {}; unknown = []
        import fnmatch
        for var, f in lines:
            if len(f) < 7: continue
            if f[0] == 'K':
                for k, why in kn:
                    if k == f[4] or fnmatch.fnmatchcase(f[4], k): known_hit.setdefault((k, why), []).append(f)
            else: unknown.append((var, f))
        for (k, why), fs in known_hit.items():
            print('KNOWN-FINDING: property=%s %s [%s] (%d case(s))' % (pid, why, k, len(fs)))
        # confirm by replaying before reporting
        unknown.sort(key=lambda x: (len(x[1][2]), len(x[1][4])))
        confirmed = []; rdir = V + '/evidence/replays'; tried = 0
        for var, f in unknown:
            if len(confirmed) >= maxv or tried >= 40: break
            tried += 1
            ok = False; rep = None
            reps = ['%s|%s|%s' % (f[1], f[2], f[3])]
            if f[3]:
                b, s, e = f[3].rsplit(':', 2); reps.insert(0, '%s|%s|%s:%s:%s' % (f[1], f[2], b, e, e))
            for rp in reps:
                w = work0 + '/r%d' % tried; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
                rc = run_bin(bins[(m['check'], var)], ['--prop', pid, '--tier', tier, '--work', w, '--viol', w + '/viol', '--replay', rp], w, 900)
                if rc == 1:
                    ok = True; rep = rp; break
            if ok:
                os.makedirs(rdir, exist_ok=True)
                p = '%s/%s-%d.json' % (rdir, pid, len(confirmed) + 1)
                json.dump(dict(property=pid, variant=var, tier=tier, replay=rep, key=f[4], kind=f[5], message=f[6], steps=f[7] if len(f) > 7 else '', how='python3 /verif/run.py --replay ' + p), open(p, 'w'), indent=1)
                confirmed.append((p, f))
            else:
                print('NOTE: not reproduced on replay, not reported: %s: %s' % (f[4], f[6]))
        lvl = m['level']
        runs = tot['executions'] + tot['cases']
        cov = dict(rule=m['rule'], samples=samples[:16] or ['(none)'], oracle_comparisons=tot['evaluations'], suites=suites, exhaustive=not capped, build_s=round(build_s, 1), known_findings=len(known_hit))
        if lvl == 'model_checking':
            cov.update(states=tot['distinct'], transitions=tot['transitions'] + tot['cases'], traces_validated_against_impl=runs)
        else:
            cov.update(evaluations=runs, distinct_nontrivial=tot['distinct'])
        os.makedirs(V + '/evidence', exist_ok=True)
        if not suite:
            json.dump(dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=m.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(confirmed)),
                  open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
        print('%s %s: %d executions, %d cases, %d states, %d transitions, %d comparisons, %d distinct outcomes%s, %.1fs (build %.1fs)' % (pid, tier, tot['executions'], tot['cases'], tot['states'], tot['transitions'], tot['evaluations'], tot['distinct'], ' [CAPPED]' if capped else '', time.time() - t0, build_s))
        if os.environ.get('MC_VERBOSE'):
            for s in suites: print('   ', s)
        for p, f in confirmed:
            print('VIOLATION property=%s replay=%s' % (pid, p)); print('   %s: %s %s' % (f[4], f[5], f[6]))
        sys.exit(1 if confirmed else 0)
    finally:
        shutil.rmtree(work0, ignore_errors=True)
        try: build.prune()
        except Exception: pass

main()
