"""Builds DevIL from /repo's working tree (content-addressed objects) and the check binaries."""
import os, sys, hashlib, subprocess, glob, re, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
D = REPO + '/DevIL'
B = V + '/.build'
CXX = 'g++'
VARIANTS = {
  'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address'],
  'fast': ['-O2', '-g1'],
}
# with ILUT's OpenGL functions, which this configuration leaves out; the library below ILUT is that of 'asan'
VARIANTS['gl'] = VARIANTS['asan'] + ['-DILUT_USE_OPENGL']
COMMON = ['-DNDEBUG', '-w', '-fPIC', '-DIL_EXPORTS', '-DILU_EXPORTS', '-DILUT_EXPORTS']
LIBS = ['-lpng', '-lz', '-ljpeg', '-ltiff', '-lmng', '-llcms2', '-lsquish', '-lGL', '-lGLU', '-lpthread']
# what the project's CMake configuration defines here (EXR, JP2 and WDP libraries are not available)
CONFIG = {'IL_NO_EXR': '1', 'IL_NO_JP2': '1', 'LCMS_NODIRINCLUDE': 'ON', 'IL_NO_WDP': None, 'IL_USE_DXTC_SQUISH': None}

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def config_h():
    out = []
    for l in open(D + '/src-IL/include/config.h.cmake.in', errors='replace'):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', l)
        if m:
            n, rest = m.group(1), m.group(2)
            if n in CONFIG:
                v = CONFIG[n]
                rest = rest.replace('@%s@' % n, v or '').replace('${%s}' % n, v or '')
                out.append('#define %s%s\n' % (n, rest))
            else: out.append('/* #undef %s */\n' % n)
        else: out.append(l)
    return ''.join(out)

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        t = p + '.%d' % os.getpid()
        open(t, 'w').write(s); os.replace(t, p)

def headers_hash():
    hs = []
    for pat in ('include/**/*', 'src-IL/include/**/*', 'src-ILU/include/**/*', 'src-ILUT/include/**/*'):
        hs += [f for f in glob.glob(D + '/' + pat, recursive=True) if os.path.isfile(f) and not f.endswith('/config.h')]
    return sh256(*[x for f in sorted(hs) for x in (f[len(D):], rd(f))], config_h())

def compile_one(src, obj, flags):
    if os.path.exists(obj): return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = '%s.%d.tmp.o' % (obj, os.getpid())
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode: return 'compiling %s failed:\n%s' % (src, r.stderr[-3000:])
    os.replace(tmp, obj)
    return None

def build(checks, variants=('asan',)):
    """returns {(check, variant): path of binary}; raises on failure"""
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try: return _build(checks, variants)
    finally: lock.close()

def _build(checks, variants):
    hh = headers_hash()
    cfgdir = B + '/cfg-' + sh256(config_h())
    write_if_changed(cfgdir + '/config.h', config_h())
    inc = {'IL': ['-I' + cfgdir, '-I' + D + '/src-IL/include', '-I' + D + '/include'],
           'ILU': ['-I' + cfgdir, '-I' + D + '/src-ILU/include', '-I' + D + '/src-IL/include', '-I' + D + '/include'],
           'ILUT': ['-I' + cfgdir, '-I' + D + '/src-ILUT/include', '-I' + D + '/src-IL/include', '-I' + D + '/include']}
    inc['ILU'] = ['-I' + D + '/src-ILU/include', '-I' + D + '/include']
    inc['ILUT'] = ['-I' + D + '/src-ILUT/include', '-I' + D + '/include']
    mcs = sorted(glob.glob(V + '/mc/*.h')) + sorted(glob.glob(V + '/checks/*.h'))
    mh = sh256(*[rd(f) for f in mcs])
    pubh = sh256(*[x for f in sorted(glob.glob(D + '/include/IL/*.h')) for x in (f[len(D):], rd(f))])
    jobs = []; objs = {}; res = {}
    for var in variants:
        lib = []
        for comp in ('IL', 'ILU', 'ILUT'):
            lv = 'asan' if var == 'gl' and comp != 'ILUT' else var
            fl = VARIANTS[lv]
            for src in sorted(glob.glob('%s/src-%s/src/*.cpp' % (D, comp))):
                base = os.path.basename(src)
                obj = '%s/obj/%s/%s-%s-%s.o' % (B, lv, comp, base, sh256(hh, rd(src), ' '.join(fl), src))
                flags = fl + COMMON + inc[comp]
                jobs.append((src, obj, flags)); lib.append(obj)
        objs[var] = lib
        fl = VARIANTS[var]
        for src in [V + '/mc/mc.cpp', V + '/mc/ilx.cpp'] + ['%s/checks/%s.cpp' % (V, c) for c in checks]:
            obj = '%s/obj/%s/h-%s-%s.o' % (B, var, os.path.basename(src), sh256(mh, pubh, rd(src), ' '.join(fl)))
            jobs.append((src, obj, ['-std=c++17', '-w', '-fmax-errors=5', '-fdiagnostics-plain-output', '-I' + V + '/mc', '-I' + V + '/checks', '-I' + D + '/include'] + (fl if var != 'fast' else ['-O2', '-g1'])))
            objs[(var, os.path.basename(src)[:-4])] = obj
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs: raise RuntimeError('\n'.join(errs[:3]))
    def link(args):
        c, var = args
        inputs = [objs[(var, 'mc')], objs[(var, 'ilx')], objs[(var, c)]] + objs[var]
        out = '%s/bin/%s-%s-%s' % (B, c, var, sh256(*inputs))
        if not os.path.exists(out):
            os.makedirs(B + '/bin', exist_ok=True)
            tmp = out + '.%d.tmp' % os.getpid()
            r = subprocess.run([CXX] + (['-fsanitize=address'] if var != 'fast' else []) + inputs + LIBS + ['-o', tmp], capture_output=True, text=True)
            if r.returncode: raise RuntimeError('linking %s failed:\n%s' % (c, r.stderr[-3000:]))
            os.replace(tmp, out)
        return (c, var), out
    with ThreadPoolExecutor(8) as ex:
        for k, v in ex.map(link, [(c, v) for c in checks for v in variants]): res[k] = v
    return res

def prune(keep_bytes=1500 * 1000 * 1000):
    fs = [f for f in glob.glob(B + '/obj/**/*.o', recursive=True)] + glob.glob(B + '/bin/*')
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)), reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > keep_bytes:
            try: os.unlink(f)
            except OSError: pass
