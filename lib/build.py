"""Compiles harnesses together with /repo's current sources.

Objects are cached under /verif/build/obj by a hash of (command line, source text, every header in
/repo that could be included, every harness header): a cached object is what the compiler would make
now, so a change in /repo is always seen.
"""
import hashlib, os, subprocess, sys, threading, glob, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OBJ = os.path.join(BUILD, 'obj')
JOBS = max(2, os.cpu_count() or 2)

FLAVOURS = {
    'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer'],
    'fast': ['-O2', '-fno-omit-frame-pointer'],
    'debug': ['-O0', '-g', '-D_GLIBCXX_ASSERTIONS'],
    'san': ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
            '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,float-divide-by-zero',
            '-fno-sanitize-recover=undefined'],
    'sanfuzz': ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
            '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=float-cast-overflow,vptr,float-divide-by-zero',
            '-fno-sanitize-recover=undefined'],
    'sanio': ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
            '-fsanitize=address,undefined', '-fno-sanitize=float-cast-overflow,vptr,float-divide-by-zero', '-fno-sanitize-recover=undefined'],
    'tsan': ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'autozero': ['-O1', '-ftrivial-auto-var-init=zero'],
    'autopattern': ['-O1', '-ftrivial-auto-var-init=pattern'],
    'vg': ['-O0', '-g'],
}
LDFLAGS = {
    'sanio': ['-fsanitize=address,undefined'],
    'san': ['-fsanitize=address,undefined'], 'sanfuzz': ['-fsanitize=fuzzer,address,undefined'],
    'tsan': ['-fsanitize=thread'],
}

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()

_hdr = {}
def header_hash(roots):
    key = tuple(roots)
    if key not in _hdr:
        h = hashlib.sha256()
        for r in roots:
            for d, ds, fs in sorted(os.walk(r)):
                if '_build' in d or '.git' in d: continue
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.hh', '.ipp', '.inl')):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr[key] = h.hexdigest()
    return _hdr[key]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

COMMON = ['-std=c++17', '-w', '-pthread']
CORE_INC = ['-include', 'list', '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I' + REPO + '/tools/verification',
            '-I' + REPO + '/src', '-I' + os.path.join(VERIF, 'harness'), '-DBUILD_FOR_LINUX']
PCH_SRC = '''#include <list>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <functional>
#include <unordered_map>
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/geometries.hpp>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/register/point.hpp>
#include <boost/geometry/index/rtree.hpp>
'''

def shorten(t):
    l = [x for x in t.splitlines() if 'error' in x]
    return '\n'.join(l[:8])[:2500] or t[-1500:]

def compile_obj(src, flags, roots, log):
    """-> object path; raises BuildError."""
    cmd = ['clang++'] + flags + ['-c', src, '-o']
    key = sha(' '.join(cmd), open(src, 'rb').read(), header_hash(roots))
    obj = os.path.join(OBJ, key[:40] + '.o')
    if os.path.exists(obj):
        try: os.utime(obj)
        except OSError: pass
        return obj
    os.makedirs(OBJ, exist_ok=True)
    tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = run(cmd + [tmp])
    if r.returncode != 0:
        raise BuildError('%s: %s' % (src, shorten(r.stdout.decode('utf8', 'replace'))))
    os.replace(tmp, obj)
    return obj

def make_pch(flags, roots):
    d = os.path.join(BUILD, 'pch')
    os.makedirs(d, exist_ok=True)
    key = sha(' '.join(flags), PCH_SRC)[:32]
    pch = os.path.join(d, key + '.pch')
    if os.path.exists(pch):
        return pch
    hdr = os.path.join(d, key + '.h')
    with open(hdr + '.tmp%d' % os.getpid(), 'w') as f: f.write(PCH_SRC)
    os.replace(hdr + '.tmp%d' % os.getpid(), hdr)
    tmp = pch + '.tmp%d' % os.getpid()
    r = run(['clang++'] + flags + ['-x', 'c++-header', hdr, '-o', tmp])
    if r.returncode != 0:
        raise BuildError('pch: ' + r.stdout.decode('utf8', 'replace')[-2000:])
    os.replace(tmp, pch)
    return pch

# relative compile cost, to start the long poles first
COST = {'trilateration.cpp': 50, 'helpers.cpp': 25, 'level_geometry.cpp': 13, 'knn_utils.cpp': 7, 'level_collector.cpp': 8,
        'measurement_preprocessor.cpp': 6, 'position_postprocessor.cpp': 4}
def cost(p):
    return COST.get(os.path.basename(p), 9 if p.startswith(VERIF) else 3)

def compile_all(jobs, log):
    """jobs: list of (src, flags, roots) -> list of objects in order"""
    order = sorted(range(len(jobs)), key=lambda i: -cost(jobs[i][0]))
    res = [None] * len(jobs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_obj, jobs[i][0], jobs[i][1], jobs[i][2], log): i for i in order}
        err = None
        for f in cf.as_completed(futs):
            try: res[futs[f]] = f.result()
            except BuildError as e: err = err or e
        if err: raise err
    return res

def core_sources(extra_tools=False):
    out = []
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cpp')]
    if extra_tools:
        t = os.path.join(REPO, 'tools', 'verification')
        out += [os.path.join(t, f) for f in sorted(os.listdir(t)) if f.endswith('.cpp')]
    return out

def expand(patterns):
    out = []
    for p in patterns:
        g = sorted(glob.glob(os.path.join(REPO, p), recursive=True))
        out += [x for x in g if x.endswith('.cpp') and x not in out]
    return out

def trim_cache(limit=3 << 30):
    try:
        fs = [(os.path.getatime(p), os.path.getsize(p), p) for d in (OBJ, os.path.join(BUILD, 'bin'))
              if os.path.isdir(d) for p in (os.path.join(d, x) for x in os.listdir(d))]
    except OSError:
        return
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot <= limit: break
        try: os.remove(p); tot -= s
        except OSError: pass

def build(harness, flavour, mode='core', subset=None, tools=False, stub_alt=True, defines=(), log=print, extra=(), ldextra=()):
    """Builds one harness executable and returns its path.

    mode 'core': link with /repo/src (or, first, only `subset`, falling back to everything when that does not link);
    mode '<dir>': a standalone project: (include dirs, source globs) given in `subset` = {'inc': [...], 'src': [...]}.
    """
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    fl = FLAVOURS[flavour] + COMMON
    ld = LDFLAGS.get(flavour, []) + ['-pthread'] + list(ldextra)
    hsrc = os.path.join(VERIF, 'harness', harness)
    if mode == 'core':
        roots = [REPO + '/include', REPO + '/src', REPO + '/tools', VERIF + '/harness']
        rroots = roots[:3]
        base = fl + CORE_INC
        stub = os.path.join(VERIF, 'harness', 'altitude_stub.cpp')
        full = core_sources(tools)
        full_nostub = full
        if stub_alt:
            full = [f for f in full if not f.endswith('src/trilateration.cpp')] + [stub]
        attempts = []
        if subset is not None:
            attempts.append(expand(subset))
        attempts.append(full)
        if stub_alt: attempts.append(full_nostub)
    else:
        roots = [os.path.join(REPO, 'standalone_algorithms'), VERIF + '/harness']
        rroots = roots[:1]
        base = fl + ['-I' + os.path.join(REPO, d) for d in subset['inc']] + ['-I' + os.path.join(VERIF, 'harness')]
        attempts = [expand(subset['src'])]
    err = None
    for srcs in attempts:
        try:
            b = list(base)
            usepch = mode == 'core' and len(srcs) >= 5
            if usepch:
                b = ['-include-pch', make_pch(fl, rroots)] + b
            jobs = [(hsrc, b + list(defines) + list(extra), roots)]
            jobs += [(s, b, rroots if s.startswith(REPO) else roots) for s in srcs]
            objs = compile_all(jobs, log)
            key = sha(' '.join(objs), ' '.join(ld))[:32]
            exe = os.path.join(BUILD, 'bin', '%s-%s' % (os.path.splitext(harness)[0], key))
            if not os.path.exists(exe):
                tmp = exe + '.tmp%d' % os.getpid()
                r = run(['clang++'] + ld + objs + ['-o', tmp])
                if r.returncode != 0:
                    raise BuildError('link: ' + r.stdout.decode('utf8', 'replace')[-2000:])
                os.replace(tmp, exe)
            return exe
        except BuildError as e:
            err = e
            if not str(e).startswith('link:'): raise
            log('note: does not link from this subset, trying more sources (%s)' % str(e)[:300].replace(chr(10), ' '))
    raise err
