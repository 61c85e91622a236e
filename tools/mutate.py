#!/usr/bin/env python3
"""mutate.py OUT [--n=40] [--seed=1] [--jobs=3] FILE...: random one-token changes of the given sources (relative to /repo), each tried
in a scratch copy against the checks that read the file; writes what no check reported to OUT. Development aid, no check uses it."""
import os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--') and '=' in a)
OUT, FILES = args[0], args[1:]
N, SEED, JOBS = int(opt.get('n', 40)), int(opt.get('seed', 1)), int(opt.get('jobs', 3))
SES = ['P42', 'P38', 'P39', 'P04', 'P06', 'P05', 'P03', 'P01']
MAP = [('src/point.cpp', ['P22', 'P23']), ('src/geometry', ['P24', 'P21']), ('src/level_collector', ['P23', 'P25', 'P10']), ('src/level.cpp', ['P23', 'P11', 'P10']), ('src/level_geometry', ['P25', 'P16']),
       ('src/barriers', ['P25', 'P31']), ('src/radiomap', ['P11', 'P26', 'P41']), ('src/triangulation', ['P26']), ('src/knn/', ['P26', 'P09']), ('src/trilateration', ['P30']),
       ('src/measurements/', ['P07', 'P06']), ('src/level_estimator/barometer', ['P13']), ('src/level_estimator/level_history', ['P12']), ('src/level_estimator/level_estimator_radiomap', ['P11']),
       ('src/level_estimator/', ['P10', 'P12', 'P13']), ('src/likelihood', ['P41']), ('src/position_estimator/position_estimator_zone', ['P08']), ('src/position_estimator/position_estimator_knn', ['P09']),
       ('src/position_estimator/position_estimator_outdoor', ['P14']), ('src/position_postprocessor/navigation_time', ['P18']), ('src/position_postprocessor/poly', ['P17']), ('src/position_postprocessor/position_smoother_lstsq', ['P17']),
       ('src/position_postprocessor/position_smoother_ab', ['P16']), ('src/position_postprocessor/position_post', ['P15', 'P19', 'P20', 'P21']), ('src/sensor_fusion/quat', ['P29', 'P28']), ('src/sensor_fusion/comp', ['P28']),
       ('src/sensor_fusion/pedo', ['P27']), ('src/sensor_fusion/sensor', ['P27', 'P28']), ('src/vector3d', ['P29', 'P27']), ('src/navigation_client', ['P42', 'P15', 'P19']),
       ('tools/', ['P31', 'P32', 'P33', 'P40']), ('standalone_algorithms/tri', ['P34']), ('standalone_algorithms/pos', ['P35']), ('standalone_algorithms/ped', ['P36', 'P29']), ('standalone_algorithms/comp', ['P37', 'P29'])]
def checks(f):
    out = []
    for k, v in MAP:
        if f.startswith(k): out += [x for x in v if x not in out]
    if f.startswith('src/') or f.startswith('include/'): out += [x for x in SES if x not in out]
    if f.startswith('include/'): out = ['P47', 'P29', 'P22', 'P23', 'P21', 'P11', 'P25', 'P24', 'P26', 'P31', 'P33'] + out
    return out
def mutants(f):
    res, inblk = [], False
    for i, l in enumerate(open('/repo/' + f).read().split('\n')):
        s = l.strip()
        if inblk:
            if '*/' in s: inblk = False
            continue
        if s.startswith('/*'):
            if '*/' not in s: inblk = True
            continue
        if not s or s.startswith(('//', '#', '*', 'using', 'namespace')): continue
        code = l.split('//')[0]
        mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: ' ' * len(m.group(0)), code)
        def add(m, rep): res.append((i, l[:m.start()] + rep + l[m.end():]))
        for pat, reps in [(r'(?<= )<(?= )', ['<=']), (r'(?<= )<=(?= )', ['<']), (r'(?<= )>(?= )', ['>=']), (r'(?<= )>=(?= )', ['>']), (r'==', ['!=']), (r'!=', ['==']),
                          (r'(?<=[\w\)\]] )\+(?= )', ['-']), (r'(?<=[\w\)\]] )-(?= )', ['+']), (r'(?<=[\w\)\]] )\*(?= )', ['/']), (r'(?<=[\w\)\]] )/(?= )', ['*']),
                          (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'std::min\b', ['std::max']), (r'std::max\b', ['std::min']),
                          (r'\.front\(\)', ['.back()']), (r'\.back\(\)', ['.front()']), (r'std::f?abs\b', ['']), (r'\+\+', ['--']), (r'(?<![\w.])!(?=\w)', ['']), (r'\.begin\(\)', ['.end()'])]:
            for m in re.finditer(pat, mask):
                for r in reps: add(m, r)
        for m in re.finditer(r'(?<![\w.\[])(\d+\.\d*|\d+)(?![\w.\]])', mask):
            v = m.group(1)
            if '.' in v: add(m, '(%s * 1.1 + 0.01)' % v)
            else: add(m, str(int(v) + 1))
        m = re.match(r'^(\s*(?:else )?if \()(.*)(\)\s*\{?\s*)$', mask)
        if m: res.append((i, m.group(1) + '!(' + code[m.start(2):m.end(2)] + ')' + m.group(3)))
        if re.match(r'^\s*(return|continue|break);\s*$', mask): res.append((i, re.sub(r'\w+;', ';', l)))
        elif re.match(r'^\s*[\w\.\[\]\->\*\(\)]+(\.|->)?\w*\s*([-+*/]?=[^=].*|\(.*\));\s*$', mask) and not re.match(r'^\s*(return|else|throw)\b', mask): res.append((i, ';'))
    return [(f, i, t) for i, t in res]
rng = random.Random(SEED)
todo = queue.Queue()
allm = []
for f in FILES:
    ms = mutants(f); rng.shuffle(ms); allm += ms[:N]
rng.shuffle(allm)
for m in allm: todo.put(m)
print('%d mutants' % len(allm), flush=True)
lock = threading.Lock(); cnt = {}
def worker(k):
    w = '/tmp/mutw.%s.%d' % (os.path.basename(OUT), k)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    while True:
        try: f, i, t = todo.get_nowait()
        except queue.Empty: break
        src = open('/repo/' + f).read(); ls = src.split('\n'); old = ls[i]; ls[i] = t
        open(w + '/' + f, 'w').write('\n'.join(ls))
        c = subprocess.run('clang++ -fsyntax-only -std=c++17 -w -include list -I%s/include -I/usr/include/eigen3 -I%s/tools/verification -I%s/src -I%s %s/%s' % (w, w, w, w, w, f), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) if f.endswith('.cpp') and not f.startswith('standalone') else None
        if c is not None and c.returncode: verdict = 'nobuild'
        else:
            verdict = 'SURVIVED'
            for ch in checks(f):
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
                try: p = subprocess.run([sys.executable, opt.get('run', V + '/run.py'), ch], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
                except subprocess.TimeoutExpired: verdict = 'TIMEOUT ' + ch; break
                o = p.stdout.decode('utf8', 'replace')
                if p.returncode == 1 and 'VIOLATION' in o: verdict = ch; break
                if p.returncode != 0: verdict = ('nobuild' if 'cannot be built' in o else 'RC%d %s' % (p.returncode, ch)); break
        open(w + '/' + f, 'w').write(src)
        with lock:
            cnt[verdict] = cnt.get(verdict, 0) + 1
            with open(OUT, 'a') as o: o.write('%-9s %s:%d\n    - %s\n    + %s\n' % (verdict, f, i + 1, old.strip(), t.strip()))
    shutil.rmtree(w, ignore_errors=True)
th = [threading.Thread(target=worker, args=(k,)) for k in range(JOBS)]
[x.start() for x in th]; [x.join() for x in th]
print(cnt)
