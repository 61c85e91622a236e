#!/usr/bin/env python3
"""plant.py ID... [--checks P01,P02] [--tier quick]: tries planted changes in scratch copies of /repo.

For each: the demonstration must pass on /repo and fail on the copy; then the check of its property
(or those given) runs against the copy. Prints one line per change. Development aid, no check uses it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--') and '=' in a)
nodemo = '--nodemo' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    w = '/tmp/plant.%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    subprocess.run(['git', 'init', '-q', '.'], cwd=w, check=True)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w)
    line = i + ' '
    if r.returncode: print(line, 'DOES NOT APPLY', flush=True); continue
    if not nodemo:
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        line += 'demo base=%d patched=%d ' % (a.returncode, b.returncode)
        if a.returncode != 0: line += '[' + a.stdout.decode('utf8', 'replace')[-600:] + '] '
        if b.returncode != 1: line += '{' + b.stdout.decode('utf8', 'replace')[-600:] + '} '
    for c in opt.get('checks', meta['property']).split(','):
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=opt.get('seed', '1'), VERIF_TIER=opt.get('tier', 'quick'))
        p = subprocess.run([sys.executable, 'run.py', c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf8', 'replace')
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        line += '%s:%s%s ' % (c, 'caught' if p.returncode == 1 and v else 'MISSED rc=%d' % p.returncode, '' if p.returncode in (0, 1) else out[-800:])
    print(line, flush=True)
    shutil.rmtree(w, ignore_errors=True)
