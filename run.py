#!/usr/bin/env python3
"""run.py <PROPERTY>: builds and runs the monitors of one property; see DESIGN.md.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it did not.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build as B
from checks import CHECKS

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def load_known(prop):
    """known_findings.txt: 'known: property=<id> key=<regex> -- what' suppresses exactly that key."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) -- (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0',
    'LSAN_OPTIONS': 'exitcode=66',
}

def san_key(err, rc):
    """A short stable key for a crash: kind + first /repo function."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = 'asan:' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: (.*)', err)
        if m: kind = 'ubsan:' + re.sub(r'[-\d.e+]+', 'N', m.group(1))[:60]
    if not kind and 'LeakSanitizer: detected memory leaks' in err: kind = 'leak'
    if not kind and 'WARNING: ThreadSanitizer:' in err:
        kind = 'tsan:' + re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', err).group(1).strip()
    if not kind and 'Assertion' in err: kind = 'assertion'
    if not kind and 'HANG case=' in err: kind = 'hang'
    if not kind and 'terminate called' in err: kind = 'terminate'
    if not kind: kind = 'crash:rc%d' % rc
    fn = ''
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S+?):(\d+)', err):
        if m.group(2).startswith(B.REPO + '/') or '/standalone_algorithms/' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1)).split('::')[-1]
            fn = '@' + os.path.basename(m.group(2)) + ':' + fn
            break
    return (kind + fn).replace(' ', '_')

class Result:
    def __init__(self):
        self.viol = []       # (key, msg, replay dict)
        self.evals = self.events = self.skipped = self.distinct = 0
        self.stats = {}
        self.samples = []
        self.notes = []

def merge_done(res, name, d):
    res.evals += d['evals']; res.events += d['events']; res.skipped += d['skipped']; res.distinct += d['distinct']
    for k, v in d['stats'].items():
        kk = name + '.' + k
        res.stats[kk] = res.stats.get(kk, 0) + v
    for s in d['samples']:
        if len(res.samples) < 8: res.samples.append(name + ': ' + s)

def run_stage(prop, st, res, scratch, only=None, seed=None):
    name = st['name']
    flavour = st.get('flavour', 'plain')
    t0 = time.time()
    try:
        exe = B.build(st['src'], flavour, mode=st.get('mode', 'core'), subset=st.get('subset'), tools=st.get('tools', False),
                      stub_alt=st.get('stub', True), defines=st.get('defines', ()), log=log, ldextra=st.get('ld', ()))
    except B.BuildError as e:
        if st.get('optional'):
            log('stage %s skipped, it does not build: %s' % (name, str(e)[:1500]))
            res.notes.append('stage %s not run: it does not build against this tree' % name)
            return
        raise
    tb = time.time() - t0
    cases = st['cases'][1 if TIER == 'thorough' else 0]
    wall = st.get('wall', (150, 1500))[1 if TIER == 'thorough' else 0]
    hang = st.get('hang', 40 if flavour in ('san', 'sanio', 'tsan') else 20)
    env = dict(os.environ); env.update(SAN_ENV); env.update(st.get('env', {}))
    prog = os.path.join(scratch, 'progress-' + name)
    first, left, crashes = 0, cases, 0
    started = time.time()
    shards = st.get('shards', 1)
    base = [exe, '--seed', str(seed if seed is not None else SEED), '--tier', TIER, '--hang', str(hang), '--scratch', scratch]
    if st.get('arg'): base += ['--arg', st['arg']]
    wrap = st.get('wrap', [])
    if st.get('custom'):
        # the stage interprets its own output
        st['custom'](prop, st, res, exe, base, env, scratch, TIER, SEED if seed is None else seed, only, log)
        log('stage %s: build %.1fs run %.1fs' % (name, tb, time.time() - started))
        return
    ranges = []
    if only is not None:
        ranges = [(only, 1)]
    else:
        per = (cases + shards - 1) // shards
        for s in range(shards):
            n = min(per, cases - s * per)
            if n > 0: ranges.append((s * per, n))
    procs = []
    def launch(first, n, idx):
        pf = prog + '-%d' % idx
        if os.path.exists(pf): os.remove(pf)
        out = open(os.path.join(scratch, 'out-%s-%d' % (name, idx)), 'w+b')
        err = open(os.path.join(scratch, 'err-%s-%d' % (name, idx)), 'w+b')
        rem = max(5, wall - (time.time() - started))
        cmd = wrap + base + ['--first', str(first), '--cases', str(n), '--progress', pf, '--wall', '%.1f' % rem]
        p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env, cwd=scratch)
        return dict(p=p, out=out, err=err, first=first, n=n, idx=idx, pf=pf, hard=time.time() + rem + 6 * hang + 60)
    for i, (f, n) in enumerate(ranges): procs.append(launch(f, n, i))
    slow_checked = 0
    while procs:
        pr = procs.pop(0)
        if crashes >= st.get('maxcrash', 6) and only is None:
            pr['p'].kill()          # enough is known
        try:
            rc = pr['p'].wait(max(1, pr['hard'] - time.time()))
        except subprocess.TimeoutExpired:
            pr['p'].kill(); pr['p'].wait()
            res.notes.append('stage %s: a shard was stopped at its wall limit' % name)
            rc = None
        pr['out'].seek(0); o = pr['out'].read().decode('utf8', 'replace'); pr['out'].close()
        pr['err'].seek(0); er = pr['err'].read().decode('utf8', 'replace'); pr['err'].close()
        done = None
        for l in o.splitlines():
            if not l.startswith('{'): continue
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('t') == 'viol':
                res.viol.append((d['key'], d['msg'], dict(stage=name, case=d['case'], seed=SEED if seed is None else seed)))
            elif d.get('t') == 'done':
                done = d
        if done: merge_done(res, name, done)
        if rc is None: continue
        if rc == 0 and done: continue
        # abnormal end
        cur = -1
        try:
            cur = int.from_bytes(open(pr['pf'], 'rb').read(8), 'little', signed=True)
        except OSError: pass
        key = san_key(er, rc)
        replay = dict(stage=name, case=cur, seed=SEED if seed is None else seed)
        if done and (rc == 66 or 'LeakSanitizer' in er):      # leak or race report at exit
            res.viol.append((key, er[:6000], replay)); continue
        if rc == 97 and only is None and slow_checked >= 2:
            res.notes.append('stage %s case %d was stopped at its time limit' % (name, cur))
        elif rc == 97 and only is None:
            slow_checked += 1
            # maybe just slow: once more, alone, with a much larger budget
            hb = list(base); hb[hb.index('--hang') + 1] = str(hang * 3)
            try:
                r2 = subprocess.run(wrap + hb + ['--only', str(cur)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=hang * 3 + 30)
                slow = r2.returncode != 97
            except subprocess.TimeoutExpired:
                slow = False
            if slow: res.notes.append('stage %s case %d was slow' % (name, cur))
            else:
                res.viol.append((key, 'case %d does not terminate: %s' % (cur, er[-2000:]), replay))
                crashes = 1000
        elif rc in (-9, 137):
            res.notes.append('stage %s was killed from outside (memory?)' % name)
            continue
        else:
            res.viol.append((key, er[-6000:] or ('exit code %d' % rc), replay))
        crashes += 1
        if not done: res.evals += max(0, cur - pr['first'] + 1)
        nxt = cur + 1
        if only is None and cur >= 0 and crashes < st.get('maxcrash', 6) and nxt < pr['first'] + pr['n'] and time.time() - started < wall:
            procs.append(launch(nxt, pr['first'] + pr['n'] - nxt, pr['idx'] + 100 * crashes))
    log('stage %s: build %.1fs run %.1fs evals %d' % (name, tb, time.time() - started, res.evals))

def main():
    prop = sys.argv[1]
    chk = CHECKS[prop]
    only = seed = stage = None
    global TIER
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = json.load(open(sys.argv[3])); only, seed, stage = r['case'], r['seed'], r['stage']; TIER = r.get('tier', TIER)
    if len(sys.argv) > 3 and sys.argv[2] == '--stage': stage = sys.argv[3]
    t0 = time.time()
    B.trim_cache()
    res = Result()
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='scratch-%s-' % prop, dir=os.path.join(VERIF, 'build'))
    failed = None
    try:
        for st in chk['stages']:
            if stage and st['name'] != stage: continue
            if TIER not in st.get('tiers', ('quick', 'thorough')): continue
            if res.viol and only is None and TIER == 'quick':
                res.notes.append('stage %s not run: an earlier stage reported a violation' % st['name']); continue
            run_stage(prop, st, res, scratch, only if only is None or only >= 0 else None, seed)
    except B.BuildError as e:
        failed = str(e)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if failed:
        print('error: %s cannot be built: %s' % (prop, failed[:4000]))
        return 2
    known = load_known(prop)
    bad, seen_known = [], {}
    for key, msg, rp in res.viol:
        hit = None
        for rx, what in known:
            if re.fullmatch(rx, key): hit = (rx, what)
        if hit: seen_known.setdefault(hit, 0); seen_known[hit] += 1
        else: bad.append((key, msg, rp))
    for rx, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    cov = dict(evaluations=res.evals, distinct_nontrivial=res.distinct, rule=chk['rule'], samples=res.samples or ['(no sample recorded)'],
               oracle_events=res.events, near_tie_skips=res.skipped, observed=res.stats)
    if res.notes: cov['notes'] = res.notes
    if seen_known: cov['known_findings_seen'] = {k[0]: v for k, v in seen_known.items()}
    ev = dict(property=prop, tier=TIER, seed=SEED, level='exploration', coverage=cov,
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for n in res.notes: log('note:', n)
    if bad:
        rd = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
        shown = {}
        for key, msg, rp in bad:
            if key in shown: continue
            shown[key] = 1
            if len(shown) > 8: break
            path = os.path.join(rd, '%s-%s.json' % (prop, re.sub(r'[^\w.-]+', '_', key)[:60]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, key=key, msg=msg, tier=TIER, how='python3 run.py %s --replay %s' % (prop, path), **rp), f, indent=1)
            print('%s: %s' % (key, msg[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if res.evals == 0:
        print('error: %s observed nothing' % prop)
        return 2
    print('%s held: %d evaluations, %d oracle events, %d distinct non-trivial, %.1fs' % (prop, res.evals, res.events, res.distinct, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
