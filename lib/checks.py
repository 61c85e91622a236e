"""Which harness decides which property, and how long it runs."""
CHECKS = {}
TECH = {}

def check(pid, rule, stages, assumptions=()):
    CHECKS[pid] = dict(rule=rule, stages=stages, assumptions=list(assumptions))

check('P22', 'random binding points in both hemispheres, at the antimeridian and near the poles, with points from micrometres to half a turn away; distinct = (binding, point) pairs',
      [dict(name='convert', src='h_p22.cpp', flavour='plain', subset=['src/point.cpp'], cases=(7500, 300000), shards=4)])
check('P24', 'random point quadruples on small and large integer grids (exact oracle) and in the plane (extended precision oracle with margins), axis-parallel and degenerate ones included; distinct = quadruples',
      [dict(name='geometry', src='h_p24.cpp', flavour='san', subset=['src/geometry.cpp'], cases=(3000, 120000), shards=4)])
check('P29', 'random quaternions, vectors and angles over several scales; distinct = tuples',
      [dict(name='algebra', src='h_p29.cpp', flavour='san', subset=['src/sensor_fusion/quaternion.cpp', 'src/sensor_fusion/complementary_filter.cpp', 'src/vector3d.cpp'], cases=(2000, 80000), shards=4)])

MAPSRC = ['src/level_collector.cpp', 'src/level.cpp', 'src/level_geometry.cpp', 'src/barriers_geometry_builder.cpp', 'src/radiomap.cpp', 'src/point.cpp']
check('P23', 'random maps of 1-5 levels (shared and distinct boxes, far apart, up to 2 km), polygons of both orientations, closed or not, with holes, shared transmitter ids; distinct = maps',
      [dict(name='convert', src='h_p23.cpp', flavour='plain', subset=MAPSRC, cases=(7500, 300000), shards=4)])
check('P25', 'random allowed areas (1-4 star-shaped, rectangular or grid-aligned zones, 0-40 holes) and paths of 1-4 points inside, across and around them; distinct = paths; near ties (1 micrometre) skipped',
      [dict(name='barriers', src='h_p25.cpp', flavour='plain', subset=MAPSRC, cases=(8000, 320000), shards=8)])
check('P26', 'random point sets (uniform, clustered, jittered grid, collinear; 0-45 points) with all orders, and whole maps mixing triangulable and degenerate levels; distinct = point sets',
      [dict(name='points', src='h_p26.cpp', flavour='plain', subset=MAPSRC + ['src/triangulation.cpp', 'src/geometry.cpp', 'src/knn/knn_utils.cpp'], cases=(20000, 800000), shards=4),
       dict(name='maps', src='h_p26.cpp', flavour='plain', arg='map', subset=MAPSRC + ['src/triangulation.cpp', 'src/geometry.cpp', 'src/knn/knn_utils.cpp'], cases=(4000, 160000), shards=4),
       dict(name='shapes', src='h_shapes.cpp', flavour='san', subset=['src/triangulation.cpp', 'src/geometry.cpp'], optional=True, cases=(6000, 240000), shards=2)])

EST = MAPSRC + ['src/measurements/*.cpp', 'src/level_estimator/*.cpp', 'src/position_estimator/*.cpp', 'src/knn/*.cpp', 'src/triangulation.cpp',
                'src/geometry.cpp', 'src/measurement_types.cpp', 'src/vector3d.cpp', 'src/navigation_settings.cpp']
def est(part, cases, **kw):
    return dict(src='h_est.cpp', flavour='plain', subset=EST, defines=['-DPART_' + part], cases=cases, shards=4, **dict(dict(name=part.lower()), **kw))
check('P06', 'random maps, settings and message streams rich in unknown, weak, strong, switched-off and locator signals on and next to every limit; distinct = streams with both accepted and ignored signals',
      [est('PRE', (30000, 1200000), arg='filter', optional=True)])
check('P07', 'random timed radio streams with gaps, repeats and step times under every averaging, shift, stop and closest-count setting; distinct = streams with several releases',
      [est('PRE', (40000, 1600000), optional=True)])
check('P08', 'random signal sets over multi-level maps, each in two orders; distinct = signal sets',
      [est('ZONE', (20000, 800000), optional=True)])
check('P09', 'random radio maps and signal sets (some exactly as recorded), triangle/K and difference/absolute modes, several orders; distinct = signal sets compared',
      [est('KNN', (30000, 1200000), optional=True)])
check('P10', 'random signal sets over maps of 1-5 levels, fresh estimator each; distinct = signal sets; near ties skipped',
      [est('LEVEL', (30000, 1200000), arg='transmitters', optional=True)])
check('P11', 'random signal sets over radio maps of 1-5 levels, fresh estimator each, both modes; distinct = signal sets; near ties skipped',
      [est('LEVEL', (20000, 800000), arg='radiomap', optional=True)])
check('P12', 'random detection scripts of 50-300 steps over 1-5 levels with gaps; distinct = scripts with a level change',
      [est('HIST', (60000, 2400000), arg='history', optional=True)])
check('P13', 'random detection scripts with pressure walks of up to 900 readings mixed with other sensors; distinct = scripts with a change or veto',
      [est('HIST', (40000, 1600000), arg='barometer', optional=True)])
check('P14', 'random histories of fixes, satellite reports and other sensors with ages on and next to the validity limit; distinct = histories with both outcomes',
      [est('GNSS', (75000, 3000000), optional=True)])

POST = MAPSRC + ['src/position_postprocessor/*.cpp', 'src/geometry.cpp']
def post(part, cases, **kw):
    return dict(src='h_post.cpp', flavour='plain', subset=POST, defines=['-DPART_' + part], cases=cases, shards=4, optional=True, **dict(dict(name=part.lower()), **kw))
check('P15', 'random histories of indoor and outdoor positions, ages on and next to the limit, every fusion setting; distinct = histories reaching at least two kinds of result',
      [post('FUSE', (75000, 3000000))])
check('P16', 'random walks with noise, jumps, gaps around 10 s, stale positions, resets and level changes, every smoothing setting, random barriers; distinct = histories with filtered positions',
      [post('AB', (30000, 1200000))])
check('P17', 'random well-conditioned systems up to 6x6 (permutation-like ones included), random point sequences for powers 0-3, random walks through the smoother; distinct = systems / sequences',
      [post('FIT', (100000, 4000000), arg='solver', name='solver'), post('FIT', (40000, 1600000), arg='poly', name='poly'), post('FIT', (30000, 1200000), arg='lstsq', name='lstsq')])
check('P18', 'random histories of known positions and query times over several levels; distinct = histories with interpolation',
      [post('TIME', (60000, 2400000))])
check('P19', 'random walks on and off random maps with ages on and next to the dead-reckoning limit; distinct = histories with and without positions',
      [post('POST', (30000, 1200000), arg='plain')])
check('P20', 'random walks with random steps and long rests; distinct = histories with held positions',
      [post('POST', (40000, 1600000), arg='stop')])
check('P21', 'random positions over random graphs including degenerate edges; distinct = histories with snapped positions',
      [post('POST', (30000, 1200000), arg='graph')])

MOT = ['src/sensor_fusion/*.cpp', 'src/vector3d.cpp']
def mot(arg, cases, **kw):
    return dict(src='h_motion.cpp', flavour='plain', subset=MAPSRC + MOT, arg=arg, name=arg, cases=cases, shards=4, optional=True, **kw)
check('P27', 'random walks, rests and shakes at 1-250 ms sampling with gaps and samples on the time limits, mixed with other sensors and repeated messages; distinct = histories with steps',
      [mot('pedo', (20000, 800000)), mot('rest', (5000, 200000)), mot('fusion', (20000, 800000))])
check('P28', 'random sensor histories under several gains, and devices held in random attitudes then turned; distinct = histories / attitudes',
      [mot('filter', (20000, 800000)), mot('attitude', (2000, 80000)), mot('fusion', (15000, 600000))])

CORE = ['src/*.cpp', 'src/*/*.cpp']
def ses(focus, cases, **kw):
    return dict(dict(name='session', src='h_client.cpp', flavour='plain', arg=focus, cases=cases, shards=4), **kw)
check('P42', 'random maps, settings (every stage on and off in all combinations) and mixed message streams, one message at a time through the public interface; distinct = histories whose reported position moves',
      [ses('P42', (24000, 960000), shards=6, defines=['-DWITH_ALT'], stub=False), ses('tri', (12000, 480000), name='triangles', defines=['-DWITH_TRI'], optional=True)])
for _p in ('P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P27', 'P28'):
    CHECKS[_p]['stages'].append(ses(_p, (9000, 360000), **(dict(defines=['-DWITH_ALT'], stub=False) if _p == 'P07' else {})))
check('P38', 'random sessions rich in gaps, silent transmitters and satellite fixes, ZONES and KNN; distinct = histories with and without positions',
      [ses('P38', (18000, 720000)), ses('P38', (6000, 240000), name='triangles', defines=['-DWITH_TRI'], optional=True)])
check('P39', 'random sessions with device azimuths, magnetometer, gyroscope and accelerometer readings around the azimuth lifetime; distinct = histories with positions',
      [ses('P39', (18000, 720000))])

def hashes(prop, st, res, exe, base, env, scratch, tier, seed, only, log):
    """Runs the same cases in two builds whose unwritten stack memory differs (and with heap fill bytes differing) and compares what they report."""
    import subprocess, json, sys
    sys.path.insert(0, 'lib')
    import build as B
    n = st['cases'][1 if tier == 'thorough' else 0]
    exes = [(exe, '0')]
    exes.append((B.build(st['src'], st['flavour2'], subset=st.get('subset'), defines=st.get('defines', ()), log=log), '170'))
    rows = []
    for e, fill in exes:
        cmd = [e] + base[1:] + ['--cases', str(n)] + (['--only', str(only)] if only is not None else [])
        env2 = dict(env); env2['MALLOC_PERTURB_'] = fill
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env2, cwd=scratch, timeout=600)
        h, done = {}, None
        for l in p.stdout.decode('utf8', 'replace').splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('t') == 'hash': h[d['case']] = (d['h'], d['n'])
            elif d.get('t') == 'done': done = d
            elif d.get('t') == 'viol': res.viol.append((d['key'], d['msg'], dict(stage=st['name'], case=d['case'], seed=seed)))
        if p.returncode != 0:
            res.viol.append(('crash', p.stderr.decode('utf8', 'replace')[-3000:] or 'exit code %d' % p.returncode, dict(stage=st['name'], case=len(h), seed=seed)))
        rows.append((h, done))
    a, b = rows[0][0], rows[1][0]
    for k in a:
        if k in b and a[k] != b[k]:
            res.viol.append(('unwritten-memory', 'case %d reports something else when unwritten memory holds other bytes' % k, dict(stage=st['name'], case=k, seed=seed)))
    if rows[0][1]:
        import run as RUN
        RUN.merge_done(res, st['name'], rows[0][1])

def srun(arg, cases, **kw):
    return dict(dict(name=arg, src='h_session.cpp', flavour='plain', arg=arg, cases=cases, shards=4), **kw)
check('P01', 'random maps, settings and mixed streams; each session run alone, after strangers, interleaved with an equal one and a stranger over scribbled stack and heap; again in builds with differently filled unwritten memory and under valgrind; distinct = histories with positions',
      [srun('P01', (3000, 120000), defines=['-DWITH_ALT'], stub=False),
       srun('hash', (600, 24000), flavour='autozero', flavour2='autopattern', custom=hashes),
       srun('hash', (24, 1200), name='valgrind', flavour='vg', shards=6, hang=300, wrap=['valgrind', '-q', '--error-exitcode=66', '--exit-on-first-error=yes', '--track-origins=no', '--fair-sched=no'])])
check('P02', 'two to six random sessions over one shared map in as many threads, with random yields and sleeps, under ThreadSanitizer and compared with running alone; distinct = observed interleavings of messages',
      [srun('threads', (600, 24000), flavour='tsan', shards=4, defines=['-DWITH_ALT'], stub=False), srun('threads', (2000, 80000), name='parallel', flavour='plain', shards=2),
       srun('funcs', (1800, 72000), flavour='tsan', defines=['-DWITH_FUNCS'], optional=True)])
check('P03', 'hostile streams (zero, negative, huge, tiny, infinite and not-a-number values, repeated, backward and far-apart times), hostile settings and degenerate maps under AddressSanitizer and UndefinedBehaviorSanitizer with a termination watch; distinct = histories with positions',
      [srun('P03', (48000, 1920000), flavour='san', shards=8),
       srun('P03', (9600, 384000), name='altitude', flavour='san', shards=8, defines=['-DWITH_ALT'], stub=False)])
check('P04', 'random sessions cut into batches at random with late and empty batches inserted, against one message at a time; distinct = cut histories with positions',
      [srun('P04', (9000, 360000))])
check('P05', 'random sessions with plain and with hostile but finite values, every output inspected; distinct = histories with positions',
      [srun('P05', (18000, 720000))])
CHECKS['P06']['stages'].append(srun('P06', (6000, 240000)))
check('P30', 'random layouts of 1-14 transmitters (level heights, flat layouts) with exact, noisy and inconsistent distances in random orders, and whole sessions with altitude on; distinct = altitudes compared',
      [dict(name='altitude', src='h_p30.cpp', flavour='plain', subset=MAPSRC + ['src/trilateration.cpp', 'src/measurement_types.cpp', 'src/measurements/*.cpp'], stub=False, cases=(15000, 600000), shards=4, optional=True),
       ses('P30', (9000, 360000), defines=['-DWITH_ALT'], stub=False)])

TOOLS = MAPSRC + ['tools/verification/*.cpp', 'src/measurement_types.cpp', 'src/vector3d.cpp', 'src/navigation_settings.cpp']
def tools(arg, cases, **kw):
    return dict(dict(name=arg, src='h_tools.cpp', flavour='plain', subset=TOOLS, tools=True, arg=arg, cases=cases, shards=4), **kw)
check('P31', 'random map documents of 1-5 levels with polygons, holes, transmitters, reference points and graphs (trees, cycles, repeated and jittered edges), key order, feature order, number and string notation and white space random; distinct = documents',
      [tools('map', (16000, 640000))])
check('P32', 'random logs mixing all documented entry types, key order, number and string notation random; distinct = logs of three or more kinds',
      [tools('log', (24000, 960000))])
check('P33', 'random subsets of all documented settings with random values in random order, several levels; distinct = documents with a setting off its default',
      [tools('settings', (16000, 640000))])

def fuzz(prop, st, res, exe, base, env, scratch, tier, seed, only, log):
    """Coverage-guided run: the harness' own generator writes the seeds, libFuzzer mutates them; any sanitizer report is a violation."""
    import subprocess, os, re, sys, shutil
    sys.path.insert(0, 'lib')
    import build as B
    import run as RUN
    n = st['cases'][1 if tier == 'thorough' else 0]
    keep = os.path.join(B.BUILD, 'replay'); os.makedirs(keep, exist_ok=True)
    if only is not None:
        art = [os.path.join(keep, x) for x in sorted(os.listdir(keep)) if x.startswith('fuzz-%s-' % prop)]
        for a in art:
            p = subprocess.run([exe, a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch)
            if p.returncode: res.viol.append((RUN.san_key(p.stderr.decode('utf8', 'replace'), p.returncode), p.stderr.decode('utf8', 'replace')[-5000:], dict(stage=st['name'], case=0, seed=seed)))
        res.evals += len(art)
        return
    gen = B.build(st['src'], 'plain', subset=st.get('subset'), tools=True, log=log)
    cor = os.path.join(scratch, 'corpus'); os.makedirs(cor)
    subprocess.run([gen, '--corpus', cor], check=True, env=env)
    procs = []
    for k in range(st['shards']):
        d = os.path.join(scratch, 'fz%d' % k); os.makedirs(d + '/c')
        for f in os.listdir(cor): shutil.copy(os.path.join(cor, f), d + '/c')
        err = open(os.path.join(scratch, 'fz%d.err' % k), 'w+b')
        procs.append((subprocess.Popen([exe, '-seed=%d' % (seed * 100 + k + 1), '-runs=%d' % (n // st['shards']), '-max_len=8000', '-timeout=60', '-rss_limit_mb=3000', '-artifact_prefix=%s/art-' % d,
                      '-print_final_stats=1', '-dict=' + os.path.join(B.VERIF, 'harness', 'docs.dict'), '-max_total_time=%d' % (100 if tier == 'quick' else 1500), d + '/c'],
                      stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=scratch), err, d))
    for p, err, d in procs:
        p.wait(); err.seek(0); e = err.read().decode('utf8', 'replace'); err.close()
        m = re.findall(r'stat::number_of_executed_units: (\d+)', e); u = int(m[-1]) if m else 0
        c = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', e)
        res.evals += u; res.events += u
        if c:
            res.distinct += int(c[-1][2])
            for k, v in zip(('edges', 'features', 'corpus'), c[-1]):
                kk = '%s.%s_max' % (st['name'], k); res.stats[kk] = max(res.stats.get(kk, 0), int(v))
        if p.returncode != 0:
            arts = [x for x in sorted(os.listdir(d)) if x.startswith('art-')]
            for x in arts: shutil.copy(os.path.join(d, x), os.path.join(keep, 'fuzz-%s-%s' % (prop, x)))
            key = 'hang' if any('timeout' in x for x in arts) else RUN.san_key(e, p.returncode)
            if 'out-of-memory' in e: key = 'memory'
            res.viol.append((key, e[-6000:], dict(stage=st['name'], case=0, seed=seed)))
check('P40', 'well-formed random documents, then cut, flipped, spliced, emptied, deeply nested and with values of other kinds and extreme sizes put in; and a coverage-guided libFuzzer run from the same seeds; all under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer with a termination watch; distinct = documents',
      [tools('hostile', (24000, 960000), flavour='sanio', shards=6),
       tools('fuzz', (120000, 6000000), flavour='sanfuzz', defines=['-DFUZZ'], shards=6, custom=fuzz)])

SA = 'standalone_algorithms/'
def sa(proj, src, inc, srcs, arg, cases, **kw):
    return dict(dict(name=arg, src=src, flavour='plain', mode='standalone', subset={'inc': [SA + proj + '/' + i for i in inc], 'src': [SA + proj + '/' + s for s in srcs]}, arg=arg, cases=cases, shards=4), **kw)
def tri(arg, cases, **kw): return sa('trilateteration', 'h_sa_tri.cpp', ['src'], ['src/trilateration.cpp', 'src/beacon.cpp'], arg, cases, **kw)
def spos(arg, cases, **kw): return sa('position_estimation', 'h_sa_pos.cpp', ['include'], ['src/*.cpp'], arg, cases, **kw)
def sped(arg, cases, **kw): return sa('pedometer', 'h_sa_pedo.cpp', ['include'], ['src/*.cpp'], arg, cases, **kw)
def scf(arg, cases, **kw): return sa('complementary_filter', 'h_sa_cf.cpp', ['include'], ['src/*.cpp'], arg, cases, **kw)
check('P34', 'random beacon maps (repeated identifiers included) and measurement sets (repeated, unknown, zero, negative, infinite and not-a-number distances), many calculations, map changes and copies on one object; distinct = histories with a solution',
      [tri('model', (60000, 2400000)), tri('hostile', (60000, 2400000), flavour='san')])
check('P35', 'random timed readings of known and unknown transmitters with gaps, late readings and every averaging and shift time, released and estimated position by position; the filter alone with gaps around 10 s; distinct = streams with several releases',
      [spos('model', (40000, 1600000)), spos('smooth', (30000, 1200000)), spos('hostile', (20000, 800000), flavour='san')])
check('P36', 'random walks, rests and shakes at 1-250 ms sampling, each fed in four groupings of samples and queries; resting devices; hostile values and times; distinct = histories with steps',
      [sped('model', (15000, 600000)), sped('rest', (5000, 200000)), sped('hostile', (15000, 600000), flavour='san')])
check('P37', 'random sensor histories under several gains, devices held in random attitudes then turned, hostile values and times; distinct = histories / attitudes',
      [scf('model', (20000, 800000)), scf('attitude', (2000, 80000)), scf('hostile', (30000, 1200000), flavour='san')])
check('P41', 'random radio maps, signal sets and particle sets, all solution modes; distinct = signal sets',
      [dict(est('LIKE', (20000, 800000)), subset=EST + ['src/likelihood/*.cpp'])])

_cf = ['complementary_filter/src/quaternion.cpp', 'complementary_filter/src/complementary_filter.cpp']
for _n, _v, _i in (('standalone', 'complementary_filter', []), ('pedometer', 'pedometer', [SA + 'pedometer/include'])):
    CHECKS['P29']['stages'].append(dict(name=_n, src='h_p29.cpp', flavour='san', mode='standalone', defines=['-DSTANDALONE'], optional=True, cases=(2000, 80000), shards=4,
        subset={'inc': _i + [SA + 'complementary_filter/include'], 'src': [SA + _v + '/src/vector3d.cpp'] + [SA + x for x in _cf]}))

def rel(arg, cases, **kw):
    return dict(dict(name=arg, src='h_relation.cpp', flavour='plain', arg=arg, cases=cases, shards=6, defines=['-DWITH_ALT'], stub=False), **kw)
check('P43', 'random sessions, each navigated twice from different starting times (across, up to and past powers of two, days, hours, up to 10^15 ms); distinct = histories with positions',
      [rel('P43', (12000, 480000))])
check('P44', 'random sessions, each navigated again with all levels, transmitters and reference points renamed in the same order (empty-looking, numeric, control and non-ASCII characters, very long, alike up to the last character) and the transmitters listed in another order; distinct = histories with positions',
      [rel('P44', (48000, 960000))])
check('P45', 'random sessions, each navigated again with a random subset of the (up to 30) settings, map contents and message contents changed that its settings switch off; distinct = histories with positions and a change',
      [rel('P45', (72000, 1440000))])
check('P46', 'random maps, logs and settings written as documents (key, feature and number notation random), read by the tools and navigated, against the same session in memory; distinct = histories with positions',
      [dict(name='documents', src='h_e2e.cpp', flavour='plain', tools=True, defines=['-DWITH_ALT'], stub=False, cases=(6000, 240000), shards=6)])
check('P47', 'random growth of route graphs with valid, repeated, reversed and impossible edges, signal models over distances from 0 to kilometres, radio maps, identifiers of arbitrary bytes, debug states; distinct = graphs and models',
      [dict(name='types', src='h_small.cpp', flavour='san', subset=['src/radiomap.cpp'], cases=(12000, 480000), shards=4)])
check('P48', 'random sessions fed the same walk for dozens of rounds with every allocation of the process counted, and maps and sessions made, used and dropped; distinct = walks and sessions',
      [dict(name='bounded', src='h_memory.cpp', flavour='plain', arg='bounded', defines=['-DWITH_ALT'], stub=False, cases=(2400, 72000), shards=6),
       dict(name='returned', src='h_memory.cpp', flavour='plain', arg='returned', defines=['-DWITH_ALT'], stub=False, cases=(2400, 96000), shards=6)])
check('P49', 'random beacons, iBeacons and measurements set, copied, compared, sorted and filtered against a map; distinct = sets of records',
      [dict(name='records', src='h_records.cpp', flavour='san', mode='standalone', subset={'inc': [SA + 'trilateteration/src'], 'src': [SA + 'trilateteration/src/beacon.cpp', SA + 'trilateteration/src/trilateration.cpp']}, cases=(8000, 320000), shards=4)])
TECH['P48'] = ('runtime monitoring: allocation counters over the whole process while real sessions run', '')
for _p in ('P43', 'P44', 'P45'):
    TECH[_p] = ('runtime monitoring: metamorphic oracle over pairs of executions of the real code, compared output by output and state by state', '')
TECH['P46'] = ('runtime monitoring: differential oracle between navigating from documents and from memory, output by output', '')
