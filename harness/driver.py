"""Runs one check: builds a scratch copy of /repo, runs the shards, merges what they observed, reports."""
import array, importlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import meta

NSHARDS = 8
GRACE = 3


def load_known(prop):
    out = {}
    try:
        lines = open(os.path.join(VERIF, 'known_findings.txt')).read().splitlines()
    except IOError:
        return out
    for l in lines:
        m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def prepare(scratch, build):
    """The sources as the tests import them; with build, also the package as setup.py builds it (2to3)."""
    work = os.path.join(scratch, 'work')
    os.mkdir(work)
    shutil.copytree(os.path.join(REPO, 'cmdis'), os.path.join(work, 'cmdis'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    for f in ('setup.py', 'setup.cfg', 'README.md', 'LICENSE'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), work)
    ver = os.path.join(work, 'cmdis', '_version.py')
    if not os.path.exists(ver):
        with open(ver, 'w') as f:
            f.write("version = '0.1'\n")
    src = os.path.join(scratch, 'src')
    shutil.copytree(os.path.join(work, 'cmdis'), os.path.join(src, 'cmdis'))
    built = None
    if build:
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.1', HOME=scratch)
        r = subprocess.run([sys.executable, 'setup.py', '-q', 'build', '-b', os.path.join(scratch, 'build')], cwd=work,
                           env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        built = os.path.join(scratch, 'build', 'lib')
        if r.returncode or not os.path.isdir(os.path.join(built, 'cmdis')):
            print(r.stdout.decode(errors='replace')[-3000:])
            return None
    return src, built


def run_shards(prop, tier, seed, paths, scratch, known, budget, shards):
    jobs = list(shards)
    running, done = [], {}
    found = None        # when the first violation was reported; the others get a few seconds more
    width = min(NSHARDS, os.cpu_count() or 1)
    hard = budget + 240
    while jobs or running:
        while jobs and len(running) < width:
            k = jobs.pop(0)
            out = os.path.join(scratch, 'out%d' % k)
            sdir = os.path.join(scratch, 'shard%d' % k)
            os.mkdir(sdir)
            cmd = [sys.executable, os.path.join(HERE, 'worker.py'), '--prop', prop, '--tier', tier, '--shard', str(k),
                   '--nshards', str(NSHARDS), '--seed', str(seed), '--src', paths[k % len(paths)], '--out', out,
                   '--scratch', sdir, '--known', json.dumps(sorted(known)), '--budget', str(budget)]
            log = open(out + '.log', 'wb')
            running.append((k, out, log, time.time(),
                            subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=sdir)))
        time.sleep(.05)
        for j in list(running):
            k, out, log, t0, p = j
            late = found is not None and time.time() - found > GRACE
            if p.poll() is None and time.time() - t0 < hard and not late:
                continue
            if p.poll() is None:
                p.kill()
                p.wait()
            running.remove(j)
            log.close()
            if late and not os.path.exists(out):
                done[k] = {'status': 'ok', 'cut': True}
                continue
            try:
                with open(out) as f:
                    done[k] = json.load(f)
            except (IOError, ValueError):
                done[k] = {'status': 'error', 'error': 'worker %d ended with %r\n%s' % (
                    k, p.returncode, open(out + '.log', errors='replace').read()[-2000:])}
            if done[k].get('violations') and found is None:
                found = time.time()
                jobs = []
    return done


def main():
    prop = sys.argv[1]
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    shards = range(NSHARDS)
    if replay:
        tier, seed, shards = replay['tier'], replay['seed'], [replay['shard']]
    info = meta.CHECKS[prop]
    t0 = time.time()
    known = load_known(prop)
    scratch = tempfile.mkdtemp(prefix='cmdis-verif-')
    try:
        p = prepare(scratch, info.get('built') or tier == 'thorough')
        if p is None:
            print('ERROR: setup.py build failed')
            return 2
        src, built = p
        if info.get('built'): paths = [built]
        elif built: paths = [src, built]
        else: paths = [src]
        budget = float(os.environ.get('VERIF_BUDGET', 900 if tier == 'thorough' else 400))
        done = run_shards(prop, tier, seed, paths, scratch, known, budget, shards)
        keys = set()
        for k in shards:
            try:
                a = array.array('q')
                with open(os.path.join(scratch, 'out%d.keys' % k), 'rb') as f:
                    a.frombytes(f.read())
                keys.update(a)
            except IOError:
                pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    evals, counters, samples, viols, knowns, errors, stopped = 0, {}, [], [], {}, [], 0
    for k in shards:
        d = done.get(k, {'status': 'ok'})
        if d['status'] != 'ok':
            errors.append(d.get('error'))
        if 'evaluations' not in d:
            continue
        evals += d['evaluations']
        stopped += bool(d['stopped'])
        for c, v in d['counters'].items():
            counters[c] = counters.get(c, 0) + v
        samples += d['samples'][:1] if len(samples) >= 3 else d['samples']
        for v in d['violations']:
            viols.append(dict(v, shard=k))
        for key, (n, det) in d['knowns'].items():
            e = knowns.setdefault(key, [0, det])
            e[0] += n
    wall = time.time() - t0
    cov = {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': info['rule'], 'samples': samples[:8],
           'observed': counters, 'shards': len(list(shards)), 'shards_stopped_by_time_guard': stopped}
    if knowns:
        cov['known_findings_seen'] = dict((k, v[0]) for k, v in knowns.items())
    if info.get('exhaustive'):
        cov['exhaustive_part'] = info['exhaustive']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': info['assumptions'], 'wall_s': round(wall, 2), 'violations': len(viols)}
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(edir, 'replays'), exist_ok=True)
    if not replay:
        with open(os.path.join(edir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for key in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, known[key], knowns[key][0]))
    for n, v in enumerate(viols[:8]):
        if replay:
            path = sys.argv[3]
        else:
            path = os.path.join(edir, 'replays', '%s-%s-%d-%d.json' % (prop, tier, seed, n))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed,
                               how='run.sh %s --replay %s reruns this shard to this case' % (prop, path)), f, indent=1)
        print('%s shard %d case %d: %s' % (v['kind'], v['shard'], v['case'], json.dumps(v['detail'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s; observed %s' % (
        prop, tier, seed, evals, len(keys), len(viols), wall, json.dumps(counters, sort_keys=True)))
    if viols:
        return 1
    for e in errors:
        print('ERROR:', e)
    if errors:
        return 2
    if replay:
        print('the replayed shard shows no violation')
        return 0
    low = dict((c, counters.get(c, 0)) for c, m in info['floors'].items() if counters.get(c, 0) < m)
    if low:
        print('INCONCLUSIVE: the monitors observed too little: %s (need %s)' % (low, info['floors']))
        return 2
    return 0


sys.exit(main())
