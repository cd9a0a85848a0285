"""
check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed S] [--replay FILE]

Decides one property by deterministic simulation: seeded search over simulated
runs, each in its own process. Exit 0: held. Exit 1: VIOLATION. Exit 2: the
check itself failed.
"""
import argparse, copy, hashlib, importlib.util, json, os, pickle, random
import select, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.realpath(os.environ.get('SIM_REPO', '/repo'))
PYTHON = '/opt/venv/bin/python'


def outer(argv):
    """Build the simulated OS, then re-execute on top of it."""
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='vs-', dir=base)
    try:
        so = os.path.join(scratch, 'simfs.so')
        cc = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-Wall', '-o', so,
                             os.path.join(HERE, 'simfs.c'), '-ldl'], capture_output=True, text=True)
        if cc.returncode:
            print('cannot build the simulated OS:', cc.stderr)
            return 2
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(LD_PRELOAD=so, SIM_SO=so, SIM_SCRATCH=scratch, SIM_REPO=REPO,
                   PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED=os.environ.get('SIM_HASHSEED', '0'),
                   MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=scratch,
                   HOME=scratch, LC_ALL='C.UTF-8',
                   **{k: '1' for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
                                       'NUMEXPR_NUM_THREADS', 'NUMEXPR_MAX_THREADS', 'BLOSC_NTHREADS')})
        p = subprocess.Popen([PYTHON if os.path.exists(PYTHON) else sys.executable,
                              os.path.abspath(__file__)] + argv, env=env)
        try:
            return p.wait()
        except BaseException:
            p.kill()
            raise
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load(pid):
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    path = os.path.join(VERIF, 'props', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def make_case(prop, seed, i, tier):
    rng = random.Random('%s:%s:%d' % (seed, prop.ID, i))
    case = prop.gen(rng, tier, i)
    case.setdefault('mem', rng.randrange(1000))
    return json.loads(json.dumps(case))


# ---- pool ------------------------------------------------------------------
def worker(prop, seed, tier, scratch, wid, jobs_r, out_w, kit):
    """Reads run numbers, writes pickled (i, case, result)."""
    n = 0
    while True:
        b = b''
        while len(b) < 8:
            d = os.read(jobs_r, 8 - len(b))
            if not d:
                os._exit(0)
            b += d
        i = int.from_bytes(b, 'little', signed=True)
        try:
            case = make_case(prop, seed, i, tier)
            res = kit.isolated(prop, case, os.path.join(scratch, 'w%02d%07d' % (wid, n)))
        except BaseException:
            case, res = {}, {'violation': ('harness', traceback.format_exc()), 'stats': {}, 'findings': [],
                             'states': [], 'digest': '', 'nontrivial': False, 'elapsed': 0., 'wall': 0., 'trace': ''}
        n += 1
        data = pickle.dumps((i, case, res))
        data = len(data).to_bytes(8, 'little') + data
        while data:
            k = os.write(out_w, data[:1 << 16])
            data = data[k:]


def pool_run(prop, seed, tier, scratch, indices, kit, wall, stop, nworkers=None):
    """Yields (i, case, result) as they come."""
    nw = nworkers or min(8, os.cpu_count() or 1)
    ws = []
    for w in range(nw):
        jr, jw = os.pipe()
        orr, ow = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(jw); os.close(orr)
            for x in ws:
                os.close(x['jw']); os.close(x['r'])
            try:
                os.setpgid(0, 0)
                worker(prop, seed, tier, scratch, w, jr, ow, kit)
            finally:
                os._exit(1)
        os.close(jr); os.close(ow)
        ws.append({'pid': pid, 'jw': jw, 'r': orr, 'buf': b'', 'busy': 0})
    it = iter(indices)
    t_end = time.monotonic() + wall
    done = False

    def feed(w):
        nonlocal done
        if done or time.monotonic() > t_end or stop():
            return False
        try:
            i = next(it)
        except StopIteration:
            done = True
            return False
        os.write(w['jw'], i.to_bytes(8, 'little', signed=True))
        w['busy'] += 1
        return True

    for w in ws:
        feed(w); feed(w)
    try:
        while any(w['busy'] for w in ws):
            if stop():
                return
            rs, _, _ = select.select([w['r'] for w in ws if w['busy']], [], [], 5.)
            for w in ws:
                if w['r'] not in rs:
                    continue
                d = os.read(w['r'], 1 << 20)
                if not d:
                    raise RuntimeError('worker died')
                w['buf'] += d
                while len(w['buf']) >= 8:
                    n = int.from_bytes(w['buf'][:8], 'little')
                    if len(w['buf']) < 8 + n:
                        break
                    item = pickle.loads(w['buf'][8:8 + n])
                    w['buf'] = w['buf'][8 + n:]
                    w['busy'] -= 1
                    feed(w)
                    yield item
    finally:
        for w in ws:
            for k in ('jw', 'r'):
                os.close(w[k])
            try:
                os.killpg(w['pid'], signal.SIGKILL)
            except OSError:
                pass
        for w in ws:
            try:
                os.waitpid(w['pid'], 0)
            except OSError:
                pass


# ---- minimisation ------------------------------------------------------------
def paths(v, p=()):
    yield p, v
    if isinstance(v, dict):
        for k in sorted(v):
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from paths(x, p + (k,))


def put(case, p, v):
    c = copy.deepcopy(case)
    if not p:
        return v
    x = c
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = v
    return c


def candidates(case):
    for p, v in paths(case):
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    if size == n and n == 1 and False:
                        continue
                    yield put(case, p, v[:a] + v[a + size:])
                size //= 2
    for p, v in paths(case):
        if isinstance(v, bool):
            if v:
                yield put(case, p, False)
        elif isinstance(v, int) and v:
            for x in (0, 1, v // 2, v - 1):
                if x != v and (abs(x) < abs(v)):
                    yield put(case, p, x)


def minimise(prop, case, kind, evaluate, seconds=30., limit=600):
    t_end = time.monotonic() + seconds
    n = 0
    best = case
    progress = True
    while progress and n < limit and time.monotonic() < t_end:
        progress = False
        for c in candidates(best):
            if n >= limit or time.monotonic() > t_end:
                break
            try:
                if not prop.valid(c):
                    continue
            except Exception:
                continue
            n += 1
            if evaluate(c) == kind:
                best = c
                progress = True
                break
    return best, n


# ---- main --------------------------------------------------------------------
def vkind(res):
    return res['violation'][0] if res['violation'] else None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--digests', help='write the digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args()
    t0 = time.monotonic()
    scratch = os.environ['SIM_SCRATCH']
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    sys.path.insert(0, HERE)
    import kit
    prop = load(a.property)
    import flowtracks
    for m in ('io', 'scene', 'analysis', 'interpolation', 'sequence', 'trajectory', 'particle', 'smoothing'):
        try:
            importlib.import_module('flowtracks.' + m)
        except Exception as e:
            print('cannot import flowtracks.%s: %s' % (m, e))
    import tables, scipy.io, numpy.lib, configparser
    if os.path.realpath(flowtracks.__file__) != os.path.join(REPO, 'flowtracks', '__init__.py'):
        print('wrong flowtracks:', flowtracks.__file__)
        return 2
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    listed = dict((f['signature'], f['what']) for f in known['findings'] if f['property'] == prop.ID)

    serial = [0]
    def execute(case):
        serial[0] += 1
        res = kit.isolated(prop, case, os.path.join(scratch, 'x%09d' % serial[0]))
        return promote(res)

    def promote(res):
        """A finding that is not listed is a violation."""
        if not res['violation']:
            for sig, msg in res['findings']:
                if sig not in listed:
                    res['violation'] = (sig, msg)
                    break
        return res

    if a.replay:
        r = json.load(open(a.replay))
        res = execute(r['case'])
        for sig, msg in res['findings']:
            if sig in listed:
                print('KNOWN-FINDING: property=%s %s' % (prop.ID, listed[sig]))
        if res['violation']:
            same = vkind(res) == r.get('kind') and res['digest'] == r.get('digest')
            print(res['violation'][0], '-', res['violation'][1])
            print(res['trace'][-1500:])
            print('replay: same violation and trace digest: %s' % same)
            print('VIOLATION property=%s replay=%s' % (prop.ID, a.replay))
            return 1
        print('replay: no violation')
        return 0

    runs = a.runs or (prop.RUNS[0] if a.tier == 'quick' else prop.RUNS[1])
    wall = a.wall or (150. if a.tier == 'quick' else 1500.)
    stats, states, digests = {}, set(), {}
    nontrivial = set()
    elapsed = 0.
    n = 0
    samples, found, kf_seen, harness, walls = [], [], {}, [], []
    stop = lambda: bool(found) or len(harness) > 3

    for i, case, res in pool_run(prop, a.seed, a.tier, scratch, range(runs), kit, wall, stop, a.workers):
        promote(res)
        n += 1
        for k, v in res['stats'].items():
            stats[k] = stats.get(k, 0) + v
        states.update(res['states'])
        digests[i] = res['digest']
        elapsed += res['elapsed']
        walls.append(res['wall'])
        if res['nontrivial'] and not res['violation']:
            nontrivial.add(res['digest'])
        for sig, msg in res['findings']:
            kf_seen[sig] = kf_seen.get(sig, 0) + 1
        if len(samples) < 3 and res['nontrivial'] and len(json.dumps(case)) < 3000:
            samples.append({'run': i, 'case': case, 'digest': res['digest']})
        if res['violation']:
            if res['violation'][0] == 'harness':
                harness.append(res['violation'][1])
            else:
                found.append((i, case, res))
    searched = time.monotonic() - t0

    # Executions are repeatable: run a few again and compare.
    again = {'reruns': 0, 'mismatches': 0}
    if not found:
        for i in sorted(digests)[:3]:
            res = execute(make_case(prop, a.seed, i, a.tier))
            again['reruns'] += 1
            if res['digest'] != digests[i]:
                again['mismatches'] += 1

    replay = None
    violations = 0
    if found:
        i, case, res = min(found, key=lambda f: f[0])
        kind = vkind(res)
        conf = None
        for _ in range(4):
            r2 = execute(case)
            if r2['violation']:
                conf = r2
                if vkind(r2) == kind:
                    break
        if conf is None:
            harness.append('violation of run %d was not repeatable: %s' % (i, res['violation'],))
        else:
            kind = vkind(conf)
            violations = 1
            small, tried = case, 0
            if kind not in ('hang',) and not a.no_minimise:
                small, tried = minimise(prop, case, kind, lambda c: vkind(execute(c)))
            final = execute(small)
            if vkind(final) != kind:
                small, final = case, conf
            out = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(out, exist_ok=True)
            replay = os.path.join(out, '%s-%d-%d.json' % (prop.ID, a.seed, i))
            with open(replay, 'w') as f:
                json.dump({'property': prop.ID, 'seed': a.seed, 'run': i, 'tier': a.tier, 'kind': kind,
                           'message': final['violation'][1], 'digest': final['digest'], 'case': small,
                           'original_case': case, 'minimisation_runs': tried,
                           'trace': final['trace'].split('\n')[-200:]}, f, indent=1)
            print('run %d of seed %d: %s - %s' % (i, a.seed, kind, final['violation'][1]))
            print('minimised case (%d runs): %s' % (tried, json.dumps(small)))

    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump(digests, f, sort_keys=True)
    wall_s = time.monotonic() - t0
    faults = {'planned': {}, 'fired': {}}
    for k, v in sorted(stats.items()):
        w, _, rest = k.partition(' ')
        if w in faults:
            faults[w][rest] = v
    ev = {
        'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(nontrivial), 'rule': prop.RULE,
            'samples': samples,
            'simulated_runs': n, 'runs_per_hour': int(n / max(searched, 1e-3) * 3600),
            'seeds': '%d (run i uses PRNG seed "%d:%s:i")' % (n, a.seed, prop.ID),
            'simulated_time_s': round(elapsed, 3),
            'faults_planned': faults['planned'], 'faults_fired': faults['fired'],
            'other_counts': dict((k, v) for k, v in sorted(stats.items())
                                 if k.split(' ')[0] not in faults),
            'distinct_traces': len(set(digests.values())),
            'distinct_states': len(states), 'state_measure': prop.STATES,
            'determinism': again,
            'run_wall_s': {'median': round(sorted(walls)[len(walls) // 2], 4) if walls else None,
                           'max': round(max(walls), 3) if walls else None},
            'real_components': prop.REAL, 'stub_components': prop.STUB,
            'known_findings_seen': kf_seen,
        },
        'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall_s, 2), 'violations': violations,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for sig in sorted(kf_seen):
        if sig in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, listed[sig]))
    print('%s: %d runs, %d distinct traces, %d states, faults fired %s, %.1f s' % (
        prop.ID, n, len(set(digests.values())), len(states), json.dumps(faults['fired']), wall_s))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop.ID, replay))
        return 1
    if harness:
        print('check failed:', harness[0])
        return 2
    if again['mismatches']:
        print('note: %d of %d executions were not repeated exactly' % (again['mismatches'], again['reruns']))
    return 0


if __name__ == '__main__':
    if os.environ.get('SIM_SCRATCH') and os.environ.get('LD_PRELOAD'):
        sys.exit(main())
    sys.exit(outer(sys.argv[1:]))
