"""C21: a chain of steps that was interrupted anywhere can be started again, and ends with the same results."""
from readers import *
import kit

ID = 'C21'
RUNS = (600, 12000)
RULE = ('A run writes tracking files and performs the whole chain - reading, smoothing, conversion to databases, analysis, joined results - as make does: '
        'steps whose result is there are left out. The chain dies, fails or is interrupted at drawn places, up to three times, or stalls while '
        'another process runs it too; started again without faults it ends with the rows of an undisturbed chain, which are compared with '
        'the model. Non-trivial: an attempt was stopped by a fault, or two chains overlapped.')
STATES = 'format, options of the chain, steps done when an attempt was stopped, kind of fault'

CLS_ERR = [('open', [13, 24, 5]), ('read', [5]), ('dir', [5]), ('meta', [5, 13, 28]), ('stat', [5, 13])]


def place_in(rng):
    # Thousandths of the operations, or 1000 + n for the n-th from the end (most reads of data).
    return rng.randrange(1000) if rng.random() < .6 else 1000 + rng.randrange(20)


def gen(rng, tier, i):
    p, t = gen_data(rng, i % 50 == 9)
    span = max(x[1] + x[2] for x in p['trajs'] + t['trajs'])
    opts = {'smooth': rng.choice([0, 0, 1, 2, 3]), 'trim': rng.choice([None, None, 1]), 'lazy': rng.random() < .5, 'frames': rng.random() < .5,
            'fluid': rng.random() < .3, 'minlen': rng.choice([None, 3])}
    p['trajs'][0][1:3] = [rng.randrange(3), max(8, p['trajs'][0][2])]
    if opts['fluid']:
        for x in t['trajs'][:3]:
            x[1:3] = [0, span + 4]
    tries = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = rng.random()
        if q < .45:
            tries.append({'cls': rng.choice(['open', 'read', 'write', 'write', 'meta', 'dir']), 'at': place_in(rng), 'act': 'crash', 'arg': rng.randrange(2000)})
        elif q < .75:
            c, errs = CLS_ERR[rng.choice([0, 1, 1, 1, 2, 3, 4])]
            tries.append({'cls': c, 'at': place_in(rng), 'act': 'err', 'arg': rng.choice(errs), 'sticky': rng.random() < .4})
        else:
            tries.append({'what': rng.choice(['line', 'line', 'mem', 'deep']), 'at': place_in(rng), 'exc': rng.choice('KM')})
        tries[-1]['step'] = rng.randrange(5)
    rival = None
    if rng.random() < .3:
        rival = {'cls': rng.choice(['open', 'read', 'write', 'meta']), 'at': place_in(rng), 'step': rng.randrange(5)}
    return {'p': p, 't': t, 'fmt': [rng.choice(FORMATS), rng.choice(FORMATS)], 'opts': opts, 'tries': tries, 'rival': rival,
            'dirs': [[rng.randrange(3), rng.randrange(10**6)] for _ in range(5)], 'style': rng.randrange(3)}


def valid(c):
    if not valid_data(c) or len(c['fmt']) != 2 or any(f not in FORMATS for f in c['fmt']) or len(c['dirs']) < 5:
        return False
    for f in c['tries']:
        if 'what' in f:
            if f['what'] not in ('line', 'mem', 'deep') or f['exc'] not in ('K', 'M'):
                return False
        elif f['act'] == 'err' and not (f['cls'] in dict(CLS_ERR) and f['arg'] in dict(CLS_ERR)[f['cls']]) or f['act'] not in ('err', 'crash'):
            return False
        if not 0 <= f['at'] < 1020 or f['step'] < 0:
            return False
    if c['opts']['smooth'] not in (0, 1, 2, 3):
        return False
    if any(len(d) != 2 or d[0] not in (0, 1, 2) for d in c['dirs']):
        return False
    return c['rival'] is None or c['rival']['cls'] in ('open', 'read', 'write', 'meta') and 0 <= c['rival']['at'] < 1020 and c['rival']['step'] >= 0


WINDOW = 5

def steps(case, d):
    """[(result, function)] of a chain whose results are in directory d."""
    from flowtracks import io
    from flowtracks.smoothing import savitzky_golay
    from flowtracks.scene import Scene, read_dual_scene
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    o = case['opts']
    pf, tf = case['fmt']
    path = lambda n: './%s/%s' % (d, n)

    def load(f, w, minlen=None):
        return io.trajectories(template(f, w), None, None, 50., None, minlen, o['lazy'])

    def particles():
        tr = load(pf, 'p', o['minlen'])
        if o['smooth']:
            tr = savitzky_golay(list(tr), 50., WINDOW, o['smooth'])
        io.save_particles_table(path('p.h5'), tr, o['trim'])

    def tracers():
        io.save_particles_table(path('t0.h5' if o['frames'] else 't.h5'), load(tf, 't'))

    def by_frames():
        io.save_frames_hdf(path('t.h5'), Scene(path('t0.h5')).iter_frames())

    def analyse():
        an = [DescrAnalyser(AN, 5)]
        if o['fluid']:
            an.append(FluidVelocitiesAnalyser(interpolant('inv', 3, 1)))
        analysis(read_dual_scene('./%s/conf' % d), path('an.h5'), './%s/conf' % d, an)

    return [('p.h5', particles)] + ([('t0.h5', tracers), ('t.h5', by_frames)] if o['frames'] else [('t.h5', tracers)]) + [('an.h5', analyse)]


def make(case, d, mark=lambda: None):
    from flowtracks.an_scene import AnalysedScene
    mark()
    for name, step in steps(case, d):
        if not os.path.exists('./%s/%s' % (d, name)):
            step()
        mark()
    keys = ['trajid', 'time', 'pos', 'velocity', 'accel'] + AN + (['fluid_vel', 'rel_vel'] if case['opts']['fluid'] else [])
    s = AnalysedScene('./%s/an.h5' % d)
    a = dict(zip(keys, [np.array(x) for x in s.collect(keys)]))
    mark()
    order = np.lexsort((a['time'], a['trajid']))
    return dict((k, v[order]) for k, v in a.items())


def run(case, ctx):
    pds, tds, o = case['p'], case['t'], case['opts']
    pf, tf = case['fmt']
    if not all(readable(f, d, None, None) for f, d in ((pf, pds), (tf, tds))):
        raise kit.Skip()
    ep = expected(pf, pds, None, None, 2 if o['minlen'] is None else o['minlen'], 50.)
    et = expected(tf, tds, None, None, 2, 50.)
    trim = o['trim'] or 0
    times = [e['time'] for e in ep if len(e['time']) >= (WINDOW if o['smooth'] else 1)]
    times = [t[trim:len(t) - trim] for t in times if len(t) > 2 * trim]
    if not times or not et:
        raise kit.Skip()
    lo, hi = min(t[0] for t in times), max(t[-1] for t in times)
    covered = set(int(t) for e in et for t in e['time'])
    if hi - lo < 1 or o['fluid'] and not all(t in covered for t in range(lo, hi + 1)):
        raise kit.Skip()

    def write():
        store(pf, 'p', pds, case['style'])
        store(tf, 't', tds, case['style'])
    ctx.must(write, 'writing')
    for d in ('ref', 'w'):
        os.mkdir(d)
        with open(d + '/conf', 'w') as f:
            f.write(CONF % (1e-3, 2500., 50., './%s/t.h5' % d, './%s/p.h5' % d, lo, hi))

    lines = kit.Interrupt(None)
    def first():
        marks = []
        def mark():
            L = kit.lib()
            m = dict((k, L.sim_count(v)) for k, v in kit.CLS.items())
            m.update(mem=kit.memory.calls, deep=kit.memory.deep, line=lines.lines)
            marks.append(m)
        with lines:
            r = make(case, 'ref', mark)
        return r, marks
    exp, marks = ctx.count(first).value
    # The model: one row for each particle and pair of successive frames.
    rows = sum(int(np.sum(np.diff(t) == 1)) for t in times)
    ctx.check(len(exp['trajid']) == rows, 'undisturbed chain: rows', '%d, expected %d' % (len(exp['trajid']), rows))
    if not o['smooth']:
        cut = lambda e: e['time'][trim:len(e['time']) - trim]
        good = sorted((int(t),) + tuple(x) for e in ep if len(e['time']) > 2 * trim
                      for t, n, x in zip(cut(e)[:-1], cut(e)[1:], e['pos'][trim:]) if n == t + 1)
        got = sorted((int(t),) + tuple(x) for t, x in zip(exp['time'], exp['pos']))
        ctx.check(np.allclose(np.array(got).reshape((rows, 4)), np.array(good).reshape((rows, 4)), rtol=1e-12, atol=0), 'undisturbed chain: positions', '')
    for k in AN:
        ctx.check(same(exp[k], analysis_column(5, k, exp['trajid'].astype(np.int64), exp['time'].astype(np.int64))), 'undisturbed chain: analysis', k)

    def compare(got, what):
        ctx.check(set(got) == set(exp) and all(got[k].shape == exp[k].shape for k in exp), what + ': rows', '%d, expected %d' % (len(got['time']), rows))
        for k in exp:
            ctx.check(np.allclose(got[k], exp[k], rtol=1e-9, atol=1e-12, equal_nan=True) if exp[k].dtype.kind == 'f' else same(got[k], exp[k]),
                      what + ': values', k)

    names = [n for n, _ in steps(case, 'w')]
    have = lambda: sum(os.path.exists('w/' + n) for n in names)

    def place(f, cls):
        """Index of the operation at which f comes, in one of the steps still to be done."""
        todo = [k for k, n in enumerate(names + [None]) if n is None or not os.path.exists('w/' + n)]
        ops = [marks[k + 1][cls] - marks[k][cls] for k in todo]
        usable = [k for k, n in enumerate(ops) if n > 0]
        if not usable:
            return 0
        k = usable[f['step'] % len(usable)]
        return sum(ops[:k]) + (f['at'] * ops[k] // 1000 if f['at'] < 1000 else max(0, ops[k] - 1 - (f['at'] - 1000)))
    stopped = overlap = False
    for n, f in enumerate(case['tries']):
        kw, fn, faults = {}, lambda: make(case, 'w'), []
        intr = None
        if 'what' not in f:
            faults = [dict(f, idx=place(f, f['cls']))]
        elif f['what'] == 'line':
            exc = {'K': KeyboardInterrupt, 'M': MemoryError}[f['exc']]
            def fn(at=place(f, 'line'), exc=exc):
                with kit.Interrupt(at, exc):
                    return make(case, 'w')
        else:
            at = place(f, f['what'])
            kw['memfail'] = at if f['what'] == 'mem' else (None, at)
        before = have()
        # PyTables may crash where memory runs out inside it.
        o1 = ctx.proc(fn, faults=faults, dirmode=case['dirs'][n], may_die=f.get('what') == 'deep', **kw)
        ctx.state(before, have(), o1.kind, [f.get(k) for k in ('cls', 'act', 'what')], case['fmt'])
        if o1.kind == 'ok':
            compare(o1.value, 'chain that met a fault')
            continue
        stopped = True
        if o1.kind == 'exc':
            line = 'simulated interruption' in o1.exc[2]       # NumPy may replace the exception
            came = any(o1.sim['fired']) or o1.sim['mem_fired'] or line
            if line:
                ctx.stat('fired line:' + ('KeyboardInterrupt' if f['exc'] == 'K' else 'MemoryError'))
            ctx.check(came, 'chain fails without a fault', str(o1.exc[:3]))
    if case['rival']:
        fs = [dict(case['rival'], act='park', arg=0, idx=place(case['rival'], case['rival']['cls']))]
        h = ctx.start(lambda: make(case, 'w'), faults=fs, dirmode=case['dirs'][3], park=True)
        if ctx.parked(h):
            overlap = True
            ctx.state('overlap', have(), fs[0]['cls'])
            compare(ctx.must(lambda: make(case, 'w'), 'chain beside a stalled one', dirmode=case['dirs'][4]), 'chain beside a stalled one')
            ctx.resume(h)
        o2 = ctx.finish(h)
        ctx.check(o2.kind == 'ok', 'chain fails beside another one', str(o2.exc and o2.exc[:3]))
        compare(o2.value, 'stalled chain')
    compare(ctx.must(lambda: make(case, 'w'), 'chain started again', dirmode=case['dirs'][4]), 'chain started again')
    ctx.nontrivial = stopped or overlap
