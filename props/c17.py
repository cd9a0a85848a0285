"""C17: fluid velocity analysis - each particle gets the flow around it at its time."""
from flows import *
from c07 import both
import kit, gc

ID = 'C17'
RUNS = (1100, 9000)
RULE = ('A run stores particles with companion tracers (present, absent, out of the frame, some in the same place) and tracers in drawn '
        'orders, and makes a drawn sequence of analyses and direct uses of one analyser and one interpolant in one process, between other '
        'uses of the interpolant, some stopped by a read error or an interruption and made again. Every row is compared with brute force. '
        'Non-trivial: a row was compared.')
STATES = 'method, radius, companions, form of the range, tracers compared with neighbours, operation, kind of failure and its outcome'
STUB = STUB + ['interruption: KeyboardInterrupt raised at a drawn line of flowtracks by a trace function']


def gen(rng, tier, i):
    base = rng.choice([0, 1, 10001])
    maxlen = rng.choice([3, 7])
    p = gen_dataset(rng, ntraj=rng.choice([1, 2, 4, 7]), base=base, maxlen=maxlen, holes=rng.random() < .2, extra=[])
    t = gen_dataset(rng, ntraj=rng.choice([1, 2, 5, 12]), base=base, maxlen=maxlen, holes=rng.random() < .2, extra=rng.sample(['accel', 'tag'], 1))
    jobs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        jobs.append({'op': rng.choice(['analysis', 'analysis', 'analysis', 'direct']), 'range': both(rng, p, False),
                     'fail': rng.choice([None, None, ['line', rng.randrange(400)], ['read', rng.randrange(40)]]),
                     'before': rng.randrange(3), 'during': rng.randrange(3), 'out': rng.randrange(2)})
    return {'p': p, 't': t, 'jobs': jobs, 'comp': rng.choice([None, 'i8', 'i8', 'i4', 'f8']), 'method': rng.choice(['inv', 'inv', 'inv', 'rbf']),
            'k': rng.choice([1, 2, 3, 4]), 'radius': rng.choice([None, None, 80]), 'par': rng.choice([1, 2, 3]),
            'pframes': rng.random() < .5, 'tframes': rng.random() < .5, 'order': rng.randrange(4), 'wf': gen_disturb(rng, n=rng.choice([0, 1]))}


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and c['p']['base'] == c['t']['base'] and valid_faults(c['wf'])) or c['p']['cols']:
        return False
    if c['method'] not in ('inv', 'rbf') or c['comp'] not in (None, 'i4', 'i8', 'f8') or c['k'] < 1 or c['radius'] is not None and c['radius'] < 1 or c['par'] < 1:
        return False
    for j in c['jobs']:
        f = j['fail']
        if j['op'] not in ('analysis', 'direct') or not valid_range(j['range']) or j['range'] is None or None in j['range'] or j['out'] not in (0, 1):
            return False
        if f is not None and (len(f) != 2 or f[0] not in ('line', 'read') or f[1] < 0):
            return False
    return True


class Other(object):
    """An analyser which uses the same interpolant for something else."""
    def __init__(self, interp, how):
        self.interp, self.how = interp, how

    def descr(self):
        return [('other', float)]

    def analyse(self, frame, next_frame):
        tr = frame.tracers
        if self.how == 1 and len(tr):
            # tracers unto themselves
            self.interp.set_scene(tr.pos(), tr.pos(), tr.velocity(), np.arange(len(tr)))
            self.interp.interpolate()
        elif self.how == 2:
            self.interp.set_scene(next_frame.tracers.pos() + 1., next_frame.particles.pos(), next_frame.tracers.pos())
            if len(tr):
                self.interp.current_dists()
        return [np.arange(len(frame.particles), dtype=float)]


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    pm, tm = models(pds, tds, case['comp'])
    ctx.must(lambda: write_scene(case, pm, tm), 'save', faults=case['wf'])

    method, k = case['method'], case['k']
    radius = None if case['radius'] is None else case['radius'] * 1e-3
    par = case['par'] if method == 'inv' else 1e4 * case['par']
    ref = Ref(method, k, radius, par)
    expect = lambda rg: flow(ctx, ref, pm, tm, case['comp'], rg)

    compare = lambda *a: compare_flow(ctx, *a)

    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.interpolation import interpolant
    import tables
    ctx.begin()
    lo, hi = min(pm.span()[0], tm.span()[0]), max(pm.span()[1], tm.span()[1])
    dual = DualScene('./t.h5', './p.h5', 50., Particle(1e-3, 2500.), (lo, hi))
    it = interpolant(method, k, radius, par)
    an = FluidVelocitiesAnalyser(it)
    rows = 0
    last = {}

    def broken(fn, fail):
        """Returns (ended, result)"""
        if fail is None:
            return True, fn()
        return ctx.attempt(fn, ['read', fail[1], 5, 0] if fail[0] == 'read' else ['line', fail[1], 'K'])[:2]

    def use(how):
        if how == 1:
            it.set_scene(np.full((2, 3), 7.) + np.eye(3)[:2], np.zeros((3, 3)), np.ones((2, 3)))
            it.interpolate()
        elif how == 2:
            it.set_scene(np.zeros((0, 3)), np.zeros((1, 3)), np.zeros((0, 3)), np.r_[-1])

    def direct(rg):
        out = []
        for fr, nx in dual.iter_segments(rg):
            v, r = an.analyse(fr, nx)
            ctx.check(v.shape == r.shape == (len(fr.particles), 3), 'direct: shape', '%s %s' % (v.shape, r.shape))
            out.append((fr.particles.trajid(), np.full(len(fr.particles), fr.particles.time()), v, r))
        return out

    for j in case['jobs']:
        rg = absrange(j['range'], base)
        rg = (max(lo, rg[0]), min(hi, rg[1]))
        if rg[0] >= rg[1]:
            continue
        exp = expect(rg)
        use(j['before'])
        if j['op'] == 'direct':
            ended, out = broken(lambda: direct(rg), j['fail'])
            if not ended:
                gc.collect()
                out = direct(rg)
            rows += compare(*([np.concatenate([o[n] for o in out]) for n in range(4)] if out else [[]] * 4), exp, 'direct')
        else:
            path = './out%d.h5' % j['out']
            others = [Other(it, j['during'])]
            ans = [others[0], an] if j['out'] else [an, others[0]]
            job = lambda: analysis(dual, path, 'conf', ans, rg)
            ended, _ = broken(job, j['fail'])
            if not ended:
                gc.collect()
                job()
            last[path] = exp
        ctx.state(method, j['op'], j['fail'] and j['fail'][0], ended, j['before'], j['during'])
        for path in sorted(last):
            with tables.open_file(path, 'r') as f:
                t = f.get_node('/analysis')
                rows += compare(t.col('trajid'), t.col('time'), t.col('fluid_vel'), t.col('rel_vel'), last[path], 'table')
    ctx.end()
    ctx.stat('rows compared', rows)
    ctx.nontrivial = rows > 0
