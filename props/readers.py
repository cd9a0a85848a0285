"""Drawn reads of all kinds of one data set in all formats, with the check of what they return."""
from formats import *
from saving import segments, CONF, DescrAnalyser, analysis_column
from c09 import joined
from c18 import frame_conf, frame_check
from c07 import both

AN = ['an_vec', 'an_num']


def gen_job(rng, p, span):
    q = rng.random()
    sub = lambda: both(rng, p, False)
    if q < .35:
        f = rng.choice(FORMATS)
        a = b = None
        if f not in ('mat', 'single'):
            a = rng.choice([None, rng.randrange(span)])
            b = rng.choice([None, rng.randrange(a or 0, span + 2)])
        return ['list', f, a, b, rng.choice([None, 0, 1, 3]), rng.random() < .5]
    if q < .42:
        return ['table', rng.choice([None, rng.randrange(span)]), rng.choice([None, rng.randrange(span + 2)])]
    if q < .54:
        return ['seq', rng.choice(FORMATS), rng.choice(FORMATS), [0, span] if rng.random() < .5 else sub()]
    if q < .66:
        return ['dual', rng.choice(['frames', 'segs']), sub() if rng.random() < .6 else None]
    if q < .78:
        return ['an', rng.choice(['collect', 'byid', 'trajs', 'where']), rng.randrange(1000)]
    if q < .84:
        return ['frame', rng.choice(['npz', 'hdf', 'mat']), rng.choice(['npz', 'hdf', 'mat']), rng.randrange(span)]
    if q < .90:
        return ['particles', rng.choice(['acc', 'mat']), rng.randrange(span), rng.random() < .5]
    return ['scene', gen_ops(rng, p, rng.randrange(2, 6), ['range', 'byid', 'trajs', 'frames', 'segs', 'frame', 'collect', 'meta', 'bbox', 'iter', 'iter'])]


def gen_data(rng, big=False):
    base = rng.choice([0, 1, 10001])
    maxlen = rng.choice([3, 6, 9])
    mk = lambda n: dict(gen_dataset(rng, ntraj=rng.choice(n), maxlen=60 if big else maxlen, extra=['accel'], base=base, span=90 if big else 2 * maxlen), tf=False)
    return mk([40] if big else [1, 3, 5, 8]), mk([1, 3, 6])


def valid_data(c):
    ok = lambda ds: valid_dataset(ds) and ds['cols'] == ['accel'] and not ds['tf'] and not any(x[3] for x in ds['trajs'])
    return ok(c['p']) and ok(c['t']) and c['p']['base'] == c['t']['base'] and c['style'] in (0, 1, 2)


def valid_job(j, pds):
    n = {'list': 6, 'table': 3, 'seq': 4, 'dual': 3, 'an': 3, 'frame': 4, 'particles': 4, 'scene': 2}
    if len(j) != n[j[0]]:
        return False
    if j[0] == 'list' and (j[1] not in FORMATS or j[1] in ('mat', 'single') and (j[2] is not None or j[3] is not None)):
        return False
    if j[0] == 'seq' and not (j[1] in FORMATS and j[2] in FORMATS and len(j[3]) == 2 and j[3][0] is not None and j[3][1] is not None and 0 <= j[3][0] < j[3][1]):
        return False
    if j[0] == 'dual' and not (j[1] in ('frames', 'segs') and (j[2] is None or None not in j[2]) and valid_range(j[2])):
        return False
    if j[0] == 'an' and j[1] not in ('collect', 'byid', 'trajs', 'where'):
        return False
    if j[0] == 'frame' and not (j[1] in ('npz', 'hdf', 'mat') and j[2] in ('npz', 'hdf', 'mat')):
        return False
    if j[0] == 'particles' and j[1] not in ('acc', 'mat'):
        return False
    return j[0] != 'scene' or valid_ops(j[1], pds)


class Readers(object):
    """``jobs``: the reads that will be made. Objects that were opened stay in ``objs``."""
    def __init__(self, ctx, case, jobs):
        self.ctx, self.case = ctx, case
        pds, tds = case['p'], case['t']
        self.pm, self.tm = Model(pds), Model(tds)
        self.span = max(x[1] + x[2] for x in pds['trajs'] + tds['trajs'])
        self.used = set(['hdf'])
        self.frames = [j for j in jobs if j[0] == 'frame']
        for j in jobs:
            self.used |= set(j[1:3]) & set(FORMATS) if j[0] in ('list', 'seq', 'frame', 'particles') else set()
        self.analysed = any(j[0] == 'an' for j in jobs)
        self.names = dict(((w, f), template(f, w)) for w in 'pt' for f in FORMATS)
        self.objs = {}

    def write(self):
        ctx, case, names, span = self.ctx, self.case, self.names, self.span
        pds, tds, base = case['p'], case['t'], case['p']['base']
        with open('conf', 'w') as f:
            f.write(CONF % (1e-3, 2500., 50., names['t', 'hdf'], names['p', 'hdf'], base, base + span - 1))

        def write():
            for f in sorted(self.used):
                store(f, 'p', pds, case['style'])
                store(f, 't', tds, case['style'])
            if self.analysed:
                from flowtracks.analysis import analysis
                from flowtracks.scene import read_dual_scene
                analysis(read_dual_scene('conf'), './an.h5', 'conf', [DescrAnalyser([k], pds['salt']) for k in AN])
        ctx.must(write, 'writing')
        for j in self.frames:
            self.frame_conf(j, True)
        if 'acc' in self.used:
            for t in range(span):
                if not os.path.exists('p/trajAcc.%d' % (t + base)):
                    open('p/trajAcc.%d' % (t + base), 'w').close()


    def stray(self):
        """What another process is about to save, or died while saving."""
        for d in sorted(d for d, _, _ in os.walk('.')):
            for n in ('p.h5', 't.h5', 'an.h5', 'traj_%d.npz' % self.case['p']['trajs'][0][0], 'ptv_is.%d' % self.case['p']['base']):
                with open(os.path.join(d, n + '.7-%d.tmp' % self.span), 'w') as f:
                    f.write('half')

    def frame_conf(self, j, write):
        _, pf, tf, t = j
        path = './frame-%s-%s-%d.cfg' % (pf, tf, t)
        return path, frame_conf(path if write else None, (self.names['p', pf], self.names['t', tf]), self.case['p'], self.case['t'],
                                t + self.case['p']['base'], 1e-3, 2500., 50., (pf, tf))

    def reader(self, j):
        """(call, check of its result) or None if there is nothing to read"""
        ctx, case, pm, tm, names, span, objs, an = self.ctx, self.case, self.pm, self.tm, self.names, self.span, self.objs, AN
        pds, tds, base = case['p'], case['t'], case['p']['base']
        frate = 50.
        ab = lambda x: None if x is None else x + base
        from flowtracks import io
        from flowtracks.sequence import Sequence
        from flowtracks.scene import DualScene, Scene
        from flowtracks.an_scene import AnalysedScene
        from flowtracks.particle import Particle


        def obj(key, make):
            if key not in objs:
                objs[key] = make()
            return objs[key]

        kind = j[0]
        if kind == 'list':
            _, f, a, b, mn, lazy = j
            a, b = ab(a), ab(b)
            if not readable(f, pds, a, b):
                return None
            exp = expected(f, pds, a, b, 2 if mn is None else mn, frate)
            return (lambda: list(io.trajectories(names['p', f], a, b, frate, None, mn, lazy)),
                    lambda got: Expected(exp, 'trajectories', frate).check_list(ctx, got, f))
        if kind == 'table':
            a, b = ab(j[1]), ab(j[2])
            return (lambda: [plain_traj(t) for t in io.trajectories_table(names['p', 'hdf'], a, b)],
                    lambda got: check_trajs(ctx, got, pm, (a, None if b is None else b + 1), 'table'))
        if kind == 'seq':
            _, pf, tf, r = j
            r = [x + base for x in r]
            if not all(readable(f, d, r[0], r[1]) for f, d in ((pf, pds), (tf, tds))):
                return None
            ep, et = expected(pf, pds, r[0], r[1], 0, frate), expected(tf, tds, r[0], r[1], 0, frate)
            if not ep or not et:
                return None
            mk = lambda: Sequence(tuple(r), frate, Particle(1e-3, 1000.), names['p', pf], names['t', tf])

            def check(got):
                p, t = Expected(ep, 'particles', frate), Expected(et, 'tracers', frate)
                ctx.check(len(got) == r[1] - r[0], 'sequence: length', '%d of %d' % (len(got), r[1] - r[0]))
                for n, (fr, nx) in enumerate(got):
                    p.check_segment(ctx, fr.particles, nx.particles, r[0] + n, 'sequence')
                    t.check_segment(ctx, fr.tracers, nx.tracers, r[0] + n, 'sequence')
            return lambda: list(obj(('seq', pf, tf, tuple(r)), mk)), check
        if kind == 'dual':
            _, what, r = j
            r = None if r is None else absrange(r, base)
            mk = lambda: DualScene(names['t', 'hdf'], names['p', 'hdf'], 50., Particle(1e-3, 2500.), (base, base + span))

            def call():
                d = obj('dual', mk)
                arg = () if r is None else (r,)
                if what == 'frames':
                    return [(plain_frame(f.particles), plain_frame(f.tracers)) for f in d.iter_frames(*arg)]
                return [((plain_frame(f.particles), plain_frame(n.particles)), (plain_frame(f.tracers), plain_frame(n.tracers)))
                        for f, n in d.iter_segments(*arg)]

            def check(got):
                lo, hi = r or (base, base + span)
                ctx.check(len(got) == hi - lo - (what == 'segs'), 'dual: length', '%d in %s' % (len(got), (lo, hi)))
                for n, (p, t) in enumerate(got):
                    if what == 'frames':
                        check_frame(ctx, p, pm, lo + n, 'dual particles')
                        check_frame(ctx, t, tm, lo + n, 'dual tracers')
                    else:
                        check_segment(ctx, p, pm, lo + n, 'dual particles', True)
                        check_segment(ctx, t, tm, lo + n, 'dual tracers', True)
            return call, check
        if kind == 'an':
            _, what, n = j
            full = joined(pm, an, pds['salt'], (base, base + span), (base, base + span))
            keys = [['an_vec', 'trajid', 'pos'], ['time', 'an_num'], ['an_vec'], ['velocity', 'time']][n % 4]
            vals = sorted(int(x) for x in full['an_num']) or [0]
            where = [['an_num', [vals[n % len(vals)], vals[-1] + 1, bool(n & 4)]]] + ([['time', [base + 1, base + span - 1, False]]] if n & 8 else [])
            trid = pm.ids()[n % len(pm.ids())]

            def call():
                s = obj('an', lambda: AnalysedScene('./an.h5'))
                if what == 'collect':
                    return [np.array(x) for x in s.collect(keys)]
                if what == 'where':
                    return [np.array(x) for x in s.collect(keys, dict((k, tuple(v)) for k, v in where))]
                if what == 'byid':
                    return [plain_traj(s.trajectory_by_id(trid))]
                return [plain_traj(t) for t in s.iter_trajectories()]

            def check(got):
                if what in ('collect', 'where'):
                    m = where_mask(full, where) if what == 'where' else slice(None)
                    exp = [full[k][m] for k in keys]
                    ctx.check([len(g) for g in got] == [len(e) for e in exp], 'analysed: rows', '%s, expected %d' % ([len(g) for g in got], len(exp[0])))
                    ctx.check(row_bag(got) == row_bag(exp), 'analysed: values', '')
                    return
                ids = [trid] if what == 'byid' else pm.ids()
                ctx.check(sorted(g[0] for g in got) == ids, 'analysed: trajectories', '%s, expected %s' % (sorted(g[0] for g in got), ids))
                for i, d in got:
                    m = full['trajid'] == i
                    order = np.argsort(full['time'][m], kind='stable')
                    for k in sorted(set(full) - set(['trajid'])):
                        ctx.check(same(d[k], full[k][m][order]), 'analysed: rows', 'trajectory %s, %s' % (i, k))
            return call, check
        if kind == 'frame':
            path, exp = self.frame_conf(j, False)
            if exp is None:
                return None
            return lambda: io.read_frame_data(path), lambda got: frame_check(ctx, exp, got)
        if kind == 'particles':
            _, f, t, seg = j
            m = mat_model(pds) if f == 'mat' else pm
            t += base
            here = m.frame(t)
            if seg:
                here = dict((i, r) for i, r in here.items() if i in m.frame(t + 1))
            if not here:
                return None
            call = lambda: np.array(io.collect_particles(names['p', 'acc'], t, seg) if f == 'acc' else io.collect_particles_mat(names['p', 'mat'], t, seg))

            def check(got):
                got = got.reshape((1 + seg, -1, got.shape[-1]))
                ctx.check(got.shape[1] == len(here), 'particles of a frame: number', '%d, expected %d' % (got.shape[1], len(here)))
                for k in range(1 + seg):
                    now = m.frame(t + k)
                    e = sorted(tuple(now[i]['pos']) + tuple(now[i]['velocity']) for i in here)
                    g = sorted(tuple(x[:6]) for x in got[k])
                    ctx.check(g == e, 'particles of a frame: rows', 'frame %d' % t)
            return call, check

        if kind == 'scene':
            def call():
                return perform(obj('scene', lambda: Scene(names['p', 'hdf'])), [['range', None]] + j[1], base, pm.ids())

            def check(got):
                verify(ctx, [['range', None]] + j[1], got, pm, None, True)
            return call, check
