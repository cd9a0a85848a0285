"""C09: AnalysedScene joins particles with their analysis."""
from saving import *
from c07 import dual_data, both
import kit

ID = 'C09'
RUNS = (800, 9000)
RULE = ('A run analyses a drawn DualScene (whole or part of its range), may save the same particles again in another order, and makes a drawn history of selections and trajectory reads on the '
        'AnalysedScene, interleaved, under interrupted and short transfers. Non-trivial: some joined rows were compared.')
STATES = 'operation, keys from one or both tables, conditions on one or both, range analysed relative to the range configured, particles saved again'


def gen(rng, tier, i):
    p, t = dual_data(rng, False, i % 40 == 11)
    if rng.random() < .5:
        p['cols'] = sorted(set(p['cols']) | {'diam', 'tag'})
    p['cols'] = p['cols'] + [c for c in ('t', 'trid') if rng.random() < .1]
    span = max(x[1] + x[2] for x in p['trajs'])
    a = rng.randrange(0, max(1, span // 2))
    conf = [a, rng.randrange(a + 1, span + 3)] if rng.random() < .6 else [0, span]
    if rng.random() < .3:
        q = rng.randrange(0, span)
        sub = [q, rng.randrange(q + 2, span + 4)]
    else:
        sub = -1
    an = rng.sample(['an_vec', 'an_num', 'an_len', 'an_pair', 'an_one'], rng.randrange(1, 6))
    keys = ['pos', 'velocity', 'trajid', 'time'] + p['cols'] + an
    scalars = ['trajid', 'time'] + [c for c in p['cols'] if c in ('diam', 'tag', 'big', 't', 'trid')] + [c for c in an if c in ('an_num', 'an_len', 'an_one')]
    m = Model(p)
    f = joined(m, an, p['salt'], None, None)
    ops = []
    for _ in range(rng.randrange(2, 7)):
        q = rng.random()
        if q < .6:
            where = None
            if rng.random() < .75:
                where = []
                for k in rng.sample(scalars, min(len(scalars), rng.choice([1, 1, 2, 3]))):
                    vals = sorted(set(float(x) for x in f[k])) or [0., 1.]
                    lo, hi = sorted([rng.choice(vals), rng.choice(vals) + rng.choice([0, 0, .5])])
                    if k in ('trajid', 'time', 'tag', 'big', 'trid', 'an_num') and lo == int(lo) and hi == int(hi):
                        lo, hi = int(lo), int(hi)
                    where.append([k, [lo, hi, rng.random() < .3]])
            ops.append(['collect', rng.sample(keys, rng.randrange(1, min(5, len(keys)) + 1)), where])
        elif q < .8:
            ops.append(['byid', rng.randrange(len(p['trajs']))])
        elif q < .95:
            ops.append(['step', rng.randrange(1, 4)])
        else:
            ops.append(['meta'])
    resave = None
    if rng.random() < .4:
        resave = [rng.randrange(4), rng.random() < .5]
    return {'p': p, 't': t, 'conf': conf, 'sub': sub, 'an': an, 'ops': ops, 'pframes': rng.random() < .3, 'resave': resave,
            'order': rng.randrange(4), 'rf': gen_disturb(rng, writes=0)}


def joined(model, an, salt, conf, done):
    """All joined rows: particles at times in ``conf`` which have an analysis in ``done``."""
    rows = []
    for t, ids in segments(model, done):
        if conf is None or conf[0] <= t < conf[1]:
            rows += [(i, t) for i in ids]
    trid = np.array([r[0] for r in rows], dtype=np.int64)
    t = np.array([r[1] for r in rows], dtype=np.int64)
    out = {'trajid': trid, 'time': t}
    for c in model.cols:
        out[c] = column(model.ds['salt'], c, trid, t)
    for k in an:
        out[k] = analysis_column(salt, k, trid, t)
    return out


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and valid_faults(c['rf']) and c['p']['base'] == c['t']['base']):
        return False
    if not 0 <= c['conf'][0] < c['conf'][1] or (c['sub'] != -1 and not 0 <= c['sub'][0] < c['sub'][1]):
        return False
    if not c['an'] or len(set(c['an'])) != len(c['an']) or not set(c['an']) <= set(DescrAnalyser.COLS):
        return False
    keys = set(['pos', 'velocity', 'trajid', 'time'] + c['p']['cols'] + c['an'])
    if not 0 <= c['order'] < 4 or c['resave'] is not None and not (len(c['resave']) == 2 and 0 <= c['resave'][0] < 4):
        return False
    for o in c['ops']:
        if o[0] == 'collect':
            if len(o) != 3 or not o[1] or not set(o[1]) <= keys or len(set(o[1])) != len(o[1]):
                return False
            if o[2] is not None and (not o[2] or not set(k for k, _ in o[2]) <= keys - {'pos', 'velocity', 'accel', 'grad', 'an_vec', 'an_pair'}
                                     or any(len(v) != 3 or v[0] > v[1] for _, v in o[2])):
                return False
        elif o[0] in ('byid', 'step'):
            if len(o) != 2 or o[1] < 0:
                return False
        elif o != ['meta']:
            return False
    return True


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    pm = Model(pds)
    conf = absrange(case['conf'], base)
    done = conf if case['sub'] == -1 else absrange(case['sub'], base)
    with open('conf', 'w') as f:
        f.write(CONF % (1e-3, 2500., 50., './t.h5', './p.h5', conf[0], conf[1] - 1))

    def write():
        from flowtracks import io
        from flowtracks.analysis import analysis
        from flowtracks.scene import read_dual_scene
        if case['pframes']:
            io.save_frames_hdf('./p.h5', sut_frames(pds, order=case['order']))
        else:
            io.save_particles_table('./p.h5', sut_trajectories(pds))
        io.save_particles_table('./t.h5', sut_trajectories(tds))
        dual = read_dual_scene('conf')
        analysis(dual, './an.h5', 'conf', [DescrAnalyser([k], pds['salt']) for k in case['an']],
                 *(() if case['sub'] == -1 else (done,)))
    ctx.must(write, 'analysis')

    def again():
        # The same particles, in another order.
        from flowtracks import io
        order, frames = case['resave']
        if frames:
            io.save_frames_hdf('./p.h5', sut_frames(pds, order=order))
        else:
            tr = sut_trajectories(pds)
            n = order % max(1, len(tr))
            io.save_particles_table('./p.h5', (tr[n:] + tr[:n])[::-1 if order & 1 else 1])
    if case['resave']:
        ctx.must(again, 'saving again')

    def read():
        from flowtracks.an_scene import AnalysedScene
        s = AnalysedScene('./an.h5')
        it = None
        out = []
        for op in case['ops']:
            if op[0] == 'collect':
                w = None if op[2] is None else dict((k, tuple(v)) for k, v in op[2])
                out.append([np.array(x) for x in s.collect(list(op[1]), w)])
            elif op[0] == 'byid':
                out.append(plain_traj(s.trajectory_by_id(pm.ids()[op[1] % len(pm.ids())])))
            elif op[0] == 'step':
                r = []
                if it is None:
                    it = iter(s.iter_trajectories())
                for _ in range(op[1]):
                    try:
                        r.append(plain_traj(next(it)))
                    except StopIteration:
                        it = None
                        r.append(STOP)
                        break
                out.append(r)
            else:
                out.append((list(s.keys()), [int(x) for x in s.shapes()]))
        return out

    out = ctx.must(read, 'reading', faults=case['rf'])
    full = joined(pm, case['an'], pds['salt'], conf, done)
    seen = set()
    total = 0

    def one(got, trid):
        i, d = got
        ctx.check(i == trid, 'trajectory: trajid', '%s, expected %s' % (i, trid))
        m = full['trajid'] == trid
        exp = dict((k, v[m]) for k, v in full.items() if k != 'trajid')
        order = np.argsort(exp['time'], kind='stable')
        ctx.check(set(d) == set(exp), 'trajectory: properties', '%s' % sorted(d))
        for k in ['time'] + sorted(exp):
            ctx.check(same(d[k], exp[k][order]), 'trajectory: rows', 'trajectory %s, %s %s' % (trid, k, diff(d[k], exp[k][order])))

    for op, r in zip(case['ops'], out):
        if op[0] == 'collect':
            m = where_mask(full, op[2]) if op[2] else np.ones(len(full['time']), bool)
            exp = [full[k][m] for k in op[1]]
            for g, e, k in zip(r, exp, op[1]):
                ctx.check(len(g) == len(e), 'collect: rows', '%s: %d, expected %d, where %s' % (k, len(g), len(e), op[2]))
                ctx.check(np.shape(g)[1:] == e.shape[1:], 'collect: shape', '%s: %s' % (k, np.shape(g)))
            ctx.check(row_bag(r) == row_bag(exp), 'collect: values', 'keys %s where %s' % (op[1], op[2]))
            total += len(exp[0])
            ank = set(case['an'])
            ctx.state('collect', bool(set(op[1]) & ank), bool(set(op[1]) - ank), tuple(sorted(k in ank for k, _ in op[2] or [])),
                      0 if not m.any() else 2 if m.all() else 1)
        elif op[0] == 'byid':
            one(r, pm.ids()[op[1] % len(pm.ids())])
            total += len(r[1]['time'])
        elif op[0] == 'step':
            for x in r:
                if x == STOP:
                    ctx.check(seen == set(pm.ids()), 'trajectories', '%s, expected %s' % (sorted(seen), pm.ids()))
                    seen = set()
                else:
                    ctx.check(x[0] not in seen, 'trajectories: repeated', str(x[0]))
                    seen.add(x[0])
                    one(x, x[0])
        else:
            keys, shapes = r
            ctx.check(sorted(keys) == sorted(pm.cols + case['an']), 'keys', str(keys))
            sh = dict((c, 3) for c in ('pos', 'velocity'))
            sh.update((c, COLS[c][1]) for c in pds['cols'])
            sh.update((c, DescrAnalyser.COLS[c][2] or 1) for c in case['an'])
            ctx.check(shapes == [sh[k] for k in keys], 'shapes', '%s of %s' % (shapes, keys))
        ctx.state(op[0], case['sub'] == -1, case['resave'] and case['resave'][1], done[0] < conf[0], done[1] > conf[1])
    ctx.stat('rows joined', total)
    ctx.nontrivial = total > 0
