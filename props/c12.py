"""C12: trajAcc and Matlab files - every trajectory, once, with its own rows."""
from textdata import *

ID = 'C12'
RUNS = (2500, 15000)
RULE = ('A run writes a drawn data set as trajAcc files (with empty files or gaps, and stray files) and as a Matlab file, and reads '
        'trajectories in drawn ranges and the particles of drawn frames, in processes with drawn directory orders, interrupted and short '
        'reads. Non-trivial: a trajectory or particle was returned.')
STATES = 'operation, range form, directory order, empty files or gaps, single rows, particles starting in earlier files, pairs asked for'

MAXAGE = 4


def gen(rng, tier, i):
    big = i % 40 == 3
    ds = gen_dataset(rng, ntraj=30 if big else rng.choice([1, 2, 3, 5, 8, 12]), maxlen=40 if big else rng.choice([2, 4, 9]), extra=[],
                     span=60 if big else rng.choice([None, 8]))
    if i % 12 == 5:              # many start in one frame
        ds = gen_dataset(rng, ntraj=rng.choice([13, 26, 45]), maxlen=2, extra=[], span=4)
    span = max(t[1] + t[2] for t in ds['trajs'])
    fill = rng.random() < .6
    ops = []
    for _ in range(rng.randrange(2, 6)):
        q = rng.random()
        op = {'dir': [rng.randrange(0, 3), rng.randrange(10**6)], 'rf': gen_disturb(rng, reads=30, writes=0, n=rng.choice([0, 0, 1, 3]))}
        if q < .4:
            a = rng.choice([None, rng.randrange(span)])
            b = rng.choice([None, rng.randrange(a or 0, span + 2)])
            op.update(op='acc', first=a, last=b)
        elif q < .55:
            op.update(op='mat')
        else:
            op.update(op=rng.choice(['collect', 'collect', 'generic', 'cmat']), frame=rng.randrange(span + 1), seg=rng.random() < .5)
        ops.append(op)
    holes = [sorted(rng.sample(range(1, t[2] - 1), rng.randrange(1, max(2, (t[2] - 1) // 2)))) if t[2] > 2 and rng.random() < .5 else [] for t in ds['trajs']]
    return {'ds': ds, 'holes': holes if rng.random() < .3 else [[] for _ in holes], 'fill': fill, 'style': rng.randrange(3), 'ops': ops,
            'stray': [[rng.randrange(7), rng.randrange(span + 2)] for _ in range(rng.choice([0, 0, 1, 3]))]}


def with_holes(c):
    """The trajectories as in Matlab files and in memory, where they may have holes."""
    trs = c['ds']['trajs']
    return dict(c['ds'], trajs=[t[:3] + [h] for t, h in zip(trs, c['holes'] + [[]] * len(trs))])


def valid(c):
    if not valid_dataset(with_holes(c)) or any(t[3] for t in c['ds']['trajs']) or c['style'] not in (0, 1, 2):
        return False
    for o in c['ops']:
        if not valid_faults(o['rf']) or o['dir'][0] not in (0, 1, 2) or o['op'] not in ('acc', 'mat', 'collect', 'generic', 'cmat'):
            return False
    return all(len(s) == 2 for s in c['stray'])


def run(case, ctx):
    ds = acc_ds(case['ds'])
    base = ds['base']
    hds = acc_ds(with_holes(case))
    model, mm, hm = Model(ds), mat_model(hds), Model(hds)
    write_acc('acc', ds, style=case['style'], stray=case['stray'])
    span = max(t[1] + t[2] for t in ds['trajs'])
    starts = set(t[1] for t in ds['trajs'])
    if case['fill']:
        for t in range(span):
            if t not in starts:
                open('acc/trajAcc.%d' % (t + base), 'w').close()
    write_mat('traj.mat', hds)
    name, mname = at_home('./acc/trajAcc.%d', ds), at_home('./traj.mat', ds)
    n = 0
    for o in case['ops']:
        kind = o['op']

        def read():
            from flowtracks import io
            if kind == 'acc':
                return [plain_traj(t) for t in io.trajectories_acc(name, *[None if x is None else x + base for x in (o['first'], o['last'])])]
            if kind == 'mat':
                return [plain_traj(t) for t in io.trajectories_mat(mname)]
            f = o['frame'] + base
            if kind == 'collect':
                return np.array(io.collect_particles(name, f, o['seg']))
            if kind == 'cmat':
                return np.array(io.collect_particles_mat(mname, f, o['seg']))
            return np.array(io.collect_particles_generic(sut_trajectories(hds), f, o['seg']))

        if kind == 'acc':
            exp = [t[0] for t in ds['trajs'] if (o['first'] is None or t[1] >= o['first']) and (o['last'] is None or t[1] <= o['last'])]
            got = ctx.must(read, 'reading trajAcc', faults=o['rf'], dirmode=o['dir'])
            match_by_pos(ctx, got, model, 'trajAcc', exp)
            n += len(got)
            ctx.state(kind, o['first'] is None, o['last'] is None, o['dir'][0], case['fill'], len(exp) == 0, bool(case['stray']))
        elif kind == 'mat':
            got = ctx.must(read, 'reading mat', faults=o['rf'])
            check_trajs(ctx, got, mm, None, 'mat')
            n += len(got)
            ctx.state(kind, any(t[2] == 1 for t in ds['trajs']))
        else:
            m = {'cmat': mm, 'generic': hm}.get(kind, model)
            f = o['frame'] + base
            here = m.frame(f)
            if o['seg']:
                here = dict((i, r) for i, r in here.items() if i in m.frame(f + 1))
            if kind == 'collect' and not (case['fill'] and o['frame'] < span):
                continue           # the backward scan ends at a gap
            got = ctx.must(read, 'collecting particles', faults=o['rf'], dirmode=o['dir'])
            what = 'particles of a frame' + (', generic' if kind != 'collect' else '')
            layers = 2 if o['seg'] else 1
            shape = ((2,) if o['seg'] else ()) + (len(here), 7 if kind == 'collect' else 8)
            ctx.check(got.shape == shape, what + ': number', '%s, expected %s' % (got.shape, shape))
            got = got.reshape((layers,) + got.shape[-2:])
            exp = []
            for i, r in here.items():
                row = []
                for k in range(layers):
                    p = m.frame(f + k)[i]
                    tail = [f + k - int(m.rows[i]['time'][0])] if kind == 'collect' else [f + k, i]
                    row.append(list(p['pos']) + list(p['velocity']) + tail)
                exp.append(row)
            order = lambda a: sorted(a, key=lambda x: x[0])
            if not here:
                ctx.state(kind, o['seg'], 0)
                continue
            g = np.array(order([[list(got[k, j]) for k in range(layers)] for j in range(got.shape[1])]))
            e = np.array(order(exp))
            ctx.check(same(g, e), what + ': rows', 'frame %d: %s' % (f, diff(g, e)))
            n += len(here)
            ctx.state(kind, o['seg'], min(3, len(here)), max(o['frame'] - t[1] for t in ds['trajs'] if t[0] in here) > 1, case['fill'])
    ctx.nontrivial = n > 0
