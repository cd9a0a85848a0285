"""C01: HDF5 particle database - every view agrees with what was saved."""
from common import *

ID = 'C01'
RUNS = (1100, 12000)
RULE = ('A run saves a drawn set of trajectories in one simulated process and reads it through a drawn history of '
        'views in another, under interrupted and short transfers, clock jumps and seeded garbage in fresh memory. '
        'Non-trivial: at least one row was saved and at least one view compared.')
STATES = 'view, form of the frame range in force, number and kinds of open iterators; saved size class'

KINDS = ['range', 'range', 'byid', 'trajs', 'frames', 'segs', 'frame', 'collect', 'meta', 'bbox']


def gen(rng, tier, i):
    big = 'huge' if i % 220 == 13 else i % 40 == 7
    ds = gen_dataset(rng, big=big, holes=rng.random() < .3, odd=True)
    trim = rng.choice([None, None, None, 0, 1, 1, 2, 3])
    for k in range(50):
        if Model(ds, trim or 0).rows:
            break
        ds['trajs'][0][2] += 1
    lo = 0
    span = max(t[1] + t[2] for t in ds['trajs'])
    rr = lambda: rng.choice([None, rng.randrange(0, span + 1)])
    return {'ds': ds, 'trim': trim, 'ops': gen_ops(rng, ds, rng.randrange(3, 8), KINDS),
            'tables': [[rr(), rr()] for _ in range(rng.randrange(1, 3))],
            'front': [[rr(), rr(), rng.choice([None, 1, 2, 3, 5]), rng.random() < .5] for _ in range(rng.randrange(0, 3))],
            'wf': gen_disturb(rng, reads=0), 'rf': gen_disturb(rng, writes=0), 'clock': gen_clock(rng),
            'old': rng.random() < .3}


def valid(c):
    if not valid_dataset(c['ds']) or not valid_faults(c['wf'] + c['rf']):
        return False
    if c['trim'] is not None and c['trim'] < 0:
        return False
    if any(len(t) != 2 for t in c['tables']) or any(len(t) != 4 for t in c['front']):
        return False
    return bool(Model(c['ds'], c['trim'] or 0).rows) and valid_ops(c['ops'], c['ds'])


def run(case, ctx):
    ds, trim = case['ds'], case['trim']
    model = Model(ds, trim or 0)
    p = ctx.path('scene.h5')
    base = ds['base']

    def write():
        from flowtracks.io import save_particles_table
        trs = sut_trajectories(ds)
        if case['old']:
            other = dict(ds, salt=ds['salt'] + 1, trajs=[[t[0] + 1, t[1], t[2] + 2, []] for t in ds['trajs']])
            save_particles_table(p, sut_trajectories(other))
        if trim is None:
            save_particles_table(p, trs)
        else:
            save_particles_table(p, trs, trim)
        return plain_trajs_raw(trs)

    after = ctx.must(write, 'save', faults=case['wf'], clock=case['clock'])
    full = Model(ds)
    for g in after:
        check_traj(ctx, g, full, g[0], None, 'saved trajectories unchanged')
    ctx.check(os.listdir(ctx.dir) == ['scene.h5'], 'files', '%s' % os.listdir(ctx.dir))

    def read():
        from flowtracks.io import trajectories_table, trajectories
        from flowtracks.scene import Scene
        tabs = [plain_trajs_raw(trajectories_table(p, *[None if x is None else x + base for x in t]))
                for t in case['tables']]
        fronts = []
        for a, b, ml, it in case['front']:
            r = trajectories(p, None if a is None else a + base, None if b is None else b + base, 1.,
                             traj_min_len=ml, iter_allowed=it)
            fronts.append(plain_trajs_raw(r))
        scene = Scene(p)
        return tabs, fronts, perform(scene, case['ops'], base, model.ids())

    tabs, fronts, res = ctx.must(read, 'read', faults=case['rf'], clock=case['clock'])
    incl = lambda a, b: (None if a is None else a + base, None if b is None else b + base + 1)
    for (a, b), got in zip(case['tables'], tabs):
        check_trajs(ctx, got, model, incl(a, b), 'trajectories_table')
    for (a, b, ml, it), got in zip(case['front'], fronts):
        check_trajs(ctx, got, model, incl(a, b), 'trajectories', 2 if ml is None else ml)
        ctx.check(all(len(g[1]['time']) >= (2 if ml is None else ml) for g in got), 'trajectories: minimal length', '')
    verify(ctx, case['ops'], res, model)
    ctx.state('rows', min(model.nrows(), 50), 'trim', trim)
    ctx.nontrivial = model.nrows() > 0 and bool(case['tables'] or case['ops'])
