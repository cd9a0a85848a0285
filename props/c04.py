"""C04: HDF5 database saved by frames - every view agrees with what was saved."""
from common import *

ID = 'C04'
RUNS = (1200, 12000)
RULE = ('A run saves a drawn set of frames in one simulated process and reads it through a drawn history of views in another, '
        'under interrupted and short transfers, clock jumps and seeded garbage in fresh memory. '
        'Non-trivial: at least one view was compared.')
STATES = 'view, form of the frame range in force, number and kinds of open iterators; holes, order of particles, empty frames'

KINDS = ['range', 'range', 'byid', 'trajs', 'frames', 'segs', 'frame', 'collect', 'meta', 'bbox']


def gen(rng, tier, i):
    ds = gen_dataset(rng, big='huge' if i % 240 == 13 else i % 40 == 7, holes=rng.random() < .6, odd=True)
    return {'ds': ds, 'order': rng.randrange(4), 'lazy': rng.random() < .5, 'empties': rng.random() < .7,
            'ops': gen_ops(rng, ds, rng.randrange(3, 8), KINDS),
            'front': [[rng.choice([None, rng.randrange(12)]), rng.choice([None, rng.randrange(6, 40)]),
                       rng.choice([None, 1, 2, 3])] for _ in range(rng.randrange(0, 3))],
            'wf': gen_disturb(rng, reads=0), 'rf': gen_disturb(rng, writes=0), 'clock': gen_clock(rng)}


def valid(c):
    return valid_dataset(c['ds']) and valid_faults(c['wf'] + c['rf']) and valid_ops(c['ops'], c['ds']) and \
        all(len(f) == 3 for f in c['front']) and 0 <= c['order'] < 4


def run(case, ctx):
    ds = case['ds']
    model = Model(ds)
    p = ctx.path('scene.h5')
    base = ds['base']

    def write():
        from flowtracks.io import save_frames_hdf
        frames = sut_frames(ds, order=case['order'])
        if not case['empties']:
            frames = [f for f in frames if len(f)]
        save_frames_hdf(p, iter(frames) if case['lazy'] else frames)
        return [plain_frame(f) for f in frames]

    after = ctx.must(write, 'save', faults=case['wf'], clock=case['clock'])
    for f in after:
        check_frame(ctx, f, model, f[0], 'saved frames unchanged')
    ctx.check(os.listdir('.') == ['scene.h5'], 'files', '%s' % os.listdir('.'))

    def read():
        from flowtracks.io import trajectories
        from flowtracks.scene import Scene
        fronts = []
        for a, b, ml in case['front']:
            fronts.append(plain_trajs_raw(trajectories(p, None if a is None else a + base, None if b is None else b + base,
                                                       1., traj_min_len=ml)))
        return fronts, perform(Scene(p), case['ops'], base, model.ids())

    fronts, res = ctx.must(read, 'read', faults=case['rf'], clock=case['clock'])
    for (a, b, ml), got in zip(case['front'], fronts):
        check_trajs(ctx, got, model, (None if a is None else a + base, None if b is None else b + base + 1),
                    'trajectories', 2 if ml is None else ml)
    verify(ctx, case['ops'], res, model, bbox_attr=True)
    ctx.state('data', any(t[3] for t in ds['trajs']), case['order'], case['empties'], min(20, model.nrows()))
    ctx.nontrivial = bool(case['ops'] or case['front'])
