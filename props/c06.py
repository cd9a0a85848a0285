"""C06: Scene.collect() returns exactly the selected particles, columns aligned."""
from common import *

ID = 'C06'
RUNS = (1200, 12000)
RULE = ('A run saves a drawn data set (by trajectories or by frames) and makes a drawn history of selections, frame ranges and other '
        'reads on it, under interrupted and short transfers and seeded garbage in fresh memory. Bounds are mostly drawn from the values in '
        'the data. Non-trivial: a selection that takes some rows and leaves some out.')
STATES = 'conditions: number, inverted or not, on which columns; range form; keys requested; none/some/all rows selected'


def gen(rng, tier, i):
    ds = gen_dataset(rng, big=i % 25 == 7, holes=rng.random() < .3, ntraj=rng.choice([2, 3, 4, 6, 8]),
                     odd=True, extra=rng.sample(['accel', 'diam', 'tag', 'grad', 'big', 'mass'], rng.randrange(2, 6)))
    ops = []
    for _ in range(rng.randrange(3, 9)):
        q = rng.random()
        if q < .3:
            ops.append(['range', gen_range(rng, ds)])
        elif q < .9:
            ops.append(gen_collect(rng, ds, .85))
        else:
            ops.append([rng.choice(['frames', 'trajs', 'segs', 'spoil'])])
    if rng.random() < .15:       # the same is asked for after what was returned is written over
        whole = rng.random() < .5
        op = gen_collect(rng, ds, 0. if whole else .85)
        ops += ([['range', None]] if whole else []) + [op, ['spoil'], op]
    return {'ds': ds, 'frames': rng.random() < .4, 'ops': ops, 'first': gen_range(rng, ds),
            'rf': gen_disturb(rng, writes=0), 'dual': rng.random() < .2}


def valid(c):
    return valid_dataset(c['ds']) and valid_faults(c['rf']) and valid_range(c['first']) and valid_ops(c['ops'], c['ds'])


def run(case, ctx):
    ds = case['ds']
    model = Model(ds)
    base = ds['base']
    p = ctx.path('scene.h5')

    def write():
        from flowtracks import io
        if case['frames']:
            io.save_frames_hdf(p, sut_frames(ds, order=2))
        else:
            io.save_particles_table(p, sut_trajectories(ds))
    ctx.must(write, 'save')

    def read():
        from flowtracks.scene import Scene, DualScene
        from flowtracks.particle import Particle
        r = absrange(case['first'], base)
        if case['dual']:
            d = DualScene(p, p, 1., Particle(1., 1.), r)
            scene = d.get_particles()
        else:
            scene = Scene(p, r)
        return perform(scene, case['ops'], base, model.ids())

    res = ctx.must(read, 'read', faults=case['rf'])
    verify(ctx, case['ops'], res, model, case['first'], not case['frames'], case['frames'])
    some = 0
    rng = case['first']
    for op, r in zip(case['ops'], res):
        if op[0] == 'range':
            rng = op[1]
        if op[0] == 'collect':
            n, N = len(r[0]), model.nrows()
            some += 0 < n < N
            ctx.state(tuple((k, v[2]) for k, v in (op[2] or [])), rng and (rng[0] is None, rng[1] is None), len(op[1]),
                      0 if n == 0 else 2 if n == N else 1)
    ctx.nontrivial = some > 0
