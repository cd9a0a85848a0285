"""C05: iterations of a scene do not disturb each other."""
from common import *

ID = 'C05'
RUNS = (1100, 12000)
RULE = ('A run interleaves, in a drawn order, several iterations over trajectories, frames and segments of up to three Scene objects on '
        'one file with changes of their frame ranges, selections, closing and reopening. Non-trivial: two or more iterations were '
        'open at once on one Scene.')
STATES = 'operation, form of the frame range in force, kinds of open iterators, Scene'

KINDS = ['range', 'range', 'iter', 'iter', 'iter', 'iter', 'iter', 'iter', 'byid', 'frame', 'trajs', 'frames', 'segs', 'collect']


def gen(rng, tier, i):
    ds = gen_dataset(rng, big=i % 40 == 7, holes=rng.random() < .3, ntraj=rng.choice([2, 3, 4, 6]), odd=True)
    ops = gen_ops(rng, ds, rng.randrange(8, 30), KINDS)
    nscenes = rng.choice([1, 1, 2, 3])
    out = []
    for op in ops:
        s = rng.randrange(nscenes)
        if rng.random() < .04:
            out.append([s, ['reopen', gen_range(rng, ds)]])
        out.append([s, op])
    return {'ds': ds, 'frames': rng.random() < .4, 'ops': out, 'first': gen_range(rng, ds), 'rf': gen_disturb(rng, writes=0),
            'clock': gen_clock(rng)}


def valid(c):
    if not valid_dataset(c['ds']) or not valid_faults(c['rf']) or not valid_range(c['first']):
        return False
    for o in c['ops']:
        if len(o) != 2 or not 0 <= o[0] < 3:
            return False
        if o[1] and o[1][0] == 'reopen':
            if len(o[1]) != 2 or not valid_range(o[1][1]):
                return False
        elif not valid_ops([o[1]], c['ds']):
            return False
    return True


def run(case, ctx):
    ds = case['ds']
    model = Model(ds)
    base = ds['base']
    p = ctx.path('scene.h5')

    def write():
        from flowtracks import io
        if case['frames']:
            io.save_frames_hdf(p, sut_frames(ds))
        else:
            io.save_particles_table(p, sut_trajectories(ds))
    ctx.must(write, 'save')

    def read():
        from flowtracks.scene import Scene
        mk = lambda r: Performer(Scene(p) if r is None else Scene(p, absrange(r, base)), base, model.ids())
        scenes = {}
        res = []
        for s, op in case['ops']:
            if s not in scenes:
                scenes[s] = mk(case['first'])
            if op[0] == 'reopen':
                scenes[s].scene = None         # its open iterations go on
                old = scenes[s]
                scenes[s] = mk(op[1])
                scenes[s].its, scenes[s].held = old.its, old.held
                res.append(None)
            else:
                res.append(scenes[s].step(op))
        for s in scenes.values():
            s.settle()
        return res

    res = ctx.must(read, 'read', faults=case['rf'], clock=case['clock'])
    vs = {}
    most = 0
    for (s, op), r in zip(case['ops'], res):
        if s not in vs:
            vs[s] = Verifier(ctx, model, case['first'], not case['frames'], case['frames'])
        if op[0] == 'reopen':
            vs[s].rng = absrange(op[1], base)
        else:
            vs[s].step(op, r)
            most = max(most, len(vs[s].its))
    ctx.state('scenes', len(vs), most)
    ctx.nontrivial = most > 1
