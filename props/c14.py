"""C14: the same data give the same trajectories in every format."""
from textdata import *

ID = 'C14'
RUNS = (1200, 12000)
RULE = ('A run stores one drawn data set in all six formats (two of them in two variants) and calls trajectories() on drawn ones with drawn '
        'ranges, minimal lengths, as iterator or list, format inferred or stated, several in one process, with drawn directory orders and '
        'disturbed reads. Non-trivial: trajectories of two formats were compared.')
STATES = 'format, range form, minimal length, iterator or list, format inferred or stated, whether the range or length excludes something'

FMT = {'ptvis': ('./d/ptv_is.%d', 'ptvis'), 'single': ('./all.txt', 'ptvis'), 'xuap': ('./d/xuap.%d', 'xuap'), 'acc': ('./d/trajAcc.%d', 'acc'),
       'mat': ('./traj.mat', 'mat'), 'npz': ('./n/', 'npz'), 'h5': ('./traj.h5', 'hdf'), 'hdf': ('./traj.hdf', 'hdf')}


PRE = ['', '', 'A_', 'run2.', '10001', 'new-']        # of the names


def gen(rng, tier, i):
    ds = gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 5, 8]), maxlen=rng.choice([3, 5, 9]), extra=['accel'], base=rng.choice([0, 1, 96, 10001]))
    if rng.random() < .3:
        ds['trajs'][0][2] = 1
    span = max(t[1] + t[2] for t in ds['trajs'])
    reads = []
    for _ in range(rng.randrange(3, 9)):
        f = rng.choice(sorted(FMT))
        a = b = None
        if f not in ('single', 'mat'):
            if rng.random() < .5:
                a = rng.randrange(0, span)
            if rng.random() < .5:
                b = rng.randrange(a or 0, span + 2)
        reads.append({'fmt': f, 'first': a, 'last': b, 'min': rng.choice([None, None, 0, 1, 2, 3, 5]), 'iter': rng.random() < .5,
                      'stated': rng.random() < .4, 'frate': rng.choice([1., 50., 1250.])})
    return {'pre': rng.choice(PRE), 'ds': ds, 'reads': reads, 'style': rng.randrange(3), 'end': rng.randrange(2),
            'dir': [rng.randrange(0, 3), rng.randrange(10**6)], 'rf': gen_disturb(rng, reads=80, writes=0)}


def valid(c):
    if not valid_dataset(c['ds']) or any(t[3] for t in c['ds']['trajs']) or c['ds']['cols'] != ['accel'] or c['style'] not in (0, 1, 2):
        return False
    if c['pre'] not in PRE or not valid_faults(c['rf']) or len(c['dir']) != 2 or c['dir'][0] not in (0, 1, 2):
        return False
    return all(r['fmt'] in FMT and r['frate'] > 0 and not (r['fmt'] in ('single', 'mat') and (r['first'] is not None or r['last'] is not None))
               for r in c['reads'])


def run(case, ctx):
    ds = case['ds']
    base = ds['base']
    model, mm = Model(ds), mat_model(ds)
    pre = case['pre']

    def write():
        from flowtracks import io
        write_ptv('d', ds, pre + 'ptv_is', style=case['style'])
        write_ptv('d', ds, pre + 'xuap', xuap=True, style=case['style'])
        write_acc('d', ds, pre + 'trajAcc', style=case['style'])
        write_single(pre + 'all.txt', ds, case['style'], case['end'])
        write_mat(pre + 'traj.mat', ds)
        io.save_trajectories(pre + 'n', sut_trajectories(ds), {})
        io.save_particles_table('./%straj.h5' % pre, sut_trajectories(ds))
        io.save_particles_table('./%straj.hdf' % pre, sut_trajectories(ds))
    ctx.must(write, 'writing the data')

    def legible(r):
        return r['fmt'] not in ('ptvis', 'xuap') or bool(chains(ds, r['first'], r['last'])[1])

    def read():
        from flowtracks import io
        out = []
        for r in case['reads']:
            if not legible(r):
                out.append(None)
                continue
            name, fmt = FMT[r['fmt']]
            at = name[:-1].rindex('/') + 1
            name = name[:at] + pre + name[at:]
            f, l = [None if x is None else x + base for x in (r['first'], r['last'])]
            got = io.trajectories(name, f, l, r['frate'], fmt if r['stated'] else None, r['min'], *([r['iter']] if r['iter'] or r['frate'] > 40 else []))
            out.append((isinstance(got, list), [plain_traj(t) for t in got]))
        return out
    res = ctx.must(read, 'reading', faults=case['rf'], dirmode=case['dir'])

    seen = set()
    for r, x in zip(case['reads'], res):
        if x is None:
            continue
        islist, got = x
        f = r['fmt']
        what = 'read ' + f
        ctx.check(islist or r['iter'], what + ': not a list', '')
        minlen = 2 if r['min'] is None else r['min']
        rg = absrange([r['first'], None if r['last'] is None else r['last'] + 1], base)
        if f in ('ptvis', 'xuap', 'single'):
            exp = chains(ds, r['first'], r['last'], (), minlen)[0]
            shift = -min(t[1] for t in ds['trajs']) - base if f == 'single' else 0
            check_chains(ctx, got, ds, exp, r['frate'], what, f == 'xuap', shift)
        elif f == 'acc':
            exp = [t[0] for t in ds['trajs'] if t[2] >= minlen and (r['first'] is None or t[1] >= r['first']) and
                   (r['last'] is None or t[1] <= r['last'])]
            match_by_pos(ctx, got, model, what, exp)
        else:
            m = mm if f == 'mat' else model
            ctx.check(all(len(t[1]['time']) > 0 for t in got), what + ': empty trajectory', '')
            exp = [i for i in m.ids() if len(m.traj(i, rg)['time']) >= max(1, minlen)]
            check_trajs(ctx, got, m, rg, what, minlen)
        if got:
            seen.add(f)
        ctx.state(f, r['first'] is None, r['last'] is None, r['min'], r['iter'], r['stated'], len(exp) < len(ds['trajs']))
    ctx.nontrivial = len(seen) > 1
