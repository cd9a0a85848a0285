"""C11: lazy readers - any interleaving gives what reading at once gives."""
from textdata import *
import gc

ID = 'C11'
RUNS = (800, 12000)
RULE = ('A run stores one or two drawn data sets as a directory of ptv_is frames, a concatenated file and an HDF5 file, and advances several '
        'lazy readers of them in a drawn order, abandons some, reads lists in between and overwrites trajectories already handed out. '
        'Non-trivial: two readers were open at once and a trajectory was compared.')
STATES = 'source and way of reading of each reader, number of open readers, whether trajectories were overwritten, abandoned readers'

SRC = ['ptvis', 'ptvis', 'single', 'hdf', 'hdf']


def gen_reader(rng, dss):
    n = rng.randrange(len(dss))
    src = rng.choice(SRC)
    span = max(t[1] + t[2] for t in dss[n]['trajs'])
    a = b = None
    if src != 'single':
        if rng.random() < .4:
            a = rng.randrange(0, span)
        if rng.random() < .4:
            b = rng.randrange(a or 0, span + 2)
    return {'ds': n, 'src': src, 'first': a, 'last': b, 'min': rng.choice([None, None, 0, 1, 2, 3, 5]), 'frate': rng.choice([1., 50., 1250.]),
            'how': rng.randrange(2)}


def gen(rng, tier, i):
    dss = [gen_dataset(rng, ntraj=rng.choice([2, 3, 5, 8, 12]), maxlen=rng.choice([4, 9]), extra=[], base=rng.choice([0, 1, 10001]))
           for _ in range(rng.choice([1, 1, 2]))]
    readers = [gen_reader(rng, dss) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < .4:
        readers.append(dict(readers[0]))
    ops = []
    for _ in range(rng.randrange(6, 30)):
        q = rng.random()
        k = rng.randrange(4)
        if q < .25:
            ops.append(['open', k, rng.randrange(len(readers))])
        elif q < .8:
            ops.append(['next', k, rng.choice([1, 1, 2, 4, 100])])
        elif q < .87:
            ops.append(['drop', k])
        elif q < .94:
            ops.append(['list', rng.randrange(len(readers))])
        else:
            ops.append(['spoil', k])
    ops = [['open', k, rng.randrange(len(readers))] for k in range(2)] + ops
    return {'dss': dss, 'readers': readers, 'ops': ops, 'style': rng.randrange(3), 'end': rng.randrange(2),
            'dir': [rng.randrange(0, 3), rng.randrange(10**6)], 'rf': gen_disturb(rng, reads=60, writes=0, n=rng.choice([0, 0, 1, 3]))}


def valid(c):
    if not c['dss'] or not all(valid_dataset(d) and not any(t[3] for t in d['trajs']) for d in c['dss']) or not valid_faults(c['rf']):
        return False
    if c['dir'][0] not in (0, 1, 2) or c['style'] not in (0, 1, 2) or not c['readers']:
        return False
    for r in c['readers']:
        if not 0 <= r['ds'] < len(c['dss']) or r['src'] not in SRC or r['frate'] <= 0 or r['how'] not in (0, 1):
            return False
        if r['src'] == 'single' and (r['first'] is not None or r['last'] is not None):
            return False
    for o in c['ops']:
        if o[0] in ('open', 'next') and len(o) != 3 or o[0] in ('drop', 'list', 'spoil') and len(o) != 2 or \
                o[0] not in ('open', 'next', 'drop', 'list', 'spoil'):
            return False
        if o[0] in ('open', 'list') and not 0 <= o[-1] < len(c['readers']):
            return False
    return True


def name(r):
    return {'ptvis': './d%d/ptv_is.%%d', 'single': './s%d_ptv_is.txt', 'hdf': './h%d.h5'}[r['src']].replace('%d', str(r['ds']), 1).replace('%%', '%')


def reading(case, r, lazy):
    from flowtracks import io
    base = case['dss'][r['ds']]['base']
    f, l = [None if x is None else x + base for x in (r['first'], r['last'])]
    if lazy and r['how'] and r['src'] != 'hdf':
        return io.iter_trajectories_ptvis(name(r), f, l, r['frate'], traj_min_len=r['min'])
    return io.trajectories(name(r), f, l, r['frate'], traj_min_len=r['min'], iter_allowed=lazy)


def readable(case, r):
    return r['src'] != 'ptvis' or bool(chains(case['dss'][r['ds']], r['first'], r['last'])[1])


def spoil(t):
    t.pos()[:] = 777.
    t.velocity()[:] = 777.
    t.time()[:] = 777
    t.set_pos(np.zeros((1, 3)))


def run(case, ctx):
    dss = case['dss']

    def write():
        from flowtracks import io
        for n, ds in enumerate(dss):
            write_ptv('d%d' % n, ds, style=case['style'])
            write_single('s%d_ptv_is.txt' % n, ds, case['style'], case['end'])
            io.save_particles_table('./h%d.h5' % n, sut_trajectories(ds))
    ctx.must(write, 'writing the data')

    def alone():
        return [[plain_traj(t) for t in reading(case, r, False)] if readable(case, r) else None for r in case['readers']]
    lists = ctx.must(alone, 'reading lists')

    def lazily():
        its, last, out = {}, {}, []
        for o in case['ops']:
            x = None
            if o[0] == 'open' and readable(case, case['readers'][o[2]]):
                its[o[1]] = iter(reading(case, case['readers'][o[2]], True))
            elif o[0] == 'next' and o[1] in its:
                x = []
                for _ in range(o[2]):
                    try:
                        last[o[1]] = next(its[o[1]])
                        x.append(plain_traj(last[o[1]]))
                    except StopIteration:
                        x.append(STOP)
                        break
            elif o[0] == 'drop':
                its.pop(o[1], None)
                gc.collect()
            elif o[0] == 'list' and readable(case, case['readers'][o[1]]):
                x = [plain_traj(t) for t in reading(case, case['readers'][o[1]], False)]
            elif o[0] == 'spoil' and o[1] in last:
                spoil(last.pop(o[1]))
            out.append(x)
        return out
    res = ctx.must(lazily, 'lazy reading', faults=case['rf'], dirmode=case['dir'])

    # What reading at once gives is right...
    for r, got in zip(case['readers'], lists):
        if got is None:
            continue
        ds = dss[r['ds']]
        minlen = 2 if r['min'] is None else r['min']
        if r['src'] == 'hdf':
            m = Model(ds)
            rg = absrange([r['first'], None if r['last'] is None else r['last'] + 1], ds['base'])
            check_trajs(ctx, got, m, rg, 'list, hdf', minlen)
        else:
            exp = chains(ds, r['first'], r['last'], (), minlen)[0]
            shift = -min(t[1] for t in ds['trajs']) - ds['base'] if r['src'] == 'single' else 0
            check_chains(ctx, got, ds, exp, r['frate'], 'list, ' + r['src'], False, shift)

    # ...and lazy reading gives the same.
    its, n, most, spoilt = {}, 0, 0, False

    def compare(got, exp, what):
        ctx.check(got != STOP and exp != STOP or got is exp or got == exp == STOP, what + ': length', 'got %s, expected %s' % (
            'the end' if got == STOP else 'trajectory %d' % got[0], 'the end' if exp == STOP else 'trajectory %d' % exp[0]))
        if got == STOP:
            return
        ctx.check(got[0] == exp[0], what + ': id', '%s, expected %s' % (got[0], exp[0]))
        ctx.check(set(got[1]) == set(exp[1]), what + ': properties', '%s' % sorted(got[1]))
        for k in sorted(got[1]):
            ctx.check(same(got[1][k], exp[1][k]), what + ': values', '%s %s' % (k, diff(got[1][k], exp[1][k])))

    for o, x in zip(case['ops'], res):
        if o[0] == 'open' and readable(case, case['readers'][o[2]]):
            its[o[1]] = [o[2], 0]
            most = max(most, len(its))
        elif o[0] == 'drop':
            its.pop(o[1], None)
        elif o[0] == 'spoil':
            spoilt = True
        elif o[0] == 'next' and o[1] in its:
            it = its[o[1]]
            exp = lists[it[0]]
            for g in x:
                compare(g, exp[it[1]] if it[1] < len(exp) else STOP, 'lazy, ' + case['readers'][it[0]]['src'])
                it[1] += 1
                n += 1
        elif o[0] == 'list' and x is not None:
            exp = lists[o[1]]
            ctx.check(len(x) == len(exp), 'list in between: length', '%d, expected %d' % (len(x), len(exp)))
            for g, e in zip(x, exp):
                compare(g, e, 'list in between, ' + case['readers'][o[1]]['src'])
        ctx.state(o[0], tuple(sorted(case['readers'][i[0]]['src'] + str(case['readers'][i[0]]['how']) for i in its.values())), spoilt)
    ctx.nontrivial = most > 1 and n > 0
