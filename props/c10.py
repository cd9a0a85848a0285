"""C10: ptv_is/xuap files - trajectories are the linked chains, whatever the directory looks like."""
from textdata import *

ID = 'C10'
RUNS = (2500, 15000)
RULE = ('A run writes a drawn data set as linked ptv_is, xuap or single-file frames, with drawn missing, empty and stray files, and reads it '
        'with drawn ranges and minimal lengths in processes with drawn directory orders, interrupted and short reads and seeded garbage in '
        'fresh memory. Non-trivial: a trajectory was returned.')
STATES = 'format, directory order, gaps, stray files, range form, minimal length, chains cut by gaps or by the range'


def gen(rng, tier, i):
    fmt = rng.choice(['ptvis', 'ptvis', 'ptvis', 'xuap', 'xuap', 'single', 'single'])
    ds = gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 5, 8, 12]), maxlen=rng.choice([4, 9, 14]), extra=[],
                     base=0 if fmt == 'single' else None)
    if i % 40 == 3:
        n, most = rng.choice([(40, 60), (4, 130)])
        ds = gen_dataset(rng, ntraj=n, maxlen=most, span=130, extra=[], base=0 if fmt == 'single' else None)
    span = max(t[1] + t[2] for t in ds['trajs'])
    missing = sorted(rng.sample(range(span), min(span, rng.choice([1, 1, 2, 3])))) if fmt != 'single' and rng.random() < .4 else []
    reads = []
    for _ in range(rng.randrange(1, 4)):
        a, b = None, None
        if fmt != 'single':
            if rng.random() < .5:
                a = rng.randrange(0, span)
            if rng.random() < .5:
                b = rng.randrange(a or 0, span + 2)
        reads.append({'first': a, 'last': b, 'min': rng.choice([None, None, 0, 1, 2, 3, 5]), 'how': rng.randrange(3),
                      'frate': rng.choice([1., 50., 1250.]), 'dir': [rng.randrange(0, 3), rng.randrange(10**6)],
                      'rf': gen_disturb(rng, reads=40, writes=0, n=rng.choice([0, 0, 1, 3]))})
    return {'fmt': fmt, 'ds': ds, 'missing': missing, 'style': rng.randrange(3), 'end': rng.randrange(2),
            'stray': [[rng.randrange(7), rng.randrange(span + 2)] for _ in range(rng.choice([0, 0, 1, 3]))], 'reads': reads}


def valid(c):
    if not valid_dataset(c['ds']) or c['fmt'] not in ('ptvis', 'xuap', 'single') or any(t[3] for t in c['ds']['trajs']):
        return False
    if c['fmt'] == 'single' and (c['missing'] or c['ds']['base'] or c['stray']):
        return False
    if c['style'] not in (0, 1, 2) or any(len(s) != 2 for s in c['stray']):
        return False
    for r in c['reads']:
        if not valid_faults(r['rf']) or r['dir'][0] not in (0, 1, 2) or r['frate'] <= 0 or r['how'] not in (0, 1, 2):
            return False
        if c['fmt'] == 'single' and (r['first'] is not None or r['last'] is not None):
            return False
    return True


def run(case, ctx):
    ds, fmt = case['ds'], case['fmt']
    xuap = fmt == 'xuap'
    if fmt == 'single':
        write_single('./all_ptv_is.txt', ds, case['style'], case['end'])
        name = './all_ptv_is.txt'
        shift = -min(t[1] for t in ds['trajs'])
    else:
        base = 'xuap' if xuap else 'ptv_is'
        write_ptv('data', ds, base, case['missing'], case['stray'], xuap, case['style'])
        name = './data/%s.%%d' % base
        shift = 0
    n = 0
    for r in case['reads']:
        exp, readable = chains(ds, r['first'], r['last'], case['missing'], 2 if r['min'] is None else r['min'])
        if not readable:
            continue
        fl = [None if x is None else x + ds['base'] for x in (r['first'], r['last'])]

        def read():
            from flowtracks import io
            if r['how'] == 0:
                it = io.trajectories(name, fl[0], fl[1], r['frate'], traj_min_len=r['min'])
            else:
                # What is by default is left to it.
                given = dict(first=fl[0], last=fl[1], frate=r['frate'], xuap=xuap, traj_min_len=r['min'])
                kw = dict((k, v) for k, v in given.items() if not (v is None or v is False or k == 'frate' and v == 1.))
                it = (io.iter_trajectories_ptvis if r['how'] == 1 else io.trajectories_ptvis)(name, **kw)
            return [plain_traj(t) for t in it]
        got = ctx.must(read, 'reading %s' % fmt, faults=r['rf'], dirmode=r['dir'])
        check_chains(ctx, got, ds, exp, r['frate'], fmt, xuap, shift)
        n += len(got)
        ctx.state(fmt, r['dir'][0], bool(case['missing']), bool(case['stray']), r['first'] is None, r['last'] is None, r['min'], r['how'],
                  any(c[2] < t[2] for c in exp for t in ds['trajs'] if t[0] == c[0]))
    ctx.stat('trajectories read', n)
    ctx.nontrivial = n > 0
