"""C08: analysis() - one row for each particle and segment, in every column the analyser's value for that particle."""
from saving import *
from c07 import dual_data, both, same_span
import gc
import kit

ID = 'C08'
RUNS = (700, 9000)
RULE = ('A run makes a drawn sequence of analyses of one DualScene with drawn analysers and frame ranges in one process, between and during '
        'other iterations of the scene; some analysers raise, or return other results than described, at a drawn call. Files are read back by another process. '
        'Non-trivial: a written analysis has rows.')
STATES = 'analysers and columns, range form, where a failing analyser failed, iterations open meanwhile, empty frames'

ODD = ('none', 'fewer', 'more', 'longer')            # results that are not as described
NAMES = ['an_vec', 'an_num', 'an_len', 'an_pair', 'an_one']


def gen(rng, tier, i):
    cover = rng.random() < .5
    p, t = dual_data(rng, cover, i % 15 == 4)
    rr = lambda: both(rng, p, cover)
    jobs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        names = rng.sample(NAMES, rng.randrange(1, 5))
        ans = []
        while names:
            n = rng.randrange(1, len(names) + 1)
            ans.append(names[:n])
            names = names[n:]
        jobs.append({'range': -1 if rng.random() < .35 else rr(), 'ans': ans, 'out': rng.randrange(2),
                     'fail': [rng.randrange(len(ans)), rng.randrange(8)] if rng.random() < .25 else None,
                     'exc': rng.choice(['Interrupted', 'KeyboardInterrupt', 'Interrupted', 'KeyboardInterrupt', 'none', 'fewer', 'more', 'longer']),
                     'iter': rng.choice([None, None, 'frames', 'segs'])})
    return {'p': p, 't': t, 'first': rr(), 'jobs': jobs, 'pframes': rng.random() < .3, 'order': rng.randrange(4),
            'wf': gen_disturb(rng, n=rng.choice([0, 0, 1, 2])), 'clock': gen_clock(rng)}


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and valid_faults(c['wf']) and c['p']['base'] == c['t']['base']):
        return False
    rs = [c['first']] + [j['range'] for j in c['jobs'] if j['range'] != -1]
    if not all(valid_range(r) for r in rs):
        return False
    for j in c['jobs']:
        names = [n for a in j['ans'] for n in a]
        if not names or len(set(names)) != len(names) or not set(names) <= set(NAMES) or not all(j['ans']):
            return False
        if j['fail'] is not None and not (0 <= j['fail'][0] < len(j['ans']) and j['fail'][1] >= 0):
            return False
        if j['exc'] not in ('Interrupted', 'KeyboardInterrupt', 'none', 'fewer', 'more', 'longer') or j['iter'] not in (None, 'frames', 'segs') or j['out'] not in (0, 1):
            return False
    return same_span(c) or all(r is not None and r[0] is not None and r[1] is not None for r in rs)


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    pm, tm = Model(pds), Model(tds)
    first = absrange(case['first'], base)

    def write():
        from flowtracks import io
        if case['pframes']:
            io.save_frames_hdf('./p.h5', sut_frames(pds, order=case['order']))
        else:
            io.save_particles_table('./p.h5', sut_trajectories(pds))
        io.save_frames_hdf('./t.h5', sut_frames(tds))
    ctx.must(write, 'save')

    def work():
        from flowtracks.scene import DualScene
        from flowtracks.particle import Particle
        from flowtracks.analysis import analysis
        dual = DualScene('./t.h5', './p.h5', 50., Particle(1e-3, 2500.), first)
        out = []
        for n, j in enumerate(case['jobs']):
            it = None
            if j['iter']:
                it = iter(dual.iter_frames() if j['iter'] == 'frames' else dual.iter_segments())
                next(it, None)
            ans = [DescrAnalyser(names, pds['salt'] + n,
                                 j['fail'][1] if j['fail'] and j['fail'][0] == k else None,
                                 {'KeyboardInterrupt': KeyboardInterrupt}.get(j['exc'], Interrupted), True,
                                 j['exc'] if j['exc'] in ODD else None)
                   for k, names in enumerate(j['ans'])]
            args = () if j['range'] == -1 else (absrange(j['range'], base),)
            try:
                analysis(dual, './out%d.h5' % j['out'], 'conf%d' % n, ans, *args)
                r = 'saved'
            except (Interrupted, KeyboardInterrupt) as e:
                r = type(e).__name__
                del e
            except Exception as e:
                if j['exc'] not in ODD:
                    raise
                r = j['exc']
                del e
            rest = None
            if it is not None:
                rest = sum(1 for _ in it)
            gc.collect()
            out.append((r, [a.seen for a in ans], rest, dual.get_particles().frame_range(), dual.get_tracers().frame_range()))
        return out

    out = ctx.must(work, 'analysis', faults=case['wf'], clock=case['clock'])

    def read(n):
        import tables
        with tables.open_file('./out%d.h5' % n, 'r') as f:
            t = f.get_node('/analysis')
            return dict((k, t.col(k)) for k in t.colnames), t.attrs['config'], t.attrs['trajects']

    last = {}
    rows = 0
    for n, (j, (r, seen, rest, pr, tr)) in enumerate(zip(case['jobs'], out)):
        rng = first if j['range'] == -1 else absrange(j['range'], base)
        segs = segments(pm, rng)
        fails = j['fail'] is not None and j['fail'][1] < len(segs)
        ctx.check((r == 'saved') == (not fails), 'outcome', '%s, analyser %s' % (r, 'failed' if fails else 'did not fail'))
        if fails:
            ctx.check(r == j['exc'], 'exception', '%s, expected %s' % (r, j['exc']))
            ctx.stat('planned callback:raise')
            ctx.stat('fired callback:raise')
        else:
            last[j['out']] = (n, j, segs)
        ctx.check(tuple(pr) == tuple(pm.limits(first)) and tuple(tr) == tuple(tm.limits(first)), 'range after an analysis',
                  '%s %s' % (pr, tr))
        if rest is not None:
            lo, hi = pm.limits(first)
            exp = max(0, hi - lo - (j['iter'] == 'segs') - 1)
            ctx.check(rest == exp, 'iteration open meanwhile', '%d further items, expected %d' % (rest, exp))
        # What the analysers were given.
        for k, s in enumerate(seen):
            want = len(segs) if not fails else j['fail'][1] + (1 if k < j['fail'][0] + (j['exc'] in ODD) else 0)
            ctx.check(len(s) == want, 'analyser calls', '%d, expected %d' % (len(s), want))
            for (t, _), (p, pn, tt, tn) in zip(segs, s):
                check_segment(ctx, (p, pn), pm, t, 'analyser sees particles', not case['pframes'])
                check_segment(ctx, (tt, tn), tm, t, 'analyser sees tracers', True)
        ctx.state(tuple(map(len, j['ans'])), rng is None or None in rng, fails and min(3, j['fail'][1]), j['iter'],
                  any(not ids for _, ids in segs), case['pframes'])
    for k, (n, j, segs) in sorted(last.items()):
        cols, conf, path = ctx.must(lambda: read(k), 'reading')
        names = [x for a in j['ans'] for x in a]
        ctx.check(set(cols) == set(['trajid', 'time'] + names), 'columns', '%s' % sorted(cols))
        ctx.check(str(conf) == 'conf%d' % n and str(path) == './p.h5', 'origin', '%s %s' % (conf, path))
        got = sorted((int(t), int(i)) for i, t in zip(cols['trajid'], cols['time']))
        exp = sorted((t, i) for t, ids in segs for i in ids)
        ctx.check(got == exp, 'rows', '(time, trajid) missing %s, extra %s, %d rows for %d' % (
            [e for e in exp if e not in got][:3], [g for g in got if g not in exp][:3], len(got), len(exp)))
        ctx.check([t for t, _ in got] == sorted(int(t) for t in cols['time']), 'rows', '')
        for name in names:
            e = analysis_column(pds['salt'] + n, name, cols['trajid'].astype(np.int64), cols['time'].astype(np.int64))
            ctx.check(same(cols[name], e), 'values', '%s %s' % (name, diff(cols[name], e)))
        rows += len(got)
    ctx.stat('rows written', rows)
    ctx.nontrivial = rows > 0
