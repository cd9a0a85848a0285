"""C24: each request for a pair is answered for itself, with a nearest tracer in its own frame."""
from formats import *
import kit

ID = 'C24'
RUNS = (4000, 90000)
RULE = ('A run builds or reads two sets of trajectories and makes a drawn history of requests for pairs: in any order, repeated, in batches, '
        'of parts and permutations of the sets, between changes of the trajectories, some of them interrupted and made again. Each answer '
        'is compared with the distances of all tracers. Non-trivial: a pair was found among several tracers, more than one call.')
STATES = 'sources, number of requests and of frames, repetition, order, unpaired ones, fault and outcome'
STUB = STUB + ['interruption, exhausted memory: an exception raised at a drawn line of flowtracks by a trace function']
SRC = ['mem', 'mem', 'mem', 'mem'] + FORMATS


def gen(rng, tier, i):
    base = rng.choice([0, 1, 10001])
    span = rng.choice([4, 8, 14])
    mk = lambda n: dict(gen_dataset(rng, ntraj=rng.choice(n), maxlen=rng.choice([3, 6, 9]), extra=['accel'], base=base, span=span), tf=False)
    many = i % 40 == 7
    ops = []
    for _ in range(rng.randrange(1, 9 if not many else 3)):
        q = rng.random()
        if q < .65:
            n = rng.choice([1, 2, 3, 5, 8, 13, 21, 0])
            fail = None
            if rng.random() < .2:
                fail = rng.choice([['line', rng.randrange(80), rng.choice('KM')], ['mem', rng.randrange(12)], ['deep', rng.randrange(30)]])
            ops.append(['pairs', [[rng.randrange(100), rng.randrange(1000)] for _ in range(n)], rng.randrange(10**6), rng.choice([100, 100, 100, 60, 30]),
                        rng.choice([100, 100, 100, 60, 20, 0]), rng.randrange(4), fail])
        elif q < .8:
            ops.append(['move', rng.randrange(2), rng.randrange(100), rng.randrange(1000), rng.randrange(10**6)])
        elif q < .84:
            ops.append(['time', rng.randrange(2), rng.choice([0, 1, 2, 3])])
        elif q < .92:
            ops.append(['same', rng.randrange(100), rng.randrange(100)])
        else:
            ops.append(['pairs', [[k, n] for k in range(rng.choice([2, 20])) for n in range(rng.choice([2, 5]))], rng.randrange(10**6), 100, 100, rng.randrange(4), None])
    return {'p': mk([1, 2, 3, 5, 8]), 't': mk([1, 2, 3, 5, 8] if not many else [60, 140]), 'src': [rng.choice(SRC), rng.choice(SRC)], 'grid': rng.choice([0, 0, 5, 20]),
            'pcols': rng.choice([0, 0, 1, 2]), 'self': rng.random() < .1, 'ops': ops, 'style': rng.randrange(3),
            'far': rng.choice([0, 0, 0, 1, 3000, 1000000, 10000000]),
            'rf': gen_disturb(rng, reads=60, writes=0), 'dir': [rng.randrange(3), rng.randrange(10**6)]}


def valid(c):
    n = {'pairs': 7, 'move': 5, 'same': 3, 'time': 3}
    for o in c['ops']:
        if len(o) != n[o[0]] or any(type(x) is int and x < 0 for x in o):
            return False
        if o[0] in ('move', 'time') and o[1] not in (0, 1):
            return False
        if o[0] == 'pairs':
            f = o[6]
            if f and not (f[0] == 'line' and len(f) == 3 and f[1] >= 0 and f[2] in ('K', 'M') or f[0] in ('mem', 'deep') and len(f) == 2 and f[1] >= 0):
                return False
            if any(len(r) != 2 or r[0] < 0 or r[1] < 0 for r in o[1]) or not (0 <= o[3] <= 100 and 0 <= o[4] <= 100 and o[5] in range(4)):
                return False
    ok = lambda ds: valid_dataset(ds) and ds['cols'] == ['accel'] and not ds['tf'] and not any(x[3] for x in ds['trajs'])
    return ok(c['p']) and ok(c['t']) and c['p']['base'] == c['t']['base'] and c['style'] in (0, 1, 2) and c['grid'] >= 0 and 0 <= c['far'] <= 10**7 and c['pcols'] in (0, 1, 2) and \
        all(s in SRC for s in c['src']) and valid_faults(c['rf']) and len(c['dir']) == 2 and c['dir'][0] in (0, 1, 2)


def run(case, ctx):
    dss = [case['p'], case['t']]
    for w, s, ds in zip('pt', case['src'], dss):
        if s != 'mem':
            if not readable(s, ds, None, None):
                raise kit.Skip()
            ctx.must(lambda: store(s, w, ds, case['style']), 'writing')

    def load(k):
        from flowtracks import io
        s, ds = case['src'][k], dss[k]
        if s != 'mem':
            return io.trajectories(template(s, 'pt'[k]), None, None, 50., None, 1, False)
        trs = sut_trajectories(ds)
        for n, tr in enumerate(trs):
            if case['grid']:                   # several tracers at one distance, or one place
                tr.set_pos(np.round(tr.pos() * case['grid']) / case['grid'])
            if case['far']:                    # from the origin
                tr.set_pos(tr.pos() + case['far'])
            if case['pcols'] and (k, n % 2) != (0, 0):
                tr.create_property('only', np.arange(len(tr)) * 1.)
            if case['pcols'] == 2 and n % 3 == 1:
                tr.set_time(tr.time().astype(float))
        return trs

    ctx.begin(case['rf'], dirmode=case['dir'])
    from flowtracks.pairs import particle_pairs
    sets = [load(0), None]
    sets[1] = sets[0] if case['self'] else load(1)
    kit.heal()
    if not sets[0] or any(len(set(t.trajid() for t in s)) < len(s) for s in sets):
        raise kit.Skip()
    plain = [[plain_traj(t) for t in s] for s in sets]
    if case['self']:
        plain[1] = plain[0]

    def inspect(what):
        for s, m in zip(sets, plain):
            for tr, (i, d) in zip(s, m):
                now = plain_traj(tr)
                ctx.check(now[0] == i and set(now[1]) == set(d) and all(now[1][c].dtype == d[c].dtype and same(now[1][c], d[c]) for c in d),
                          what + ': trajectories changed', 'trajectory %s' % i)

    calls = found = 0
    held = []
    for o in case['ops']:
        if o[0] == 'move':
            k, n, m, salt = o[1:]
            if not sets[k]:
                continue
            n %= len(sets[k])
            d = plain[k][n][1]
            m %= len(d['time'])
            v = (unit(salt, np.arange(3)) - .5) * .2 + (0 if 'mem' not in case['src'] else case['far'])
            d['pos'][m] = v
            p = np.array(d['pos'])
            sets[k][n].set_pos(p)
            continue
        if o[0] == 'time':                     # one set taken later
            k, dt = o[1:]
            for tr, (i, d) in zip(sets[k], plain[k]):
                d['time'] = d['time'] + dt
                tr.set_time(np.array(d['time']))
            continue
        if o[0] == 'same':                     # the requested particle where a tracer is
            n, m = o[1:]
            if not sets[1] or case['self']:
                continue
            a, b = plain[0][n % len(sets[0])][1], plain[1][m % len(sets[1])][1]
            both = np.intersect1d(a['time'], b['time'])
            for t in both:
                a['pos'][a['time'] == t] = b['pos'][b['time'] == t]
            sets[0][n % len(sets[0])].set_pos(np.array(a['pos']))
            continue
        _, reqs, seed, pshare, tshare, form, fail = o
        # Parts of the sets in a drawn order.
        def part(k, share):
            key = h64(seed, k, np.arange(len(sets[k])))
            order = [int(n) for n in np.argsort(key)] if seed % 3 else list(range(len(key)))
            return [n for n in order if int(key[n]) % 100 < share]
        pi, ti = part(0, pshare) or [0], part(1, tshare)
        reqs = [(pi[r[0] % len(pi)], r[1]) for r in reqs]
        reqs = [(n, m % len(plain[0][n][1]['time'])) for n, m in reqs]
        typ = [np.int64, np.int32, np.int64, np.int64][form]
        ids = np.array([plain[0][n][0] for n, _ in reqs], dtype=typ)
        at = np.array([m for _, m in reqs], dtype=typ)
        if form == 2:                          # parts of larger arrays
            ids, at = np.repeat(ids, 2)[::2], np.repeat(at, 3)[1::3]
        args = ids.copy(), at.copy()
        prim, sec = [sets[0][n] for n in pi], [sets[1][n] for n in ti]
        if form == 3:
            prim, sec = tuple(prim), tuple(sec)
        call = lambda: particle_pairs(prim, sec, ids, at)
        ended = True
        if fail:
            ended, res, fired = ctx.attempt(call, fail)
            ctx.state('fault', fail[0], ended)
            inspect('after a fault')
        if not fail or not ended:
            res = call()
        calls += 1
        trid, idx = res
        what = 'pairs'
        ctx.check(np.shape(trid) == np.shape(idx) == (len(reqs),), what + ': number', '%s, %s of %d' % (np.shape(trid), np.shape(idx), len(reqs)))
        ctx.check(same(ids, args[0]) and same(at, args[1]), what + ': requests changed', '')
        none = 0
        for r, (n, m) in enumerate(reqs):
            d = plain[0][n][1]
            t = int(d['time'][m])
            dist = {}
            for k in ti:
                i, e = plain[1][k]
                w = np.nonzero(e['time'] == t)[0]
                if len(w) and t + 1 <= e['time'][-1]:
                    dist[i] = (float(np.sum((d['pos'][m] - e['pos'][w[0]])**2)), int(w[0]))
            msg = 'particle (%s, %d), frame %d, in call %d: ' % (plain[0][n][0], m, t, calls)
            if not dist:
                none += 1
                ctx.check(idx[r] == -1, what + ': none expected', msg + '(%s, %s)' % (trid[r], idx[r]))
                continue
            ctx.check(int(trid[r]) in dist, what + ': not a tracer there', msg + '(%s, %s), candidates %s' % (trid[r], idx[r], sorted(dist)))
            got, best = dist[int(trid[r])], min(dist.values())
            ctx.check(got[0] <= best[0] * (1 + 1e-9), what + ': not the nearest', msg + '%s at %g, nearest at %g' % (trid[r], got[0], best[0]))
            ctx.check(int(idx[r]) == got[1], what + ': index', msg + '%s, expected %d' % (idx[r], got[1]))
            found += len(dist) > 1
        ctx.see(np.asarray(trid), np.asarray(idx))
        inspect(what)
        for a, b, ca, cb in held:
            ctx.check(same(a, ca) and same(b, cb), 'pairs: an earlier answer changed', '')
        held.append((trid, idx, np.array(trid), np.array(idx)))
        ctx.state(case['src'], len(reqs), len(set(int(plain[0][n][1]['time'][m]) for n, m in reqs)), len(set(reqs)) < len(reqs), seed % 3 == 0, none > 0, form)
    ctx.end()
    ctx.nontrivial = bool(found) and calls > 1
