"""C15: Sequence - any order of use gives each pair of frames and each time series right."""
from formats import *
from saving import Interrupted
import kit, gc

ID = 'C15'
RUNS = (2400, 12000)
RULE = ('A run makes a Sequence on particles and tracers in drawn formats and applies a drawn history: iterations (whole or of a subrange) '
        'advanced in drawn steps, abandoned or exhausted, map_trajectories() whose callback does further operations or raises, selector '
        'changes, reads failed by the simulated system, and consumers that overwrite the frames they got. Non-trivial: frames with '
        'particles or time series were compared.')
STATES = 'formats, operation, iterations open, depth of nesting, selector, subrange form, outcome'
SELS = {'all': lambda t0, n: True, 'even': lambda t0, n: t0 % 2 == 0, 'odd': lambda t0, n: t0 % 2 == 1, 'long': lambda t0, n: n > 3,
        'short': lambda t0, n: n <= 4, 'late': lambda t0, n: t0 % 5 > 1}


def gen_op(rng, span, depth=0):
    q = rng.random()
    sub = None
    if rng.random() < .5:
        a = rng.randrange(-1, span)
        sub = [a, rng.randrange(a, span + 3)]
    if q < .22:
        return ['it', rng.randrange(3), sub, rng.random() < .3]
    if q < .50:
        return ['next', rng.randrange(3), rng.choice([1, 1, 2, 3, 100])]
    if q < .56:
        return ['drop', rng.randrange(3)]
    if q < .68:
        return ['sel', rng.choice('pt'), rng.choice(sorted(SELS)), rng.randrange(2), rng.random() < .4]
    if q < .88:
        nest = [[rng.randrange(4), gen_op(rng, span, depth + 1)] for _ in range(rng.choice([0, 0, 1, 2]))] if depth < 2 else []
        return ['map', sub, rng.random() < .4, rng.choice([None, None, None, rng.randrange(4)]), nest, rng.randrange(3)]
    if q < .93:
        return ['list', rng.choice('pt')]
    if q < .96 or depth:
        return ['subrange']
    return ['fault', rng.choice('pt'), rng.choice(['read', 'open', 'dir', 'stat']), rng.randrange(25)]


def gen(rng, tier, i):
    base = rng.choice([0, 1, 96, 10001])
    big = i % 60 == 11
    maxlen = 80 if big else rng.choice([3, 6, 9])
    mk = lambda: dict(gen_dataset(rng, ntraj=25 if big else rng.choice([1, 2, 3, 5, 8]), maxlen=maxlen, extra=['accel'], base=base, span=3 * maxlen), tf=False)
    p, t = mk(), mk()
    span = max(x[1] + x[2] for x in p['trajs'] + t['trajs'])
    a = rng.choice([0, 0, rng.randrange(0, span)])
    rng_ = [a, rng.choice([span, span, rng.randrange(a, span + 2)])]
    return {'p': p, 't': t, 'pf': rng.choice(FORMATS), 'tf': rng.choice(FORMATS), 'range': rng_, 'min': rng.choice([0, 0, 1, 2, 3]),
            'frate': rng.choice([1., 50., 1250.]), 'ops': [gen_op(rng, span) for _ in range(rng.randrange(3, 14))],
            'style': rng.randrange(3), 'dir': [rng.randrange(0, 3), rng.randrange(10**6)], 'rf': gen_disturb(rng, reads=60, writes=0),
            'rev': rng.random() < .3}


def valid_op(o):
    if o[0] == 'map':
        return len(o) == 6 and all(len(n) == 2 and n[0] >= 0 and valid_op(n[1]) for n in o[4]) and valid_sub(o[1]) and (o[3] is None or o[3] >= 0)
    if o[0] == 'it':
        return len(o) == 4 and valid_sub(o[2])
    if o[0] == 'sel':
        return len(o) == 5 and o[1] in 'pt' and o[2] in SELS
    if o[0] == 'fault':
        return len(o) == 4 and o[1] in 'pt' and o[2] in ('read', 'open', 'dir', 'stat') and o[3] >= 0
    return (o[0] in ('next', 'drop', 'list', 'subrange')) and len(o) == {'next': 3, 'drop': 2, 'list': 2, 'subrange': 1}[o[0]]


def valid_sub(s):
    return s is None or len(s) == 2 and s[0] <= s[1]


def valid(c):
    return (valid_dataset(c['p']) and valid_dataset(c['t']) and c['p']['base'] == c['t']['base'] and valid_faults(c['rf']) and
            c['p']['cols'] == ['accel'] == c['t']['cols'] and not any(x[3] for x in c['p']['trajs'] + c['t']['trajs']) and
            c['pf'] in FORMATS and c['tf'] in FORMATS and len(c['range']) == 2 and c['range'][0] <= c['range'][1] and
            c['frate'] > 0 and c['style'] in (0, 1, 2) and len(c['dir']) == 2 and c['dir'][0] in (0, 1, 2) and
            not c['p']['tf'] and not c['t']['tf'] and all(valid_op(o) for o in c['ops']))


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    r = [x + base for x in case['range']]
    if not all(readable(f, d, r[0], r[1]) for f, d in ((case['pf'], pds), (case['tf'], tds))):
        raise kit.Skip()
    frate, mn = case['frate'], case['min']
    full = {'p': Expected(expected(case['pf'], pds, r[0], r[1], mn, frate), 'particles', frate),
            't': Expected(expected(case['tf'], tds, r[0], r[1], mn, frate), 'tracers', frate)}
    if not full['p'].trajs or not full['t'].trajs:
        raise kit.Skip()
    names = dict((k, ctx.must(lambda: store(f, k, d, case['style']), 'writing')) for k, f, d in (('p', case['pf'], pds), ('t', case['tf'], tds)))
    quiet = dict(dirmode=case['dir'])
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle

    ctx.begin(case['rf'], **quiet)
    seq = Sequence(tuple(r), frate, Particle(1e-3, 1000.), names['p'], names['t'], traj_min_len=mn)
    cur = dict(full)
    its = {}
    count = [0]

    # Selectors which are set again with another state.
    state = {}
    shared = dict((w, lambda trs, w=w: state[w](trs)) for w in 'pt')

    def select(w, sel, rev, again):
        pred = SELS[sel]
        e = full[w].select(lambda t: pred(int(t['time'][0]), len(t['time'])))
        if not e.trajs:
            return                                  # an empty selection is outside the domain

        def selector(trs):
            out = [t for t in trs if pred(int(t.time()[0]), len(t))]
            return out[::-1] if rev else out
        if again:
            state[w] = selector
            selector = shared[w]
        (seq.set_particle_selector if w == 'p' else seq.set_tracer_selector)(selector)
        cur[w] = e

    def take(k, what):
        """One step of an open iteration."""
        it = its[k]
        if it['next'] >= it['end']:
            try:
                next(it['it'])
            except StopIteration:
                del its[k]
                return False
            ctx.fail(what + ': does not end', 'range %s' % (it['range'],))
        try:
            fr, nx = next(it['it'])
        except StopIteration:
            ctx.fail(what + ': ends early', 'before frame %s of range %s' % (it['next'], it['range']))
        t = it['next']
        it['next'] += 1
        check_pair(fr, nx, t, it['p'], it['t'], what, it['scribble'])
        return True

    def check_pair(fr, nx, t, p, tr, what, scribble):
        count[0] += p.check_segment(ctx, fr.particles, nx.particles, t, what)
        tr.check_segment(ctx, fr.tracers, nx.tracers, t, what)
        if scribble:
            for s in (fr.particles, nx.particles, fr.tracers, nx.tracers):
                for k, v in s.as_dict().items():
                    v[...] = -99
                s.set_pos(np.full((len(s), 3), 1e9))

    def value(kind, t, a, b):
        return float(t) + a[0] if kind == 0 else np.r_[float(t), a, b] if kind == 1 else a[0] * b

    def do(o, depth):
        ctx.state(case['pf'], o[0], min(2, len(its)), depth)
        if o[0] == 'it':
            rg = r if o[2] is None else [x + base for x in o[2]]
            its[o[1]] = {'it': iter(seq) if o[2] is None else seq.iter_subrange(*rg), 'next': rg[0], 'end': rg[1], 'p': cur['p'], 't': cur['t'],
                         'range': rg, 'scribble': o[3]}
            take(o[1], 'iteration')
        elif o[0] == 'next':
            for _ in range(o[2]):
                if o[1] not in its or not take(o[1], 'iteration'):
                    break
        elif o[0] == 'drop':
            its.pop(o[1], None)
            gc.collect()
        elif o[0] == 'sel':
            select(o[1], o[2], o[3], o[4])
        elif o[0] == 'list':
            cur[o[1]].check_list(ctx, seq.particle_trajectories() if o[1] == 'p' else seq.tracer_trajectories(), 'list')
        elif o[0] == 'subrange':
            e = (max(min(int(t['time'][0]) for t in cur['p'].trajs), r[0]), min(max(int(t['time'][-1]) for t in cur['p'].trajs), r[1]))
            got = seq.subrange()
            ctx.check(tuple(got) == e, 'subrange', '%s, expected %s' % (got, e))
        elif o[0] == 'map':
            domap(o, depth)
        elif o[0] == 'fault':
            ctx.end()
            w = o[1]
            (seq.set_particle_selector if w == 'p' else seq.set_tracer_selector)(lambda trs: trs)
            cur[w] = full[w]
            get = lambda: seq.particle_trajectories() if w == 'p' else seq.tracer_trajectories()
            ctx.begin([{'cls': o[2], 'idx': o[3], 'act': 'err', 'arg': 5}], **quiet)
            try:
                got = get()
            except Exception:
                got = None
            rep = ctx.end()
            ctx.begin([], **quiet)
            ctx.check(got is not None or any(rep['fired']), 'fails without a fault', '')
            if got is not None:
                cur[w].check_list(ctx, got, 'list after a survived fault')
            ctx.state('fault', case['pf' if w == 'p' else 'tf'], o[2], got is None)
            cur[w].check_list(ctx, get(), 'list after a failed one')

    def domap(o, depth):
        _, sub, history, fail, nest, kind = o
        rg = r if sub is None else [x + base for x in sub]
        p, tr = cur['p'], cur['t']
        calls = [0]
        exp = {}
        for e in p.trajs:
            ks = [k for k in range(len(e['time']) - 1) if rg[0] <= e['time'][k] < rg[1]]
            if ks:
                exp[pkey(e['pos'][-1]) + (int(e['time'][-1]),)] = (e, ks)

        def func(s, fr, nx, *rest):
            rest = list(rest)
            ctx.check(s is seq, 'callback: sequence', '')
            hist = rest.pop(0) if history else None
            ctx.check(rest == [5, 'x'], 'callback: extra arguments', str(rest))
            n = calls[0]
            calls[0] += 1
            t = rg[0] + n
            out = {}
            for i, a, b in zip(fr.particles.trajid(), fr.particles.pos(), nx.particles.pos()):
                out[int(i)] = value(kind, t, a.copy(), b.copy())
            check_pair(fr, nx, t, p, tr, 'callback', n % 2 == 1)
            if hist is not None:
                for i in out:
                    k = p.byid[i]
                    e, ks = exp[k]
                    got = hist[i]
                    ctx.check(len(got) == len(ks), 'history: length', '%d, expected %d' % (len(got), len(ks)))
                    for m, kk in enumerate(ks):
                        if e['time'][kk] < t:
                            want = value(kind, int(e['time'][kk]), e['pos'][kk], e['pos'][kk + 1])
                            ctx.check(got[m] is not None and same(got[m], want), 'history: values', 'trajectory %s, time %s' % (i, e['time'][kk]))
                        else:
                            ctx.check(got[m] is None, 'history: early', '')
            for at, op in nest:
                if at == n:
                    do(op, depth + 1)
            if fail == n:
                raise Interrupted('callback')
            return out

        fails = fail is not None and fail < rg[1] - rg[0]
        try:
            res = seq.map_trajectories(func, None if sub is None else tuple(rg), history, (5, 'x'))
        except Interrupted:
            ctx.check(fails, 'callback exception from elsewhere', '')
            ctx.stat('planned callback:raise')
            ctx.stat('fired callback:raise')
            return
        ctx.check(not fails, 'callback exception lost', '')
        ctx.check(calls[0] == max(0, rg[1] - rg[0]), 'map: calls', '%d, expected %d' % (calls[0], rg[1] - rg[0]))
        ctx.check(len(res) == len(exp), 'map: trajectories', '%d, expected %d' % (len(res), len(exp)))
        for i, got in res.items():
            k = p.byid.get(int(i))
            ctx.check(k in exp, 'map: trajectory', '%s' % i)
            e, ks = exp[k]
            want = np.array([value(kind, int(e['time'][kk]), e['pos'][kk], e['pos'][kk + 1]) for kk in ks])
            ctx.check(same(got, want), 'map: values', 'trajectory %s: %s' % (i, diff(got, want)))
            count[0] += 1
        ctx.state('map', sub is None, history, min(2, len(nest)), len(exp) > 0)

    if case['rev']:
        select('p', 'all', True, False)
    for o in case['ops']:
        do(o, 0)
    for k in sorted(its):
        while take(k, 'iteration at the end'):
            pass
    ctx.end()
    ctx.nontrivial = count[0] > 0
