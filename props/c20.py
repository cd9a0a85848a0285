"""C20: particle sets keep each property as last set, independent of other sets."""
from common import *
import kit, gc

ID = 'C20'
RUNS = (6500, 150000)
RULE = ('A run makes a drawn history on up to six particle sets: creation, properties created, replaced, set in whole or in part, sets dropped, '
        'and frames extracted from them; some operations interrupted and repeated. After each operation every living set is compared with '
        'the reference through all of its getters. Non-trivial: at least two sets were alive at once.')
STATES = 'operation, kind of set, properties it has, sets alive, kind of selector, fault and outcome'
STUB = STUB + ['interruption, exhausted memory: an exception raised at a drawn line of flowtracks by a trace function']
NAMES = ['accel', 'tag', 'diam', 'id', 't', 'pos', 'velocity', 'time', 'trajid']
KINDS = ['f8', 'f4', 'i4', 'i8']


def gen_sel(rng, n):
    q = rng.randrange(6)
    if q == 0:
        return ['int', rng.randrange(-n, n)]
    if q == 1:
        a = rng.randrange(n)
        return ['slice', a, rng.randrange(a, n + 2), rng.choice([1, 1, 2])]
    if q == 2:
        return ['list', [rng.randrange(n) for _ in range(rng.randrange(1, n + 1))] if rng.random() < .3 else rng.sample(range(n), rng.randrange(1, n + 1))]
    if q == 3:
        return ['mask', [int(rng.random() < .5) for _ in range(n)]]
    return ['none']


def gen(rng, tier, i):
    ops, size = [], {}
    fixed = rng.random() < .5
    common = rng.sample(NAMES[:5], rng.randrange(0, 4))
    shapes = dict((c, [rng.choice(KINDS), rng.choice([0, 0, 1, 2, 3])]) for c in NAMES[:5])
    for _ in range(rng.randrange(4, 25)):
        s = rng.randrange(6)
        q = rng.random()
        fail = None
        if rng.random() < .15:
            fail = ['line', rng.randrange(60), rng.choice('KM')] if rng.random() < .7 else ['mem', rng.randrange(6)]
        if s not in size or q < .12:
            n = rng.choice([1, 2, 3, 5, 9])
            size[s] = n
            props = [[c] + shapes[c] for c in common] if fixed or rng.random() < .7 else [[c] + shapes[c] for c in rng.sample(NAMES[:5], rng.randrange(0, 5))]
            ops.append([rng.choice(['traj', 'traj', 'traj', 'snap']), s, n, rng.randrange(6), props, fail])
        elif q < .28:
            ops.append(['create', s, rng.randrange(5), rng.choice(KINDS), rng.choice([0, 1, 2, 3]), rng.random() < .2, fail])
        elif q < .6:
            ops.append(['set', s, rng.randrange(9), gen_sel(rng, size[s]), rng.randrange(20) if rng.random() < .4 else 0, fail])
        elif q < .7:
            ops.append(['get', s, rng.randrange(9), gen_sel(rng, size[s])])
        elif q < .78:
            ops.append(['row', s, gen_sel(rng, size[s])])
        elif q < .83:
            ops.append(['drop', s])
            del size[s]
        elif q < .88:
            ops.append(['smooth', rng.choice([3, 5, 5, 7]), rng.randrange(4), rng.randrange(3), rng.randrange(6), rng.random() < .3, fail])
        elif q < .9:
            ops.append(['spline', s, rng.randrange(6), rng.choice([3, 3, 5]), rng.randrange(3), fail])
        else:
            ops.append(['frame', rng.randrange(0, 9), rng.random() < .5, rng.random() < .5, rng.random() < .4, rng.randrange(6), fail])
    return {'ops': ops, 'salt': rng.randrange(1, 10**6), 'base': rng.choice([0, 1, 10001]), 'ft': rng.random() < .2, 'same': rng.random() < .2}


def valid(c):
    size = {}
    n = {'traj': 6, 'snap': 6, 'create': 7, 'set': 6, 'get': 4, 'row': 3, 'drop': 2, 'frame': 7, 'smooth': 7, 'spline': 6}

    def okfail(f):
        return f is None or f[0] == 'line' and len(f) == 3 and f[1] >= 0 and f[2] in ('K', 'M') or f[0] == 'mem' and len(f) == 2 and f[1] >= 0

    for o in c['ops']:
        if len(o) != n[o[0]]:
            return False
        if o[0] in ('traj', 'snap', 'create', 'set', 'frame', 'smooth', 'spline') and not okfail(o[-1]):
            return False
        if o[0] in ('traj', 'snap'):
            if o[2] < 1 or o[3] < 0 or len(set(p[0] for p in o[4])) < len(o[4]) or any(p[0] not in NAMES[:5] or p[1] not in KINDS or p[2] not in range(4) for p in o[4]):
                return False
            size[o[1]] = o[2]
        elif o[0] == 'smooth':
            if o[1] not in (3, 5, 7) or not 0 <= o[2] < 4 or o[3] not in (0, 1, 2) or not 0 <= o[4] < 6:
                return False
        elif o[0] == 'spline' and not (o[3] in (3, 5) and o[4] in (0, 1, 2) and 0 <= o[2] < 6):
            return False
        elif o[0] != 'frame':
            if o[1] not in size:
                return False
            m = size[o[1]]
            if o[0] == 'drop':
                del size[o[1]]
            if o[0] == 'create' and not (0 <= o[2] < 5 and o[3] in KINDS and o[4] in range(4)):
                return False
            if o[0] in ('set', 'get', 'row'):
                s = o[2] if o[0] == 'row' else o[3]
                if s[0] == 'int' and not -m <= s[1] < m or s[0] == 'slice' and not (0 <= s[1] <= s[2] and s[3] > 0) or s[0] == 'list' and not (
                        s[1] and all(0 <= x < m for x in s[1])) or s[0] == 'mask' and len(s[1]) != m:
                    return False
    return c['salt'] > 0 and c['base'] >= 0


def fit(s, n):
    """The selector for a set of another size."""
    if s[0] == 'int':
        return ['int', s[1] % n if s[1] >= 0 else -1 - (-1 - s[1]) % n]
    if s[0] == 'list':
        return ['list', [x % n for x in s[1]]]
    if s[0] == 'mask':
        return ['mask', (s[1] * n)[:n]]
    return s


def selector(s, n):
    s = fit(s, n)
    return {'none': lambda: None, 'int': lambda: s[1], 'slice': lambda: slice(s[1], s[2], s[3]), 'list': lambda: np.array(s[1]),
            'mask': lambda: np.array(s[1], dtype=bool)}[s[0]]()


def run(case, ctx):
    from flowtracks import trajectory as T
    base = case['base']
    pool = {}                     # slot -> (object, {property: array}, kind, id or time)
    counter = [0]

    def values(kind, k, n):
        counter[0] += 1
        v = unit(case['salt'], counter[0], np.arange(n)[:, None], np.arange(max(k, 1))[None])
        v = ((v - .5) * 2000).astype(kind)
        return v if k else v[:, 0]

    def exact(a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and same(a, b)

    def inspect(slot, what):
        obj, m, kind, tag = pool[slot]
        n = len(m['pos'])
        ctx.check(len(obj) == n, what + ': length', '%d, expected %d' % (len(obj), n))
        ctx.check((obj.trajid() if kind == 'traj' else obj.time()) == tag, what + ': identity', '%s, expected %s' % (
            obj.trajid() if kind == 'traj' else obj.time(), tag))
        d = obj.as_dict()
        ctx.check(set(d) == set(m), what + ': properties', '%s, expected %s' % (sorted(d), sorted(m)))
        sc, ex = obj.schema(), obj.ext_schema()
        ctx.check(set(sc) == set(m) == set(ex), what + ': schema', '%s, %s' % (sorted(sc), sorted(ex)))
        for c, v in m.items():
            ctx.see(c, d[c])
            ctx.check(exact(d[c], v), what + ': as_dict', '%s %s' % (c, diff(d[c], v)))
            ctx.check(exact(getattr(obj, c)(), v), what + ': getter', '%s %s' % (c, diff(getattr(obj, c)(), v)))
            ctx.check(tuple(sc[c]) == v.shape[1:], what + ': schema', '%s: %s' % (c, sc[c]))
            ctx.check(ex[c] == (v.dtype.type, v.shape[-1] if v.ndim > 1 else 1), what + ': ext_schema', '%s: %s' % (c, ex[c]))
        for c in NAMES[:5]:
            ctx.check(obj.has_property(c) == (c in m), what + ': has_property', c)
        for x in (d, sc, ex) if case['salt'] % 3 == 0 else ():     # they are the caller's
            x.clear()
            x['other'] = None

    def attempt(fn, fail):
        """An interrupted operation is made again, which has to work."""
        if fail is None:
            return fn()
        ended, r, fired = ctx.attempt(fn, fail)
        ctx.state('fault', fail[0], ended, bool(fired))
        return r if ended else fn()

    ctx.begin()
    alive = 0
    for o in case['ops']:
        if o[0] in ('traj', 'snap'):
            _, s, n, t0, props, fail = o
            t = np.arange(n) + t0 + base
            t = t.astype(float) if case['ft'] else t
            # A place shared by several particles.
            m = {'pos': values('f8', 3, n), 'velocity': values('f8', 3, n)}
            if case['same'] and counter[0] % 3 == 0:
                m['pos'][:] = 7.
            for c, k, w in props:
                m[c] = values(k, w, n)
            args = dict((c, v.copy()) for c, v in m.items())
            if o[0] == 'traj':
                m['time'], tag = t, 1000 + counter[0]
                obj = attempt(lambda: T.Trajectory(args.pop('pos'), args.pop('velocity'), t.copy(), tag, **args) if 'pos' in args else
                              T.Trajectory(m['pos'].copy(), m['velocity'].copy(), t.copy(), tag, **args), fail)
            else:
                m['trajid'], tag = np.arange(n) * 3 + counter[0], t0 + base
                obj = attempt(lambda: T.ParticleSnapshot(time=tag, trajid=m['trajid'].copy(), **args), fail)
            pool[s] = (obj, m, o[0], tag)
        elif o[0] == 'create':
            _, s, c, k, w, late, fail = o
            obj, m, kind, tag = pool[s]
            v = values(k, w, len(m['pos']))
            if late:
                attempt(lambda: obj.create_property(NAMES[c], None), fail)
                getattr(obj, 'set_' + NAMES[c])(v.copy())
            else:
                attempt(lambda: obj.create_property(NAMES[c], v.copy()), fail)
            m[NAMES[c]] = v
        elif o[0] in ('set', 'get'):
            s, c, sel = o[1:4]
            obj, m, kind, tag = pool[s]
            c = NAMES[c]
            if c not in m:
                continue
            old = m[c]
            if o[0] == 'get':
                sv = selector(sel, len(old))
                got = getattr(obj, c)(sv) if o[1] % 2 else getattr(obj, c)(selector=sv)
                exp = old if sv is None else old[sv]
                ctx.check(exact(got, exp), 'getter with a selector', '%s %s: %s' % (c, sel, diff(got, exp)))
            else:
                n = len(old)
                w = old.shape[1] if old.ndim > 1 else 0
                sv = selector(sel, len(old))
                if sv is None:
                    k = old.dtype.char if not (case['ft'] and c == 'time') else 'f8'
                    if o[4] and c in NAMES[:5]:       # of another kind and shape
                        k, w = KINDS[o[4] % 4], o[4] // 4 % 4
                    new = values(k, w, n)
                    attempt(lambda: getattr(obj, 'set_' + c)(new.copy()), o[5])
                    m[c] = new
                else:
                    part = old[sv]
                    new = values(old.dtype.char, w, max(1, np.size(part) // max(w, 1)))
                    new = new.reshape(np.shape(part)) if np.size(part) else np.zeros(np.shape(part), dtype=old.dtype)
                    if o[4]:
                        new = new.flat[0] if np.size(new) else 0       # one value for all
                    attempt(lambda: getattr(obj, 'set_' + c)(new, sv) if o[1] % 2 else getattr(obj, 'set_' + c)(new, selector=sv), o[5])
                    m[c] = old.copy()
                    m[c][sv] = new
        elif o[0] == 'row':
            obj, m, kind, tag = pool[o[1]]
            if kind != 'traj':
                continue
            sv = selector(o[2], len(m['pos']))
            sv = slice(None) if sv is None else sv
            got = obj[sv]
            p = m['pos'][sv]
            exp = np.concatenate([p, m['velocity'][sv], np.asarray(m['time'][sv], dtype=float)[..., None], np.full(p.shape[:-1] + (1,), float(tag))], axis=-1)
            ctx.check(same(got, exp), 'table rows', '%s: %s' % (o[2], diff(got, exp)))
        elif o[0] == 'drop':
            del pool[o[1]]
            obj = m = None
            gc.collect()
        elif o[0] == 'smooth':
            smooth(o, ctx, T, pool, attempt, exact)
        elif o[0] == 'spline':
            _, s, out, order, bound, fail = o
            obj, m, kind, tag = pool[s]
            if kind != 'traj' or len(m['pos']) <= order or not np.all(np.diff(m['pos'], axis=0).any(axis=1)):
                continue
            new = attempt(lambda: obj.smoothed(bound * .3, order), fail)
            from scipy.interpolate import splprep, splev
            spl, at = splprep([np.array(c) for c in m['pos'].T], k=order, s=(len(m['pos']) * bound * .3)**2)
            exp = dict((c, np.array(splev(at, spl, der=n)).T) for n, c in enumerate(('pos', 'velocity', 'accel')))
            exp['time'] = m['time'].copy()
            pool[out] = (new, exp, 'traj', tag)
        else:
            frame(o, ctx, T, case, pool, attempt, exact, inspect)
        for s in sorted(pool):
            inspect(s, 'after ' + o[0] if o[0] not in ('frame', 'smooth') and len(o) > 1 and s == o[1] else 'another set')
        alive = max(alive, len(pool))
        ctx.state(o[0], len(pool), pool[o[1]][2] if o[0] not in ('frame', 'smooth') and o[1] in pool else '', o[3][0] if o[0] in ('set', 'get') else '')
    ctx.end()
    ctx.nontrivial = alive > 1


def frame(o, ctx, T, case, pool, attempt, exact, inspect):
    _, t, segs, given, change, out, fail = o
    t += case['base']
    # Trajectories with the properties and shapes of the first, not necessarily its types.
    kind = lambda m: sorted((c, v.shape[1:]) for c, v in m.items())
    slots = [s for s in sorted(pool) if pool[s][2] == 'traj' and np.all(np.diff(pool[s][1]['time']) == 1)]
    slots = [s for s in slots if kind(pool[s][1]) == kind(pool[slots[0]][1])]
    if not slots:
        return
    trs = [pool[s][0] for s in slots]
    ms = [pool[s][1] for s in slots]
    args = ()
    if given:
        args = (np.array([m['time'][0] for m in ms]), np.array([m['time'][-1] for m in ms]))
    exp, seen = [], set()
    for n, m in enumerate(ms):
        if m['time'][0] <= t and t + segs <= m['time'][-1]:
            p = tuple(m['pos'][int(t - m['time'][0])])
            if p not in seen:                             # one particle for one place
                seen.add(p)
                exp.append(n)
    ixs = attempt(lambda: T.trajectories_in_frame(trs, t, *args, segs=segs), fail)
    ctx.check([int(i) for i in ixs] == exp, 'trajectories in frame', '%s, expected %s' % (list(ixs), exp))
    for k in range(1 + segs):
        snap = attempt(lambda: T.take_snapshot([trs[i] for i in ixs], t + k, trs[0].schema()), fail)
        what = 'snapshot' if exp else 'empty snapshot'
        d = snap.as_dict()
        ctx.check(snap.time() == t + k, what + ': time', str(snap.time()))
        props = [c for c in ms[0] if c != 'time']
        ctx.check(set(d) == set(props) | {'trajid'}, what + ': properties', '%s, expected %s' % (sorted(d), sorted(props)))
        ctx.check([int(i) for i in d['trajid']] == [pool[slots[n]][3] for n in exp], what + ': trajid', str(d['trajid']))
        model = {'trajid': np.array([pool[slots[n]][3] for n in exp], dtype=np.int64)}
        for c in props:
            typ = sorted(set(str(ms[n][c].dtype) for n in exp or [0]))
            e = np.array([ms[n][c][int(t + k - ms[n]['time'][0])] for n in exp], dtype=typ[0] if len(typ) == 1 else float)
            e = e.reshape((len(exp),) + ms[0][c].shape[1:])
            ctx.check((exact if len(typ) == 1 else same)(d[c], e) if exp else np.shape(d[c]) == e.shape, what + ': values', '%s %s' % (c, diff(d[c], e)))
            model[c] = e if len(typ) == 1 else np.array(d[c])
        if change and exp:
            for c in props:
                getattr(snap, 'set_' + c)(-1, slice(None))
            for s in slots:
                inspect(s, 'after changes to a snapshot')
    if not change and exp:
        # It stays as it is while the trajectories change.
        pool[out] = (snap, model, 'snap', t + segs)
    ctx.state('frame', segs, given, len(exp), len(slots), change)


FPS = [1., 50., 2000.]

def smooth(o, ctx, T, pool, attempt, exact):
    """Savitzky-Golay smoothing of all living trajectories, against a fit of each window."""
    from flowtracks.smoothing import savitzky_golay
    _, window, order, f, out, lazy, fail = o
    order, fps, h = min(order, window - 2), FPS[f], window // 2
    slots = [s for s in sorted(pool) if pool[s][2] == 'traj']
    def call():
        trs = [pool[s][0] for s in slots]
        return savitzky_golay(iter(trs) if lazy else trs, fps, window, order)
    if f == 1:                                     # there is no such smoothing
        for w, n in ((window + 1, order), (window, window - 1), (window, window + 1), ('wide', order), (window, 'high')):
            try:
                savitzky_golay([pool[s][0] for s in slots], fps, w, n)
            except (TypeError, ValueError):
                continue
            ctx.fail('smoothing: no error', 'window %s, order %s' % (w, n))
    res = attempt(call, fail)
    exp = [s for s in slots if len(pool[s][1]['pos']) >= window]
    ctx.check([t.trajid() for t in res] == [pool[s][3] for s in exp], 'smoothing: trajectories', '%s, expected %s' % (
        [t.trajid() for t in res], [pool[s][3] for s in exp]))
    x = np.arange(-h, h + 1)
    made = {}
    for tr, s in zip(res, exp):
        m = pool[s][1]
        n = len(m['pos'])
        co = np.zeros((n, 3, 4))
        for c in range(3):
            y = m['pos'][:, c]
            y = np.concatenate([y[0] - np.abs(y[1:h + 1][::-1] - y[0]), y, y[-1] + np.abs(y[-h - 1:-1][::-1] - y[-1])])
            for k in range(n):
                co[k, c, :order + 1] = np.polyfit(x, y[k:k + window], order)[::-1]
        pos, vel, acc, jerk = co[:, :, 0], co[:, :, 1] * fps, co[:, :, 2] * 2 * fps ** 2, co[:, :, 3] * 6 * fps ** 3
        model = {'pos': pos, 'velocity': vel, 'accel': acc, 'vel_pp': np.vstack([np.zeros((1, 3)), (vel + acc / fps + jerk / 2 / fps ** 2)[:-1]]),
                 'acc_pp': np.vstack([np.zeros((1, 3)), (acc + jerk / fps)[:-1]])}
        scale = {'pos': 1., 'velocity': fps, 'accel': fps ** 2, 'vel_pp': fps, 'acc_pp': fps ** 2}
        d = tr.as_dict()
        ctx.check(set(d) == set(model) | set(m), 'smoothing: properties', '%s' % sorted(d))
        size = max(1., np.abs(m['pos']).max())
        new = {}
        for c in d:
            if c in model:
                ctx.check(np.shape(d[c]) == model[c].shape and np.allclose(d[c], model[c], rtol=1e-6, atol=1e-8 * size * scale[c]),
                          'smoothing: values', '%s: %s' % (c, diff(d[c], model[c])))
            else:
                ctx.check(exact(d[c], m[c]), 'smoothing: other properties', '%s: %s' % (c, diff(d[c], m[c])))
            new[c] = np.array(d[c])
        made[(out + s) % 6] = (tr, new, 'traj', tr.trajid())
    for s in made:
        if lazy or s not in pool or s == (out + exp[0]) % 6:
            pool[s] = made[s]
    ctx.state('smooth', window, order, len(exp), len(slots) - len(exp), lazy)
