"""C16: interpolation depends on the current scene and data only, not on history."""
from interp import *
import kit

ID = 'C16'
RUNS = (12000, 100000)
RULE = ('A run puts one interpolant (drawn method, neighbours, radius, parameter) through a drawn history of scenes, fields, points, '
        'companions, data, trims, queries and one-off interpolations, some of them failed by the simulator (an allocation that fails, or an '
        'interruption at a drawn line), and compares every answer with brute force. Non-trivial: a value was compared.')
STATES = 'method, radius or not, operation, previous operation, tracers compared with neighbours, companion given, kind of failure'
STUB = STUB + ['interruption: KeyboardInterrupt raised at a drawn line of flowtracks by a trace function']

QUERIES = ['interp', 'subset', 'dists', 'rel', 'active', 'jac', 'jacloc', 'call', 'ndists', 'getdata', 'getfield']


def gen_op(rng, k):
    q = rng.random()
    fail = None
    if rng.random() < .12:
        fail = [rng.choice(['line', 'line', 'alloc']), rng.randrange(60)]
    n = rng.choice([0, 1, k - 1, k, k + 1, k + 2, k + 3, 10, 20])
    n = max(n, 0)
    m = rng.choice([0, 1, 1, 2, 3, 6])
    comp = rng.choice([None, None, rng.randrange(1, 1000)])
    salt = rng.randrange(1, 10**6)
    if q < .18:
        return ['scene', salt, n, m, comp, rng.choice([0, 1, 2, 3, 3]), fail]       # last: columns of data, 0: none given
    if q < .26:
        return ['field', salt, n, rng.choice([0, 1, 3, 3]), fail]
    if q < .36:
        return ['points', salt, m, comp, fail]
    if q < .44:
        return ['newdata', salt, rng.choice([0, 1, 2, 3, 3]), fail]        # 0: one-dimensional
    if q < .52:
        return ['trim', salt, fail]
    return [rng.choice(QUERIES + ['interp', 'interp', 'jac']), salt, fail]


def gen(rng, tier, i):
    method = rng.choice(['inv', 'inv', 'inv', 'rbf', 'corrfun'])
    k = rng.choice([1, 2, 3, 4, 7])
    return {'method': method, 'k': k, 'radius': rng.choice([None, None, 50, 120, 300]), 'par': rng.randrange(6),
            'first': ['scene', rng.randrange(1, 10**6), rng.choice([1, k, 12]), rng.choice([1, 2, 5]), rng.choice([None, 7]), 3, None],
            'ops': [gen_op(rng, k) for _ in range(rng.randrange(2, 16))], 'defk': rng.random() < .2, 'reuse': rng.random() < .4}


def valid(c):
    if c['method'] not in ('inv', 'rbf', 'corrfun') or c['k'] < 1 or c['radius'] is not None and c['radius'] < 1 or not 0 <= c['par'] < 6:
        return False
    ln = {'scene': 7, 'field': 5, 'points': 5, 'newdata': 4, 'trim': 3}
    for o in [c['first']] + c['ops']:
        if not o or o[0] not in ln and o[0] not in QUERIES or len(o) != ln.get(o[0], 3) or o[1] < 1 or any(x is not None and x < 0 for x in o[1:-1]):
            return False
        f = o[-1]
        if f is not None and (len(f) != 2 or f[0] not in ('line', 'alloc') or f[1] < 0):
            return False
    return c['first'][0] == 'scene' and c['first'][-1] is None and c['first'][2] > 0 and c['first'][5] > 0


def tracers(salt, n):
    return 0.1 * unit(salt, np.arange(n)[:, None], np.arange(3)[None]) if n else np.zeros((0, 3))


def run(case, ctx):
    from flowtracks import interpolation
    method, radius = case['method'], None if case['radius'] is None else case['radius'] * 1e-3
    k = case['k']
    corr = None
    if method == 'inv':
        par = [1, 1.5, 2, 3, 0.5, 1][case['par']]
        arg = None if case['par'] == 0 else par
    elif method == 'rbf':
        par = [1e5, 1e4, 3e4, 1e6, 2e5, 1e5][case['par']]
        arg = None if case['par'] == 0 else par
    else:
        nb = 2 + case['par']
        h = 1. - .8 * np.arange(nb) / nb
        if case['par'] % 2:
            h = np.stack([h, h ** 2, 1. / (1. + np.arange(nb))], axis=1)
        corr = (h, .1 * np.arange(nb) / nb)
        np.savez('corr.npz', corrs=corr[0], bins=corr[1])
        par = arg = './corr.npz'
    cols = 3 if method == 'corrfun' else None          # the correlation may be for each of three components
    karg = k
    if case['defk']:
        k, karg = (7 if method == 'rbf' else 4), None

    ctx.begin()
    it = interpolation.interpolant(method, karg, radius, arg)
    ref = Ref(method, k, radius, par, corr)
    done = [0]

    buffers = {}
    def give(name, a):
        """The caller has one array for each purpose, which is filled anew."""
        if a is None:
            return None
        b = buffers.get(name)
        if not case.get('reuse') or b is None or b.shape != a.shape or b.dtype != a.dtype:
            b = buffers[name] = a.copy()
        b[...] = a
        return b

    def points(salt, m):
        """Some of the points lie on a tracer."""
        p = 0.1 * unit(salt, np.arange(m)[:, None], np.arange(3, 6)[None]) if m else np.zeros((0, 3))
        if len(ref.tr):
            for i in range(m):
                if h64(salt, i, 50) % np.uint64(5) == 0:
                    p[i] = ref.tr[int(h64(salt, i, 51) % np.uint64(len(ref.tr)))]
        return p

    def companions(salt, p):
        """The nearest tracer, any, or none in the frame."""
        n = len(ref.tr)
        c = np.full(len(p), -1, dtype=np.int64)
        for i in range(len(p)):
            q = int(h64(salt, i, 52) % np.uint64(4))
            if n and q < 2:
                c[i] = int(np.argmin(((ref.tr - p[i]) ** 2).sum(axis=1)))
            elif n and q == 2:
                c[i] = int(h64(salt, i, 53) % np.uint64(n))
        return c

    def values(salt, d):
        d = d if cols is None else cols
        return 3. * (unit(salt, np.arange(len(ref.tr))[:, None], 60 + np.arange(d)[None]) - .5) if len(ref.tr) else np.zeros((0, d))

    def perform(call, fail):
        """Returns (ended, result)."""
        if fail is None:
            return True, call()
        if fail[0] == 'alloc':
            ctx.end()
            ctx.begin(memfail=fail[1] // 10)
            try:
                r = call()
                ended = True
            except MemoryError:
                ended, r = False, None
            ctx.end()
            ctx.begin()
            return ended, r
        ctx.stat('planned line:interrupt')
        with kit.Interrupt(fail[1]) as i:
            try:
                r = call()
                ended = True
            except KeyboardInterrupt:
                ended, r = False, None
        ctx.stat('fired line:interrupt', i.fired)
        return ended, r

    def whole(salt, n, m, comp, d):
        ref.tr = tracers(salt, n)
        ref.pts = points(salt, m)
        ref.comp = None if comp is None else companions(comp, ref.pts)
        ref.data = values(salt, d)
        it.set_scene(give('tr', ref.tr), give('pts', ref.pts), give('data', ref.data), give('comp', ref.comp))

    def compare(what, got, exp, tol=1e-8, floor=1e-9):
        ctx.check(near(got, exp, tol, floor), what, '%s %s, after %s' % (method, diff(np.asarray(got, dtype=float), exp), trail[-6:]))
        done[0] += np.asarray(exp).size
        ctx.see(trail[-1], np.asarray(exp).shape)

    trail = []
    prev = ''
    for o in [case['first']] + case['ops']:
        op, salt, fail = o[0], o[1], o[-1]
        trail.append(op if fail is None else op + '!')
        ended = True
        if op == 'scene':
            _, _, n, m, comp, d, _ = o
            ref.tr = tracers(salt, n)
            ref.pts = points(salt, m)
            ref.comp = None if comp is None else companions(comp, ref.pts)
            data = None if d == 0 else values(salt, d)
            if data is None and ref.data is not None and len(ref.data) != n:
                ref.data = None
            if data is not None:
                ref.data = data
            ended, _ = perform(lambda: it.set_scene(give('tr', ref.tr), give('pts', ref.pts), give('data', data), give('comp', ref.comp)), fail)
        elif op == 'field':
            ref.tr = tracers(salt, o[2])
            ended, _ = perform(lambda: it.set_field_positions(give('tr', ref.tr)), fail)
            if len(ref.data if ref.data is not None else ()) != o[2] or ref.data is None:
                ref.data = values(salt, max(1, o[3]))
                if ended:
                    it.set_data_on_current_field(give('data', ref.data))
            if ended and ref.comp is not None and np.any(ref.comp >= o[2]):
                ref.comp = None                        # they were of another field
                it.set_interp_points(give('pts', ref.pts))
        elif op == 'points':
            ref.pts = points(salt, o[2])
            ref.comp = None if o[3] is None else companions(o[3], ref.pts)
            ended, _ = perform(lambda: it.set_interp_points(give('pts', ref.pts), give('comp', ref.comp)), fail)
        elif op == 'newdata':
            d = values(salt, max(1, o[2]))
            flat1 = o[2] == 0 and cols is None
            one = len(d) == 1 and d.shape[1] > 1 and cols is None and salt % 3 > 0        # that of the only tracer
            ended, _ = perform(lambda: it.set_data_on_current_field(give('flat', d[:, 0]) if flat1 else give('flat', d[0]) if one else give('data', d)), fail)
            ref.data = d
        elif op == 'trim':
            w = unit(salt, np.arange(len(ref.pts)), 70) < .4
            ended, _ = perform(lambda: it.trim_points(give('trim', w)), fail)
            ref.pts = ref.pts[~w]
            ref.comp = None if ref.comp is None else ref.comp[~w]
        if op not in QUERIES:
            if not ended:
                # What was interrupted is not set; the user sets the scene again.
                ctx.stat('setters interrupted')
                whole(salt, 5 + salt % 9, 1 + salt % 3, salt if salt % 2 else None, 3)
            ctx.state(method, radius is None, op, prev, (len(ref.tr) > k) + (len(ref.tr) > 0), ref.comp is None, fail and fail[0])
            prev = op
            continue
        if ref.data is None:
            continue
        call, exp, tol = None, None, 1e-8
        if op == 'interp':
            call, exp = it.interpolate, ref.value
            tol = 1e-6
        elif op == 'subset':
            if len(ref.tr) == 0:
                continue
            n = len(ref.tr)
            act = ref.active()
            drop = unit(salt, np.arange(len(ref.pts))[:, None], np.arange(k)[None]) < .4
            masks = [set(np.nonzero(d)[0]) for d in drop]
            sub = np.where(drop, n, act)
            call, exp = (lambda: it.interpolate(give('sub', sub))), (lambda: ref.value(masks))
            tol = 1e-6
        elif op in ('dists', 'rel', 'active'):
            call = {'dists': it.current_dists, 'rel': it.current_relative_positions, 'active': it.current_active_neighbs}[op]
            exp = {'dists': ref.dists, 'rel': ref.rel, 'active': ref.active}[op]
        elif op in ('jac', 'jacloc'):
            if len(ref.tr) == 0 or method != 'inv' and (ref.data.shape[1] != 3 or len(ref.tr) < k + 3 or radius is not None):
                continue
            loc = None if op == 'jac' else ref.value() + .25
            call = lambda: it.eulerian_jacobian() if loc is None else it.eulerian_jacobian(give('loc', loc))
            exp = lambda: ref.jacobian(loc)
            tol = 1e-6 if method == 'inv' else 1e-3
        elif op == 'call':
            if method == 'inv':
                continue
            r2 = Ref(method, k if radius is None else 1000, radius, par, corr)        # all in the radius
            r2.tr = tracers(salt + 1, k + 3 + salt % 7) if salt % 6 else np.zeros((0, 3))
            keep, ref.tr = ref.tr, r2.tr
            r2.pts = points(salt + 1, 1 + salt % 4)
            r2.comp = None if salt % 3 else companions(salt, r2.pts)
            r2.data = values(salt + 1, 3)
            ref.tr = keep
            call = lambda: it(give('tr1', r2.tr), give('pts1', r2.pts), give('data1', r2.data), give('comp1', r2.comp))
            exp = r2.value
            tol = 1e-6
        elif op == 'ndists':
            r2 = Ref(method, k, None, par, corr)
            r2.tr = tracers(salt + 2, k + 3)
            keep, ref.tr = ref.tr, r2.tr
            r2.pts = points(salt + 2, 2)
            r2.comp = None if salt % 3 else companions(salt, r2.pts)
            ref.tr = keep
            call = lambda: np.sort(it.neighb_dists(give('tr1', r2.tr), give('pts1', r2.pts), give('comp1', r2.comp)), axis=1)
            exp = r2.dists
        elif op == 'getdata':
            call, exp = it.current_data, lambda: ref.data
        else:
            call, exp = it.field_positions, lambda: ref.tr
        ended, got = perform(call, fail)
        if not ended:
            ctx.stat('queries interrupted')
            trail.append('again')
            got = call()                       # the same question again
        compare(op + (' after an interrupted one' if not ended else ''), got, exp(), tol, 1. if tol == 1e-3 else 1e-9)
        ctx.check(it.num_neighbs() == k and it.radius() == radius, 'parameters', '')
        ctx.state(method, radius is None, op, prev, (len(ref.tr) > k) + (len(ref.tr) > 0), ref.comp is None, fail and fail[0], ended)
        prev = op
    ctx.end()
    ctx.nontrivial = done[0] > 0
