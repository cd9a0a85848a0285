"""C07: DualScene - coordinated streams; a temporary frame range is undone however the iteration ends."""
from common import *
import gc
import kit

ID = 'C07'
RUNS = (900, 12000)
RULE = ('A run drives one DualScene through a drawn history: iterations over frames or segments with and without a temporary range, which '
        'are exhausted, abandoned, closed, thrown into, or hit by a read error, interleaved with each other and with reads of the two '
        'scenes. Non-trivial: an iteration with a range of its own ended before it was exhausted.')
STATES = 'operation, how iterations ended, form of the initial and acting ranges, number of open iterations'


def dual_data(rng, cover, big=False, comp=False):
    base = rng.choice([0, 1, 10001])
    maxlen = rng.choice([70, 140, 280]) if big else 7
    p = gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 4]), base=base, maxlen=maxlen, holes=rng.random() < .3)
    t = gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 6]), base=base, maxlen=maxlen, holes=rng.random() < .2, extra=rng.sample(['accel', 'tag'], 1))
    if cover:
        span = max(x[1] + x[2] for d in (p, t) for x in d['trajs'])
        for d in (p, t):
            d['trajs'].append([max(x[0] for x in d['trajs']) + 1, 0, span, []])
    return p, t


def both(rng, ds, none_ok):
    for _ in range(30):
        r = gen_range(rng, ds)
        if none_ok or (r is not None and r[0] is not None and r[1] is not None):
            return r
    return [0, 5]


def gen(rng, tier, i):
    cover = rng.random() < .6
    p, t = dual_data(rng, cover, i % 50 == 3)
    rr = lambda: both(rng, p, cover)
    ops = []
    for _ in range(rng.randrange(4, 16)):
        q, s = rng.random(), rng.randrange(2)
        k = rng.choice(['frames', 'segs'])
        if q < .25:
            ops.append(['new', s, k, rr() if rng.random() < .75 else -1])
        elif q < .45:
            ops.append(['next', s, rng.choice([1, 1, 2, 60])])
        elif q < .6:
            ops.append([rng.choice(['close', 'drop', 'throw']), s])
        elif q < .7:
            ops.append(['state'])
        elif q < .85:
            ops.append(['full', k, rr() if rng.random() < .6 else -1])
        elif q < .92:
            ops.append(['collect'])
        else:
            ops.append(['failread', rng.choice([0, 0, 1, 2])])
            ops.append(['new', s, k, rr()] if rng.random() < .5 else ['full', k, rr()])
    return {'p': p, 't': t, 'first': rr(), 'ops': ops, 'rf': gen_disturb(rng, writes=0, n=rng.choice([0, 1])), 'pframes': rng.random() < .3,
            'conf': rng.random() < .3, 'clock': gen_clock(rng)}


_ARITY = {'new': 4, 'next': 3, 'close': 2, 'drop': 2, 'throw': 2, 'state': 1, 'full': 3, 'collect': 1, 'failread': 2}

def same_span(c):
    return Model(c['p']).span() == Model(c['t']).span()


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and valid_faults(c['rf']) and c['p']['base'] == c['t']['base']):
        return False
    if not valid_range(c['first']):
        return False
    rs = [c['first']]
    for o in c['ops']:
        if not isinstance(o, list) or not o or _ARITY.get(o[0]) != len(o):
            return False
        if o[0] in ('new', 'full'):
            if o[-1] != -1:
                if not valid_range(o[-1]):
                    return False
                rs.append(o[-1])
            if o[-2] not in ('frames', 'segs'):
                return False
        if o[0] in ('new', 'next', 'close', 'drop', 'throw') and o[1] not in (0, 1):
            return False
        if o[0] == 'next' and o[2] < 1 or o[0] == 'failread' and o[1] < 0:
            return False
    return same_span(c) or all(r is not None and r[0] is not None and r[1] is not None for r in rs)


class Stop(Exception):
    pass


def plain_dual(x, kind):
    f = lambda y: (plain_frame(y.particles), plain_frame(y.tracers))
    return f(x) if kind == 'frames' else (f(x[0]), f(x[1]))


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    pm, tm = Model(pds), Model(tds)
    first = absrange(case['first'], base)

    def write():
        from flowtracks import io
        if case['pframes']:
            io.save_frames_hdf('./p.h5', sut_frames(pds))
        else:
            io.save_particles_table('./p.h5', sut_trajectories(pds))
        io.save_particles_table('./t.h5', sut_trajectories(tds))
    ctx.must(write, 'save')
    conf = case['conf'] and first is not None and None not in first
    if conf:
        from saving import CONF
        with open('conf', 'w') as f:
            f.write(CONF % (1e-3, 2500., 50., './t.h5', './p.h5', first[0], first[1] - 1))

    def read():
        from flowtracks.scene import DualScene, read_dual_scene
        from flowtracks.particle import Particle
        dual = read_dual_scene('conf') if conf else DualScene('./t.h5', './p.h5', 50., Particle(1e-3, 2500.), first)
        its, out, held = {}, [], []
        L = kit.lib()
        mk = lambda k, r: (dual.iter_frames if k == 'frames' else dual.iter_segments)(*(() if r == -1 else (absrange(r, base),)))

        def hold(x, kind):
            p = plain_dual(x, kind)
            held.append((x, kind, p))
            return p

        def take(it, n):
            got = []
            for _ in range(n):
                try:
                    got.append(hold(next(it[0]), it[1]))
                except StopIteration:
                    got.append(STOP)
                    break
            return got
        for op in case['ops']:
            o, r = op[0], None
            try:
                if o == 'new':
                    its.pop(op[1], None)
                    gc.collect()
                    its[op[1]] = (mk(op[2], op[3]), op[2])
                    r = take(its[op[1]], 1)
                elif o == 'next':
                    r = take(its[op[1]], op[2]) if op[1] in its else None
                elif o == 'close' and op[1] in its:
                    its.pop(op[1])[0].close()
                elif o == 'drop' and op[1] in its:
                    del its[op[1]]
                    gc.collect()
                elif o == 'throw' and op[1] in its:
                    try:
                        its.pop(op[1])[0].throw(Stop())
                        r = 'swallowed'
                    except Stop:
                        r = 'raised'
                elif o == 'full':
                    r = [hold(x, op[1]) for x in mk(op[1], op[2])]
                elif o == 'collect':
                    r = [np.array(x) for x in dual.get_particles().collect(['trajid', 'time', 'pos'])]
                elif o == 'state':
                    r = (dual.get_particles().frame_range(), dual.get_tracers().frame_range(), dual.get_range())
                elif o == 'failread':
                    L.sim_fault(kit.CLS['read'], L.sim_count(kit.CLS['read']) + op[1], kit.ACT['err'], 5, 0)
            except Exception as e:
                r = ('exc', type(e).__name__, str(e)[:200])
            st = (dual.get_particles().frame_range(), dual.get_tracers().frame_range())
            out.append((r, st))
        for x, kind, p in held:
            if not same_plain(plain_dual(x, kind), p):
                raise RuntimeError('a frame handed out changed later')
        return out, [L.sim_fired(k) for k in range(len(case['rf']), len(case['rf']) + 20)]

    out, fired = ctx.must(read, 'read', faults=case['rf'], clock=case['clock'])
    ctx.stat('fired read:err:EIO (armed)', sum(fired))

    open_, overlap, armed = {}, False, 0      # slot -> [kind, range, n]
    early = 0
    def lim(m, r):
        return m.limits(r)

    def item(kind, r, n, x, what):
        lo, hi = pm.limits(r)
        if x == STOP:
            ctx.check(n >= hi - lo - (kind == 'segs'), what + ': ends early', 'after %d, range %s' % (n, r))
            return
        t = lo + n
        ctx.check(t < hi - (kind == 'segs'), what + ': goes on', 'item %d, range %s' % (n, r))
        if kind == 'frames':
            check_frame(ctx, x[0], pm, t, what + ' particles')
            check_frame(ctx, x[1], tm, t, what + ' tracers')
        else:
            for k, m, name in ((0, pm, 'particles'), (1, tm, 'tracers')):
                check_segment(ctx, (x[0][k], x[1][k]), m, t, what + ' ' + name, k == 1 or not case['pframes'])

    def acting():
        """The range which must be in force, or None if overlapping iterations leave it open."""
        rs = [v[1] for v in open_.values() if v[3]]
        return (True, first) if not rs else (True, rs[0]) if len(rs) == 1 and not overlap else (False, None)

    for op, (r, st) in zip(case['ops'], out):
        o = op[0]
        known, now = acting()
        exc = isinstance(r, tuple) and len(r) == 3 and r[0] == 'exc'
        if exc:
            ctx.check(armed > 0, 'unexpected exception', '%s: %s' % (op, r))
            ctx.stat('operations ended by a read error')
        if o == 'new':
            if op[1] in open_:
                early += open_[op[1]][3]
                open_.pop(op[1])
                if not [1 for v in open_.values() if v[3]]:
                    overlap = False
                known, now = acting()
            own = op[3] != -1
            rng = absrange(op[3], base) if own else now
            if own and [1 for v in open_.values() if v[3]]:
                overlap = True
            if exc:
                early += own
            else:
                if not own and not known:
                    rng = 'any'
                it = [op[2], rng, 0, own]
                for x in r:
                    if rng != 'any':
                        item(op[2], rng, it[2], x, 'iteration')
                    it[2] += 1
                if STOP not in r:
                    open_[op[1]] = it
        elif o == 'next' and op[1] in open_:
            it = open_[op[1]]
            if exc:
                early += it[3]
                del open_[op[1]]
            else:
                for x in r:
                    if it[1] != 'any':
                        item(it[0], it[1], it[2], x, 'iteration')
                    it[2] += 1
                if STOP in r:
                    del open_[op[1]]
        elif o in ('close', 'drop', 'throw') and op[1] in open_:
            early += open_.pop(op[1])[3]
            ctx.check(o != 'throw' or r == 'raised', 'exception swallowed', str(r))
        elif o == 'full' and not exc:
            own = op[2] != -1
            if own or known:
                rng = absrange(op[2], base) if own else now
                lo, hi = pm.limits(rng)
                ctx.check(len(r) == max(0, hi - lo - (op[1] == 'segs')), 'iteration: length', '%d, range %s' % (len(r), rng))
                for n, x in enumerate(r):
                    item(op[1], rng, n, x, 'iteration')
            if own and [1 for v in open_.values() if v[3]]:
                overlap = True
        elif o == 'full':
            early += 1
            if [1 for v in open_.values() if v[3]]:
                overlap = True
        elif o == 'collect' and not exc and known:
            check_collect(ctx, r, pm, now, ['trajid', 'time', 'pos'], None)
        elif o == 'state' and not exc:
            ctx.check(r[2] == first, 'get_range', '%s, expected %s' % (r[2], first))
        elif o == 'failread':
            armed += 1
        if not [1 for v in open_.values() if v[3]]:
            overlap = False
        known, now = acting()
        if known:
            for k, m, name in ((0, pm, 'particles'), (1, tm, 'tracers')):
                ctx.check(tuple(st[k]) == tuple(m.limits(now)), 'range in force', '%s after %s: %s, expected %s' % (
                    name, op, st[k], m.limits(now)))
        ctx.state(o, exc, len(open_), early > 0, known, first is None, now is not None and None in now)
    ctx.stat('iterations that ended early', early)
    ctx.nontrivial = early > 0
