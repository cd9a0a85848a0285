"""
A history of operations on one open Scene, and its reference semantics.
Frame numbers in operations are relative to the data set's base.
"""
import numpy as np
from data import (Model, plain_traj, plain_frame, check_traj, check_trajs,
                  check_frame, same, diff, COLS)

STOP = '<stop>'

def absrange(rng, base):
    if rng is None:
        return None
    return tuple(None if x is None else x + base for x in rng)


def plain(kind, item):
    if kind == 'collect':
        return dict((i, np.array(x)) for i, x in enumerate(item))
    if kind == 'trajs':
        return plain_traj(item)
    if kind == 'frames':
        return plain_frame(item)
    return plain_frame(item[0]), plain_frame(item[1])


def same_plain(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_plain(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    return bool(a == b)


def make_iter(scene, kind):
    return iter({'trajs': scene.iter_trajectories, 'frames': scene.iter_frames,
                 'segs': scene.iter_segments}[kind]())


class Performer(object):
    """Performs operations on the real object, with plain results."""
    def __init__(self, scene, base, ids):
        self.scene, self.base, self.ids = scene, base, ids
        self.its = {}
        self.held = []                  # all that was handed out

    def plain(self, kind, item):
        p = plain(kind, item)
        self.held.append((kind, item, p))
        return p

    def settle(self):
        """What was handed out must still be what it was."""
        for kind, item, p in self.held:
            if not same_plain(plain(kind, item), p):
                raise RuntimeError('an object handed out by %s changed later' % kind)

    def step(self, op):
        plain = self.plain
        plain_traj = lambda t: plain('trajs', t)
        plain_frame = lambda f: plain('frames', f)
        o = op[0]
        scene, base, ids, its = self.scene, self.base, self.ids, self.its
        r = None
        if o == 'range':
            scene.set_frame_range(absrange(op[1], base))
        elif o == 'byid':
            r = plain_traj(scene.trajectory_by_id(ids[op[1] % len(ids)]))
        elif o in ('trajs', 'frames', 'segs'):
            r = [plain(o, x) for x in make_iter(scene, o)]
        elif o == 'frame':
            r = plain_frame(scene.frame_by_time(op[1] + base))
        elif o == 'collect':
            w = None if op[2] is None else dict((k, tuple(v)) for k, v in op[2])
            got = scene.collect(list(op[1]), w)
            r = [np.array(x) for x in got]
            plain('collect', got)
        elif o == 'meta':
            r = (list(scene.keys()), [int(np.prod(s)) for s in scene.shapes()],
                 [int(i) for i in scene.trajectory_ids()], np.array(scene.trajectory_tags()),
                 tuple(int(x) for x in scene.frame_range()))
        elif o == 'bbox':
            try:
                r = tuple(np.array(x) for x in scene.bounding_box())
            except ValueError as e:
                r = ('ValueError', str(e))
        elif o == 'new':
            it = its[op[1]] = (op[2], make_iter(scene, op[2]))
            try:
                r = plain(op[2], next(it[1]))
            except StopIteration:
                r = STOP
        elif o == 'next':
            if op[1] in its:
                kind, it = its[op[1]]
                r = []
                for _ in range(op[2]):
                    try:
                        r.append(plain(kind, next(it)))
                    except StopIteration:
                        r.append(STOP)
                        break
        elif o == 'drop':
            its.pop(op[1], None)
        elif o == 'spoil':
            self.spoil()
        else:
            raise ValueError(o)
        return r

    def spoil(self):
        """The caller writes over what it was given."""
        self.settle()
        for kind, item, p in self.held:
            if kind == 'collect':
                arrs = list(item)
            elif kind == 'segs' and self.its:
                continue                # its second frame is used again
            else:
                arrs = [getattr(x, k)() for x in (item if isinstance(item, tuple) else (item,))
                        for k in x.ext_schema() if hasattr(x, k)]
            for a in arrs:
                if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
                    a[...] = 77
        self.held = []


def perform(scene, ops, base, ids):
    p = Performer(scene, base, ids)
    out = [p.step(op) for op in ops]
    p.settle()
    return out


def where_mask(arrs, where):
    m = np.ones(len(next(iter(arrs.values()))), bool)
    for k, (lo, hi, inv) in where:
        v = arrs[k]
        m &= ((v < lo) | (v >= hi)) if inv else ((v >= lo) & (v < hi))
    return m


def flat(model, rng):
    """All rows in the range as columns, incl. trajid."""
    out = {}
    parts = [(i, model.traj(i, rng)) for i in model.ids()]
    out['trajid'] = np.concatenate([np.full(len(r['time']), i) for i, r in parts])
    for c in ['time'] + model.cols:
        out[c] = np.concatenate([r[c] for _, r in parts])
    return out


def row_bag(cols):
    """Rows as a sorted list of tuples."""
    n = len(cols[0])
    rows = []
    for k in range(n):
        rows.append(tuple(tuple(float(x) if x == x else 1.25e307 for x in np.atleast_1d(c[k])) for c in cols))
    return sorted(rows)


def check_collect(ctx, got, model, rng, keys, where, what='collect'):
    arrs = flat(model, rng)
    m = where_mask(arrs, where) if where else slice(None)
    exp = [arrs[k][m] for k in keys]
    ctx.check(len(got) == len(keys), what + ': keys', '%d arrays for %s' % (len(got), keys))
    for g, e, k in zip(got, exp, keys):
        ctx.check(np.shape(g)[1:] == e.shape[1:], what + ': shape', '%s: %s, expected %s' % (k, np.shape(g), e.shape))
        ctx.check(len(g) == len(e), what + ': rows', '%s: %d rows, expected %d, where %s range %s' % (
            k, len(g), len(e), where, rng))
    gb, eb = row_bag(got), row_bag(exp)
    if gb != eb:
        bad = [a for a in gb if a not in eb][:1]
        ctx.fail(what + ': rows', 'rows of %s differ, e.g. %s; where %s range %s' % (keys, bad, where, rng))
    ctx.stat('rows collected', len(gb))


def check_segments(ctx, got, model, rng, what, aligned):
    lo, hi = model.limits(rng)
    exp = list(range(lo, hi - 1))
    ctx.check([g[0][0] for g in got] == exp, what + ': segments', 'times %s, expected %s' % ([g[0][0] for g in got], exp))
    for g, t in zip(got, exp):
        check_segment(ctx, g, model, t, what, aligned)


def check_segment(ctx, g, model, t, what, aligned):
    ids = set(model.frame(t)) & set(model.frame(t + 1))
    check_frame(ctx, g[0], model, t, what, ids)
    check_frame(ctx, g[1], model, t + 1, what + ' (next)', ids)
    if aligned:
        ctx.check(list(g[0][1]['trajid']) == list(g[1][1]['trajid']), what + ': alignment', 'at %s' % t)


class Verifier(object):
    """Compares results with the reference model, operation by operation."""
    def __init__(self, ctx, model, rng0=None, aligned=True, bbox_attr=False):
        self.ctx, self.model, self.aligned, self.bbox_attr = ctx, model, aligned, bbox_attr
        self.base = model.ds['base']
        self.rng = absrange(rng0, self.base)
        self.its = {}

    def step(self, op, r):
        ctx, model, aligned, its, rng, base = self.ctx, self.model, self.aligned, self.its, self.rng, self.base
        ids = model.ids()
        o = op[0]
        what = '%s' % o
        if o == 'range':
            rng = self.rng = absrange(op[1], base)
        elif o == 'byid':
            check_traj(ctx, r, model, ids[op[1] % len(ids)], rng, what)
        elif o == 'trajs':
            check_trajs(ctx, r, model, rng, what)
        elif o == 'frames':
            lo, hi = model.limits(rng)
            ctx.check([f[0] for f in r] == list(range(lo, hi)), what + ': order',
                      'times %s, expected %d..%d' % ([f[0] for f in r], lo, hi - 1))
            for f in r:
                check_frame(ctx, f, model, f[0], what)
        elif o == 'segs':
            check_segments(ctx, r, model, rng, what, aligned)
        elif o == 'frame':
            check_frame(ctx, r, model, op[1] + base, what)
        elif o == 'collect':
            check_collect(ctx, r, model, rng, op[1], op[2], what)
        elif o == 'meta':
            keys, shapes, tids, tags, fr = r
            ctx.check(sorted(keys) == sorted(model.cols), what + ': keys', '%s, expected %s' % (keys, model.cols))
            exp = [3 if k in ('pos', 'velocity') else COLS[k][1] for k in keys]
            ctx.check(shapes == exp, what + ': shapes', '%s of %s' % (shapes, keys))
            ctx.check(sorted(tids) == ids, what + ': trajectory ids', '%s, expected %s' % (tids, ids))
            et = [[i, int(model.rows[i]['time'][0]), int(model.rows[i]['time'][-1])] for i in ids]
            gt = sorted([int(x) for x in row] for row in tags)
            ctx.check(gt == et, what + ': bounds of trajectories', '%s, expected %s' % (gt, et))
            ctx.check(fr == model.limits(rng), what + ': frame range', '%s, expected %s' % (fr, model.limits(rng)))
        elif o == 'bbox':
            # A stored box covers the whole data, otherwise that in the range.
            f = flat(model, None if self.bbox_attr else rng)['pos']
            if len(f) == 0:             # there is no box
                return
            ctx.check(r[0] != 'ValueError' if isinstance(r[0], str) else True, what + ': fails', str(r[1]))
            ctx.check(same(r[0], f.min(axis=0)) and same(r[1], f.max(axis=0)), what, '%s, expected %s' % (
                r, (f.min(axis=0), f.max(axis=0))))
        elif o == 'new':
            it = its[op[1]] = [op[2], rng, 0, set()]
            check_item(ctx, it, r, model, aligned, 'interleaved ' + op[2])
        elif o == 'next':
            if op[1] in its:
                for x in r:
                    check_item(ctx, its[op[1]], x, model, aligned, 'interleaved ' + its[op[1]][0])
        elif o == 'drop':
            its.pop(op[1], None)
        ctx.see(o)
        ctx.state(o, rng is None, rng and (rng[0] is None, rng[1] is None), len(its),
                  tuple(sorted(i[0] for i in its.values())))


def verify(ctx, ops, results, model, rng0=None, aligned=True, bbox_attr=False):
    v = Verifier(ctx, model, rng0, aligned, bbox_attr)
    for op, r in zip(ops, results):
        v.step(op, r)


def check_item(ctx, it, x, model, aligned, what):
    kind, rng, n, seen = it
    lo, hi = model.limits(rng)
    if kind == 'trajs':
        if x == STOP:
            exp = set(i for i in model.ids() if len(model.traj(i, rng)['time']))
            ctx.check(exp <= seen, what + ': ends early', 'missing %s' % sorted(exp - seen))
        else:
            ctx.check(x[0] not in seen, what + ': repeated', '%s' % x[0])
            check_traj(ctx, x, model, x[0], rng, what)
            seen.add(x[0])
    elif kind == 'frames':
        if x == STOP:
            ctx.check(n >= hi - lo, what + ': ends early', 'after %d of %d' % (n, hi - lo))
        else:
            ctx.check(x[0] == lo + n, what + ': order', 'frame %s, expected %s' % (x[0], lo + n))
            check_frame(ctx, x, model, lo + n, what)
    else:
        if x == STOP:
            ctx.check(n >= hi - lo - 1, what + ': ends early', 'after %d of %d' % (n, hi - lo - 1))
        else:
            ctx.check(x[0][0] == lo + n, what + ': order', '')
            check_segment(ctx, x, model, lo + n, what, aligned)
    it[2] += 1


# ---- generation ---------------------------------------------------------------
def gen_range(rng, ds, inclusive=False, wide=True):
    span = max(t[1] + t[2] for t in ds['trajs'])
    k = rng.randrange(6)
    if k == 0:
        return None
    a = rng.randrange(0, span + 1)
    b = rng.randrange(a, span + 3) if rng.random() < .8 else a + 1
    if b == a and not inclusive:
        b = a + 1
    if k == 1:
        return [a, None]
    if k == 2:
        return [None, b]
    return [a, b]


def gen_where(rng, ds, scalar):
    m = Model(ds)
    arrs = flat(m, None)
    out = []
    for k in rng.sample(scalar, min(len(scalar), rng.choice([1, 1, 2, 3]))):
        vals = sorted(set(float(x) for x in arrs[k] if x == x)) or [0.]
        lo, hi = rng.choice(vals), rng.choice(vals)
        if rng.random() < .2:
            lo -= 0.5
        if rng.random() < .3:
            hi += 0.5
        if rng.random() < .1:
            lo = -np.inf
        if rng.random() < .1:
            hi = np.inf
        if hi < lo:
            lo, hi = hi, lo
        isint = k in ('trajid', 'time', 'tag', 'big', 'small', 'trid')
        lo, hi = (int(x) if isint and abs(x) < 1e300 and x == int(x) else x for x in (lo, hi))
        out.append([k, [lo, hi, rng.random() < .35]])
    return out


def gen_collect(rng, ds, where=.7):
    cols = ['pos', 'velocity', 'trajid', 'time'] + ds['cols']
    keys = rng.sample(cols, rng.choice([1, 1, 2, 3, min(4, len(cols))]))
    scalar = ['trajid', 'time'] + [c for c in ds['cols'] if c in ('diam', 'tag', 'big', 'small', 't', 'trid')]
    if rng.random() < .05:
        keys = keys + keys[:1]
    return ['collect', keys, gen_where(rng, ds, scalar) if rng.random() < where else rng.choice([None, []])]


def gen_ops(rng, ds, n, kinds):
    ops = []
    span = max(t[1] + t[2] for t in ds['trajs'])
    for _ in range(n):
        k = rng.choice(kinds)
        if k == 'range':
            ops.append(['range', gen_range(rng, ds)])
        elif k == 'byid':
            ops.append(['byid', rng.randrange(len(ds['trajs']))])
        elif k == 'frame':
            ops.append(['frame', rng.randrange(0, span)])
        elif k == 'collect':
            ops.append(gen_collect(rng, ds))
        elif k == 'iter':
            s = rng.randrange(3)
            q = rng.random()
            if q < .4:
                ops.append(['new', s, rng.choice(['trajs', 'frames', 'segs'])])
            elif q < .9:
                ops.append(['next', s, rng.choice([1, 1, 2, 3, 50])])
            else:
                ops.append(['drop', s])
        else:
            ops.append([k])
        if rng.random() < .05:
            ops.append(['spoil'])
    return ops


_ARITY = {'range': 2, 'byid': 2, 'trajs': 1, 'frames': 1, 'segs': 1, 'frame': 2, 'collect': 3,
          'meta': 1, 'bbox': 1, 'new': 3, 'next': 3, 'drop': 2, 'spoil': 1}

def valid_range(r):
    if r is None:
        return True
    a, b = r
    if (a is not None and a < 0) or (b is not None and b < 0):
        return False
    return a is None or b is None or b > a


def valid_ops(ops, ds):
    cols = set(['pos', 'velocity', 'trajid', 'time'] + ds['cols'])
    for op in ops:
        if not isinstance(op, list) or not op or not isinstance(op[0], str) or _ARITY.get(op[0]) != len(op):
            return False
        if op[0] == 'range' and not valid_range(op[1]):
            return False
        if op[0] == 'collect':
            if not op[1] or not set(op[1]) <= cols:
                return False
            if op[2] is not None:
                if not set(k for k, _ in op[2]) <= cols:
                    return False
                if any(len(v) != 3 for _, v in op[2]) or any(v[1] < v[0] for _, v in op[2]):
                    return False
        if op[0] == 'new' and op[2] not in ('trajs', 'frames', 'segs'):
            return False
        if op[0] in ('byid', 'frame', 'next', 'new', 'drop') and not (isinstance(op[1], int) and op[1] >= 0):
            return False
    return True
