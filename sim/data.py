"""
Synthetic PTV data sets, as explicit JSON, and the reference model for them:
every value is a function of (salt, trajectory, time, column, component), so
any row found anywhere can be told right from wrong.
"""
import numpy as np

_M = np.uint64
def _mix(x):
    x = np.asarray(x, dtype=np.uint64)
    with np.errstate(over='ignore'):
        x = x + _M(0x9E3779B97F4A7C15)
        x = (x ^ (x >> _M(30))) * _M(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> _M(27))) * _M(0x94D049BB133111EB)
        return x ^ (x >> _M(31))

def h64(*keys):
    r = _mix(np.uint64(7))
    for k in keys:
        k = np.asarray(k)
        r = _mix(r ^ (k.astype(np.int64).astype(np.uint64)))
    return r

def unit(*keys):
    return (h64(*keys) >> _M(11)).astype(np.float64) * 2.0**-53

COLS = {'accel': ('f8', 3), 'diam': ('f8', 1), 'tag': ('i4', 1), 'grad': ('f4', 2),
        'mass': ('f8', 1), 'companion': ('i8', 1), 'big': ('i8', 1),
        'flag': ('?', 1), 'wide': ('f8', 7), 'small': ('i2', 1),
        't': ('f8', 1), 'trid': ('i4', 1)}         # names which the code also uses
_NUM = {'pos': 1, 'velocity': 2, 'accel': 3, 'diam': 4, 'tag': 5, 'grad': 6, 'mass': 7, 'companion': 8, 'big': 9,
        'flag': 10, 'wide': 11, 'small': 12, 't': 13, 'trid': 14}

def column(salt, name, trid, t):
    """Values of a column for arrays of trajectory ids and times."""
    t = np.asarray(t)
    trid = np.broadcast_to(np.asarray(trid), t.shape)
    if name in ('pos', 'velocity'):
        typ, n = 'f8', 3
    else:
        typ, n = COLS[name]
    vals = np.stack([unit(salt, trid, t, _NUM[name] * 16 + c) for c in range(n)], axis=-1) \
        if t.size else np.zeros(t.shape + (n,))
    raw = vals
    if typ in ('i4', 'i2'):
        vals = ((vals * 40).astype('i4') - 20).astype(typ)
    elif typ == '?':
        vals = vals < 0.5
    elif typ == 'i8':
        vals = ((vals if name == 'companion' else vals * 2.0**24) * 4000).astype('i8')
    elif typ == 'f4':
        vals = (vals - 0.5).astype('f4')
    else:
        vals = (vals - 0.5) * {'pos': 0.2, 'velocity': 3., 'accel': 50., 'diam': 1., 'mass': 1e-6, 'wide': 1e9, 't': 20.}[name]
    if name == 'pos' and int(salt) & LINE:      # on a line: components of differences cancel
        vals[..., 1] = -vals[..., 0]
        vals[..., 2] = 0.125
    if name != 'pos' and int(salt) & SPECIAL and typ in ('f4', 'f8'):
        h = (raw * 2.0**40) % 97            # about a tenth of the values
        for k, x in enumerate(_SPECIAL):
            vals[(h >= k) & (h < k + 1)] = x
    return vals[..., 0] if n == 1 else vals

LINE = 1 << 20          # flags in a salt, read here and below
SPECIAL = 1 << 21
STRIDED = 1 << 22
MIXED = 1 << 23
_SPECIAL = [np.nan, np.nan, np.inf, -np.inf, -0.0, 5e-324, 1e300, -1e-300, 0.1]
np.seterr(over='ignore')

def gen_dataset(rng, big=False, holes=False, ntraj=None, base=None, span=None, extra=None, maxlen=9, odd=False):
    """Draw a data set. Trajectory ids are distinct, times within one increasing."""
    base = base if base is not None else rng.choice([0, 1, 10001, 10001, 1234567])
    if odd and rng.random() < .06:
        base = 2**31 + 5
    n = ntraj if ntraj is not None else rng.choice([1, 2, 3, 4, 5, 6, 8])
    if big:
        n = rng.randrange(20, 40) if big != 'huge' else rng.randrange(50, 90)
        maxlen = 120 if big != 'huge' else 450
    span = span or (4 * maxlen if not big else 200 if big != 'huge' else 500)
    idmode = rng.randrange(4)
    ids = rng.sample(range(3 * n + 1), n) if idmode < 2 else \
        rng.sample(range(10**6, 10**6 + 4 * n), n) if idmode == 2 else list(range(n))
    if odd and rng.random() < .06:
        ids = [i + 2**40 for i in ids]
    trajs = []
    for i in ids:
        ln = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, maxlen, rng.randrange(1, maxlen + 1)])
        if big:
            ln = rng.randrange(1, maxlen + 1)
        ln = min(ln, span)
        t0 = rng.randrange(0, max(1, min(span - ln + 1, span // 2)))
        tr = [i, t0, ln, []]
        if holes and ln > 2 and rng.random() < 0.5:
            tr[3] = sorted(rng.sample(range(1, ln - 1), rng.randrange(1, max(2, (ln - 1) // 2))))
        trajs.append(tr)
    cols = extra if extra is not None else rng.sample(['accel', 'diam', 'tag', 'grad', 'big'], rng.randrange(0, 5))
    salt = rng.randrange(1, 10**6) + (LINE if rng.random() < .12 else 0)
    if odd:
        cols = cols + [c for c in ('flag', 'wide', 'small', 't', 'trid') if rng.random() < .12]
        salt += (SPECIAL if rng.random() < .12 else 0) + (STRIDED if rng.random() < .15 else 0) + (MIXED if rng.random() < .15 else 0)
    return {'base': base, 'trajs': trajs, 'cols': cols, 'tf': rng.random() < 0.3,
            'salt': salt}


def valid_dataset(ds):
    ids = [t[0] for t in ds['trajs']]
    return len(set(ids)) == len(ids) and all(
        len(t) == 4 and t[0] >= 0 and t[1] >= 0 and t[2] >= 1 and
        all(0 < h < t[2] - 1 for h in t[3]) and len(set(t[3])) == len(t[3]) for t in ds['trajs']) \
        and ds['base'] >= 0 and len(set(ds['cols'])) == len(ds['cols']) and ds['salt'] > 0 and len(ids) > 0


def times(ds, tr):
    t = np.array([k for k in range(tr[2]) if k not in set(tr[3])], dtype=np.int64)
    return t + tr[1] + ds['base']


class Model(object):
    """trid -> {'time':..., col: ...}, rows in time order."""
    def __init__(self, ds, trim=0):
        self.ds = ds
        self.cols = ['pos', 'velocity'] + list(ds['cols'])
        self.rows = {}
        for tr in ds['trajs']:
            t = times(ds, tr)
            if trim:
                t = t[trim:len(t) - trim] if len(t) > 2 * trim else t[:0]
            if len(t):
                self.rows[tr[0]] = self.make(tr[0], t)

    def make(self, trid, t):
        d = {'time': t}
        for c in self.cols:
            d[c] = column(self.ds['salt'], c, trid, t)
        return d

    def ids(self):
        return sorted(self.rows)

    def span(self):
        """First frame, after last frame."""
        return (min(int(r['time'][0]) for r in self.rows.values()),
                max(int(r['time'][-1]) for r in self.rows.values()) + 1)

    def limits(self, rng):
        lo, hi = self.span()
        if rng is None:
            return lo, hi
        return (lo if rng[0] is None else rng[0]), (hi if rng[1] is None else rng[1])

    def traj(self, trid, rng=None):
        """Rows of one trajectory in the half-open range."""
        r = self.rows[trid]
        if rng is None:
            return r
        m = np.ones(len(r['time']), bool)
        if rng[0] is not None:
            m &= r['time'] >= rng[0]
        if rng[1] is not None:
            m &= r['time'] < rng[1]
        return dict((k, v[m]) for k, v in r.items())

    def frame(self, t):
        """trid -> row dict (without time)."""
        out = {}
        for i, r in self.rows.items():
            w = np.nonzero(r['time'] == t)[0]
            if len(w):
                out[i] = dict((c, r[c][w[0]]) for c in self.cols)
        return out

    def nrows(self):
        return sum(len(r['time']) for r in self.rows.values())


def given(ds, d, n):
    """Sometimes arrays are views of others, and may not be written, or small integers have a type that differs from set to set."""
    if int(ds['salt']) & MIXED:
        for k in ('tag', 'small'):
            if k in d:
                d[k] = d[k].astype(['i4', 'i8', 'f8', 'i2'][int(h64(ds['salt'], n, ord(k[0]))) % 4])
    if int(ds['salt']) & STRIDED:
        for n, (k, v) in enumerate(sorted(d.items())):
            w = np.empty((2 * len(v),) + v.shape[1:], v.dtype) if n % 2 else np.empty(v.shape, v.dtype, order='F')
            w = w[1::2] if n % 2 else w
            w[...] = v
            w.flags.writeable = False
            d[k] = w


def sut_trajectories(ds, order=None):
    """flowtracks Trajectory objects for the data set."""
    from flowtracks.trajectory import Trajectory
    m = Model(ds)
    out = []
    for tr in ds['trajs']:
        d = m.make(tr[0], times(ds, tr))
        t = d.pop('time')
        given(ds, d, tr[0])
        out.append(Trajectory(d.pop('pos'), d.pop('velocity'),
                              t.astype(float) if ds['tf'] else t, tr[0], **d))
    return out


def sut_frames(ds, first=None, last=None, skip=(), order=0):
    """flowtracks ParticleSnapshot objects for the data set, by frame."""
    from flowtracks.trajectory import ParticleSnapshot
    m = Model(ds)
    lo, hi = m.span()
    out = []
    for t in range(lo, hi):
        fr = m.frame(t)
        ids = sorted(fr, reverse=bool(order & 1))
        if order & 2 and len(ids) > 2:
            ids = ids[1::2] + ids[::2]
        kw = {}
        for c in m.cols:
            kw[c] = column(ds['salt'], c, np.array(ids, dtype=np.int64), np.full(len(ids), t))
        given(ds, kw, t)
        pos, vel = kw.pop('pos'), kw.pop('velocity')
        out.append(ParticleSnapshot(pos, vel, t, np.array(ids, dtype=np.int64), **kw))
    return out


# ---- plain data from flowtracks objects --------------------------------------
def plain_traj(tr):
    d = dict((k, np.array(v)) for k, v in tr.as_dict().items())
    return (int(tr.trajid()), d)

def plain_frame(fr):
    d = dict((k, np.array(v)) for k, v in fr.as_dict().items())
    return (fr.time(), d)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.array_equal(a, b))


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    w = np.nonzero(np.atleast_1d(~((a == b) | ((a != a) & (b != b)))))
    if len(w[0]) == 0:
        return 'equal'
    k = tuple(x[0] for x in w)
    return 'at %s: %r, expected %r (%d differ)' % (tuple(int(x) for x in k),
        np.atleast_1d(a)[k], np.atleast_1d(b)[k], len(w[0]))


def check_traj(ctx, got, model, trid, rng, what):
    """``got`` is plain_traj(): must be the model's rows in the range."""
    ctx.check(got[0] == trid, what + ': trajid', 'got %s, expected %s' % (got[0], trid))
    exp = model.traj(trid, rng)
    d = dict(got[1])
    ctx.check(set(d) == set(exp), what + ': properties', '%s, expected %s' % (sorted(d), sorted(exp)))
    for k in ['time'] + [c for c in exp if c != 'time']:
        ctx.check(same(d[k], exp[k]), what + ': rows', 'trajectory %s, range %s, %s %s' % (
            trid, rng, k, diff(d[k], exp[k])))


def check_trajs(ctx, got, model, rng, what, minlen=0):
    """A list of plain_traj(): each trajectory once, nothing else."""
    seen = [g[0] for g in got if len(g[1]['time']) > 0]
    ctx.check(len(set(seen)) == len(seen), what + ': repeated', 'ids %s' % seen)
    exp = [i for i in model.ids() if len(model.traj(i, rng)['time']) >= max(1, minlen)]
    ctx.check(sorted(seen) == exp, what + ': trajectories', 'ids %s, expected %s, range %s' % (sorted(seen), exp, rng))
    for g in got:
        if len(g[1]['time']):
            check_traj(ctx, g, model, g[0], rng, what)


def check_frame(ctx, got, model, t, what, ids=None):
    """``got`` is plain_frame(): exactly the particles of the model at t."""
    ctx.check(got[0] == t, what + ': time', 'frame says %s, expected %s' % (got[0], t))
    exp = model.frame(t)
    if ids is not None:
        exp = dict((i, exp[i]) for i in ids)
    d = got[1]
    ctx.check(set(d) == set(model.cols) | {'trajid'}, what + ': properties', '%s' % sorted(d))
    gids = [int(i) for i in d['trajid']]
    ctx.check(len(set(gids)) == len(gids), what + ': repeated', 'frame %s: ids %s' % (t, gids))
    ctx.check(sorted(gids) == sorted(exp), what + ': particles', 'frame %s: ids %s, expected %s' % (t, sorted(gids), sorted(exp)))
    for c in model.cols:
        ctx.check(len(d[c]) == len(gids), what + ': lengths', c)
        e = np.array([exp[i][c] for i in gids])
        if len(gids):
            ctx.check(same(d[c], e), what + ': values', 'frame %s, %s %s' % (t, c, diff(d[c], e)))
