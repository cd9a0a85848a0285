"""One data set in any of the formats, and what trajectories() must return for it."""
from textdata import *

FORMATS = ['ptvis', 'single', 'xuap', 'acc', 'mat', 'npz', 'hdf']
TEMPLATE = {'ptvis': './%s/ptv_is.%%d', 'single': './%s/all.txt', 'xuap': './%s/xuap.%%d', 'acc': './%s/trajAcc.%%d',
            'mat': './%s/traj.mat', 'npz': './%s/n/', 'hdf': './%s/traj.h5'}
LINKED = ('ptvis', 'single', 'xuap')
OWN_IDS = ('ptvis', 'single', 'xuap', 'acc')          # the reader numbers the trajectories itself


def template(fmt, sub):
    return TEMPLATE[fmt] % sub


def store(fmt, sub, ds, style=0):
    from flowtracks import io
    os.makedirs(sub, exist_ok=True)
    name = template(fmt, sub)
    if fmt == 'ptvis':
        write_ptv(sub, ds, 'ptv_is', style=style)
    elif fmt == 'xuap':
        write_ptv(sub, ds, 'xuap', xuap=True, style=style)
    elif fmt == 'single':
        write_single(name, ds, style, 1)
    elif fmt == 'acc':
        write_acc(sub, ds, style=style)
    elif fmt == 'mat':
        write_mat(name, ds)
    elif fmt == 'npz':
        io.save_trajectories(name, sut_trajectories(ds), {})
    else:
        io.save_particles_table(name, sut_trajectories(ds))
        return name
    return at_home(name, ds)


def frame_of(fmt, ds, t):
    """Frame number that the reader gives to relative time t."""
    return t - min(tr[1] for tr in ds['trajs']) if fmt == 'single' else t + ds['base']


def expected(fmt, ds, first, last, minlen, frate):
    """[{'trajid' (or None), 'time', 'pos', 'velocity', 'accel', ...}] for an inclusive range of absolute frames."""
    base = ds['base']
    rel = lambda x: None if x is None else x - base
    out = []
    if fmt in LINKED:
        ch = chains(ds, None, None, (), minlen) if fmt == 'single' else chains(ds, rel(first), rel(last), (), minlen)
        shift = -min(tr[1] for tr in ds['trajs']) - base if fmt == 'single' else 0
        for c in ch[0]:
            out.append(dict(chain_data(ds, c, frate, fmt == 'xuap', shift), trajid=None))
        return out
    m = mat_model(ds) if fmt == 'mat' else Model(ds)
    for i in m.ids():
        if fmt in ('mat', 'acc'):
            t0 = int(m.rows[i]['time'][0])
            if fmt == 'acc' and not ((first is None or t0 >= first) and (last is None or t0 <= last)):
                continue
            r = m.rows[i]
        else:
            r = m.traj(i, (first, None if last is None else last + 1))
        if len(r['time']) >= max(1, minlen):
            out.append(dict(r, trajid=None if fmt == 'acc' else i))
    return out


def readable(fmt, ds, first, last):
    if fmt not in ('ptvis', 'xuap'):
        return True
    rel = lambda x: None if x is None else x - ds['base']
    return bool(chains(ds, rel(first), rel(last))[1])


def pkey(pos):
    return tuple(float(x) for x in pos)


class Expected(object):
    """Expected trajectories, found by position; keeps the bijection between them and the reader's ids."""
    def __init__(self, trajs, what, frate):
        self.trajs, self.what, self.frate = trajs, what, frate
        self.byid, self.ofid = {}, {}

    def select(self, pred):
        e = Expected([t for t in self.trajs if pred(t)], self.what, self.frate)
        e.byid, e.ofid = self.byid, self.ofid
        return e

    def segment(self, t):
        """{position at t: (trajectory, row)} of those also there at t + 1."""
        out = {}
        for tr in self.trajs:
            k = t - int(tr['time'][0])
            if 0 <= k < len(tr['time']) - 1:
                out[pkey(tr['pos'][k])] = (tr, k)
        return out

    def name(self, ctx, tr, trid):
        ctx.check(tr['trajid'] is None or tr['trajid'] == trid, self.what + ': trajid', '%s, expected %s' % (trid, tr['trajid']))
        k = pkey(tr['pos'][-1]) + (int(tr['time'][-1]),)
        ctx.check(self.byid.setdefault(trid, k) == k and self.ofid.setdefault(k, trid) == trid, self.what + ': trajid changes',
                  'trajectory ending at %s has ids %s and %s' % (k, trid, self.ofid.get(k)))

    def rows(self, ctx, got, k0, what, ids):
        """``got``: as_dict(); k0: [(trajectory, row)] in the order of the rows."""
        if not k0:
            return
        for c in sorted(set(k0[0][0]) - set(['time', 'trajid'])):
            e = np.array([tr[c][k] for tr, k in k0])
            g = got[c]
            scale = {'velocity': self.frate * 1e-3, 'accel': self.frate ** 2 * 1e-3}.get(c, 0.)
            ctx.check(close(g, e, scale) if c in ('velocity', 'accel') else same(g, e), what + ': values', '%s %s' % (c, diff(g, e)))
        if ids:
            for (tr, k), i in zip(k0, got['trajid']):
                self.name(ctx, tr, int(i))

    def check_segment(self, ctx, fr, nx, t, what):
        """Two snapshots: the particles at t which are also at t + 1, in both."""
        here = self.segment(t)
        what = what + ' ' + self.what
        ctx.check(fr.time() == t and nx.time() == t + 1, what + ': time', '%s, %s, expected %s and next' % (fr.time(), nx.time(), t))
        a, b = fr.as_dict(), nx.as_dict()
        props = set(self.trajs[0]) - set(['time']) | set(['trajid'])
        for d in (a, b):
            ctx.check(set(d) == props, what + ': properties', '%s, expected %s' % (sorted(d), sorted(props)))
            for c in props:
                ctx.check(np.asarray(d[c]).shape == (len(here),) + (np.asarray(self.trajs[0][c]).shape[1:] if c != 'trajid' else ()), what + ': shape',
                          'frame %s, %s: %s for %d particles' % (t, c, np.asarray(d[c]).shape, len(here)))
        keys = [pkey(p) for p in a['pos']]
        ctx.check(len(set(keys)) == len(keys), what + ': repeated', 'frame %s' % t)
        ctx.check(set(keys) == set(here), what + ': particles', 'frame %s: %d unknown, %d missing of %d' % (
            t, len(set(keys) - set(here)), len(set(here) - set(keys)), len(here)))
        k0 = [here[k] for k in keys]
        self.rows(ctx, a, k0, what, True)
        self.rows(ctx, b, [(tr, k + 1) for tr, k in k0], what + ' next', True)
        ctx.check(list(a['trajid']) == list(b['trajid']), what + ': order', '')
        return len(keys)

    def check_list(self, ctx, trs, what):
        """Trajectory objects, all of them."""
        what = what + ' ' + self.what
        left = dict(((int(t['time'][0]), len(t['time'])) + pkey(t['pos'][0]), t) for t in self.trajs)
        for tr in trs:
            d = tr.as_dict()
            k = (int(d['time'][0]), len(d['time'])) + pkey(d['pos'][0])
            ctx.check(k in left, what + ': unknown trajectory', 'start %s, %d frames' % k[:2])
            e = left.pop(k)
            ctx.check(same(d['time'], e['time']), what + ': time', '')
            self.rows(ctx, d, [(e, n) for n in range(len(e['time']))], what, False)
            self.name(ctx, e, int(tr.trajid()))
        ctx.check(not left, what + ': missing', '%d trajectories' % len(left))
