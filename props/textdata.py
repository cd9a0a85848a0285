"""Writers for the text, Matlab and NPZ formats, and what their readers must return."""
from common import *


def permutation(salt, t, n):
    """Order of the particles in the file of frame t."""
    return list(np.argsort(h64(salt, t, np.arange(n)), kind='stable')) if n else []


def frame_rows(ds, t):
    """Trajectory entries present at relative time t, in file order."""
    alive = [tr for tr in ds['trajs'] if tr[1] <= t < tr[1] + tr[2]]
    alive.sort(key=lambda tr: tr[0])
    return [alive[k] for k in permutation(ds['salt'], t, len(alive))]


def num(x, style):
    if style == 1:
        return '%23.17g' % x
    if style == 2:
        return '%.17e' % x
    return repr(float(x))


def ptv_lines(ds, t, xuap=False, style=0):
    """The rows of one ptv_is or xuap frame."""
    here = frame_rows(ds, t)
    before = [tr[0] for tr in frame_rows(ds, t - 1)]
    after = [tr[0] for tr in frame_rows(ds, t + 1)]
    b = 1 if xuap else 0
    sep = [' ', '   ', '\t'][style]
    out = []
    for tr in here:
        prev = before.index(tr[0]) if tr[0] in before else -1
        nxt = after.index(tr[0]) if tr[0] in after else -2
        links = [str(prev + b), str(nxt + b)]
        if xuap and style == 1:
            links = ['%.1f' % (prev + b), '%.1f' % (nxt + b)]
        ta = np.array([t + ds['base']])
        vals = list(1000. * column(ds['salt'], 'pos', tr[0], ta)[0]) if not xuap else list(column(ds['salt'], 'pos', tr[0], ta)[0])
        if xuap:
            vals += list(column(ds['salt'], 'accel', tr[0], ta)[0])           # interpolated position
            vals += list(column(ds['salt'], 'velocity', tr[0], ta)[0])
            vals += list(column(ds['salt'] + 5, 'accel', tr[0], ta)[0])
            if style == 2:
                vals += [1., 2.]
        out.append(sep.join(links + [num(v, style) for v in vals]))
    return out


STRAY = ['%s.bak', '%s~', 'x%s', '%s.1', '.%s', '%s#', 'old_%s']


def write_ptv(d, ds, name='ptv_is', missing=(), stray=(), xuap=False, style=0):
    os.makedirs(d, exist_ok=True)
    span = max(tr[1] + tr[2] for tr in ds['trajs'])
    lo = min(tr[1] for tr in ds['trajs'])
    for t in range(lo, span):
        if t in missing:
            continue
        lines = ptv_lines(ds, t, xuap, style)
        with open(os.path.join(d, '%s.%d' % (name, t + ds['base'])), 'w') as f:
            if not xuap:
                f.write('%d\n' % len(lines))
            f.write(''.join(l + '\n' for l in lines))
    for k, t in stray:
        with open(os.path.join(d, STRAY[k % len(STRAY)] % ('%s.%d' % (name, t + ds['base']))), 'w') as f:
            f.write('1\n-1 -2 9. 9. 9.\n')
    with open(os.path.join(d, name + '.'), 'w') as f:
        f.write('junk\n')
    with open(os.path.join(d, name + '.txt'), 'w') as f:
        f.write('junk\n')


def write_single(path, ds, style=0, end=0):
    lo = min(tr[1] for tr in ds['trajs'])
    span = max(tr[1] + tr[2] for tr in ds['trajs'])
    frames = [''.join(l + '\n' for l in ptv_lines(ds, t, False, style)) for t in range(lo, span)]
    with open(path, 'w') as f:
        # What looks empty, is.
        for n, x in enumerate(frames):
            f.write(x)
            if n < len(frames) - 1 or end:
                f.write([['\n'], ['\n', ' \n', '\t\n', '\n'], ['\r\n', '\n', '  \n']][style % 3][n % [1, 4, 3][style % 3]])


def single_ds(ds):
    """Frame numbers of a single file start at 0."""
    lo = min(tr[1] for tr in ds['trajs'])
    return -lo - ds['base']


def chains(ds, first=None, last=None, missing=(), minlen=2):
    """[(trajectory, relative start, length)] which a ptv_is reader returns for an inclusive range of relative times."""
    out = []
    lo = min(tr[1] for tr in ds['trajs'])
    span = max(tr[1] + tr[2] for tr in ds['trajs'])
    readable = [t for t in range(lo, span) if t not in missing and (first is None or t >= first) and (last is None or t <= last)]
    rs = set(readable)
    for tr in ds['trajs']:
        end = tr[1] + tr[2]
        if end - 1 not in rs:
            continue                       # its end was not seen
        s = end - 1
        while s - 1 in rs and s - 1 >= tr[1]:
            s -= 1
        if end - s >= minlen:
            out.append((tr[0], s, end - s))
    return out, readable


def chain_data(ds, c, frate, xuap=False, shift=0):
    trid, s, n = c
    t = np.arange(s, s + n) + ds['base']
    if xuap:
        pos = column(ds['salt'], 'pos', trid, t)
        vel = column(ds['salt'], 'velocity', trid, t)
    else:
        pos = (1000. * column(ds['salt'], 'pos', trid, t)) / 1000.
        vel = np.zeros_like(pos)
        vel[:-1] = (pos[1:] - pos[:-1]) * frate
    acc = np.zeros_like(pos)
    if n > 2:
        acc[:-2] = (vel[1:-1] - vel[:-2]) * frate
    return {'pos': pos, 'velocity': vel, 'time': t + shift, 'accel': acc}


def close(a, b, scale):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (np.abs(b) + scale)))


def check_chains(ctx, got, ds, expected, frate, what, xuap=False, shift=0):
    """A list of plain_traj() against chains, matched by start and first position; ids are the reader's own."""
    ids = [g[0] for g in got]
    ctx.check(len(set(ids)) == len(ids), what + ': ids repeated', str(ids))
    todo = {}
    for c in expected:
        d = chain_data(ds, c, frate, xuap, shift)
        todo[(int(d['time'][0]), len(d['time'])) + tuple(d['pos'][0])] = (c, d)
    for i, g in got:
        ctx.check(len(g['time']) > 0, what + ': empty trajectory', '')
        k = (int(g['time'][0]), len(g['time'])) + tuple(float(x) for x in g['pos'][0])
        if k not in todo:
            ctx.fail(what + ': unknown trajectory', 'starts at %d, %d frames, first position %s; expected (start, length) %s' % (
                k[0], k[1], k[2:], sorted((x[0], x[1]) for x in todo)))
        c, d = todo.pop(k)
        ctx.check(set(g) == set(d), what + ': properties', '%s' % sorted(g))
        ctx.check(same(g['time'], d['time']), what + ': time', '%s, expected %s' % (g['time'], d['time']))
        ctx.check(same(g['pos'], d['pos']), what + ': positions', 'trajectory %s: %s' % (c, diff(g['pos'], d['pos'])))
        ctx.check(close(g['velocity'], d['velocity'], frate * 1e-3), what + ': velocity',
                  'trajectory %s: %s' % (c, diff(g['velocity'], d['velocity'])))
        ctx.check(close(g['accel'], d['accel'], frate * frate * 1e-3), what + ': acceleration',
                  'trajectory %s: %s' % (c, diff(g['accel'], d['accel'])))
    ctx.check(not todo, what + ': trajectories missing', '(start, length) %s' % sorted((x[0], x[1]) for x in todo))


# ---- trajAcc ---------------------------------------------------------------
def write_acc(d, ds, name='trajAcc', style=0, stray=()):
    """One file for each frame in the span, with the trajectories that start in it."""
    os.makedirs(d, exist_ok=True)
    starts = {}
    for tr in ds['trajs']:
        starts.setdefault(tr[1], []).append(tr)
    for t, trs in starts.items():
        rows = []
        trs = [trs[k] for k in permutation(ds['salt'] + 1, t, len(trs))]
        for tr in trs:
            ts = np.arange(tr[2]) + tr[1] + ds['base']
            a = np.zeros((tr[2], 34))
            a[:, 0:3] = column(ds['salt'], 'pos', tr[0], ts)
            a[:, 3:6] = column(ds['salt'], 'velocity', tr[0], ts)
            a[:, 6:9] = column(ds['salt'], 'accel', tr[0], ts)
            a[:, 9:33] = unit(ds['salt'], tr[0], ts[:, None], np.arange(24))
            a[:, 33] = np.arange(tr[2])
            rows += [' '.join(num(v, style) for v in r) for r in a]
        with open(os.path.join(d, '%s.%d' % (name, t + ds['base'])), 'w') as f:
            f.write(''.join(r + '\n' for r in rows))
    for k, t in stray:
        with open(os.path.join(d, STRAY[k % len(STRAY)] % ('%s.%d' % (name, t + ds['base']))), 'w') as f:
            f.write(' '.join(['9.'] * 33 + ['0']) + '\n')


def at_home(name, ds):
    """Sometimes the name is given relative to the home directory, which is that of the run."""
    if name.startswith('./') and ds['salt'] % 5 == 1:
        return '~' + name[1:]
    return name


def acc_ds(ds):
    return dict(ds, cols=['accel'])


def match_by_pos(ctx, got, model, what, expected):
    """Trajectories with ids of the reader's own: name them by their first position and compare. ``expected``: ids to find."""
    ids = [g[0] for g in got]
    ctx.check(len(set(ids)) == len(ids), what + ': ids repeated', str(ids))
    byk = dict(((int(model.rows[i]['time'][0]),) + tuple(model.rows[i]['pos'][0]), i) for i in model.ids())
    seen = []
    for g in got:
        ctx.check(len(g[1]['time']) > 0, what + ': empty trajectory', '')
        k = (int(g[1]['time'][0]),) + tuple(float(x) for x in g[1]['pos'][0])
        if k not in byk:
            ctx.fail(what + ': unknown trajectory', 'starts at %s' % (k,))
        seen.append(byk[k])
        check_traj(ctx, (byk[k], g[1]), model, byk[k], None, what)
    ctx.check(sorted(seen) == sorted(expected), what + ': trajectories', '%s, expected %s' % (sorted(seen), sorted(expected)))


# ---- Matlab ----------------------------------------------------------------
def write_mat(path, ds):
    from scipy import io
    dt = [(k, object) for k in ('xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf', 't', 'trajid')]
    m = Model(acc_ds(ds))
    arr = np.zeros((len(ds['trajs']), 1), dtype=dt)
    for n, tr in enumerate(ds['trajs']):
        r = m.rows[tr[0]]
        d = {}
        for k, src in (('x', 'pos'), ('u', 'velocity'), ('ax', 'accel')):
            for c, comp in enumerate(('xyz' if k == 'x' else 'uvw' if k == 'u' else 'xyz')):
                key = {'x': comp + 'f', 'u': comp + 'f', 'ax': 'a' + comp + 'f'}[k]
                d[key] = (1000. * r[src][:, c])[:, None]
        d['t'] = r['time'][:, None].astype(float)
        d['trajid'] = np.array([[float(tr[0])]])
        for k, v in d.items():
            arr[k][n, 0] = v
    io.savemat(path, {'traj': arr})


def mat_model(ds):
    """Positions etc. went through millimetres."""
    m = Model(acc_ds(ds))
    for r in m.rows.values():
        for c in ('pos', 'velocity', 'accel'):
            r[c] = (1000. * r[c]) / 1000.
    return m
