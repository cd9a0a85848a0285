"""C26: graphics - each figure shows what was drawn on it, whatever is drawn on others in between."""
from common import *
import kit
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as pl
from matplotlib.ticker import FormatStrFormatter

ID = 'C26'
RUNS = (500, 8000)
RULE = ('A run draws vectors and distributions in a drawn sequence on several figures, new, current or given, between the selection and '
        'closing of figures by the user; some calls are interrupted and made again on a new figure. After each call, what all figures show '
        'is compared with what was drawn on them. Non-trivial: two figures, or two drawings on one.')
STATES = 'operation, number of figures, drawings on the figure before, figure current or not, options given, interruption'
STUB = STUB + ['display: the Agg backend of matplotlib, nothing is rendered',
               'interruption: an exception raised at a drawn line of flowtracks by a trace function']


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randrange(2, 9)):
        q = rng.random()
        fail = [rng.randrange(40), rng.choice('KM')] if rng.random() < .15 else None
        salt = rng.randrange(1, 10**6)
        if q < .45:
            o = {'marker': rng.choice([None, None, '-', 'o', '--x']), 'dens': rng.choice([None, None, 2, 5]), 'fmt': rng.random() < .2,
                 'unit': rng.choice([None, None, '[m/s]', 'units']), 'scale': rng.choice([None, None, None, .5, 3]),
                 'arrows': rng.choice([None, None, None, 'r', 'k'])}
            ops.append(['vec', rng.choice([None, 0, 0, 1, 2]), salt, rng.choice([1, 2, 5, 30, 300]), rng.randrange(3), o, fail])
        elif q < .8:
            ops.append(['pdf', rng.choice([None, 0, 0, 1, 2]), salt, rng.choice([2, 3, 10, 100, 2000]), rng.choice([1, 2, 5, 20, 50]),
                        rng.random() < .5, rng.random() < .3, rng.choice([None, None, 's', 'x']), rng.randrange(4), rng.random() < .3, fail])
        elif q < .9:
            ops.append(['current', rng.randrange(6)])
        else:
            ops.append(['close', rng.randrange(6)])
    return {'ops': ops}


def valid(c):
    n = {'vec': 7, 'pdf': 11, 'current': 2, 'close': 2}
    for o in c['ops']:
        if len(o) != n[o[0]] or o[1] is not None and o[1] < 0:
            return False
        f = o[-1]
        if o[0] in ('vec', 'pdf') and (o[2] < 1 or f is not None and (len(f) != 2 or f[0] < 0 or f[1] not in ('K', 'M'))):
            return False
        if o[0] == 'vec' and (o[3] < 1 or o[4] not in (0, 1, 2) or set(o[5]) != set(['marker', 'dens', 'fmt', 'unit', 'scale', 'arrows']) or
                              o[5]['dens'] is not None and o[5]['dens'] < 1 or o[5]['scale'] is not None and o[5]['scale'] <= 0 or
                              o[5]['arrows'] not in (None, 'r', 'k') or o[5]['marker'] not in (None, '-', 'o', '--x')):
            return False
        if o[0] == 'pdf' and (o[3] < 2 or o[4] < 1 or o[7] not in (None, 's', 'x') or o[8] not in range(4)):
            return False
        if o[0] in ('current', 'close') and o[1] is None:
            return False
    return True


def look(fig):
    """What is on a figure."""
    out = []
    for a in fig.axes:
        lines = [(np.array(l.get_xdata(orig=True), dtype=float), np.array(l.get_ydata(orig=True), dtype=float),
                  l.get_marker(), l.get_linestyle()) for l in a.get_lines()]
        quiv = [(np.array(q.get_offsets(), dtype=float), np.array(q.U, dtype=float), np.array(q.V, dtype=float), tuple(np.array(q.get_facecolor())[0])) for q in a.collections if hasattr(q, 'U')]
        out.append({'lines': lines, 'quiver': quiv, 'xlabel': a.get_xlabel(), 'ylabel': a.get_ylabel(), 'x': a.get_xaxis().get_visible(),
                    'ylim': tuple(a.get_ylim()), 'xlim': tuple(a.get_xlim()), 'scale': (a.get_xscale(), a.get_yscale()), 'ticks': np.array(a.get_yticks()),
                    'grid': all(l.get_visible() for l in list(a.get_ygridlines()) + list(a.get_xgridlines())),
                    'nogrid': not any(l.get_visible() for l in list(a.get_ygridlines()) + list(a.get_xgridlines())),
                    'fmt': type(a.get_yaxis().get_major_formatter()).__name__})
    return out


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return same(a, b)
    return a == b


def density(data, edges):
    """Brute force; the last bin includes its end."""
    w = np.diff(edges)
    n = [np.sum((data >= lo) & ((data < hi) | (last & (data == hi)))) for lo, hi, last in
         zip(edges[:-1], edges[1:], np.arange(len(w)) == len(w) - 1)]
    return np.array(n) / (float(len(data)) * w)


def run(case, ctx):
    from flowtracks import graphics
    ctx.begin()
    figs = []                      # {'fig', 'kind', 'drawn': [...], 'look'}
    current = None
    most = again = 0

    def find(kind, k):
        mine = [f for f in figs if f['kind'] == kind]
        return mine[k % len(mine)] if k is not None and mine else None

    def others(but, what):
        nums = sorted(f['fig'].number for f in figs)
        ctx.check(sorted(pl.get_fignums()) == nums, what + ': figures', '%s, expected %s' % (pl.get_fignums(), nums))
        for f in figs:
            if f is not but:
                ctx.check(equal(look(f['fig']), f['look']), what + ': another figure changed', 'figure %d of %s' % (f['fig'].number, nums))

    def attempt(fn, fail, known):
        """Returns (ended, result); after an interruption, what is new or was drawn upon is closed."""
        if fail is None:
            return True, fn()
        ended, r, _ = ctx.attempt(fn, ['line'] + fail)
        return ended, r

    def discard(f):
        nonlocal current
        known = set(x['fig'].number for x in figs if x is not f)
        for n in pl.get_fignums():
            if n not in known:
                pl.close(n)
        if f in figs:
            figs.remove(f)
        current = None

    for o in case['ops']:
        op = o[0]
        if op in ('current', 'close'):
            if figs:
                f = figs[o[1] % len(figs)]
                if op == 'close':
                    pl.close(f['fig'])
                    figs.remove(f)
                    if current is f:
                        current = None
                else:
                    pl.figure(f['fig'].number)
                    current = f
            continue
        if op == 'vec':
            _, slot, salt, n, form, opts, fail = o
            k = np.arange(n)[:, None]
            vecs = (unit(salt, k, np.arange(3)[None]) - .4) * [1, 10, 1e-3][form]
            indep = np.arange(n) * .02 + 7 if form else np.arange(n) + 10001
            arrows = unit(salt, k, 10 + np.arange(3)[None]) - .5
            kw = {}
            if opts['marker'] is not None:
                kw['marker'] = opts['marker']
            if opts['dens'] is not None:
                kw['ytick_dens'] = opts['dens']
            if opts['fmt']:
                kw['yticks_format'] = FormatStrFormatter('%.3f')
            if opts['unit'] is not None:
                kw['unit_str'] = opts['unit']
            if opts['scale'] is not None:
                kw['common_scale'] = opts['scale']
            if opts['arrows']:
                kw.update(arrows=arrows.copy(), arrow_color=opts['arrows'])
            f = find('vec', slot)
            args = vecs.copy(), indep.copy()
            label = 'time %d' % salt

            def call():
                return graphics.plot_vectors(args[0], args[1], label, **(dict(kw, fig=f['fig']) if f else kw))
            was = current is f
            ended, fig = attempt(call, fail, f)
            if not ended:
                discard(f)
                f = None
                others(None, 'after an interruption')
                fig = call()
            what = 'vectors'
            ctx.check(same(args[0], vecs) and same(args[1], indep) and ('arrows' not in kw or same(kw['arrows'], arrows)), what + ': arguments changed', '')
            if f:
                ctx.check(fig is f['fig'], what + ': other figure', '')
                again += 1
            else:
                ctx.check(all(fig is not x['fig'] for x in figs), what + ': not a new figure', '')
                f = {'fig': fig, 'kind': 'vec', 'drawn': []}
                figs.append(f)
            f['drawn'].append((indep.astype(float), vecs, opts, arrows))
            f['look'] = look(fig)
            axes = f['look']
            ctx.check(len(axes) == 3, what + ': axes', '%d' % len(axes))
            for c, a in enumerate(axes):
                msg = 'component %d, drawing %d' % (c, len(f['drawn']))
                ctx.check(len(a['lines']) == len(f['drawn']), what + ': lines', '%d, expected %d' % (len(a['lines']), len(f['drawn'])))
                for l, (x, v, p, _) in zip(a['lines'], f['drawn']):
                    ctx.check(same(l[0], x) and same(l[1], v[:, c]), what + ': values', msg)
                    mk, ls = {'-': ('None', '-'), 'o': ('o', 'None'), '--x': ('x', '--')}[p['marker'] or '-']
                    ctx.check(l[2:] == (mk, ls), what + ': marker', '%s, %s' % (msg, l[2:]))
                arr = [(x, v, w, p['arrows']) for x, v, p, w in f['drawn'] if p['arrows']]
                ctx.check(len(a['quiver']) == len(arr), what + ': arrows', msg)
                for q, (x, v, w, col) in zip(a['quiver'], arr):
                    ctx.check(same(q[0], np.stack([x, v[:, c]], axis=1)) and not np.any(q[1]) and same(q[2], w[:, c]), what + ': arrows', msg)
                    ctx.check(q[3] == {'r': (1., 0., 0., 1.), 'k': (0., 0., 0., 1.)}[col], what + ': arrow color', '%s %s' % (msg, q[3]))
                ctx.check(a['grid'], what + ': grid', msg)
                ctx.check(a['ylabel'].startswith('XYZ'[c]) and a['ylabel'].endswith(opts['unit'] or ''), what + ': label', a['ylabel'])
                ctx.check(a['x'] == (c == 2), what + ': independent axis', msg)
                if opts['fmt']:
                    ctx.check(a['fmt'] == 'FormatStrFormatter', what + ': format', a['fmt'])
                if opts['dens'] is not None:
                    ctx.check(near_(a['ticks'], np.linspace(vecs[:, c].min(), vecs[:, c].max(), opts['dens'])), what + ': ticks', '%s %s' % (msg, a['ticks']))
                elif opts['scale'] is not None:
                    m = vecs[:, c].mean()
                    ctx.check(near_(a['ylim'], [m - opts['scale'], m + opts['scale']]), what + ': scale', '%s %s' % (msg, a['ylim']))
            ctx.check(axes[2]['xlabel'] == label, what + ': label', axes[2]['xlabel'])
            key = (opts['marker'], opts['dens'], opts['scale'], opts['arrows'])
        else:
            _, slot, salt, n, bins, log, logd, marker, form, parts, fail = o
            data = unit(salt, np.arange(n))
            data = [data * 3 - 1, np.exp(data * 8 - 4), np.floor(data * 50).astype(int), data.astype('f4')][form]
            if log:
                data = np.abs(data) + (1 if form == 2 else 1e-3)
            if data.min() == data.max():
                continue
            if log and salt % 5 == 0:              # has no logarithm
                data[1:-1:3] = 0
                data[2:-1:7] *= -1
                if data.max() <= 0 or np.min(data[data > 0]) == data.max():
                    continue
            f = find('pdf', slot)
            given = data.copy()
            if f:
                pl.figure(f['fig'].number)
                again += 1
            else:
                f = {'fig': pl.figure(), 'kind': 'pdf', 'drawn': []}
                figs.append(f)
            was = current is f
            pos = [log, logd] if salt % 2 else []
            kw = {} if pos else dict((k, v) for k, v in (('log', log), ('log_density', logd)) if v)

            def call():
                if not parts:
                    graphics.pdf_graph(given, bins, *pos, **dict(kw, **({} if marker is None else {'marker': marker})))
                    return None
                h, e = graphics.pdf_bins(given, bins, log) if log else graphics.pdf_bins(given, bins)
                if salt % 2:
                    return h, e, graphics.generalized_histogram_disp(h, e[:-1], log, logd, '-' + (marker or 'o'))
                return h, e, graphics.generalized_histogram_disp(h, e[:-1], marker='-' + (marker or 'o'), **dict((k + '_bins' * (k == 'log'), v) for k, v in kw.items()))
            ended, r = attempt(call, fail, f)
            if not ended:
                discard(f)
                others(None, 'after an interruption')
                f = {'fig': pl.figure(), 'kind': 'pdf', 'drawn': []}
                figs.append(f)
                r = call()
            what = 'distribution'
            ctx.check(same(given, data), what + ': arguments changed', '')
            if log:
                data = data[data > 0]
            f['drawn'].append((data, bins, log, logd, marker))
            f['look'] = look(f['fig'])
            ctx.check(len(f['look']) == 1, what + ': axes', '%d' % len(f['look']))
            a = f['look'][0]
            ctx.check(len(a['lines']) == len(f['drawn']), what + ': lines', '%d, expected %d' % (len(a['lines']), len(f['drawn'])))
            for (x, y, mk, ls), (d, b, lg, _, m) in zip(a['lines'], f['drawn']):
                ctx.check((mk, ls) == (m or 'o', '-'), what + ': marker', '%s' % ((mk, ls),))
                ctx.check(len(x) == len(y) == b, what + ': bins', '%d, %d, expected %d' % (len(x), len(y), b))
                d = d.astype(float)
                lo, hi = d.min(), d.max()
                s = np.log(lo) + (np.log(hi) - np.log(lo)) * np.arange(b) / b
                ctx.check(np.allclose(x, np.exp(s) if lg else lo + (hi - lo) * np.arange(b) / b, rtol=1e-6, atol=1e-9), what + ': edges', 'bins %d, log %s' % (b, lg))
                total = np.sum(y * np.diff(np.r_[x, hi]))
                ctx.check(abs(total - 1.) < 1e-6, what + ': total', '%r, bins %d, log %s' % (total, b, lg))
                e = density(d, np.r_[x, hi])
                # A value next to an edge may be on either side.
                near = np.array([np.sum((np.abs(d - v) <= 1e-6 * max(1e-3, abs(v))) | (np.abs(d - u) <= 1e-6 * max(1e-3, abs(u)))) for v, u in
                                 zip(x, np.r_[x[1:], hi])]) / (len(d) * np.diff(np.r_[x, hi]))
                ctx.check(np.all(np.abs(y - e) <= near + 1e-6 * np.abs(e)), what + ': density', 'bins %d, log %s, of %d' % (b, lg, len(d)))
            if r is not None:
                h, e, lines = r
                ctx.check(len(h) == bins and len(e) == bins + 1 and e[0] == data.min() and e[-1] == data.max(), what + ': bins',
                          '%d, %d: %r..%r, data %r..%r' % (len(h), len(e), e[0], e[-1], data.min(), data.max()))
                cnt = h * np.diff(e) * len(data)
                ctx.check(np.allclose(cnt, np.round(cnt), atol=1e-3), what + ': counts', '%s' % cnt)
                ctx.check(len(lines) == 1 and lines[0] is f['fig'].axes[0].get_lines()[-1], what + ': lines returned', '')
            sc = tuple('log' if any(d[k] for d in f['drawn']) else 'linear' for k in (2, 3))
            ctx.check(a['scale'] == sc, what + ': scale', '%s, expected %s' % (a['scale'], sc))
            ctx.check('density' in a['ylabel'], what + ': label', a['ylabel'])
            ctx.check(a['nogrid'], what + ': grid', '')
            key = (bins, log, logd, marker, parts)
        current = f
        ctx.check(pl.gcf() is f['fig'], what + ': current figure', '')
        others(f, what)
        most = max(most, len(figs))
        ctx.see(op, [len(l['lines']) for l in f['look']], f['look'][0]['lines'][-1][1])
        ctx.state(op, len(figs), len(f['drawn']), was, key, fail is not None and ended)
    ctx.end()
    ctx.nontrivial = most > 1 or again > 0


def near_(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12)
