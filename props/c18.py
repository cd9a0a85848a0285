"""C18: saved configurations bring back equivalent objects."""
from formats import *
from interp import near
import kit
from configparser import ConfigParser

ID = 'C18'
RUNS = (2000, 15000)
RULE = ('A run stores particles and tracers in drawn formats and applies a drawn history to configurations: sequences and interpolants save into '
        'them in any order and repeatedly, files are written, completed by hand, cut, read back in this or other processes, some reads failed '
        'by the simulated system. Whatever is read back is compared with what was saved last. Non-trivial: an object read back was compared.')
STATES = 'kind of object, parameters present, operation, overriding arguments, failure and outcome'
PLACES = {'npz': ['./%s/n/', './%s/run%%20a/', './%s/a%%b%%c/'], 'hdf': ['./%s/traj.h5', './%s/50%%.h5', './%s/%%run%%%%2.h5'],
          'mat': ['./%s/traj.mat', './%s/100%%.mat', './%s/5%% of 8%%.mat']}


def gen_float(rng):
    return rng.choice([1., 50., 1e-3, .1, 2500., rng.random(), rng.random() * 10. ** rng.randrange(-12, 13), 1. / 3, 1e-7, 1250])


def gen_seq(rng, span):
    a = rng.randrange(0, span)
    return ['seq', gen_float(rng), gen_float(rng), gen_float(rng), [a, rng.randrange(a + 1, span + 2)], rng.choice([0, 0, 1, 2, 3, 5]),
            rng.random() < .15, rng.random() < .5]


def gen_int(rng):
    m = rng.choice(['inv', 'inv', 'rbf', 'corrfun'])
    return ['int', m, rng.choice([None, 1, 2, 3, 5]), rng.choice([None, None, .05, .1, gen_float(rng)]),
            None if m != 'corrfun' and rng.random() < .3 else rng.choice([1., 2, 3., .5, 1 / 3.]) if m == 'inv' else
            rng.choice([1e4, 1e5, 33333.333333333336, 20000]) if m == 'rbf' else rng.randrange(2)]


def gen_op(rng, span):
    q = rng.random()
    if q < .25:
        return gen_seq(rng, span)
    if q < .5:
        return gen_int(rng)
    if q < .56:
        return ['junk', rng.randrange(4)]
    if q < .72:
        return ['write', rng.randrange(2)]
    if q < .80:
        return ['load', rng.randrange(2)]
    if q < .88:
        return ['frame', rng.choice(['npz', 'hdf', 'mat']), rng.choice(['npz', 'hdf', 'mat']), rng.randrange(span), gen_float(rng), gen_float(rng), gen_float(rng)]
    if q < .955:
        return ['lack', rng.randrange(2), rng.randrange(12)]
    if q < .98:
        return ['new']
    return ['gone', rng.randrange(2)]


def gen(rng, tier, i):
    base = rng.choice([0, 1, 10001, 1234567])
    maxlen = rng.choice([3, 6])
    mk = lambda: dict(gen_dataset(rng, ntraj=rng.choice([1, 2, 4]), maxlen=maxlen, extra=['accel'], base=base, span=2 * maxlen), tf=False)
    p, t = mk(), mk()
    span = max(x[1] + x[2] for x in p['trajs'] + t['trajs'])
    ops = [gen_op(rng, span) for _ in range(rng.randrange(1, 8))] + [['write', rng.randrange(2)]]
    for _ in range(rng.randrange(1, 4)):
        fail = None
        if rng.random() < .35:
            fail = [rng.choice(['open', 'read', 'read', 'stat']), rng.choice([0, 0, 1, 2, rng.randrange(12)]), rng.random() < .4]
        ops.insert(rng.randrange(len(ops) // 2, len(ops) + 1),
                   ['read', rng.choice(['seq', 'int', 'dual', 'seq', 'int']), rng.randrange(2), rng.choice([None, None, False, True]), rng.choice([None, None, 0, 1, 3]),
                    fail, rng.random() < .5])
    ops.append(['read', rng.choice(['seq', 'int', 'dual']), ops[-1][1] if ops[-1][0] == 'write' else rng.randrange(2), None, None, None, rng.random() < .5])
    return {'p': p, 't': t, 'pf': rng.choice(FORMATS + ['hdf', 'hdf']), 'tf': rng.choice(FORMATS + ['hdf', 'hdf']), 'name': [rng.randrange(3), rng.randrange(3)],
            'ops': ops, 'style': rng.randrange(3), 'dir': [rng.randrange(0, 3), rng.randrange(10**6)], 'rf': gen_disturb(rng, reads=60, writes=10)}


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and c['p']['base'] == c['t']['base'] and valid_faults(c['rf']) and
            c['p']['cols'] == ['accel'] == c['t']['cols'] and not any(x[3] for x in c['p']['trajs'] + c['t']['trajs']) and
            c['pf'] in FORMATS and c['tf'] in FORMATS and not c['p']['tf'] and not c['t']['tf'] and len(c['dir']) == 2 and
            c['dir'][0] in (0, 1, 2) and c['style'] in (0, 1, 2) and len(c['name']) == 2 and all(0 <= n < 3 for n in c['name'])):
        return False
    n = {'seq': 8, 'int': 5, 'junk': 2, 'write': 2, 'load': 2, 'frame': 7, 'lack': 3, 'new': 1, 'gone': 2, 'read': 7}
    for o in c['ops']:
        if len(o) != n[o[0]]:
            return False
        if o[0] == 'seq' and not (min(o[1:4]) > 0 and len(o[4]) == 2 and 0 <= o[4][0] < o[4][1] and o[5] >= 0):
            return False
        if o[0] == 'int' and not (o[1] in ('inv', 'rbf', 'corrfun') and (o[2] is None or o[2] >= 1) and (o[3] is None or o[3] > 0) and
                                  (o[4] in (0, 1) if o[1] == 'corrfun' else o[4] is None or o[4] > 0)):
            return False
        if o[0] == 'frame' and not (o[1] in PLACES and o[2] in PLACES and min(o[4:]) > 0 and o[3] >= 0):
            return False
        if o[0] == 'read' and (o[5] is not None and (len(o[5]) != 3 or o[5][0] not in ('open', 'read', 'stat') or o[5][1] < 0) or o[1] not in ('seq', 'int', 'dual')):
            return False
    return True


def put(fmt, sub, ds, style, which):
    if fmt in PLACES and which:
        from flowtracks import io
        os.makedirs(sub, exist_ok=True)
        name = PLACES[fmt][which] % sub
        if fmt == 'npz':
            io.save_trajectories(name, sut_trajectories(ds), {})
        elif fmt == 'hdf':
            io.save_particles_table(name, sut_trajectories(ds))
        else:
            write_mat(name, ds)
        return name
    return store(fmt, sub, ds, style)


CORR = ['./corr.npz', './50%/co%rr.npz']
TR = column(11, 'pos', np.zeros(8, int), np.arange(8))
PTS = column(12, 'pos', np.zeros(4, int), np.arange(4))
DAT = column(13, 'velocity', np.zeros(8, int), np.arange(8))


def probe(it):
    it.set_scene(TR, PTS, DAT)
    with np.errstate(all='ignore'):
        return [np.asarray(it.interpolate()), np.asarray(it.current_dists())]


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    os.makedirs('50%')
    for n, c in enumerate(CORR):
        np.savez(c, corrs=np.linspace(1., .1 + n, 6), bins=.1 * np.arange(6) / 6)
    names = dict((k, ctx.must(lambda: put(f, k, d, case['style'], w), 'writing'))
                 for k, f, d, w in (('p', case['pf'], pds, case['name'][0]), ('t', case['tf'], tds, case['name'][1])))
    if any(o[0] == 'lack' for o in case['ops']):
        ctx.must(lambda: put('hdf', 'lack', pds, 0, 0), 'writing')
    extra = {}                                     # further copies, for frame data
    for o in case['ops']:
        if o[0] == 'frame':
            for w, f, d in (('p', o[1], pds), ('t', o[2], tds)):
                if (w, f) not in extra:
                    extra[w, f] = ctx.must(lambda: put(f, w + 'x' + f, d, 0, case['name'][0]), 'writing')
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.interpolation import interpolant, read_interpolant
    from flowtracks.scene import read_dual_scene
    from flowtracks.particle import Particle
    from flowtracks.io import read_frame_data, infer_format

    count = [0]

    # -- what is read back
    def read_seq(path, smooth, minlen):
        s = read_sequence(path, smooth, minlen) if (smooth, minlen) != (None, None) else read_sequence(path)
        c = ConfigParser()
        s.save_config(c)
        out = {'diam': s.part.diam, 'density': s.part.density, 'frate': s.frate, 'range': tuple(s.range()), 'fname': s.part_fname(),
               'format': s.part_format(), 'smooth': c.getboolean('Scene', 'apply smoothing'), 'min': c.getint('Scene', 'trajectory minimal length'),
               'tracers': c.get('Scene', 'tracers file'), 'particles': c.get('Scene', 'particles file')}
        v = np.pi / 6 * s.part.diam ** 3
        ctx.check(np.allclose([s.part.volume(), s.part.mass()], [v, v * s.part.density], rtol=1e-12, atol=0), 'sequence: volume and mass', '')
        return s, out

    def want_seq(e, smooth, minlen):
        _, diam, dens, frate, r, mn, sm, _ = e
        return {'diam': diam, 'density': dens, 'frate': frate, 'range': (r[0] + base, r[1] + base), 'fname': names['p'], 'format': infer_format(names['p']),
                'smooth': sm if smooth is None else smooth, 'min': mn if minlen is None else minlen, 'tracers': names['t'], 'particles': names['p']}

    def use_seq(s, want):
        """The frames it gives."""
        r = want['range']
        if not all(readable(f, d, r[0], r[1]) for f, d in ((case['pf'], pds), (case['tf'], tds))):
            return
        p = Expected(expected(case['pf'], pds, r[0], r[1], want['min'], want['frate']), 'particles', want['frate'])
        t = Expected(expected(case['tf'], tds, r[0], r[1], want['min'], want['frate']), 'tracers', want['frate'])
        if not p.trajs or not t.trajs:
            return
        n = r[0]
        if want['smooth']:
            try:
                for fr, nx in s:
                    p.check_segment(ctx, fr.particles, nx.particles, n, 'sequence')
                    n += 1
            except TypeError as e:
                if not str(e).startswith('Trajectory.smoothed() missing'):
                    raise
                ctx.finding('sequence: smoothing fails', str(e))
            return
        for fr, nx in s:
            p.check_segment(ctx, fr.particles, nx.particles, n, 'sequence')
            t.check_segment(ctx, fr.tracers, nx.tracers, n, 'sequence')
            n += 1
        ctx.check(n == r[1], 'sequence: range', 'ends at %s of %s' % (n, r))
        count[0] += 1

    def make_int(e):
        _, m, k, radius, par = e
        return interpolant(m, k, radius, CORR[par] if m == 'corrfun' else par)

    def use_dual(s, e):
        r = (e[4][0] + base, e[4][1] + base)
        for what, g, w in (('range', tuple(s.get_range()), r), ('path', s.get_particles_path(), names['p']), ('rate', s.frate, e[3]),
                           ('diameter', s.part.diam, e[1]), ('density', s.part.density, e[2])):
            ctx.check(g == w, 'dual: ' + what, '%r, expected %r' % (g, w))
        pm, tm = Model(pds), Model(tds)
        n = r[0]
        for fr in s.iter_frames():
            check_frame(ctx, plain_frame(fr.particles), pm, n, 'dual particles')
            check_frame(ctx, plain_frame(fr.tracers), tm, n, 'dual tracers')
            n += 1
        ctx.check(n == r[1], 'dual: range', 'ends at %s of %s' % (n, r))

    def equal(got, want, what):
        for k in want:
            ctx.check(got[k] == want[k], '%s: %s' % (what, k), '%r, expected %r' % (got[k], want[k]))
        count[0] += 1

    # -- the history
    FILES = ['./conf', './50% conf.cfg']
    cfg = ConfigParser()
    cur = {'seq': None, 'int': None, 'junk': set()}
    disk = {}
    ctx.begin(case['rf'], dirmode=case['dir'])
    L = kit.lib()
    nf = len(case['rf'])

    def copy(d):
        return dict(d, junk=set(d['junk']))

    for o in case['ops']:
        if o[0] == 'seq':
            e = want_seq(o, None, None)
            s = Sequence(e['range'] if o[7] else list(e['range']), o[3], Particle(o[1], o[2]), names['p'], names['t'], o[6], o[5])
            s.save_config(cfg)
            cur['seq'] = o
        elif o[0] == 'int':
            make_int(o).save_config(cfg)
            cur['int'] = o
        elif o[0] == 'junk':
            sec = ['Extra', 'Scene', 'Particle', 'Interpolant'][o[1]]
            if not cfg.has_section(sec):
                cfg.add_section(sec)
            cfg.set(sec, 'note', 'by %s' % sec)
            cur['junk'].add(sec)
        elif o[0] == 'write':
            with open(FILES[o[1]], 'w') as f:
                cfg.write(f)
            disk[o[1]] = copy(cur)
        elif o[0] == 'load':
            if o[1] in disk:
                cfg = ConfigParser()
                ctx.check(cfg.read(FILES[o[1]]) != [], 'load', '')
                cur = copy(disk[o[1]])
        elif o[0] == 'new':
            cfg = ConfigParser()
            cur = {'seq': None, 'int': None, 'junk': set()}
        elif o[0] == 'gone':
            if o[1] in disk:
                os.unlink(FILES[o[1]])
                del disk[o[1]]
        elif o[0] == 'lack':
            lack(o, disk, FILES, ctx, read_sequence, read_interpolant, read_dual_scene)
        elif o[0] == 'frame':
            frame(o, ctx, pds, tds, base, extra, read_frame_data)
            count[0] += 1
        elif o[0] == 'read':
            _, kind, fi, smooth, minlen, fail, again = o
            rec = disk.get(fi)
            src = rec and rec['int' if kind == 'int' else 'seq']
            if kind == 'dual' and not (case['pf'] == case['tf'] == 'hdf'):
                continue
            for attempt in range(2 if fail or again else 1):
                first = attempt == 0 and fail
                fired = 0
                if first:
                    L.sim_fault(kit.CLS[fail[0]], L.sim_count(kit.CLS[fail[0]]) + fail[1], kit.ACT['err'], 5, int(fail[2]))
                    ctx.stat('planned %s:err:EIO' % fail[0])
                try:
                    obj = {'seq': lambda: read_seq(FILES[fi], smooth, minlen), 'int': lambda: read_interpolant(FILES[fi]),
                           'dual': lambda: read_dual_scene(FILES[fi])}[kind]()
                except Exception as e:
                    obj = None
                    err = '%s: %s' % (type(e).__name__, e)
                if first:
                    fired = L.sim_fired(nf)
                    nf += 1
                    if fired:
                        ctx.stat('fired %s:err:EIO' % fail[0], fired)
                    kit.heal()
                ctx.state('read', kind, src is not None, smooth, minlen, bool(fired), obj is None)
                if obj is None:
                    ctx.check(fired or src is None, 'reading %s fails' % kind, '%s; saved: %s' % (err if obj is None else '', src))
                    continue
                ctx.check(src is not None, 'reading %s: not there, but no error' % kind, '')
                if kind == 'seq':
                    w = want_seq(src, smooth, minlen)
                    equal(obj[1], w, 'sequence')
                    use_seq(obj[0], w)
                elif kind == 'int':
                    it, orig = obj, make_int(src)
                    for what, a, b in (('neighbours', it.num_neighbs(), orig.num_neighbs()), ('radius', it.radius(), orig.radius()), ('class', type(it), type(orig))):
                        ctx.check(a == b, 'interpolant: ' + what, '%r, expected %r' % (a, b))
                    c1, c2 = ConfigParser(), ConfigParser()
                    it.save_config(c1)
                    orig.save_config(c2)
                    ctx.check(set(c1['Interpolant']) == set(c2['Interpolant']) and c1['Interpolant']['method'] == c2['Interpolant']['method'], 'interpolant: saved again', '%s, expected %s' % (dict(c1['Interpolant']), dict(c2['Interpolant'])))
                    a, b = c1['Interpolant']['param'], c2['Interpolant']['param']
                    ctx.check(a == b if src[1] == 'corrfun' else float(a) == float(b), 'interpolant: parameter', '%r, expected %r' % (a, b))
                    for a, b in zip(probe(it), probe(orig)):
                        ctx.check(near(a, b, 1e-12, 1e-12), 'interpolant: values', diff(a, b))
                    count[0] += 1
                else:
                    use_dual(obj, src)
                    count[0] += 1
    ctx.end()
    ctx.nontrivial = count[0] > 0


def lack(o, *args):
    """The file without one of its values: a needed one is asked for, an optional one has its default; with a wrong one."""
    for k in range(3):
        lack_one(o[1], (o[2] + 5 * k) % 12, *args)


def lack_one(fi, which, disk, FILES, ctx, read_sequence, read_interpolant, read_dual_scene):
    rec = disk.get(fi)
    if rec is None:
        return
    c = ConfigParser()
    c.read(FILES[fi])
    what = [('Particle', 'diameter'), ('Particle', 'density'), ('Scene', 'frame rate'), ('Scene', 'first frame'), ('Scene', 'last frame'),
            ('Scene', 'tracers file'), ('Scene', 'particles file'), ('Scene', 'apply smoothing'), ('Scene', 'trajectory minimal length'),
            ('Interpolant', 'method'), ('Interpolant', 'num_neighbs'), ('Interpolant', 'param')][which]
    if not c.has_option(*what):
        return
    c.remove_option(*what)
    with open('./lacking', 'w') as f:
        c.write(f)
    for name, v in (('./wrong', 'several'), ('./empty', '')):
        c.set(what[0], what[1], v)
        with open(name, 'w') as f:
            c.write(f)
    ctx.state('lack', what)
    if what[0] == 'Interpolant':
        for name in ('./wrong', './empty'):
            try:
                it = read_interpolant(name)
                ctx.fail('no error with a wrong ' + what[1], name)
            except kit.Violation:
                raise
            except Exception:
                pass
        try:
            it = read_interpolant('./lacking')
        except Exception:
            ctx.check(what[1] == 'method' or rec['int'] is None or rec['int'][1] == 'corrfun' and what[1] == 'param', 'default missing', what[1])
            return
        ctx.check(what[1] != 'method' and (rec['int'][1], what[1]) != ('corrfun', 'param'), 'no error without ' + what[1], '')
        if what[1] == 'num_neighbs':
            ctx.check(it.num_neighbs() == (7 if rec['int'][1] == 'rbf' else 4), 'default: num_neighbs', str(it.num_neighbs()))
        else:
            c = ConfigParser()
            it.save_config(c)
            d = c.getfloat('Interpolant', 'param')
            ctx.check(d == (1e5 if rec['int'][1] == 'rbf' else 1.), 'default: param', str(d))
        return
    need = what[1] not in ('apply smoothing', 'trajectory minimal length')
    number = 'file' not in what[1]
    for args in ((None, None), (True, 4)):
        if number and (need or args[0] is None):
            for name in ('./wrong', './empty'):
                try:
                    read_sequence(name, *args)
                    ctx.fail('no error with a wrong ' + what[1], name)
                except kit.Violation:
                    raise
                except Exception:
                    pass
        try:
            s = read_sequence('./lacking', *args)
        except Exception:
            ctx.check(need or rec['seq'] is None, 'default missing', what[1])
            continue
        ctx.check(not need, 'no error without ' + what[1], '')
        c = ConfigParser()
        s.save_config(c)
        if what[1] == 'apply smoothing':
            ctx.check(c.getboolean('Scene', what[1]) == bool(args[0]), 'default: ' + what[1], '')
        else:
            ctx.check(c.getint('Scene', what[1]) == (args[1] or 0), 'default: ' + what[1], '')
    if not need:
        return
    for n, name in enumerate((FILES[fi], './lacking', './wrong', './empty')):
        c = ConfigParser()
        c.read(name)
        for k in ('tracers file', 'particles file'):
            if n == 0 or what[1] != k:
                c.set('Scene', k, PLACES['hdf'][0] % 'lack')
        with open('./dual', 'w') as f:
            c.write(f)
        if n == 0:
            read_dual_scene('./dual')
            continue
        try:
            read_dual_scene('./dual')
        except Exception:
            continue
        ctx.fail('no error without ' + what[1], 'dual scene, ' + name)


def frame_conf(path, names, pds, tds, t, diam, dens, frate, fmts):
    """Writes a configuration of frame data; returns what it says, None if there is no data (outside the domain)."""
    c = ConfigParser()
    c.add_section('Particle')
    c.add_section('Scene')
    c.set('Particle', 'diameter', str(diam))
    c.set('Particle', 'density', str(dens))
    c.set('Scene', 'frame', str(t))
    c.set('Scene', 'frame rate', str(frate))
    c.set('Scene', 'tracer_file', names[1].replace('%', '%%'))
    c.set('Scene', 'part_file', names[0].replace('%', '%%'))
    if path is not None:
        with open(path, 'w') as f:
            c.write(f)
    # Only the frame and the two that follow are read, from those files which can be read in part.
    p, tr = [expected(f, ds, t, t + 2, 2, frate) for f, ds in zip(fmts, (pds, tds))]
    return (p, tr, t, (diam, dens, frate)) if p and tr else None


def frame_check(ctx, exp, got):
    p, tr, t, vals = exp
    part, fr, a, b = got
    ctx.check((part.diam, part.density, fr) == vals, 'frame data: values', '%s %s %s' % (part.diam, part.density, fr))
    Expected(p, 'frame data', fr).check_segment(ctx, a.particles, b.particles, t, 'particles')
    Expected(tr, 'frame data', fr).check_segment(ctx, a.tracers, b.tracers, t, 'tracers')


def frame(o, ctx, pds, tds, base, extra, read_frame_data):
    _, pf, tf, t, diam, dens, frate = o
    exp = frame_conf('./frame.cfg', (extra['p', pf], extra['t', tf]), pds, tds, t + base, diam, dens, frate, (pf, tf))
    if exp is not None:
        frame_check(ctx, exp, read_frame_data('./frame.cfg'))
        ctx.state('frame', pf, tf)
