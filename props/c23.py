"""C23: iterations and savers keep a few frames in memory, whatever the length of the data."""
from common import *
import gc, tables, tracemalloc

ID = 'C23'
RUNS = (28, 800)
RULE = ('A run writes data many times larger than the allowed working memory through the savers (fed piecewise), and performs a drawn history of '
        'complete, abandoned, failed and interleaved iterations of scenes, dual and analysed scenes and tracking files. After each step the '
        'simulator counts the memory in use, beyond what was used before the data existed; the values are checked too. '
        'Non-trivial: an iteration was left open, abandoned or failed, and data were iterated after it.')
STATES = 'kind of iteration, way it ended, iterations open meanwhile, kind of saver'
NOTE = 'Memory is what Python and NumPy allocate (tracemalloc), after collection of reference cycles; buffers inside the HDF5 library are not counted.'

ITERS = ['frames', 'segs', 'trajs', 'table', 'dframes', 'dsegs', 'an', 'text', 'single']
FIXED = 1e6      # caches of PyTables and the interpreter, measured 0.3-0.7 MB
PER_FILE = 8e5   # row buffers and caches of PyTables for each open file, measured 0.3-0.5 MB
PER_ITER = 12      # frames (or trajectories) which an open iteration may hold


TEXT_FIXED = 4e5   # modules loaded by the first read and caches of the interpreter, measured 0.1 MB


def gen(rng, tier, i):
    text = i % 4 == 1
    ops = []
    for _ in range(rng.randrange(2, 7)):
        q = rng.random()
        if q < .72:
            ops.append(['iter', rng.choice(['text', 'single']) if text else rng.choice(ITERS), rng.choice([1000, 1000, rng.randrange(1, 1000)]),
                        rng.choice(['drop', 'drop', 'close', 'hold', ['line', rng.randrange(60), rng.choice('KM')], ['deep', rng.randrange(6)],
                                    ['read', 0, 5, 0]])])
        elif q < .86:
            ops.append(['cont', rng.randrange(3), rng.randrange(1, 1001)])
        elif not text:
            ops.append(['save', rng.choice(['trajs', 'frames', 'an', 'text'])])
    return {'text': text, 'frames': rng.randrange(300, 360) if text else rng.randrange(110, 200),
            'n': rng.randrange(50, 60) if text else rng.randrange(12, 22), 'life': rng.randrange(5, 9 if text else 12), 'cols': rng.randrange(2, 4),
            'width': rng.choice([256, 320]), 'keep': rng.random() < .5, 'by': rng.choice(['trajs', 'frames']), 'range': rng.random() < .3, 'salt': rng.randrange(1 << 16), 'ops': ops,
            'short': rng.choice([0, 0, 1])}


def valid(c):
    if c['text'] and not (c['frames'] >= 300 and c['n'] >= 50 and c['life'] <= 8 and all(o[0] == 'cont' or o[0] == 'iter' and o[1] in ('text', 'single') for o in c['ops'])):
        return False
    if not (100 <= c['frames'] <= 400 and 10 <= c['n'] <= 60 and 3 <= c['life'] <= 15 and 2 <= c['cols'] <= 5 and c['width'] in (256, 320)
            and c['by'] in ('trajs', 'frames') and c['salt'] >= 0):
        return False
    for o in c['ops']:
        if o[0] == 'iter' and not (o[1] in ITERS and 1 <= o[2] <= 1000 and (o[3] in ('drop', 'close', 'hold') or o[3][0] in ('line', 'deep', 'read'))):
            return False
        if o[0] == 'cont' and not (o[1] >= 0 and 1 <= o[2] <= 1000) or o[0] == 'save' and o[1] not in ('trajs', 'frames', 'an', 'text'):
            return False
    return True


class Data(object):
    """Particle k of a frame belongs to trajectory 1000 * k + number; all live equally long, staggered."""
    def __init__(self, c):
        self.F, self.n, self.L, self.K, self.W, self.salt = c['frames'], c['n'], c['life'], c['cols'], c['width'], c['salt']
        self.phase = [(k * 7 + self.salt) % self.L for k in range(self.n)]
        self.only_text = c['text']
        self.row = 8 * (8 + self.K * self.W)
        self.unit = self.row * max(self.n, self.L)
        self.total = self.row * self.n * self.F
        if self.only_text:     # Frames stay until the trajectories in them end.
            self.unit, self.total = 64 * self.n * self.L // 3, 64 * self.n * self.F

    def ids(self, t):
        return np.array([1000 * k + (t + p) // self.L for k, p in enumerate(self.phase)])

    def pos(self, ids, t):
        return np.stack((ids + .5, np.broadcast_to(t, ids.shape) * 1., np.full(ids.shape, self.salt / 4.)), axis=1)

    def fields(self, ids, t):
        w = dict(('w%d' % j, np.repeat((ids * 3. + t * 7. + j)[:, None], self.W, axis=1)) for j in range(self.K))
        return dict(w, pos=self.pos(ids, t), velocity=self.pos(ids, t) * 2)

    def spans(self):
        for k, p in enumerate(self.phase):
            for m in range((self.F - 1 + p) // self.L + 1):
                yield 1000 * k + m, max(0, m * self.L - p), min(self.F, (m + 1) * self.L - p)

    def trajs(self, see):
        from flowtracks.trajectory import Trajectory
        for i, a, b in self.spans():
            t = np.arange(a, b)
            yield Trajectory(time=t, trajid=i, **self.fields(np.full(b - a, i), t))
            see()

    def snaps(self, see):
        from flowtracks.trajectory import ParticleSnapshot
        for t in range(self.F):
            i = self.ids(t)
            yield ParticleSnapshot(time=t, trajid=i, **self.fields(i, t))
            see()

    def text(self):
        os.mkdir('text')
        with open('text/all.txt', 'w') as one:
            for t in range(self.F):
                lines = []
                for k, p in enumerate(self.phase):
                    first, last = t == 0 or (t + p) % self.L == 0, t == self.F - 1 or (t + p) % self.L == self.L - 1
                    x = 1e3 * self.pos(np.array([1000 * k + (t + p) // self.L]), t)[0]
                    lines.append('%d %d %.3f %.3f %.3f\n' % (-1 if first else k, -2 if last else k, x[0], x[1], x[2]))
                if t % 11 == 3:
                    lines.append('-1 -2 %d 0 0\n' % -t)      # a particle seen once
                with open('text/ptv_is.%d' % (t + 1), 'w') as f:
                    f.write('%d\n' % len(lines) + ''.join(lines))
                one.write(''.join(lines) + '\n')


class Meter(object):
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        self.open = 0
        self.worst = self.bare = 0
        gc.collect()
        gc.freeze()
        gc.disable()       # collected explicitly, at fixed points of the run
        tracemalloc.start()

    def __call__(self, what, extra=1):
        """``extra``: iterations active besides those left open."""
        gc.collect()
        used = tracemalloc.get_traced_memory()[0]
        files = len(tables.file._open_files.handlers)
        self.ctx.check(files <= 6 + self.open + 2 * (extra > 0), 'files left open', '%d after %s; %d iterations open' % (files, what, self.open))
        allowed = (TEXT_FIXED if self.d.only_text else FIXED) + PER_FILE * files + PER_ITER * self.d.unit * (self.open + extra)
        self.worst = max(self.worst, used / allowed)
        self.bare = max(self.bare, used)
        self.ctx.check(used <= allowed, 'memory grows with the data: ' + what, '%d kB in use, allowed %d kB, data %d kB; %d iterations open' % (
            used // 1024, allowed // 1024, self.d.total // 1024, self.open))


def run(case, ctx):
    import tables.parameters as tp
    from flowtracks import io
    from flowtracks.scene import Scene, DualScene
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.analysis import analysis
    from flowtracks.particle import Particle
    tp.IO_BUFFER_SIZE = 1 << 13
    for k in ('TABLE', 'BOUNDS', 'LIMBOUNDS', 'SORTED', 'SORTEDLR', 'ITERSEQ'):
        setattr(tp, k + '_MAX_SIZE', 1 << 12)
        if k != 'TABLE':
            setattr(tp, k + '_MAX_SLOTS', 8)
    d = Data(case)
    hdf = './p.h5'
    with open('conf', 'w') as f:
        f.write('[Particle]\ndiameter = 0.001\ndensity = 2500\n[Scene]\nparticles file = %s\ntracers file = %s\n'
                'first frame = 0\nlast frame = %d\nframe rate = 50\n' % (hdf, hdf, d.F - 1))
    d.text()
    lo, hi = (3, d.F - 2) if case['range'] else (0, d.F)
    rng = (lo, hi) if case['range'] else None

    def fine(i, t, pos):
        ctx.stat('rows checked', len(pos))
        return same(pos, d.pos(np.broadcast_to(i, pos.shape[:1]), t))

    def snap(s, t, keep=None):
        exp = d.ids(t)
        if keep is not None:
            exp = exp[np.isin(exp, keep)]
        i = s.trajid()
        ctx.check(s.time() == t and sorted(i) == sorted(exp), 'frame: particles', 'frame %s, expected %d' % (s.time(), t))
        ctx.check(fine(i, t, s.pos()) and all(same(s.as_dict()['w%d' % j][:, -1], i * 3. + t * 7. + j) for j in range(d.K)), 'frame: rows', 'frame %d' % t)

    class First(object):
        def descr(self):
            return [('w', float, d.W)]
        def analyse(self, fr, nx):
            meter('analysis', 4)
            return [fr.particles.w0() + nx.tracers.w1()]

    spans = dict((i, (a, b)) for i, a, b in d.spans())

    def traj(t, last=0, lims=(lo, hi)):
        a, b = spans[t.trajid()]
        a, b = max(a, lims[0]), min(b, lims[1])
        if last:
            b = min(b, hi - 1, spans[t.trajid()][1] - 1)
        T = t.time()
        ctx.check(len(T) == max(0, b - a) and (len(T) == 0 or list(T) == list(range(a, b))), 'trajectory: times', '%s: %s' % (t.trajid(), list(T)[:5]))
        ctx.check(fine(t.trajid(), T, t.pos()), 'trajectory: rows', str(t.trajid()))
        if 'w0' in t.schema():
            ctx.check(same(t.w0()[:, -1], t.trajid() * 3. + T * 7.), 'trajectory: rows', str(t.trajid()))
        if last:
            ctx.check(same(t.w()[:, 0], t.trajid() * 6. + T * 14. + 8), 'trajectory: analysis', str(t.trajid()))

    def chain(t):
        k = int(round(t.pos()[0, 0] - .5))
        a, b = spans[k]
        ctx.check(len(t) == b - a and np.allclose(t.pos(), d.pos(np.full(b - a, k), np.arange(a, b))), 'chain: rows', '%s' % k)

    objs = {}
    def obj(k, make):
        if k not in objs:
            objs[k] = make()
        return objs[k]
    scene = lambda: obj('scene', lambda: Scene(hdf, rng))
    dual = lambda: obj('dual', lambda: DualScene(hdf, hdf, 50., Particle(1e-3, 2500.), (lo, hi)))

    def an():
        if not os.path.exists('an.h5'):
            save('an')
        return obj('an', lambda: AnalysedScene('./an.h5'))

    def seg(x, t):
        both = np.intersect1d(d.ids(t), d.ids(t + 1))
        snap(x[0], t, both)
        snap(x[1], t + 1, both)

    def dseg(x, t):
        seg((x[0].particles, x[1].particles), t)
        seg((x[0].tracers, x[1].tracers), t)

    long = sum(1 for a, b in spans.values() if b - a >= 2)
    seen = sum(1 for a, b in spans.values() if min(b, hi) - max(a, lo) >= 2)
    # kind: (iterator, check of the n-th item, number of items)
    makers = {
        'frames': lambda: (scene().iter_frames(), lambda x, n: snap(x, lo + n), hi - lo),
        'segs': lambda: (scene().iter_segments(), lambda x, n: seg(x, lo + n), hi - lo - 1),
        'trajs': lambda: (scene().iter_trajectories(), lambda x, n: traj(x), len(spans)),
        'table': lambda: (io.trajectories(hdf, lo, hi - 1, 50., None, None, True), lambda x, n: traj(x), seen),
        'dframes': lambda: (dual().iter_frames(), lambda x, n: (snap(x.particles, lo + n), snap(x.tracers, lo + n)), hi - lo),
        'dsegs': lambda: (dual().iter_segments(), lambda x, n: dseg(x, lo + n), hi - lo - 1),
        'an': lambda: (an().iter_trajectories(), lambda x, n: traj(x, 1), len(spans)),
        'text': lambda: (io.trajectories('./text/ptv_is.%d', None, None, 50., None, None, True), lambda x, n: chain(x), long),
        'single': lambda: (io.iter_trajectories_ptvis('./text/all.txt', frate=50.), lambda x, n: chain(x), long),
    }

    def save(what):
        see = lambda: meter('saving ' + what, 4)
        if what == 'trajs':
            io.save_particles_table('./new.h5' if os.path.exists(hdf) else hdf, d.trajs(see))
        elif what == 'frames':
            io.save_frames_hdf('./new.h5' if os.path.exists(hdf) else hdf, d.snaps(see))
        elif what == 'an':
            analysis(dual(), './an%s.h5' % ('2' if os.path.exists('an.h5') else ''), 'conf', [First()])
        else:
            io.save_particles_table('./new.h5', watched(io.trajectories('./text/ptv_is.%d', None, None, 50., None, None, True), see))
        meter('saved ' + what, 0)
        ctx.state('save', what)

    def watched(it, see):
        for x in it:
            yield x
            see()

    class Open(object):
        """An iteration in progress"""
        def __init__(self, kind):
            self.kind = kind
            self.it, self.verify, self.size = makers[kind]()
            self.n = 0

        def step(self):
            x = next(self.it, None)
            if x is None:
                return False
            self.verify(x, self.n)
            self.n += 1
            return True

        def go(self, upto):
            while self.n < upto:
                ctx.check(self.step(), 'iteration ends early', '%s after %d of %d' % (self.kind, self.n, self.size))
                if not case['text'] or self.n % 16 == 0:
                    meter('iteration of ' + self.kind)
            return self.n == self.size

        def finish(self):
            ctx.check(not self.step(), 'iteration goes on', '%s after %d' % (self.kind, self.n))

    # A dual scene needs the particles twice; text chains have no extra columns.
    ctx.begin(faults=[{'cls': 'read', 'act': 'short', 'idx': 0, 'arg': 3000, 'sticky': True}] if case['short'] else [],
              clock=[1.7e9, 1e-8, -1, 0])      # the collector reads the clock millions of times
    meter = Meter(ctx, d)
    try:
        if not case['text']:
            save(case['by'])
        held = []
        odd = False
        done = False
        for o in case['ops']:
            if o[0] == 'save':
                save(o[1])
                continue
            if o[0] == 'cont':
                if not held:
                    continue
                h = held.pop(o[1] % len(held))
                meter.open -= 1
                if h.go(max(h.n, min(h.size, h.n + h.size * o[2] // 1000))):
                    h.finish()
                else:
                    held.append(h)
                    meter.open += 1
                del h
                meter('continued', 0)
                continue
            kind, end = o[1], o[3]
            h = Open(kind)
            end_now = h.go(max(1, h.size * o[2] // 1000))
            done = done or odd
            if end == 'hold' and len(held) < 2 and not end_now:
                held.append(h)
                meter.open += 1
                odd = True
            elif end == 'close' and hasattr(h.it, 'close'):
                h.it.close()
                odd = True
            elif isinstance(end, list) and not end_now:
                ctx.attempt(h.step, end)
                odd = True
            elif end_now:
                h.finish()
            else:
                odd = True
            ctx.state(kind, end if isinstance(end, str) else end[0], end_now, [x.kind for x in held])
            del h
            if not (case['keep'] or held):
                objs.clear()
            meter('after iteration of ' + kind, 0)
        del held[:]
        meter.open = 0
        objs.clear()
        meter('objects dropped', 0)
    finally:
        tracemalloc.stop()
        gc.unfreeze()
        gc.enable()
    rep = ctx.end()
    ctx.see(rep['count'])
    if os.environ.get('C23_SHOW'):
        with open(os.environ['C23_SHOW'], 'a') as f:
            f.write('%.2f  %d kB unit %d kB; data %d kB\n' % (meter.worst, meter.bare // 1024, d.unit // 1024, d.total // 1024))
    ctx.nontrivial = done
