"""The three HDF5 savers behind one interface, and what a file must contain."""
from common import *

KINDS = ['table', 'frames', 'analysis']
ERR = {'open': [13, 24, 28, 5], 'write': [5, 28, 122], 'meta': [5, 13, 28], 'read': [5], 'stat': [5, 13]}


class Interrupted(Exception):
    """What user code in the middle of a save raises."""


ODD = ['lacks', 'more', 'wide', 'fraction', 'nan', 'large']

def failing(it, at, exc, odd=None):
    """The source of data fails at an item; or that one has other properties than the rest (and at is not 0)."""
    n = 0
    for x in it:
        if at is not None and n == at and odd is None:
            raise exc('simulated failure of the data source')
        if odd is None or len(x):
            if n == at and odd is not None:
                spoil(x, odd)
            n += 1
        yield x


def spoil(x, odd):
    v = np.array(x.tag())
    if odd == 'lacks':
        d = dict(x.as_dict(), time=x.time(), trajid=x.trajid())
        del d['tag']
        x.__init__(**d)
    elif odd == 'more':
        x.create_property('more', v)
    elif odd == 'wide':
        x.set_velocity(np.array(x.velocity())[:, :1])
    elif odd == 'fraction':
        x.set_tag(v + .5)
    elif odd == 'nan':
        x.set_tag(v * np.nan)
    else:
        x.set_tag(v + 2**40)


class DescrAnalyser(object):
    """Columns computed from trajectory id and time by the value function."""
    COLS = {'an_vec': ('accel', float, 3), 'an_num': ('big', int, None), 'an_len': ('diam', float, None),
            'an_pair': ('grad', 'f4', 2), 'an_one': ('diam', float, 1)}

    def __init__(self, names, salt, fail_at=None, exc=Interrupted, watch=False, odd=None):
        self.names, self.salt, self.fail_at, self.exc, self.watch, self.odd = names, salt, fail_at, exc, watch, odd
        self.calls = 0
        self.seen = []

    def descr(self):
        return [(n, t) if k is None else (n, t, k) for n, (_, t, k) in ((n, self.COLS[n]) for n in self.names)]

    def analyse(self, frame, next_frame):
        n = self.calls
        self.calls += 1
        if self.fail_at is not None and n == self.fail_at and not self.odd:
            raise self.exc('simulated failure of the analyser')
        p = frame.particles
        if self.watch:
            self.seen.append((plain_frame(p), plain_frame(next_frame.particles),
                              plain_frame(frame.tracers), plain_frame(next_frame.tracers)))
        t = np.full(len(p), int(p.time()))
        r = [analysis_column(self.salt, k, np.array(p.trajid()), t) for k in self.names]
        if self.salt % 3:                        # rows of length 1, as documented, or numbers
            r = [v[:, None] if k == 'an_one' else v for k, v in zip(self.names, r)]
        if self.odd and n == self.fail_at:
            return {'none': [], 'more': r + [r[0]], 'longer': [np.concatenate([v, v[:1], v[:1], np.zeros_like(v, shape=(2,) + v.shape[1:])]) for v in r]}.get(self.odd, r[:-1])
        return r


def analysis_column(salt, name, trid, t):
    src, typ, k = DescrAnalyser.COLS[name]
    v = column(salt + 77, src, trid, t)
    return v if k in (None, 1) else v.reshape(-1, k)


CONF = """[Particle]
diameter: %r
density: %r

[Scene]
frame rate: %r
tracers file: %s
particles file: %s
first frame: %d
last frame: %d
"""

def segments(model, rng):
    """[(t, [trid...])] of the particles that continue in the next frame."""
    lo, hi = model.limits(rng)
    return [(t, sorted(set(model.frame(t)) & set(model.frame(t + 1)))) for t in range(lo, hi - 1)]


class Target(object):
    """One complete content of the file to save: (kind, data set)."""
    def __init__(self, kind, ds, inputs=None):
        self.kind, self.ds, self.inputs = kind, ds, inputs
        self.model = Model(ds)
        self.cols = ['trajid', 'time'] + self.model.cols

    def prepare(self):
        """Input files of an analysis, called in a process of its own."""
        if self.kind == 'analysis':
            from flowtracks.io import save_particles_table
            d = self.inputs
            os.makedirs(d, exist_ok=True)
            save_particles_table(os.path.join(d, 'p.h5'), sut_trajectories(self.ds))
            save_particles_table(os.path.join(d, 't.h5'), sut_trajectories(self.ds))

    def save(self, path, fail_at=None, exc=Interrupted, odd=None):
        if self.kind == 'table':
            from flowtracks.io import save_particles_table
            save_particles_table(path, failing(sut_trajectories(self.ds), fail_at, exc, odd))
        elif self.kind == 'frames':
            from flowtracks.io import save_frames_hdf
            save_frames_hdf(path, failing(sut_frames(self.ds), fail_at, exc, odd))
        else:
            from flowtracks.analysis import analysis
            from flowtracks.scene import DualScene
            from flowtracks.particle import Particle
            d = self.inputs
            scene = DualScene(os.path.join(d, 't.h5'), os.path.join(d, 'p.h5'), 100., Particle(1e-3, 1000.))
            analysis(scene, path, os.path.join(d, 'conf'), [
                DescrAnalyser(['an_vec'], self.ds['salt'], None if odd else fail_at, exc),
                DescrAnalyser(['an_num', 'an_len'], self.ds['salt'], fail_at if odd else None, exc, odd=odd)])

    def steps(self):
        """Number of items the saver takes from user code."""
        if self.kind == 'table':
            return len(self.ds['trajs'])
        lo, hi = self.model.span()
        return hi - lo if self.kind == 'frames' else hi - lo - 1

    def content(self):
        if self.kind == 'analysis':
            rows = [(i, t) for t, ids in segments(self.model, None) for i in ids]
            trid = np.array([r[0] for r in rows], dtype=np.int64)
            t = np.array([r[1] for r in rows], dtype=np.int64)
            cols = [trid, t] + [analysis_column(self.ds['salt'], k, trid, t) for k in ('an_vec', 'an_num', 'an_len')]
            return row_bag(cols) if rows else []
        f = flat(self.model, None)
        tags = sorted([i, int(r['time'][0]), int(r['time'][-1])] for i, r in self.model.rows.items())
        bag = row_bag([f[c] for c in self.cols])
        lens = sorted((i, len(r['time'])) for i, r in self.model.rows.items())
        lo, hi = self.model.span()
        return [bag, tags, lens, bag, lens, sum(len(ids) for _, ids in segments(self.model, None)), (lo, hi)]

    def matches(self, got):
        return got == self.content()


def load(kind, path, cols):
    """What the file says, in the form of Target.content()."""
    if kind == 'analysis':
        import tables
        with tables.open_file(path, 'r') as f:
            t = f.get_node('/analysis')
            c = [t.col(k) for k in ('trajid', 'time', 'an_vec', 'an_num', 'an_len')]
            return row_bag(c) if len(c[0]) else []
    from flowtracks.scene import Scene
    s = Scene(path)
    got = s.collect(cols)
    tags = sorted([int(x) for x in r] for r in s.trajectory_tags())
    lens = sorted((int(t.trajid()), len(t)) for t in s.iter_trajectories())
    frames = [dict(f.as_dict(), time=np.full(len(f), f.time())) for f in s.iter_frames()]
    byid = sorted((int(i), len(s.trajectory_by_id(i))) for i in s.trajectory_ids())
    segs = sum(len(f) for f, _ in s.iter_segments())
    return [row_bag(got), tags, lens, row_bag([np.concatenate([f[c] for f in frames]) for c in cols]),
            byid, segs, tuple(int(x) for x in s.frame_range())]


def has_rows(kind, ds):
    return kind != 'analysis' or any(ids for _, ids in segments(Model(ds), None))


def give_rows(kind, ds):
    if not has_rows(kind, ds):
        ds['trajs'][0][2:] = [2, []]


def load_or_none(kind, path, cols):
    return load(kind, path, cols) if os.path.exists(path) else None
