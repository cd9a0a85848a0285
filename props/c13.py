"""C13: NPZ directories - what was saved is loaded, and failures are not silent."""
from textdata import *
import kit, re

ID = 'C13'
RUNS = (1100, 12000)
RULE = ('A run is a history of saves of drawn sets of trajectories with per-trajectory and free arrays to one directory, some of which '
        'die or are failed by the simulated system at a drawn operation (a write torn) or lack an array for a trajectory, and of loads in drawn ranges and directory orders '
        'with disturbed reads. Non-trivial: a saved trajectory was compared.')
STATES = 'step, range form, directory order, class and position (ten classes) of death or failure, outcome, state of each trajectory then'

ADDS = {'recon': ('accel', 'f8'), 'quality': ('diam', 'f8'), 'flags': ('tag', 'i4')}
ERR = {'open': [13, 24, 28, 5], 'write': [5, 28, 122], 'meta': [5, 13, 28], 'stat': [5, 13]}


def gen(rng, tier, i):
    dss = [gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 5]), holes=rng.random() < .3, odd=True) for _ in range(rng.choice([1, 2]))]
    for ds in dss:
        ds['base'] = dss[0]['base']
    span = max(t[1] + t[2] for d in dss for t in d['trajs'])
    steps = []
    for _ in range(rng.randrange(1, 6)):
        q = rng.random()
        what = {'ds': rng.randrange(len(dss)), 'salt': rng.randrange(3), 'adds': rng.sample(sorted(ADDS), rng.randrange(0, 4)), 'free': rng.sample(['edges', 'counts'], rng.randrange(0, 3)),
                'lazy': rng.random() < .3}
        if q < .4 or not steps:
            steps.append(['save', what, gen_disturb(rng, reads=0, n=rng.choice([0, 0, 1, 3]))])
        elif q < .55:
            steps.append(['die', what, {'cls': rng.choice(['write', 'write', 'open', 'meta']), 'at': rng.randrange(1000), 'arg': rng.choice([-1, 0, rng.randrange(1, 3000)])}])
        elif q < .58 and what['adds']:
            steps.append(['lack', what])
        elif q < .7:
            cls = rng.choice(['open', 'write', 'write', 'meta', 'stat'])
            steps.append(['fail', what, {'cls': cls, 'at': rng.randrange(1000), 'act': 'err', 'arg': rng.choice(ERR[cls]), 'sticky': rng.random() < .3}, rng.choice([None, None, None, rng.randrange(1000)])])
        else:
            a = rng.choice([None, rng.randrange(0, span + 1)])
            b = rng.choice([None, rng.randrange(a or 0, span + 2)])
            steps.append(['load', a, b, [rng.randrange(0, 3), rng.randrange(10**6)], gen_disturb(rng, writes=0), rng.random() < .3])
    return {'dss': dss, 'steps': steps, 'slash': rng.random() < .5}


def valid(c):
    if not c['dss'] or not all(valid_dataset(d) for d in c['dss']) or len(set(d['base'] for d in c['dss'])) != 1:
        return False
    for s in c['steps']:
        if s[0] in ('save', 'die', 'fail', 'lack'):
            if not 0 <= s[1]['ds'] < len(c['dss']) or not set(s[1]['adds']) <= set(ADDS) or len(set(s[1]['adds'])) != len(s[1]['adds']):
                return False
        if s[0] == 'save' and (len(s) != 3 or not valid_faults(s[2]) or any(f['cls'] != 'write' for f in s[2])):
            return False
        if s[0] == 'die' and (s[2]['cls'] not in ERR or not 0 <= s[2]['at'] < 1000):
            return False
        if s[0] == 'fail' and (len(s) != 4 or s[2]['cls'] not in ERR or s[2]['arg'] <= 0 or not 0 <= s[2]['at'] < 1000):
            return False
        if s[0] == 'load' and (len(s) != 6 or not valid_faults(s[4]) or len(s[3]) != 2 or s[3][0] not in (0, 1, 2)):
            return False
        if s[0] == 'lack' and (len(s) != 2 or not s[1]['adds']):
            return False
        if s[0] not in ('save', 'die', 'fail', 'load', 'lack'):
            return False
    return True


def add_of(ds, name, trid, t):
    return column(ds['salt'] + 31, ADDS[name][0], trid, t[:max(1, len(t) - 1)])


def free_of(ds, name):
    return unit(ds['salt'], np.arange(7 if name == 'edges' else 3), 5)


class What(object):
    """One set of trajectories and arrays to save."""
    def __init__(self, dss, w):
        self.ds = dict(dss[w['ds']], salt=dss[w['ds']]['salt'] + w['salt'])
        self.adds, self.free, self.lazy = w['adds'], w['free'], w['lazy']
        self.model = Model(self.ds)

    def save(self, d, lack=False):
        from flowtracks.io import save_trajectories
        trs = sut_trajectories(self.ds)
        adds = dict((a, dict((i, add_of(self.ds, a, i, r['time'])) for i, r in self.model.rows.items())) for a in self.adds)
        if lack:                  # no array for one of the trajectories
            del adds[self.adds[0]][self.model.ids()[self.ds['salt'] % len(trs)]]
        save_trajectories(d, iter(trs) if self.lazy else trs, adds, **dict((f, free_of(self.ds, f)) for f in self.free))

    def traj(self, i, rng):
        return self.model.traj(i, rng)

    def contents(self):
        """file name -> content"""
        return set('traj_%d.npz' % i for i in self.model.ids()) | set(f + '.npy' for f in self.free)


def plain_load(path, first, last, front):
    from flowtracks import io
    if front:
        return [plain_traj(t) for t in io.trajectories(path, first, last, 1., 'npz', 0)], None
    trs, adds = io.load_trajectories(path, first, last)
    return [plain_traj(t) for t in trs], dict((k, dict((int(i), np.array(v)) for i, v in a.items())) for k, a in adds.items())


def run(case, ctx):
    dss = case['dss']
    base = dss[0]['base']
    path = './out/npz' + ('/' if case['slash'] else '')
    os.makedirs('out')
    os.makedirs('count')
    disk = {}                # trajectory id -> versions that may be there (None: no file)
    frees = {}
    temps = set()
    n = 0

    def spec(w, i):
        """What a load must give for trajectory i of version w."""
        return w.model.rows[i], dict((a, add_of(w.ds, a, i, w.model.rows[i]['time'])) for a in w.adds)

    def compare(i, got, adds, w, rng, what):
        exp = w.traj(i, rng)
        if set(got) != set(exp):
            return 'properties %s, expected %s' % (sorted(got), sorted(exp))
        for k in exp:
            if not same(got[k], exp[k]):
                return '%s %s' % (k, diff(got[k], exp[k]))
        if adds is not None:
            here = dict((a, v[i]) for a, v in adds.items() if i in v)
            if set(here) != set(w.adds):
                return 'added arrays %s, expected %s' % (sorted(here), sorted(w.adds))
            for a in here:
                e = add_of(w.ds, a, i, w.model.rows[i]['time'])
                if not same(here[a], e):
                    return 'added %s %s' % (a, diff(here[a], e))
        return None

    def look_each(what):
        """Load each file on its own: a complete version, or an error; narrows ``disk``."""
        nonlocal n
        for i in sorted(disk):
            f = 'out/npz/traj_%d.npz' % i
            def one():
                os.makedirs('single', exist_ok=True)
                t = 'single/traj_%d.npz' % i
                with open(f, 'rb') as a, open(t, 'wb') as b:
                    b.write(a.read())
                try:
                    return plain_load('./single', None, None, False)
                finally:
                    os.remove(t)
            if not os.path.exists(f):
                ctx.check(None in disk[i], 'file missing ' + what, f)
                disk[i] = [None]
                continue
            o = ctx.proc(one, root='none')
            if o.kind != 'ok':
                ctx.fail('unreadable ' + what, '%s: %s' % (f, o.exc[:2]))
            trs, adds = o.value
            ctx.check([t[0] for t in trs] == [i], 'one file, one trajectory ' + what, str([t[0] for t in trs]))
            ok = [w for w in disk[i] if w is not None and compare(i, trs[0][1], adds, w, None, what) is None]
            ctx.check(ok, 'partial data without an error ' + what, 'trajectory %d: %s' % (
                i, [compare(i, trs[0][1], adds, w, None, what) for w in disk[i] if w is not None]))
            disk[i] = ok
            n += 1

    for s in case['steps']:
        if s[0] == 'load':
            _, a, b, dirmode, rf, front = s
            if not os.path.isdir('out/npz'):
                continue
            fl = [None if x is None else x + base for x in (a, b)]
            trs, adds = ctx.must(lambda: plain_load(path, fl[0], fl[1], front), 'load', faults=rf, dirmode=dirmode)
            rng = (fl[0], None if fl[1] is None else fl[1] + 1)
            ids = [t[0] for t in trs]
            ctx.check(len(set(ids)) == len(ids), 'load: repeated', str(ids))
            exp = sorted(i for i, v in disk.items() if v[0] is not None and len(v[0].traj(i, rng)['time']))
            ctx.check(sorted(ids) == exp, 'load: trajectories', '%s, expected %s, range %s' % (sorted(ids), exp, rng))
            for i, got in trs:
                bad = [compare(i, got, adds, w, rng, 'load') for w in disk[i]]
                ctx.check(None in bad, 'load: values', 'trajectory %d: %s' % (i, bad))
            if adds is not None:                 # not subject to the range
                for i in set(disk) - set(ids):
                    here = dict((a, v[i]) for a, v in adds.items() if i in v)
                    ok = [w for w in disk[i] if w is None and not here or w is not None and set(here) == set(w.adds) and
                          all(same(here[a], add_of(w.ds, a, i, w.model.rows[i]['time'])) for a in here)]
                    ctx.check(ok, 'load: added arrays of a trajectory out of range', 'trajectory %d: %s' % (i, sorted(here)))
            n += len(trs)
            ctx.state('load', a is None, b is None, dirmode[0], bool(exp), front)
            continue
        w = What(dss, s[1])
        if s[0] == 'save':
            ctx.must(lambda: w.save(path), 'save', faults=s[2], root='out')
            for i in w.model.ids():
                disk[i] = [w]
            for f in w.free:
                frees[f] = [free_of(w.ds, f)]
            ctx.state('save', bool(w.adds), bool(w.free), w.lazy)
        elif s[0] == 'lack':
            o = ctx.proc(lambda: w.save(path, True), root='out')
            ctx.check(o.kind == 'exc', 'no error for a missing array', str(o.kind))
            for i in w.model.ids():
                disk[i] = disk.get(i, [None]) + [w]
            for f in w.free:
                frees[f] = None
            look_each('after a save without an array')
            ctx.state('lack', len(w.adds), w.lazy)
        else:
            kit.shutil.rmtree('count/npz', ignore_errors=True)
            if os.path.isdir('out/npz'):
                kit.shutil.copytree('out/npz', 'count/npz')
            o = ctx.count(lambda: w.save('./count/npz'), root='count')
            f = kit.resolve([dict(s[2], act='crash' if s[0] == 'die' else 'err')], o.sim['count'])
            cap = None
            if s[0] == 'fail' and s[3] is not None:
                f, cap = [], s[3] * o.sim['written'] // 1000
            o = ctx.proc(lambda: w.save(path), faults=f, capacity=cap, root='out')
            if o.kind == 'ok':
                if any(o.sim['fired']) or o.sim['cap_fired']:
                    ctx.stat('saves that survived faults')
                for i in w.model.ids():
                    disk[i] = [w]
                for k in w.free:
                    frees[k] = [free_of(w.ds, k)]
                what = 'after a save'
            else:
                if s[0] == 'die':
                    ctx.check(o.kind == 'crash', 'save without fault fails', str(o.exc and o.exc[:2]))
                else:
                    ctx.check(any(o.sim['fired']) or o.sim['cap_fired'], 'save without fault fails', str(o.exc and o.exc[:2]))
                for i in w.model.ids():
                    disk[i] = disk.get(i, [None]) + [w]
                for k in w.free:
                    frees[k] = None
                what = 'after a ' + ('crash' if s[0] == 'die' else 'failed save')
            look_each(what)
            ctx.state(s[0], [x['cls'] for x in f], f and f[0]['idx'] * 10 // 40, o.kind, tuple(sorted(v[0] is None for v in disk.values())))
        if os.path.isdir('out/npz'):
            extra = set(os.listdir('out/npz')) - set('traj_%d.npz' % i for i in disk) - set(k + '.npy' for k in frees)
            if s[0] == 'die' or s[0] == 'fail' and s[2]['cls'] in ('meta', 'stat') and s[3] is None:
                temps |= set(x for x in extra if re.match(r'traj_\d+\.npz\.\d+-\d+\.tmp', x))       # could not be removed
            ctx.check(extra <= temps, 'unknown files', str(extra))
        for k, v in sorted(frees.items()):
            if v is not None:
                got = ctx.must(lambda: np.load('out/npz/%s.npy' % k), 'free array', root='none')
                ctx.check(same(got, v[0]), 'free array: values', k)
    # Faults stopped: saving again repairs what is there.
    if disk:
        last = [s for s in case['steps'] if s[0] != 'load'][-1]
        w = What(dss, last[1])
        ctx.must(lambda: w.save(path), 'saving again', root='out')
        for i in w.model.ids():
            disk[i] = [w]
        look_each('after saving again')
    ctx.nontrivial = n > 0
