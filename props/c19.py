"""C19: a reader that hits an error raises; it never returns part of the data."""
from readers import *
import kit, gc, shutil

ID = 'C19'
RUNS = (700, 12000)
RULE = ('A run stores data in drawn formats and makes drawn reads. Each is made without a fault (counting operations, allocations and lines), then '
        'with a failing operation, allocation or an interruption at a drawn one of them, then again; objects live on in some runs. HDF5 and NPZ '
        'files are cut at a drawn byte. What is returned has to be complete in every case. Non-trivial: a read met its fault.')
STATES = 'reader, format, kind of fault, where in the read (tenths), outcome'
STUB = STUB + ['interruption, exhausted memory: an exception raised at a drawn line of flowtracks by a trace function']
ERR = {'open': [5, 13, 24, 2], 'read': [5, 5, 110], 'dir': [5, 13, 24, 12], 'meta': [5, 13], 'stat': [5, 13]}


def gen_fail(rng):
    q = rng.random()
    if q < .15:
        return ['mem', rng.randrange(1000)]
    if q < .35:
        return ['line', rng.randrange(1000), rng.choice('KM')]
    c = rng.choice(['open', 'open', 'read', 'read', 'read', 'read', 'dir', 'dir', 'meta', 'stat', 'stat'])
    return [c, rng.randrange(1000), rng.choice(ERR[c]), rng.random() < .4]


def gen(rng, tier, i):
    big = i % 25 == 7                                   # files larger than one buffer
    p, t = gen_data(rng, big)
    span = max(x[1] + x[2] for x in p['trajs'] + t['trajs'])
    jobs = []
    for _ in range(rng.choice([1, 2, 3])):
        j = gen_job(rng, p, span)
        if j[0] in ('list', 'table', 'frame') and (j[0] == 'table' or j[1] in ('npz', 'hdf')) and rng.random() < .25:
            f = ['cut', rng.choice([0, rng.randrange(1000), rng.randrange(1000)]), rng.randrange(10**6)]
        else:
            f = gen_fail(rng)
        jobs.append([j, f, rng.random() < .6])
    return {'p': p, 't': t, 'jobs': jobs, 'style': rng.randrange(3), 'dir': [rng.randrange(0, 3), rng.randrange(10**6)],
            'rf': gen_disturb(rng, reads=60, writes=0, n=rng.choice([0, 1, 2]))}


def valid(c):
    if not (valid_data(c) and valid_faults(c['rf']) and len(c['dir']) == 2 and c['dir'][0] in (0, 1, 2)):
        return False
    for j, f, fresh in c['jobs']:
        if not valid_job(j, c['p']):
            return False
        if f[0] not in ('mem', 'line', 'cut') and not (len(f) == 4 and f[0] in ERR and f[2] > 0) or f[0] == 'cut' and len(f) < 3 or not 0 <= f[1] < 1000:
            return False
        if f[0] == 'line' and f[2] not in ('K', 'M'):
            return False
        if f[0] == 'cut' and not (j[0] == 'table' or j[0] in ('list', 'frame') and j[1] in ('npz', 'hdf')):
            return False
    return True


def run(case, ctx):
    rds = Readers(ctx, case, [j for j, _, _ in case['jobs']])
    rds.write()
    objs, names, pm, base = rds.objs, rds.names, rds.pm, case['p']['base']
    from flowtracks.scene import Scene

    def history(ops, fail):
        """One scene, with a fault in one of the operations; it goes on with the next."""
        perf = Performer(Scene(names['p', 'hdf']), base, pm.ids())
        ver = Verifier(ctx, pm, None, True)
        bad = fail[1] * len(ops) // 1000
        met = 0
        for n, op in enumerate(ops):
            for again in (False, True):
                counts = {}
                f = None
                if n == bad and not again and fail[0] != 'cut':
                    f = [fail[0], fail[1] % 7] + fail[2:]
                    if f[0] == 'line':
                        f[1] = fail[1] % 60
                ended, r, fired = ctx.attempt(lambda: perf.step(op), f, counts)
                if ended:
                    ver.step(op, r)
                if f is None:
                    break
                met += bool(fired)
                ctx.state('scene', op[0], f[0], ended, bool(fired))
                if not ended:
                    if op[0] in ('new', 'next'):          # that iteration is over
                        perf.its.pop(op[1], None)
                        ver.its.pop(op[1], None)
                        if op[0] == 'next':
                            break
                    continue
                break
        return met

    def cut(j, fail, call, check):
        f = 'hdf' if j[0] == 'table' else j[1]
        path = names['p', f]
        if f == 'npz':
            path = os.path.join(path, sorted(x for x in os.listdir(path) if x.startswith('traj_'))[fail[2] % len(os.listdir(path))])
        with open(path, 'rb') as h:
            data = h.read()
        with open(path, 'wb') as h:
            h.write(data[:fail[1] * len(data) // 1000])
        ctx.stat('planned file:cut')
        ctx.stat('fired file:cut')
        try:
            got = call()
            ended = True
        except Exception:
            ended = False
        ctx.state(j[0], f, 'cut', fail[1] // 100, ended)
        if ended:
            check(got)
        with open(path, 'wb') as h:
            h.write(data)
        gc.collect()
        check(call())

    met = 0
    ctx.begin(case['rf'], dirmode=case['dir'])
    L = kit.lib()
    for j, fail, fresh in case['jobs']:
        if j[0] == 'scene':
            met += history(j[1], fail)
            gc.collect()
            continue
        rd = rds.reader(j)
        if rd is None:
            continue
        call, check = rd
        if fresh:
            objs.clear()
            gc.collect()
        counts = {}
        check(ctx.attempt(call, None, counts)[1])
        if fail[0] == 'cut':
            cut(j, fail, call, check)
            met += 1
            continue
        n = counts[fail[0]]
        if n == 0:
            continue
        if fresh:
            objs.clear()
            gc.collect()
        ended, got, fired = ctx.attempt(call, [fail[0], min(n - 1, fail[1] * n // 1000)] + fail[2:])
        met += bool(fired)
        ctx.state(j[0], j[1] if j[0] in ('list', 'seq', 'particles', 'dual', 'an') else '', fail[0], fail[1] // 100, ended, bool(fired))
        if ended:
            check(got)
        check(ctx.attempt(call)[1])
    objs.clear()
    gc.collect()
    # An interruption may come between opening a file and the statement that is to close it.
    ctx.check(L.sim_live_fds() == 0 or any(f[0] == 'line' for _, f, _ in case['jobs']), 'files left open', '%d, %s' % (L.sim_live_fds(), open_tables()))
    ctx.end()
    ctx.nontrivial = met > 0
