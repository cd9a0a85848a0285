"""C03: a file being saved over is at all times one complete version."""
from saving import *
import kit

ID = 'C03'
RUNS = (360, 9000)
RULE = ('A run is a history of saves of successive versions to one file, some of which die at a drawn operation (tearing the write '
        'they die in) and some of which stall there while other simulated processes read or save, and of reads. '
        'Non-trivial: a crash or a stall took place.')
STATES = 'saver, operation class and position (ten classes) of the crash or stall, what ran meanwhile, version found after it'


def gen_point(rng, classes=('write', 'write', 'write', 'open', 'meta')):
    return {'cls': rng.choice(classes), 'at': rng.choice([0, 999, rng.randrange(1000), rng.randrange(1000)]),
            'arg': rng.choice([-1, 0, rng.randrange(1, 5000)])}


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    ds = gen_dataset(rng, ntraj=rng.choice([1, 2, 3, 5]), span=16, maxlen=6)
    if rng.random() < .05:
        ds['trajs'] = [[k, rng.randrange(12), 40, []] for k in range(30)]
    give_rows(kind, ds)
    steps = []
    if rng.random() < .7:
        steps.append(['save', 0])
    for _ in range(rng.randrange(1, 4)):
        q = rng.random()
        if q < .45:
            steps.append(['crash', gen_point(rng), rng.randrange(3)])
        elif q < .55:
            steps.append(['save', rng.randrange(3)])
        elif q < .8:
            steps.append(['stall', gen_point(rng), [rng.choice(['read', 'read', 'save']) for _ in range(rng.randrange(1, 3))]])
        elif steps:
            steps.append(['hold', gen_point(rng, ['read']), rng.choice([1, 1, 2])])
        if rng.random() < .5:
            steps.append(['read'])
    return {'kind': kind, 'ds': ds, 'steps': steps, 'wf': gen_disturb(rng, reads=0, n=rng.choice([0, 0, 1]))}


_ARITY = {'save': 2, 'crash': 3, 'stall': 3, 'hold': 3, 'read': 1}

def valid(c):
    if c['kind'] not in KINDS or not valid_dataset(c['ds']) or not valid_faults(c['wf']):
        return False
    for s in c['steps']:
        if not isinstance(s, list) or not s or _ARITY.get(s[0]) != len(s):
            return False
        if s[0] in ('crash', 'stall', 'hold'):
            if s[1]['cls'] not in (['read'] if s[0] == 'hold' else ['write', 'open', 'meta']) or not 0 <= s[1]['at'] < 1000:
                return False
        if s[0] == 'stall' and not all(x in ('read', 'save') for x in s[2]):
            return False
        if s[0] == 'hold' and not 1 <= s[2] <= 3:
            return False
    return has_rows(c['kind'], c['ds'])


def run(case, ctx):
    kind, ds = case['kind'], case['ds']
    first = Target(kind, ds, './in')
    ctx.must(first.prepare, 'inputs')
    os.makedirs('count'); os.makedirs('out')
    p, cols = './out/x.h5', first.cols
    versions = []

    def version():
        # The same rows with other values, and for two of three other rows.
        n = len(versions)
        d = dict(ds, salt=ds['salt'] + n + 1)
        if n % 3 and kind != 'analysis':
            d['trajs'] = [[t[0] + n, t[1], t[2] + n % 3, t[3]] for t in ds['trajs']]
        versions.append(Target(kind, d, './in'))
        return len(versions) - 1

    def which(got):
        return -1 if got is None else next((n for n, v in enumerate(versions) if v.matches(got)), None)

    w = ctx.count(lambda: first.save('./count/x.h5'), root='count').sim['count']
    r = ctx.count(lambda: load(kind, './count/x.h5', cols), root='count').sim['count']
    may = {-1}                           # versions the file may be; -1: none

    def read(allowed, what):
        o = ctx.proc(lambda: load_or_none(kind, p, cols), root='out')
        ctx.check(o.kind == 'ok', 'unreadable ' + what, str(o.exc and o.exc[:2]))
        v = which(o.value)
        ctx.check(v is not None, 'neither version ' + what, 'the file is none of the %d versions' % len(versions))
        ctx.check(v in allowed, 'wrong version ' + what, 'version %d, may be %s' % (v, sorted(allowed)))
        ctx.see(v)
        return v

    def listing():
        return set(os.listdir('out'))

    hit = 0
    for s in case['steps']:
        if s[0] == 'save':
            v, before = version(), listing()
            ctx.must(lambda: versions[v].save(p), 'save', faults=case['wf'], root='out', pid=4000 + s[1] if s[1] else None)
            may = {read({v}, 'after a save')}
            ctx.check(listing() <= before | {'x.h5'}, 'files after a save', '%s, before %s' % (sorted(listing()), sorted(before)))
        elif s[0] == 'crash':
            v = version()
            f = kit.resolve([dict(s[1], act='crash')], w)
            o = ctx.proc(lambda: versions[v].save(p), faults=f, root='out', pid=4000 + s[2] if s[2] else None)
            if o.kind == 'crash':
                hit += 1
                got = read(may | {v}, 'after a crash')
                ctx.state(kind, 'crash', f[0]['cls'], f[0]['idx'] * 10 // w[f[0]['cls']], f[0]['arg'] < 0, got == v, got == -1)
                may = {got}
            else:
                ctx.check(o.kind == 'ok', 'save without fault fails', str(o.exc and o.exc[:2]))
                may = {read({v}, 'after a save')}
        elif s[0] == 'stall':
            v = version()
            f = kit.resolve([dict(s[1], act='park')], w)
            h = ctx.start(lambda: versions[v].save(p), faults=f, root='out', park=True)
            stalled = ctx.parked(h)
            hit += stalled
            if not stalled:
                ctx.stat('ended before the stall')
            # The stalled save may or may not have taken effect.
            may = may | {v}
            others = set()
            for x in s[2]:
                if x == 'read':
                    got = read(may, 'during a save')
                    if got != v:
                        ctx.stat('reads of the previous version during a save')
                    may = {got, v} if stalled else {got}
                else:
                    u = version()
                    ctx.must(lambda: versions[u].save(p), 'save during a save', root='out')
                    others.add(u)
                    may = {u, v} if stalled else {u}
            ctx.resume(h)
            o = ctx.finish(h)
            ctx.check(o.kind == 'ok', 'overlapped save fails', str(o.exc and o.exc[:2]))
            got = read(({v} | others) if stalled else may, 'after a save')
            ctx.state(kind, 'stall', f[0]['cls'] if f else '', f[0]['idx'] * 10 // w[f[0]['cls']] if f else 0, tuple(s[2]), got == v)
            may = {got}
        elif s[0] == 'hold':
            if may == {-1}:
                continue
            f = kit.resolve([dict(s[1], act='park')], r)
            h = ctx.start(lambda: load(kind, p, cols), faults=f, root='out', park=True)
            hit += ctx.parked(h)
            for _ in range(s[2]):
                u = version()
                ctx.must(lambda: versions[u].save(p), 'save during a read', root='out')
                ctx.state(kind, 'hold', f[0]['idx'] * 10 // r['read'] if f else 0)
                may = may | {u}
            ctx.resume(h)
            o = ctx.finish(h)
            ctx.check(o.kind == 'ok', 'overlapped read fails', str(o.exc and o.exc[:2]))
            v = which(o.value)
            ctx.check(v is not None and v in may, 'overlapped read mixes versions', 'read %s, may be %s' % (v, sorted(may)))
            ctx.stat('reads that a save overtook', int(v != u))
            may = {read({u}, 'after a save')}
        else:
            may = {read(may, 'later')}
    ctx.nontrivial = hit > 0
