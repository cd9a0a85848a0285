"""C22: reading changes nothing, needs no permission to write, and readers do not hinder each other."""
from readers import *
import kit, gc, hashlib, pickle

ID = 'C22'
RUNS = (400, 12000)
RULE = ('A run stores data in drawn formats, makes all of it read-only in the simulated system (or not), and lets up to three simulated processes '
        'make drawn reads, each stalled at drawn operations with its files open while the next ones run; some reads fail or are interrupted. '
        'Results are checked, and every file is compared byte by byte, names and modes included. Non-trivial: a read ran on a read-only file '
        'system or while another process was in the middle of one.')
STATES = 'reader and format, read-only or not, processes in the middle of a read, class and position of the stall, kind of failure'


def gen(rng, tier, i):
    p, t = gen_data(rng, i % 40 == 7)
    span = max(x[1] + x[2] for x in p['trajs'] + t['trajs'])
    procs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        jobs = [gen_job(rng, p, span) for _ in range(rng.choice([1, 1, 2, 3]))]
        stop = {'cls': rng.choice(['read', 'read', 'open', 'dir']), 'at': rng.choice([0, 999, rng.randrange(1000)])} if rng.random() < .6 else None
        fail = None
        if rng.random() < .2:
            fail = {'cls': rng.choice(['open', 'read', 'dir']), 'at': rng.randrange(1000), 'act': rng.choice(['err', 'err', 'crash']), 'arg': 5}
        procs.append({'jobs': jobs, 'stop': stop, 'fail': fail, 'ro': rng.random() < .6, 'dir': [rng.randrange(0, 3), rng.randrange(10**6)]})
    return {'p': p, 't': t, 'procs': procs, 'style': rng.randrange(3), 'order': rng.randrange(6)}


def valid(c):
    if not valid_data(c):
        return False
    for q in c['procs']:
        if not q['jobs'] or not all(valid_job(j, c['p']) for j in q['jobs']) or len(q['dir']) != 2 or q['dir'][0] not in (0, 1, 2):
            return False
        for f in (q['stop'], q['fail']):
            if f is not None and not (f['cls'] in ('read', 'open', 'dir') and 0 <= f['at'] < 1000):
                return False
        if q['fail'] is not None and not (q['fail']['act'] in ('err', 'crash') and q['fail']['arg'] > 0):
            return False
    return len(c['procs']) <= 4


def survey():
    """Every file and directory: type, mode and content."""
    out = {}
    for d, ds, fs in os.walk('.'):
        for n in ds:
            out[os.path.join(d, n)] = ('dir', os.stat(os.path.join(d, n)).st_mode)
        for n in fs:
            f = os.path.join(d, n)
            st = os.lstat(f)
            with open(f, 'rb') as h:
                out[f] = (st.st_mode, st.st_mtime_ns, st.st_nlink, hashlib.blake2b(h.read()).hexdigest())
    return out


def run(case, ctx):
    procs = case['procs']
    rds = Readers(ctx, case, [j for q in procs for j in q['jobs']])
    rds.write()
    rds.stray()
    before = survey()

    def compare(what):
        now = survey()
        if now != before:
            diff = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
            ctx.fail('files changed by ' + what, ', '.join('%s %s' % (k, 'removed' if k not in now else 'created' if k not in before else 'changed')
                                                           for k in diff[:5]))

    def work(q):
        # Everything is checked in the reading process: its results are objects.
        n = 0
        for j in q['jobs']:
            rd = rds.reader(j)
            if rd is None:
                continue
            call, check = rd
            check(call())
            n += 1
        rds.objs.clear()
        gc.collect()
        return n

    handles = []
    done = busy = 0
    for k, q in enumerate(procs):
        counts = {'read': 0, 'open': 0, 'dir': 0}
        if q['stop'] or q['fail']:
            counts = ctx.count(lambda: work(q), dirmode=q['dir']).sim['count']
            compare('a read')
        fs = kit.resolve([dict(q['stop'], act='park', arg=0)] if q['stop'] else [], counts)
        fail = kit.resolve([q['fail']] if q['fail'] else [], counts)
        h = ctx.start(lambda: work(q), faults=fs + fail, dirmode=q['dir'], readonly=q['ro'], park=bool(fs))
        stalled = bool(fs) and ctx.parked(h)
        done += q['ro'] or busy > 0
        for j in q['jobs']:
            ctx.state(j[0], j[1] if j[0] in ('list', 'seq', 'particles', 'an') else '', q['ro'], busy, stalled and (fs[0]['cls'], fs[0]['at'] // 100))
        if stalled:
            busy += 1
            handles.append((q, h, fail))
        else:
            end(ctx, q, ctx.finish(h), fail, busy)
        if busy == 0:
            compare('a read')
    # Those still in the middle go on in a drawn order.
    n = case['order']
    while handles:
        q, h, fail = handles.pop(n % len(handles))
        n //= 2
        busy -= 1
        ctx.resume(h)
        end(ctx, q, ctx.finish(h), fail, busy)
    compare('reads')
    ctx.nontrivial = done > 0


def end(ctx, q, o, fail, busy):
    if o.kind == 'exc' and o.exc[0] == 'Violation':
        kind, _, msg = o.exc[1].partition(': ')
        ctx.fail(kind, msg)
    if fail and (o.kind == 'crash' or any(o.sim['fired'])):
        ctx.state('failed', fail[0]['cls'], fail[0]['act'], o.kind, q['ro'])
        return
    ctx.check(o.kind == 'ok', 'read fails' + (' on a read-only file system' if q['ro'] else '') + (' while others read' if busy else ''),
              str(o.exc and o.exc[:3]))
    ctx.check(o.sim['ro_fired'] == 0, 'attempt to write', '%d on a read-only file system' % o.sim['ro_fired'])
    ctx.check(o.sim['count']['write'] == 0 and o.sim['count']['meta'] == 0, 'a read writes', str(o.sim['count']))
    ctx.check(o.sim['live_fds'] == 0, 'files left open', str(o.sim['live_fds']))
    ctx.stat('reads done', o.value)
