"""C02: a save that fails says so and changes nothing; one that returns saved everything."""
from saving import *
import kit

ID = 'C02'
RUNS = (420, 12000)
RULE = ('A run saves one drawn data set over an absent or existing file while the simulated system fails operations of the save '
        '(or its data source or analyser raises), looks at the outcome, then saves again once faults stopped. '
        'Non-trivial: at least one fault fired.')
STATES = 'saver, kinds of faults fired, position of the first in ten classes, outcome, whether a file was there before'


EXC = dict((e.__name__, e) for e in (Interrupted, KeyboardInterrupt, MemoryError, OSError, ValueError, EOFError,
                                      AttributeError, SystemExit, StopIteration, IndexError))


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    ds = gen_dataset(rng, holes=kind != 'table' and rng.random() < .3, span=24, maxlen=8, big=False)
    odd = None
    if rng.random() < .06:
        ds['trajs'] = [[k, rng.randrange(12), 40, []] for k in range(40)]
    give_rows(kind, ds)
    q = rng.random()
    faults, src, mem, capacity, deep, line = [], None, None, None, False, None
    if q < .17:
        src = rng.randrange(1000)
    elif q < .25:
        mem, deep = rng.randrange(1000), rng.random() < .7
    elif q < .3:
        line = [rng.randrange(1000), rng.choice('KM')]
    elif q < .4:
        capacity = rng.randrange(1000)
    else:
        for _ in range(rng.choice([1, 1, 2])):
            cls = rng.choice(['open', 'open', 'meta', 'meta', 'write', 'read', 'stat'])
            faults.append({'cls': cls, 'at': rng.randrange(1000), 'act': 'err', 'arg': rng.choice(ERR[cls]),
                           'sticky': rng.random() < .3})
    if src is not None and rng.random() < .5:
        odd = rng.choice(ODD)
        ds['cols'] = [c for c in ds['cols'] if c != 'tag'] + ['tag']
    return {'kind': kind, 'ds': ds, 'odd': odd, 'old': rng.random() < .6, 'faults': faults, 'src': src,
            'exc': rng.choice(sorted(EXC)), 'line': line,
            'memfail': mem, 'deep': deep, 'capacity': capacity, 'disturb': gen_disturb(rng, n=rng.choice([0, 0, 1, 2])),
            'attempts': rng.choice([1, 1, 2, 3])}


def valid(c):
    if c['kind'] not in KINDS or not valid_dataset(c['ds']) or not valid_faults(c['faults'] + c['disturb']):
        return False
    if c['odd'] is not None and (c['odd'] not in ODD or 'tag' not in c['ds']['cols'] or c['src'] is None):
        return False
    if c['exc'] not in EXC or c['attempts'] < 1:
        return False
    if c['line'] is not None and (len(c['line']) != 2 or c['line'][1] not in ('K', 'M')):
        return False
    if len(c['faults']) + (c['line'] is not None) + (c['src'] is not None) + (c['memfail'] is not None) + (c['capacity'] is not None) < 1:
        return False
    return has_rows(c['kind'], c['ds'])


def watch_stages(fired):
    """
    Notes the calls of PyTables in which faults came, and whether PyTables
    ignored the error or raised.
    """
    import tables
    seen, inside = {}, []

    def wrap(cls, name):
        orig = getattr(cls, name)

        def call(*args, **kw):
            if inside:
                return orig(*args, **kw)
            inside.append(name)
            n = fired()
            k = '%s.%s' % (cls.__name__, name)
            try:
                ret = orig(*args, **kw)
            except BaseException:
                seen['error raised by ' + k] = seen.get('error raised by ' + k, 0) + 1
                raise
            finally:
                inside.pop()
            if fired() > n:
                seen[k] = seen.get(k, 0) + fired() - n
            return ret
        setattr(cls, name, call)
    wrap(tables.File, 'flush')
    wrap(tables.File, 'close')
    wrap(tables.File, 'create_table')
    wrap(tables.Table, 'append')
    wrap(tables.Table, 'flush')
    wrap(tables.Column, 'create_index')
    return seen


def indexed(path):
    """The columns which have an index."""
    import tables
    with tables.open_file(path, 'r') as f:
        return sorted((t._v_pathname, c) for t in f.walk_nodes('/', 'Table') for c in t.colnames
                      if getattr(t.cols, c).is_indexed)


def run(case, ctx):
    kind = case['kind']
    ds = case['ds']
    new = Target(kind, ds, ctx.path('in'))
    old = Target(kind, dict(ds, salt=ds['salt'] + 1), ctx.path('in'))
    ctx.must(new.prepare, 'inputs')
    for d in ('count', 'out'):
        os.makedirs(ctx.path(d))
    p = ctx.path('out', 'x.h5')
    if case['old']:
        ctx.must(lambda: old.save(ctx.path('count', 'x.h5')), 'saving the old file')
        ctx.must(lambda: old.save(p), 'saving the old file')

    def count():
        with kit.Interrupt(None) as i:
            new.save(ctx.path('count', 'x.h5'))
        return i.lines
    o = ctx.count(count, root=ctx.path('count'))
    indexes = ctx.must(lambda: indexed(ctx.path('count', 'x.h5')), 'indexes')
    faults = kit.resolve(case['faults'], o.sim['count'])
    disturb = [f for f in case['disturb'] if f['idx'] < o.sim['count'][f['cls']] and
               not any(g['cls'] == f['cls'] for g in faults)]
    fail_at = None if case['src'] is None else case['src'] * new.steps() // 1000
    odd = case['odd']
    if odd is not None and kind != 'analysis':
        items = len(ds['trajs']) if kind == 'table' else len(set(t for r in new.model.rows.values() for t in r['time']))
        if items < 2:
            raise kit.Skip()
        fail_at = 1 + case['src'] * (items - 1) // 1000
    memfail = None if case['memfail'] is None else case['memfail'] * max(1, o.sim['mem_calls']) // 1000
    capacity = None if case['capacity'] is None else case['capacity'] * o.sim['written'] // 1000
    exc = EXC[case['exc']]
    if exc is StopIteration and kind != 'analysis':
        exc = OSError                   # would be the end of the data
    if case['deep'] and memfail is not None:
        memfail = (None, case['memfail'] * max(1, o.sim['mem_deep']) // 1000)
    line = None if case['line'] is None else case['line'][0] * o.value // 1000
    lexc = KeyboardInterrupt if line is None or case['line'][1] == 'K' else MemoryError

    def saver():
        import gc
        kit.memory.deep = 0
        out = []
        stages = watch_stages(lambda: sum(kit.lib().sim_fired(k) for k in range(len(faults))
                                          if faults[k]['cls'] == 'write') + kit.lib().sim_cap_fired())
        for a in range(case['attempts']):
            stages.clear()
            interrupt = kit.Interrupt(line, lexc)
            try:
                if line is None:
                    new.save(p, fail_at, exc, odd)
                else:
                    with interrupt:
                        new.save(p, fail_at, exc, odd)
                r = 'saved'
            except BaseException as e:
                r = type(e).__name__
                del e
            fired = any(kit.lib().sim_fired(k) for k in range(len(faults))) or kit.lib().sim_cap_fired() > 0 or \
                fail_at is not None or kit.memory.fired > 0 or interrupt.fired > 0
            gc.collect()
            out.append((r, fired, sorted(os.listdir(ctx.path('out'))), kit.lib().sim_live_fds(), dict(stages)))
            if r == 'saved' or not fired:
                break
        kit.heal()
        return out

    h = ctx.start(saver, faults=faults + disturb, capacity=capacity, memfail=memfail, root=ctx.path('out'))
    res = ctx.finish(h)
    if res.kind != 'ok':
        ctx.fail('saver ended by %s' % res.kind, str(res.exc and res.exc[:3]))
    out = res.value
    write_fired = capacity is not None and res.sim['cap_fired'] > 0 or \
        any(n and f['cls'] == 'write' and f['act'] == 'err' for f, n in zip(faults, res.sim['fired']))
    # HDF5 may crash on a file with parts missing.
    look = ctx.proc(lambda: load_or_none(kind, p, new.cols), root=ctx.path('none'), limit=10., may_die=True)

    # The removal of the partial file may fail, too.
    meta = sum(k for f, k in zip(faults, res.sim['fired']) if f['cls'] in ('meta', 'stat') and f['act'] == 'err')
    others = sum(res.sim['fired']) - meta + res.sim['cap_fired'] + res.sim['mem_fired'] + (fail_at is not None)
    unclean = meta > 1 or (meta == 1 and others > 0)
    for n, (r, fired, files, fds, stages) in enumerate(out):
        ctx.check(fired or r == 'saved', 'fails without a fault', r)
        if r != 'saved':
            expf = ['x.h5'] if case['old'] else []
            ctx.check(files == expf or (unclean and set(expf) <= set(files)), 'files after a failed save', '%s, expected %s' % (files, expf))
        else:
            ctx.check(files == ['x.h5'] or (unclean and 'x.h5' in files), 'files after a save', '%s' % files)
        # An interruption may come between opening a file and the try: after
        # it, and PyTables may run out of memory in closing the file.
        ctx.check(fds == 0 or line is not None or case['deep'], 'descriptor left open', '%d after %s' % (fds, r))
    last = out[-1][0]
    if last == 'saved':
        good = look.kind == 'ok' and new.matches(look.value)
        if not good and write_fired and out[-1][4] and not any(k.startswith('error') for k in out[-1][4]):
            # PyTables itself hides the error from flowtracks.
            ctx.finding('%s: reports success although a write failed' % kind,
                        '%s saved, then read: %s' % (out, look.exc[:2] if look.exc else 'other data' if look.kind == 'ok' else look.kind))
        else:
            ctx.check(look.kind == 'ok', 'unreadable after a save', str(look.exc))
            ctx.check(good, 'saved data differs', 'after %s' % (out,))
            got = ctx.must(lambda: indexed(p), 'indexes')
            ctx.check(got == indexes, 'an index is missing after a save', '%s, expected %s, after %s' % (got, indexes, out))
    else:
        ctx.check(look.kind == 'ok', 'unreadable after a failed save', str(look.exc))
        if case['old']:
            ctx.check(look.value is not None and old.matches(look.value), 'failed save changed the file', 'after %s' % (out,))
        else:
            ctx.check(look.value is None, 'failed save left a file', '')

    # Faults stopped: the next save works.
    ctx.must(lambda: new.save(p), 'saving again')
    again = ctx.must(lambda: load(kind, p, new.cols), 'reading again')
    ctx.check(new.matches(again), 'saved again: data differs', '')
    ctx.check(unclean or sorted(os.listdir(ctx.path('out'))) == ['x.h5'], 'files after saving again', str(os.listdir(ctx.path('out'))))
    nf = [f['cls'] for f, k in zip(faults, res.sim['fired']) if k]
    ctx.state(kind, tuple(nf), capacity is not None, fail_at is not None, memfail is not None, line is not None, last, case['old'],
              faults[0]['idx'] * 10 // max(1, o.sim['count'][faults[0]['cls']]) if faults else 0)
    ctx.stat('failed saves', sum(1 for x in out if x[0] != 'saved'))
    ctx.stat('saves that survived faults', int(last == 'saved'))
    if line is not None:
        ctx.stat('planned line:' + lexc.__name__)
        ctx.stat('fired line:' + lexc.__name__)
    if fail_at is not None:
        what = 'callback:raise' if odd is None else 'callback:other data'
        ctx.stat('planned ' + what)
        ctx.stat('fired ' + what)
    ctx.nontrivial = any(x[1] for x in out)
