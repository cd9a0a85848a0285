"""C25: the analysis script makes the analysis of the scene configured as its options say, or leaves everything as it was."""
from flows import *
import kit, runpy, hashlib, contextlib, io as stdio

ID = 'C25'
RUNS = (700, 12000)
RULE = ('A run stores a scene and two configurations of it, and calls the script in a drawn sequence: with drawn options in drawn places, '
        'wrong options, missing files, clock jumps; killed, failing or interrupted at drawn places and then called again. Each result is '
        'compared row by row with brute force. Non-trivial: a row was compared.')
STATES = 'method, which options are given and where, configuration, result there before, kind of failure and its outcome'
STUB = STUB + ['interruption: KeyboardInterrupt raised at a drawn line of flowtracks or of the script by a trace function',
               'command line: sys.argv of a simulated process, in which runpy executes scripts/analyse_fhdf.py']
ERR = {'open': [13, 24, 28, 5], 'meta': [5, 13, 28], 'read': [5]}


def gen(rng, tier, i):
    base = rng.choice([0, 1, 10001])
    maxlen = rng.choice([3, 7])
    p = gen_dataset(rng, ntraj=rng.choice([1, 2, 4, 7]), base=base, maxlen=maxlen, holes=rng.random() < .2, extra=[])
    t = gen_dataset(rng, ntraj=rng.choice([1, 5, 12]), base=base, maxlen=maxlen, holes=rng.random() < .2, extra=rng.sample(['accel', 'tag'], 1))
    span = max(x[1] + x[2] for x in p['trajs'])
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        fail = None
        q = rng.random()
        if q < .2:
            fail = {'act': 'crash', 'cls': rng.choice(['open', 'read', 'write', 'meta']), 'at': rng.randrange(1000)}
        elif q < .35:
            cls = rng.choice(sorted(ERR))
            fail = {'act': 'err', 'cls': cls, 'at': rng.randrange(1000), 'arg': rng.choice(ERR[cls])}
        elif q < .5:
            fail = {'act': 'line', 'at': rng.randrange(1000)}
        calls.append({'conf': rng.randrange(2), 'out': rng.randrange(2), 'method': rng.choice([None, None, 'inv', 'rbf', 'corrfun']),
                      'k': rng.choice([None, None, 1, 2, 3, 6]), 'par': rng.choice([None, None, 1, 2, 3]), 'form': rng.randrange(3),
                      'place': rng.randrange(6), 'wrong': rng.choice([None] * 9 + ['option', 'method', 'conf', 'number', 'few', 'file', 'short']),
                      'fail': fail, 'clock': gen_clock(rng)})
    ranges = []
    for _ in range(2):
        a = rng.randrange(0, max(1, span - 1))
        ranges.append([a, rng.randrange(a, span)])
    return {'p': p, 't': t, 'calls': calls, 'ranges': ranges, 'comp': rng.choice([None, 'i8', 'i4']),
            'pframes': rng.random() < .5, 'tframes': rng.random() < .5, 'order': rng.randrange(4)}


def valid(c):
    if not (valid_dataset(c['p']) and valid_dataset(c['t']) and c['p']['base'] == c['t']['base']) or c['p']['cols'] or len(c['ranges']) != 2:
        return False
    if c['comp'] not in (None, 'i4', 'i8') or any(len(r) != 2 or not 0 <= r[0] <= r[1] for r in c['ranges']):
        return False
    for j in c['calls']:
        f = j['fail']
        if j['conf'] not in (0, 1) or j['out'] not in (0, 1) or j['method'] not in (None, 'inv', 'rbf', 'corrfun') or j['form'] not in (0, 1, 2):
            return False
        if j['k'] is not None and j['k'] < 1 or j['par'] is not None and j['par'] < 1 or not 0 <= j['place'] < 6:
            return False
        if f and (f['act'] not in ('crash', 'err', 'line') or not 0 <= f['at'] < 1000 or
                  f['act'] == 'err' and f.get('arg') not in ERR.get(f['cls'], []) or f['act'] == 'crash' and f['cls'] not in list(ERR) + ['write']):
            return False
    return True


def script(argv):
    """In a simulated process."""
    import sys
    sys.argv = ['analyse_fhdf.py'] + argv
    with contextlib.redirect_stderr(stdio.StringIO()):
        try:
            runpy.run_path(os.path.join(kit.REPO, 'scripts', 'analyse_fhdf.py'), run_name='__main__')
        except SystemExit as e:
            if e.code:
                raise
            # Success, as far as the caller can see.


def digest(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return hashlib.blake2b(f.read()).hexdigest()


def content(path):
    """The result as its users read it."""
    import tables
    from flowtracks.an_scene import AnalysedScene
    with tables.open_file(path, 'r') as f:
        t = f.get_node('/analysis')
        d = dict((n, t.col(n)) for n in t.colnames)
        at = str(t.attrs['config']), str(t.attrs['trajects'])
    s = AnalysedScene(path)
    keys = ['trajid', 'time', 'fluid_vel', 'rel_vel']
    return d, at, dict(zip(keys, [np.array(x) for x in s.collect(keys)]))


def run(case, ctx):
    pds, tds, base = case['p'], case['t'], case['p']['base']
    pm, tm = models(pds, tds, case['comp'])
    ctx.must(lambda: write_scene(case, pm, tm), 'save')
    lo, hi = max(pm.span()[0], tm.span()[0]), min(pm.span()[1], tm.span()[1])
    ranges = []
    for k, r in enumerate(case['ranges']):
        a, b = r[0] + base, r[1] + base
        a, b = max(a, lo), min(b, hi - 1)                # both in the data
        if a > b:
            raise kit.Skip()
        ranges.append((a, b + 1))
        with open('conf%d' % k, 'w') as f:
            text = CONF % (1e-3, 2500., 50., './t.h5', './p.h5', a, b)
            f.write(text)
        with open('short%d' % k, 'w') as f:             # not written to its end
            f.write(text[:text.rindex('last frame') - 40 * (pds['salt'] % 3)])
    hist = 1. - .7 * np.arange(4) / 4
    bins = .1 * np.arange(4) / 4
    np.savez('corr.npz', corrs=hist, bins=bins)
    inputs = dict((n, digest(n)) for n in os.listdir('.'))
    expected = {}                                       # output: (conf, rows)
    last = {}
    rows = 0

    def look(out, what):
        if out not in expected:
            ctx.check(not os.path.exists(out), what + ': result of a call that failed', out)
            return 0
        conf, exp = expected[out]
        d, at, joined = ctx.must(lambda: content(out), what + ': reading')
        ctx.check(sorted(d) == ['fluid_vel', 'rel_vel', 'time', 'trajid'], what + ': columns', '%s' % sorted(d))
        ctx.check(at == (conf, './p.h5'), what + ': origin', '%s, expected %s' % (at, conf))
        n = compare_flow(ctx, d['trajid'], d['time'], d['fluid_vel'], d['rel_vel'], exp, what)
        compare_flow(ctx, joined['trajid'], joined['time'], joined['fluid_vel'], joined['rel_vel'], exp, what + ', joined')
        return n

    for j in case['calls']:
        out = './out%d.h5' % j['out']
        conf = './conf%d' % j['conf']
        method, k, par, wrong = j['method'], j['k'], j['par'], j['wrong']
        p = None
        if method == 'corrfun':
            p = './corr.npz'
        elif par is not None:
            p = '%g' % (1e4 * par) if method == 'rbf' else str(par)
        opts = []
        if method is not None:
            opts.append(['--method', method])
        if k is not None:
            opts.append(['--neighbs', str(k)])
        if p is not None:
            opts.append([['-p', '--param', '--param'][j['form']], p])
        if wrong == 'option':
            opts.append(['--number', '3'])
        elif wrong == 'method':
            opts = [o for o in opts if o[0] != '--method'] + [['--method', 'cubic']]
        elif wrong == 'number':
            opts = [o for o in opts if o[0] != '--neighbs'] + [['--neighbs', 'many']]
        elif wrong == 'file':
            opts = [['--method', 'corrfun'], ['-p', './none.npz']]
        elif wrong == 'conf':
            conf = './none'
        elif wrong == 'short':
            conf = './short%d' % j['conf']
        opts = [[o[0] + '=' + o[1]] if j['form'] == 2 and o[0].startswith('--') else o for o in opts]
        if j['place'] & 1:
            opts.reverse()
        n = [0, len(opts), len(opts) // 2][j['place'] // 2]
        argv = sum(opts[:n], []) + [conf] + ([] if wrong == 'few' else [out]) + sum(opts[n:], [])

        before = digest(out)
        f = j['fail']
        if wrong:
            o = ctx.proc(lambda: script(argv), clock=j['clock'])
            ctx.check(o.kind == 'exc', 'wrong call: no failure', '%s' % argv)
            ctx.check(digest(out) == before, 'wrong call: result changed', '%s' % argv)
            ctx.state('wrong', wrong, before is None)
            continue
        ref = Ref(method or 'inv', 4 if k is None else k, None,
                  {'inv': par or 1, 'rbf': 1e5 if par is None else 1e4 * par, 'corrfun': None}[method or 'inv'], (hist, bins))
        exp = flow(ctx, ref, pm, tm, case['comp'], ranges[j['conf']])
        ended = True
        if f:
            lines = kit.Interrupt(None)
            def counted():                               # elsewhere, to know the operations
                with lines:
                    script([a if a != out else './count.h5' for a in argv])
                return lines.lines
            c = ctx.count(counted)
            os.remove('./count.h5')
            if f['act'] == 'line':
                def broken(at=f['at'] * c.value // 1000):
                    with kit.Interrupt(at):
                        script(argv)
                o = ctx.proc(broken, clock=j['clock'])
                if o.kind == 'exc':
                    ctx.stat('fired line:KeyboardInterrupt')
            else:
                faults = kit.resolve([f], c.sim['count'])
                o = ctx.proc(lambda: script(argv), faults=faults, clock=j['clock'], may_die=False)
            if o.kind == 'exc':
                ctx.check('simulated' in o.exc[2] or any(o.sim['fired']), 'failure without a fault', '%s' % (o.exc[:3],))
            ended = o.kind == 'ok'
            if not ended:
                now = digest(out)
                if now != before:                        # it was complete already
                    expected[out] = (conf, exp)
                look(out, 'after a failure')
                # What was there in the meantime
                for n in os.listdir('.'):
                    if n not in inputs and n not in ('out0.h5', 'out1.h5'):
                        ctx.check(o.kind == 'crash' and n.endswith('.tmp'), 'left behind', n)
                        os.remove(n)
        if not f or not ended:
            ctx.must(lambda: script(argv), 'script', clock=j['clock'])
        expected[out] = (conf, exp)
        rows += look(out, 'result')
        for name in ('./out0.h5', './out1.h5'):
            if name != out and name in last:
                ctx.check(digest(name) == last[name], 'another result changed', name)
        last[out] = digest(out)
        ctx.state(method, k is None, par is None, j['form'], j['place'], j['conf'], before is None, f and (f['act'], f.get('cls')), ended)
    for n in inputs:
        ctx.check(digest(n) == inputs[n], 'input changed', n)
    ctx.stat('rows compared', rows)
    ctx.nontrivial = rows > 0
