"""Particles among tracers, and the flow around them by brute force."""
from interp import *
from saving import segments, CONF


def models(pds, tds, comp):
    """Reference models of particles and tracers; particles have companions, and some are in the same place as a tracer."""
    pm, tm = Model(pds), Model(tds)
    tids = tm.ids()
    if comp:
        pm.cols = pm.cols + ['companion']
    for i, r in pm.rows.items():
        ts = r['time']
        c = np.full(len(ts), -1, dtype=np.int64)
        fixed = int(h64(pds['salt'], i, 80) % np.uint64(len(tids)))
        for n, t in enumerate(ts):
            q = int(h64(pds['salt'], i, t, 81) % np.uint64(8))
            here = sorted(tm.frame(t))
            near_ = here[int(h64(pds['salt'], i, t, 82) % np.uint64(len(here)))] if here else tids[fixed]
            c[n] = tids[fixed] if q < 3 else near_ if q < 6 else -1 if q == 6 else 10**5
            if q in (0, 3) and c[n] in here or q == 4 and here:
                r['pos'][n] = tm.frame(t)[c[n] if q != 4 else here[0]]['pos']
        if comp:
            r['companion'] = c.astype(comp)
    return pm, tm


def _trajs(m, order):
    from flowtracks.trajectory import Trajectory
    out = []
    for i in m.ids():
        d = dict(m.rows[i])
        t = d.pop('time')
        out.append(Trajectory(d.pop('pos'), d.pop('velocity'), t, i, **d))
    return out[::-1] if order & 1 else out


def _frames(m, order):
    from flowtracks.trajectory import ParticleSnapshot
    lo, hi = m.span()
    for t in range(lo, hi):
        fr = m.frame(t)
        ids = sorted(fr, reverse=bool(order & 1))
        if order & 2 and len(ids) > 2:
            ids = ids[1::2] + ids[::2]
        if not ids:
            continue
        kw = dict((c, np.array([fr[i][c] for i in ids])) for c in m.cols)
        yield ParticleSnapshot(kw.pop('pos'), kw.pop('velocity'), t, np.array(ids, dtype=np.int64), **kw)


def write_scene(case, pm, tm):
    """p.h5 and t.h5"""
    from flowtracks import io
    for path, m, fr in (('./p.h5', pm, case['pframes']), ('./t.h5', tm, case['tframes'])):
        if fr:
            io.save_frames_hdf(path, _frames(m, case['order']))
        else:
            io.save_particles_table(path, _trajs(m, case['order']))


def flow(ctx, ref, pm, tm, comp, rng):
    """{(trajid, time): (fluid velocity, relative velocity)}"""
    out = {}
    for t, ids in segments(pm, rng):
        fr = pm.frame(t)
        here, after = tm.frame(t), tm.frame(t + 1)
        tr = sorted(set(here) & set(after))
        ref.tr = np.array([here[i]['pos'] for i in tr]).reshape(-1, 3)
        ref.data = np.array([here[i]['velocity'] for i in tr]).reshape(-1, 3)
        for i in ids:
            c = tr.index(int(fr[i]['companion'])) if comp and int(fr[i]['companion']) in tr else -1
            v = ref.at(np.asarray(fr[i]['pos']), c) if tr else np.zeros(3)
            out[(i, t)] = (v, fr[i]['velocity'] - v)
        ctx.state(ref.method, ref.radius is None, comp, (len(tr) > ref.k) + (len(tr) > 0), min(3, len(ids)))
    return out


def compare_flow(ctx, trid, t, fluid, rel, exp, what):
    got = sorted(zip([int(x) for x in trid], [int(x) for x in t]))
    ctx.check(got == sorted(exp), what + ': rows', '%d rows, expected %d; first differing %s' % (
        len(got), len(exp), sorted(set(got) ^ set(exp))[:3]))
    for i, tt, f, r in zip(trid, t, fluid, rel):
        ef, er = exp[(int(i), int(tt))]
        for name, g, e in (('fluid velocity', f, ef), ('relative velocity', r, er)):
            ctx.check(near(g, e, 1e-7, 1e-3), what + ': ' + name, 'particle %s, time %s: %s' % (i, tt, diff(g, e)))
    return len(got)
