from data import *
from sceneops import *
import numpy as np, os

REAL = ['flowtracks (all of it, from /repo)', 'PyTables/HDF5, NumPy, SciPy (as installed)', 'CPython, libc']
STUB = ['operating system file calls: real files behind simfs.so, which numbers, logs, delays and fails them',
        'clock: simulated by simfs.so', 'directory order: simulated by simfs.so',
        'uninitialised memory: np.empty() filled with seeded garbage', 'process scheduling: one simulated process at a time, switched by the simulator']
ASSUMPTIONS = ['a crash is the death of the process: writes that returned before it survive (no power loss)',
               'one simulated process runs at a time; numerical libraries use one thread']


def gen_disturb(rng, reads=30, writes=24, n=None):
    """Legal disturbances: interrupted and short transfers."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 4]) if n is None else n):
        if writes and (not reads or rng.random() < .5):
            out.append({'cls': 'write', 'idx': rng.randrange(writes), 'act': rng.choice(['short', 'eintr']),
                        'arg': rng.randrange(1, 5000)})
        else:
            out.append({'cls': 'read', 'idx': rng.randrange(reads), 'act': rng.choice(['short', 'eintr']),
                        'arg': rng.randrange(1, 5000)})
    return out


def gen_clock(rng):
    if rng.random() < .5:
        return None
    return [1.7e9 + rng.randrange(10**6), rng.choice([1e-3, 0.5]), rng.choice([-1, rng.randrange(20)]),
            float(rng.choice([-86400 * 400, -3600, 5, 10**7]))]


def valid_faults(fs):
    for f in fs:
        if f['act'] not in ('err', 'short', 'eintr', 'crash', 'park') or f['cls'] not in ('open', 'read', 'write', 'meta', 'dir', 'stat'):
            return False
        if f['act'] == 'err' and f.get('arg', 0) <= 0:
            return False
        if f['act'] == 'short' and f.get('arg', 0) <= 0:
            return False
    return True


def cap(n, ctx, label='size'):
    ctx.state(label, n)


def plain_trajs_raw(trs):
    return [plain_traj(t) for t in trs]


def open_tables():
    import tables
    return sorted(tables.file._open_files.filenames)


def leftovers(ctx, d, allowed):
    """Files in a directory other than the allowed ones."""
    return sorted(set(os.listdir(d)) - set(allowed))
