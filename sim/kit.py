"""
The simulation kit: one simulated run = one forked process in which the real
flowtracks code executes on top of the simulated operating system (simfs.so).

Everything a run does is a function of its *case*, an explicit JSON value that
was drawn from a seeded PRNG beforehand. A run never draws random numbers.
"""
import ctypes, gc, hashlib, json, os, pickle, resource, select, signal, struct
import sys, time, traceback, shutil, warnings

import numpy as np

CLS = {'open': 0, 'read': 1, 'write': 2, 'meta': 3, 'dir': 4, 'stat': 5}
ACT = {'err': 1, 'short': 2, 'eintr': 3, 'crash': 4, 'park': 5}
REPO = os.path.realpath(os.environ.get('SIM_REPO', '/repo'))
_EPOCH = 1.7e9
LOGMAX = 6000

_lib = None
def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(os.environ['SIM_SO'])
        L.sim_begin.argtypes = [ctypes.c_char_p]
        L.sim_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int,
                                ctypes.c_long, ctypes.c_int]
        L.sim_capacity.argtypes = [ctypes.c_longlong]
        L.sim_dir.argtypes = [ctypes.c_uint64, ctypes.c_int]
        L.sim_clock.argtypes = [ctypes.c_double] * 4
        for n in ('count', 'fired', 'cap_fired', 'live_fds', 'dir_permuted',
                  'parked', 'clock_reads', 'clock_jumps', 'ro_fired'):
            getattr(L, 'sim_' + n).restype = ctypes.c_long
        L.sim_time.restype = ctypes.c_double
        L.sim_written.restype = ctypes.c_longlong
        L.sim_digest.restype = ctypes.c_uint64
        L.sim_log.restype = ctypes.c_char_p
        L.sim_path.restype = ctypes.c_char_p
        _lib = L
    return _lib


def heal():
    """In a simulated process: faults stop, the environment works from now on."""
    lib().sim_clear_faults()
    memory.fail_at = memory.deep_fail_at = None


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """The case turned out to be outside the domain."""


# ---- uninitialised memory and allocation failure ---------------------------
_real_empty, _real_empty_like = np.empty, np.empty_like
_GARBAGE = np.frombuffer(hashlib.sha512(b'garbage').digest() * 512, dtype=np.uint8)

class Memory(object):
    """np.empty() as seen by flowtracks: seeded garbage, failures on demand."""
    def __init__(self):
        self.seed = 0
        self.fail_at = None
        self.calls = 0       # by flowtracks code
        self.deep = 0        # by libraries
        self.deep_fail_at = None
        self.fired = 0
        self.poisoned = 0

    def _from_repo(self):
        f = sys._getframe(2)
        while f.f_code.co_filename == __file__:
            f = f.f_back
        return f.f_code.co_filename.startswith(REPO + '/flowtracks')

    def _fill(self, a):
        if a.size == 0 or a.dtype.hasobject or not a.flags.c_contiguous:
            return a
        self.poisoned += 1
        if a.nbytes > 32768 and not self._from_repo():
            v = a.reshape(-1)                   # a view
            n = max(1, 4096 // max(1, a.itemsize))
            self._pattern(v[-n:])
            self._pattern(v[:n])
            return a
        self._pattern(a)
        return a

    def _pattern(self, a):
        kind = a.dtype.kind
        if kind == 'f':
            pat = [np.nan, 1e30, -7.25e5, np.inf, 3.5]
            k = self.seed % 5
            flat = a.reshape(-1)
            flat[:] = pat[k]
            flat[1::2] = pat[(k + 1) % 5]
            return
        if kind == 'b':
            a.reshape(-1)[self.seed % 2::2] = True
            a.reshape(-1)[(self.seed + 1) % 2::2] = False
            return
        if kind in 'iu' and self.seed % 3 == 0:        # small numbers are what memory often holds
            a.reshape(-1)[:] = np.arange(a.size) % 5 * (self.seed // 3 % 4)
            return
        b = a.view(np.uint8).reshape(-1) if a.ndim else a.reshape(1).view(np.uint8)
        off = self.seed % 61
        n = b.size
        src = _GARBAGE[off:]
        b[:] = (np.resize(src, n) if n > len(src) else src[:n]) | 1

    def _count(self):
        if self._from_repo():
            n = self.calls
            self.calls += 1
            fail = n == self.fail_at
        else:
            n = self.deep
            self.deep += 1
            fail = n == self.deep_fail_at
        if fail:
            self.fired += 1
            raise MemoryError('simulated allocation failure')

    def empty(self, *args, **kw):
        self._count()
        return self._fill(_real_empty(*args, **kw))

    def empty_like(self, *args, **kw):
        self._count()
        r = _real_empty_like(*args, **kw)
        return self._fill(r) if type(r) is np.ndarray else r

memory = Memory()
IO_BUFFER = [1 << 20, 1 << 16, 1 << 13, 1 << 11]     # PyTables' row buffers

def patch_memory(seed):
    memory.__init__()
    memory.seed = seed
    np.empty = memory.empty
    np.empty_like = memory.empty_like
    try:
        import tables.parameters as tp
        tp.IO_BUFFER_SIZE = IO_BUFFER[seed % 4]
    except ImportError:
        pass


# ---- interruption at any line ------------------------------------------------
class Interrupt(object):
    """
    ``with Interrupt(n) as i``: KeyboardInterrupt arrives when the n-th line of
    flowtracks is about to execute (Ctrl-C strikes anywhere). n None: only count.
    """
    def __init__(self, at, exc=KeyboardInterrupt):
        self.at, self.exc = at, exc
        self.lines = 0
        self.fired = 0

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith((REPO + '/flowtracks', REPO + '/scripts')):
            return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            n = self.lines
            self.lines += 1
            if n == self.at:
                self.fired += 1
                raise self.exc('simulated interruption')
        return self._line

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False


_getpid = os.getpid

def die_with(parent):
    """In a new process: end when its parent does (PR_SET_PDEATHSIG)."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    if os.getppid() != parent:
        os._exit(1)


# ---- forked execution ------------------------------------------------------
class Outcome(object):
    """What became of one simulated process."""
    kind = None        # ok, exc, crash, signal, hang
    value = None
    exc = None         # (type name, message, traceback, through_flowtracks)
    sim = None         # counters of the shim
    pid_status = None

    def __repr__(self):
        return 'Outcome(%s, %s)' % (self.kind, self.exc[:2] if self.exc else '')


def exc_name(o):
    return ' ' + o.exc[0] if o.exc else ''


def through_flowtracks(tb):
    return any(REPO + '/flowtracks' in f.filename for f in traceback.extract_tb(tb))


def sim_report(faults):
    L = lib()
    return {
        'count': dict((k, L.sim_count(v)) for k, v in CLS.items()),
        'fired': [L.sim_fired(i) for i in range(len(faults))],
        'cap_fired': L.sim_cap_fired(), 'live_fds': L.sim_live_fds(),
        'dir_permuted': L.sim_dir_permuted(), 'parked': L.sim_parked(),
        'clock_reads': L.sim_clock_reads(), 'clock_jumps': L.sim_clock_jumps(),
        'ro_fired': L.sim_ro_fired(), 'elapsed': max(0., L.sim_time() - _EPOCH), 'written': L.sim_written(),
        'digest': L.sim_digest(), 'log': L.sim_log().decode()[-LOGMAX:],
        'mem_calls': memory.calls, 'mem_deep': memory.deep, 'mem_fired': memory.fired,
        'poisoned': memory.poisoned,
    }


def resolve(faults, counts):
    """[{'cls','at','act','arg','sticky'}] -> with concrete operation index."""
    out = []
    for f in faults:
        f = dict(f)
        n = counts.get(f['cls'], 0)
        if n <= 0:
            continue
        if 'idx' not in f:
            f['idx'] = min(n - 1, f['at'] * n // 1000)
        out.append(f)
    return out


class Ctx(object):
    """What a property's run() gets."""
    def __init__(self, dirname, case):
        self.dir = dirname
        self.case = case
        self.stats = {}
        self.findings = []
        self.alive = set()         # simulated processes not yet finished
        self.states = set()
        self.h = hashlib.blake2b(digest_size=12)
        self.nontrivial = True
        self.elapsed = 0.
        self.trace = []
        self._serial = 0

    # -- reporting
    def fail(self, kind, msg=''):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg=''):
        self.stat('assertions')
        if not cond:
            raise Violation(kind, msg)

    def finding(self, signature, msg):
        """A violation which is identified by a signature that may be listed."""
        self.findings.append((signature, msg))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def see(self, *what):
        """Fold an observation into the digest of the run."""
        for w in what:
            if isinstance(w, np.ndarray):
                self.h.update(str(w.dtype).encode() + str(w.shape).encode())
                self.h.update(np.ascontiguousarray(w).tobytes())
            else:
                self.h.update(repr(w).encode())

    def state(self, *what):
        """Count a distinct state reached (abstract, property defined)."""
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def path(self, *names):
        # Relative, so that no observation depends on the place of the scratch
        # directory; there is always a directory part, as in real use.
        return os.path.join('.', *names)

    # -- faults
    def _account(self, faults, rep, capacity=None, memfail=None):
        for f, n in zip(faults, rep['fired']):
            k = '%s:%s' % (f['cls'], f['act'])
            if f['act'] == 'err':
                import errno
                k += ':' + errno.errorcode.get(f['arg'], str(f['arg']))
            self.stat('planned ' + k)
            if n:
                self.stat('fired ' + k, n)
        if capacity is not None:
            self.stat('planned disk full')
            if rep['cap_fired']:
                self.stat('fired disk full', rep['cap_fired'])
        if memfail is not None:
            self.stat('planned alloc failure')
            self.stat('fired alloc failure', rep['mem_fired'])
        for k, name in (('dir_permuted', 'fired dir:permute'), ('clock_jumps', 'fired clock:jump'),
                        ('parked', 'fired process:stall'), ('ro_fired', 'fired read-only file system')):
            if rep[k]:
                self.stat(name, rep[k])
        self.stat('io operations', sum(rep['count'].values()))
        self.stat('memory poisoned', rep['poisoned'])
        self.elapsed += rep['elapsed']
        self.see(rep['digest'], rep['fired'])
        if rep['log']:
            self.trace.append(rep['log'])

    def _arm(self, faults, capacity, dirmode, clock, memfail, root, pid, readonly=False):
        L = lib()
        L.sim_reset()
        L.sim_readonly(int(readonly))
        for f in faults:
            L.sim_fault(CLS[f['cls']], f['idx'], ACT[f['act']], f.get('arg', 0),
                        1 if f.get('sticky') else 0)
        if capacity is not None:
            L.sim_capacity(capacity)
        if dirmode and len(dirmode) == 2:
            L.sim_dir(dirmode[1], dirmode[0])
        now, step, ja, jb = clock or (_EPOCH, 1e-3, -1, 0)
        L.sim_clock(now, step, ja, jb)
        memory.calls = memory.deep = memory.fired = memory.poisoned = 0
        memory.fail_at, memory.deep_fail_at = memfail if isinstance(memfail, tuple) else (memfail, None)
        os.getpid = lambda: pid
        L.sim_begin(os.path.abspath(root or self.dir).encode())

    def start(self, fn, faults=(), capacity=None, dirmode=None, clock=None,
              memfail=None, root=None, limit=40., park=False, pid=None, may_die=False, readonly=False):
        """Fork a simulated process. Returns a handle for :meth:`finish`."""
        faults = list(faults)
        self._serial += 1
        pid = pid or 4000 + self._serial
        r, w = os.pipe()
        po = pi = None
        if park:
            po, pi = os.pipe(), os.pipe()      # child->parent, parent->child
        sys.stdout.flush(); sys.stderr.flush()
        parent = _getpid()
        child = os.fork()
        if child == 0:
            code = 1
            try:
                die_with(parent)
                os.close(r)
                if park:
                    os.close(po[0]); os.close(pi[1])
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CPU, (int(limit), int(limit) + 5))
                self._arm(faults, capacity, dirmode, clock, memfail, root, pid, readonly)
                if park:
                    lib().sim_park(po[1], pi[0])
                try:
                    v = fn()
                    res = ('ok', v, None)
                except BaseException as e:
                    res = ('exc', None, (type(e).__name__, str(e)[:400],
                           traceback.format_exc()[-3000:], through_flowtracks(e.__traceback__),
                           getattr(e, 'errno', None)))
                lib().sim_end()
                data = pickle.dumps((res, sim_report(faults)))
                sent = 0
                while sent < len(data):
                    sent += os.write(w, data[sent:])
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        if park:
            os.close(po[1]); os.close(pi[0])
        self.alive.add(child)
        return {'pid': child, 'r': r, 'faults': faults, 'capacity': capacity,
                'memfail': memfail, 'limit': limit, 'may_die': may_die,
                'po': po[0] if park else None, 'pi': pi[1] if park else None}

    def parked(self, h, timeout=60.):
        """Wait until the process stalls (True) or ends (False)."""
        while True:
            rs, _, _ = select.select([h['po'], h['r']], [], [], timeout)
            if not rs:
                return False
            if h['po'] in rs:
                return os.read(h['po'], 1) == b'p'
            return False

    def resume(self, h):
        try:
            os.write(h['pi'], b'g')
        except OSError:
            pass

    def finish(self, h):
        o = Outcome()
        buf = b''
        deadline = time.monotonic() + h['limit'] * 4 + 60
        hung = False
        while True:
            left = deadline - time.monotonic()
            rs = select.select([h['r']], [], [], max(0, left))[0] if left > 0 else []
            if not rs:
                os.kill(h['pid'], signal.SIGKILL)
                hung = True
                break
            d = os.read(h['r'], 1 << 20)
            if not d:
                break
            buf += d
        os.close(h['r'])
        for k in ('po', 'pi'):
            if h[k] is not None:
                os.close(h[k])
        _, st = os.waitpid(h['pid'], 0)
        self.alive.discard(h['pid'])
        o.pid_status = st
        if hung or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
            o.kind = 'hang'
        elif os.WIFSIGNALED(st):
            o.kind = 'signal'
            o.value = os.WTERMSIG(st)
        elif os.WEXITSTATUS(st) == 137:
            o.kind = 'crash'
            for f in h['faults']:
                if f['act'] == 'crash':
                    self.stat('planned %s:crash' % f['cls'])
                    self.stat('fired %s:crash' % f['cls'])
                    break
        elif buf:
            (o.kind, o.value, o.exc), o.sim = pickle.loads(buf)
            self._account(h['faults'], o.sim, h['capacity'], h['memfail'])
        else:
            o.kind = 'exc'
            o.exc = ('HarnessError', 'no result', '', False, None)
        self.stat('processes')
        self.see(o.kind, o.exc[0] if o.exc else '')
        if o.kind in ('signal', 'hang') and not h['may_die']:
            raise Violation(o.kind, 'process ended by %s' % (o.value or o.kind))
        return o

    def proc(self, fn, **kw):
        return self.finish(self.start(fn, **kw))

    def must(self, fn, what='call', **kw):
        """Run in a process of its own; anything but a normal end is a violation."""
        o = self.proc(fn, **kw)
        if o.kind != 'ok':
            self.fail('unexpected ' + o.kind + exc_name(o), '%s: %s' % (what, o.exc and (o.exc[0] + ': ' + o.exc[1] + '\n' + o.exc[2])))
        return o.value

    def count(self, fn, **kw):
        """Fault-free execution, to know how many operations there are."""
        o = self.proc(fn, **kw)
        if o.kind != 'ok':
            self.fail('unexpected ' + o.kind + exc_name(o), 'fault-free: %s' % (o.exc and (o.exc[0] + ': ' + o.exc[1] + '\n' + o.exc[2]),))
        return o

    # -- in the same process
    def begin(self, faults=(), capacity=None, dirmode=None, clock=None, memfail=None):
        self._now = list(faults), capacity, memfail
        self._nf = len(self._now[0])
        self._arm(list(faults), capacity, dirmode, clock, memfail, None, 4000)

    def attempt(self, fn, fail=None, counts=None):
        """
        Between begin() and end(): call under one fault, which is gone when this
        returns. ``fail``: [class of operation, n, errno, sticky], ['mem', n] or
        ['deep', n] (allocation in flowtracks or in a library) or ['line', n,
        exception]; n counts from here. Without it, ``counts`` (a
        dict) gets how many of each there are. Returns (ended normally, result,
        times the fault came); failing without a fault is a violation.
        """
        L = lib()
        exc = KeyboardInterrupt
        at = None
        if fail is None:
            c0 = dict((k, L.sim_count(v)) for k, v in CLS.items())
            m0, d0 = memory.calls, memory.deep
        elif fail[0] == 'line':
            exc = {'K': KeyboardInterrupt, 'M': MemoryError}[fail[2]]
            at, what = fail[1], 'line:' + exc.__name__
        elif fail[0] == 'mem':
            what = 'alloc failure'
            memory.fail_at = memory.calls + fail[1]
            m0 = memory.fired
        elif fail[0] == 'deep':
            what = 'alloc failure in a library'
            memory.deep_fail_at = memory.deep + fail[1]
            m0 = memory.fired
        else:
            import errno
            what = '%s:err:%s' % (fail[0], errno.errorcode[fail[2]])
            L.sim_fault(CLS[fail[0]], L.sim_count(CLS[fail[0]]) + fail[1], ACT['err'], fail[2], int(bool(fail[3])))
        if fail is not None:
            self.stat('planned ' + what)
        err = None
        intr = Interrupt(at, exc)
        try:
            if fail is None and counts is None or fail is not None and fail[0] != 'line':
                r = fn()
            else:
                with intr:
                    r = fn()
        except Violation:
            raise
        except BaseException as e:
            r, err = None, e
        fired = 0
        if fail is None:
            if counts is not None:
                counts.update((k, L.sim_count(v) - c0[k]) for k, v in CLS.items())
                counts.update(mem=memory.calls - m0, deep=memory.deep - d0, line=intr.lines)
        elif fail[0] == 'line':
            fired = intr.fired
        elif fail[0] in ('mem', 'deep'):
            fired = memory.fired - m0
        else:
            fired = L.sim_fired(self._nf)
            self._nf += 1
        heal()
        if fired:
            self.stat('fired ' + what, fired)
        if err is not None and not fired:
            raise Violation('fails without a fault', ''.join(traceback.format_exception(err))[-3000:])
        self.see(err is None, fired)
        return err is None, r, fired

    def end(self):
        lib().sim_end()
        f, c, m = self._now
        rep = sim_report(f)
        memory.fail_at = memory.deep_fail_at = None
        self._account(f, rep, c, m)
        return rep


def run_case(prop, case, dirname, conn=None):
    """Execute one case in this (already forked) process. Returns a dict."""
    t0 = time.time()
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda *a: None       # __del__ of half-made objects
    os.makedirs(dirname)
    os.chdir(dirname)
    os.environ['HOME'] = dirname        # for names with ~
    ctx = Ctx(dirname, case)
    patch_memory(int(case.get('mem', 0)))
    res = {'violation': None}
    try:
        try:
            prop.run(case, ctx)
        except Violation as v:
            res['violation'] = (v.kind, v.msg)
        except Skip:
            ctx.nontrivial = False
            ctx.stat('skipped')
        except Exception as e:
            where = 'flowtracks' if through_flowtracks(e.__traceback__) else 'result'
            res['violation'] = ('unexpected exception %s (%s)' % (type(e).__name__, where),
                '%s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-3000:]))
    finally:
        for pid in ctx.alive:                      # a violation was found before they ended
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        try:
            lib().sim_end()
        except Exception:
            pass
    res.update(stats=ctx.stats, findings=ctx.findings, states=sorted(ctx.states),
               digest=ctx.h.hexdigest(), nontrivial=ctx.nontrivial,
               elapsed=ctx.elapsed, wall=time.time() - t0,
               trace=''.join(ctx.trace)[-6000:] if (res['violation'] or ctx.findings) else '')
    return res


def isolated(prop, case, dirname, wall=150.):
    """Fork, run the case, collect the result, remove its directory."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    parent = _getpid()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            die_with(parent)
            os.setpgid(0, 0)
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (100, 110))
            res = run_case(prop, case, dirname)
            data = pickle.dumps(res)
            sent = 0
            while sent < len(data):
                sent += os.write(w, data[sent:])
            code = 0
        except BrokenPipeError:
            pass
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = time.monotonic() + wall
    hung = False
    while True:
        left = deadline - time.monotonic()
        rs = select.select([r], [], [], max(0, left))[0] if left > 0 else []
        if not rs:
            hung = True
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(dirname, ignore_errors=True)
    if hung or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
        v = ('hang', 'no end within the step budget')
    elif os.WIFSIGNALED(st):
        v = ('signal', 'process ended by signal %d' % os.WTERMSIG(st))
    elif buf:
        return pickle.loads(buf)
    else:
        v = ('harness', 'no result, status %d' % st)
    return {'violation': v, 'stats': {}, 'findings': [], 'states': [], 'digest': '',
            'nontrivial': True, 'elapsed': 0., 'wall': wall, 'trace': ''}
