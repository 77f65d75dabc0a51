"""In-process side of the simulator.  `install()` must run before numpy, concurrent.futures
and traceon are imported: it puts the seams (thread start, join, locks, queues, clocks, CPU
count) in place.  They behave normally until `Sim.run` starts a simulated execution."""
import ctypes as C
import os
import random
import sys
import threading
import _thread
import time as _time
import queue as _queue

MODES = {'uniform': 0, 'pct': 1, 'list': 2, 'none': 3, 'target': 4}


class Dec(C.Structure):
    _fields_ = [('ev', C.c_uint64), ('to', C.c_int32), ('kind', C.c_int32)]


class Cen(C.Structure):
    _fields_ = [('site', C.c_uint64), ('task', C.c_uint32), ('flags', C.c_uint32), ('n', C.c_uint64)]


class SimInjected(Exception):
    """A failure put in by the simulator (generic kind)."""


class SimInterrupt(KeyboardInterrupt):
    """A Ctrl-C put in by the simulator."""


class SimExit(SystemExit):
    """A call of sys.exit put in by the simulator."""


class SimMemoryError(MemoryError):
    """A failing allocation put in by the simulator."""


class SimOSError(OSError):
    """A failing system call put in by the simulator."""


EXC = {'exit': SimExit, 'error': SimInjected, 'interrupt': SimInterrupt, 'memory': SimMemoryError, 'os': SimOSError}
INJECTED = (SimExit, SimInjected, SimInterrupt, SimMemoryError, SimOSError)

real_alloc = _thread.allocate_lock
real_start = _thread.start_new_thread
_real = {k: getattr(_time, k) for k in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'sleep')}
_real_aff = os.sched_getaffinity
_real_cpu = os.cpu_count
lib = None
nolib = None
S = None            # the active Sim, if any


def _load(path):
    global lib, nolib
    lib = C.CDLL(path, mode=C.RTLD_GLOBAL)
    nolib = C.PyDLL(path)
    for l in (lib, nolib):
        l.sim_begin.argtypes = [C.c_uint64, C.c_int, C.c_double, C.c_uint64, C.c_uint64, C.c_void_p, C.c_uint64]
        l.sim_block.argtypes = [C.c_uint64, C.c_uint64]
        l.sim_wake.argtypes = [C.c_uint64]
        l.sim_join_key.restype = C.c_uint64
        l.sim_stat.restype = C.c_uint64
        l.sim_target.argtypes = [C.c_uint64, C.c_int, C.c_uint64]
        l.sim_census_get.argtypes = [C.c_void_p, C.c_int]
        l.sim_decisions.restype = C.POINTER(Dec)


def active():
    return S is not None and nolib.sim_active()


class SimLock:
    """threading.Lock replacement: uncontended or outside a run it is a real lock; inside a run
    waiting is a scheduler decision."""
    __slots__ = ('_l', '__weakref__')

    def __init__(self):
        self._l = real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        if not active():
            return self._l.acquire(blocking, timeout)
        deadline = 0
        if blocking and timeout is not None and timeout > 0:
            deadline = nolib.sim_stat(0) + int(timeout * 1e6) + 1
        while True:
            if self._l.acquire(False):
                return True
            if not blocking or timeout == 0:
                return False
            if deadline and S is not None and S.expires(timeout):
                return False
            if deadline and nolib.sim_stat(0) >= deadline:
                return False
            lib.sim_block(id(self), deadline)
            if deadline and S is not None:
                S.lock_timeouts += 1
                if self._l.acquire(False):
                    return True
                return False

    def release(self):
        self._l.release()
        if S is not None:
            nolib.sim_wake(id(self))

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_alloc()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


def _start_new_thread(func, args=(), kwargs=None, *rest):
    if not active():
        return real_start(func, args, kwargs or {})
    sim = S
    k = sim.thread_starts
    sim.thread_starts += 1
    if k in sim.fail_starts:
        sim.count_fault('thread_start_fails')
        raise RuntimeError("can't start new thread")
    t = nolib.sim_task_new()

    def entry():
        lib.sim_attach(t)
        try:
            func(*args, **(kwargs or {}))
        finally:
            nolib_exit()
    nolib_exit = lib.sim_exit_task
    owner = getattr(func, '__self__', None)
    if isinstance(owner, threading.Thread):
        owner._sim_task = t
    sim.spawned_by.append((t, lib.sim_self()))
    try:
        return real_start(entry, ())
    except BaseException:
        nolib.sim_task_cancel(t)
        raise


_orig_join = threading.Thread.join
_orig_alive = threading.Thread.is_alive


def _join(self, timeout=None):
    t = getattr(self, '_sim_task', None)
    if not active() or t is None:
        return _orig_join(self, timeout)
    deadline = 0
    if timeout is not None:
        deadline = nolib.sim_stat(0) + int(max(timeout, 0) * 1e6) + 1
        if timeout > 0 and not nolib.sim_task_done(t) and S.expires(timeout):
            return
    while not nolib.sim_task_done(t):
        if deadline and nolib.sim_stat(0) >= deadline:
            return
        lib.sim_block(nolib.sim_join_key(t), deadline)
        if deadline and not nolib.sim_task_done(t):
            return
    return _orig_join(self)


def _alive(self):
    t = getattr(self, '_sim_task', None)
    if not active() or t is None:
        return _orig_alive(self)
    if nolib.sim_task_done(t):
        _orig_join(self)
        return False
    return True


def _vclock():
    sim = S
    n = sim.clock_reads
    sim.clock_reads += 1
    j = sim.jumps.get(n)
    if j is not None:
        sim.clock_offset += j
        sim.count_fault('clock_jump')
    return sim.clock_base + sim.clock_offset + nolib.sim_stat(0) * 1e-6


def _mk_clock(name, scale):
    real = _real[name]

    def f():
        if not active():
            return real()
        v = _vclock()
        return int(v * 1e9) if scale else v
    return f


def _sleep(secs):
    if not active():
        return _real['sleep'](secs)
    S.count_fault('sleep', 0)
    lib.sim_block(0xE000000000000001 + lib.sim_self(), nolib.sim_stat(0) + int(max(secs, 0) * 1e6) + 1)


def _affinity(pid=0):
    if S is not None and S.cpus is not None:
        return set(range(S.cpus)) if isinstance(S.cpus, int) else set(range(3, 3 + S.cpus[0]))
    return _real_aff(pid)


def _cpu_count():
    if S is not None and S.cpus is not None:
        return S.cpus if isinstance(S.cpus, int) else S.cpus[1]
    return _real_cpu()


def install(libpath):
    _load(libpath)
    _thread.allocate_lock = _thread.allocate = SimLock
    _thread.LockType = SimLock
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _start_new_thread
    _thread.start_new_thread = _thread.start_new = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _alive
    _queue.SimpleQueue = _queue._PySimpleQueue
    threading.excepthook = lambda args: None
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(_time, n, _mk_clock(n, False))
        setattr(_time, n + '_ns', _mk_clock(n + '_ns', True))
    _time.sleep = _sleep
    os.sched_getaffinity = _affinity
    os.cpu_count = _cpu_count
    sys.unraisablehook = lambda u: None


TOOL = 3
HOT = {}


class Sim:
    """One simulated execution.  `spec` keys: seed, mode, gap, budget, cap, decisions,
    granularity ('line'|'instr'|'none'), c_yields, faults, cpus, jumps, expire."""

    def __init__(self, spec, prefixes):
        self.spec = spec
        self.prefixes = tuple(prefixes)
        for m in spec.get('extra', ()):           # third-party modules whose lines are switch points too
            self.prefixes += (os.path.dirname(sys.modules[m].__file__) + '/',)
        self.thread_starts = 0
        self.fail_starts = set()
        self.faults_fired = {}
        self.spawned_by = []
        self.lock_timeouts = 0
        self.clock_reads = 0
        self.clock_base = float(spec.get('clock_base', 1.0e9))
        self.clock_offset = 0.0
        self.jumps = {int(k): float(v) for k, v in spec.get('jumps', [])}
        self.cpus = spec.get('cpus')
        self.stall = random.Random('stall %s' % spec.get('seed', 0)) if spec.get('expire') else None
        self.raises = []
        for f in spec.get('faults', []):
            if f['kind'] == 'thread_start':
                self.fail_starts.add(f['n'])
            elif f['kind'] == 'raise':
                self.raises.append(dict(f))
        self.raise_at = self.raises[0] if self.raises else None
        self.eligible = 0
        self.own_seen = {}
        self.fired_where = None
        self.ended = False
        self._elig_cache = {}
        self._mon = False
        self.census = {} if spec.get('census') else None       # (task, place) -> passages
        self.elig_sites = {}
        self.targets = {}
        self._sites = {}
        self._hot = {}

    def expires(self, timeout):
        """A stalled peer: whether this timed wait runs out, however long it is."""
        if self.stall is None or self.stall.random() >= self.spec['expire']:
            return False
        self.clock_offset += timeout
        self.count_fault('timed_wait_expires')
        return True

    def count_fault(self, kind, n=1):
        if n:
            self.faults_fired[kind] = self.faults_fired.get(kind, 0) + n

    # -- Python yield points ------------------------------------------------
    def _event(self, code, where):
        fn = code.co_filename
        if not fn.startswith(self.prefixes):
            return sys.monitoring.DISABLE
        if not nolib.sim_active():
            return
        if self.census is not None or self.targets:
            sid = self.site(code, where)
            if self.census is not None:
                k = (nolib.sim_self(), sid)
                self.census[k] = self.census.get(k, 0) + 1
            for t in self.targets.get(sid, ()):
                if t[0] in (-1, nolib.sim_self()):
                    t[1] -= 1
                    if t[1] == -1:
                        nolib.sim_target_now()
        if self.count_on:
            f = self.raise_at
            if self._eligible(f, code):
                fs = f.get('site')
                if 'tasks' in f:                      # once in each of several tasks, at its own passage
                    k = -2
                    me = nolib.sim_self()
                    if f['tasks'] >> me % 30 & 1 and fs in (None, self.site(code, where)):
                        k = self.own_seen.get(me, 0)
                        self.own_seen[me] = k + 1
                elif fs is None:
                    k = self.eligible
                    if f['n'] == -1:
                        sid = self.site(code, where)
                        self.elig_sites[sid] = self.elig_sites.get(sid, 0) + 1
                elif fs == self.site(code, where):
                    k = self.site_seen
                    self.site_seen = k + 1
                else:
                    k = -2
                self.eligible += 1
                if f['n'] == k:
                    self.count_on = 'tasks' in f
                    self.count_fault('raise_' + f['exc'])
                    self.fired_where = [os.path.basename(fn), code.co_name, lib.sim_self()]
                    raise EXC[f['exc']]('simulated failure')
        if nolib.sim_tick():
            lib.sim_yield()

    def site(self, code, where):
        """A name for a place in the package's code."""
        k = (code, where)
        r = self._sites.get(k)
        if r is None:
            fn = code.co_filename
            base = fn[fn.rfind('/traceon/') + 9:] if '/traceon/' in fn else fn
            r = self._sites[k] = f'{base}:{code.co_qualname}:{where}'
            self._hot[r] = self.is_hot(code, where)
        return r

    def is_hot(self, code, where):
        """Whether the line stores into an object other code may see, or follows one that does."""
        h = HOT.get(code)
        if h is None:
            h = HOT[code] = set()
            import dis
            line, after = None, False
            for ins in dis.get_instructions(code):
                if ins.positions.lineno is not None and ins.positions.lineno != line:
                    line = ins.positions.lineno
                    if after:
                        h.update((line, -ins.offset - 1))
                    after = False
                if ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'STORE_DEREF'):
                    after = True
                    h.update((line, -ins.offset - 1, -ins.offset - 3))
        return (where if self.spec.get('granularity', 'line') == 'line' else -where - 1) in h

    def _eligible(self, f, code):
        key = code
        r = self._elig_cache.get(key)
        if r is None:
            fn = code.co_filename
            base = fn[fn.rfind('/traceon/') + 9:] if '/traceon/' in fn else '?' + fn
            r = (not f.get('files') or any(base == x or base.startswith(x) for x in f['files'])) and \
                base not in f.get('not_files', ()) and code.co_name not in f.get('not_funcs', ())
            self._elig_cache[key] = r
        if not r:
            return False
        t = f.get('task', 'any')
        if t == 'any':
            return True
        me = nolib.sim_self()
        if t == 'worker':
            return me != 0
        if t == 'main':
            return me == 0
        return me == t

    def start(self):
        global S
        sp = self.spec
        S = self
        self.count_on = self.raise_at is not None
        if isinstance(self.cpus, list) and self.cpus[0] is None:
            del os.sched_getaffinity                  # other platforms have none
        decs = sp.get('decisions') or []
        arr = (Dec * max(1, len(decs)))(*[Dec(int(e), int(t), int(k)) for e, t, k in decs])
        gran = sp.get('granularity', 'line')
        mon = sys.monitoring
        if gran != 'none':
            if not self._mon:
                mon.use_tool_id(TOOL, 'sim')
                self._mon = True
            ev = mon.events.LINE if gran == 'line' else mon.events.INSTRUCTION
            mon.register_callback(TOOL, ev, self._event)
            mon.set_events(TOOL, ev)
        targets = sp.get('targets', []) if sp.get('mode') == 'target' else []
        self.site_seen = 0
        self.targets = {}
        for task, sid, n in targets:
            if not sid.startswith('c+'):
                self.targets.setdefault(sid, []).append([task, n])
        lib.sim_enable_c(1 if sp.get('c_yields', True) else 0)
        lib.sim_begin(int(sp.get('seed', 0)), MODES[sp.get('mode', 'uniform')], float(sp.get('gap', 1000.)),
                      int(sp.get('budget', 1 << 40)), int(sp.get('cap', 2_000_000_000)),
                      C.cast(arr, C.c_void_p), len(decs))
        if self.census is not None:
            lib.sim_census()
        for task, sid, n in targets:
            if sid.startswith('c+'):
                lib.sim_target(int(sid[2:], 16), task, n)

    def drain(self):
        """Let every task that can still run do so (threads kept for later stay parked); returns how
        many there were."""
        n = nolib.sim_live_tasks()
        if n:
            lib.sim_block(0xD000000000000000, 0)
        return n

    def stop(self):
        global S
        if self.ended:
            return
        self.ended = True
        os.sched_getaffinity = _affinity
        mon = sys.monitoring
        if self._mon:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
            self._mon = False
        nolib.sim_end()
        S = None

    def stats(self, with_decisions=True):
        sp = self.spec
        st = {k: int(nolib.sim_stat(i)) for i, k in enumerate(
            ['events', 'c_events', 'py_events', 'preempts', 'forced', 'hash', 'ndec', 'c_preempts', 'ndec_total'])}
        st['tasks'] = int(nolib.sim_ntasks())
        st['faults'] = dict(self.faults_fired)
        st['eligible'] = self.eligible
        st['fired'] = self.fired_where
        st['sim_time'] = st['events'] * 1e-6 + abs(self.clock_offset)
        st['clock_reads'] = self.clock_reads
        if sp.get('targets'):
            st['aimed'] = sp['targets']
        if self.elig_sites:
            st['elig_sites'] = sorted((k, n, self._hot[k]) for k, n in self.elig_sites.items())
        if self.census is not None:
            buf = (Cen*60000)()
            n = nolib.sim_census_get(C.cast(buf, C.c_void_p), 60000)
            st['census'] = sorted([int(buf[i].task), 'c+%x' % buf[i].site, int(buf[i].n), int(buf[i].flags)] for i in range(n)) + \
                sorted([t, k, n, 1 if self._hot[k] else 0] for (t, k), n in self.census.items())
        if with_decisions:
            d = nolib.sim_decisions()
            n = min(st['ndec'], 20000)
            st['decisions'] = [[d[i].ev, d[i].to, d[i].kind] for i in range(n)]
        return st
