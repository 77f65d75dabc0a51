"""Shared pieces of the property modules: running something under the simulator in a forked
child, turning child outcomes into verdicts."""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import threading
import warnings

try:
    import numpy as np
except ImportError:
    np = None

from props import ops as O

REAL_LIB = ['all Python code of the package under test', 'its C backend (compiled from the working tree)', 'numpy, scipy, meshio',
            'CPython threads (real OS threads, one running at a time)']
STUB_SCHED = ['thread scheduling, thread start/join, locks, queues and CPU count: decided by the simulator',
              'clocks and sleeps: virtual', 'malloc contents: filled by the simulator']
ASSUME = ['preemption points are Python lines or bytecode instructions of the package and every edge, load and store of its C code; '
          'inside numpy/scipy a thread is not preempted (true of CPython while the GIL is held)',
          'weak-memory reorderings are not modelled: simulated threads are sequentially consistent']


class Child(Exception):
    """A forked child did not come back with a value; carries its status."""

    def __init__(self, status, detail):
        super().__init__(f'{status}: {detail}')
        self.status, self.detail = status, detail


def call(ctx, fn, *a, **kw):
    st, v = ctx.fork_call(fn, *a, **kw)
    if st != 'ok':
        raise Child(st, v)
    return v


def set_threads(n):
    if n is None:
        os.environ.pop('TRACEON_THREADS', None)
    else:
        os.environ['TRACEON_THREADS'] = str(n)


def run_sim(ctx, simspec, fn):
    """Runs fn() as task 0 of a simulated execution (call inside a forked child)."""
    sim = ctx.sim(dict({'cap': 400_000_000}, **simspec))
    out = None
    sim.start()
    try:
        try:
            out = fn()
            res = ('ok', out)
        except BaseException as e:
            sim.count_on = False
            res = ('exc', type(e).__name__, str(e)[:300], isinstance(e, Exception), injected_in(e))
        sim.count_on = False
        left = sim.drain()
    finally:
        sim.stop()
    return {'res': res, 'left': left, 'stats': sim.stats()}


def pick_site(rng, sites):
    """One of the places [(name, passages, hot)]: every place is as likely as every other one, however
    often it is passed; places that store into visible objects are favoured."""
    hot = [x for x in sites if x[2]]
    s = rng.choice(hot if hot and rng.random() < .4 else sites)
    n = s[1]
    x = rng.random()
    k = rng.randrange(n) if x < .6 else (rng.randrange(min(n, 3)) if x < .85 else n - 1 - rng.randrange(min(n, 2)))
    return s[0], k


def aim(ctx, simspec, fn):
    """For a spec in mode 'target': a rehearsal without preemption takes a census of the places each
    task passes, then a few of them are chosen as change points."""
    if simspec.get('mode') != 'target' or 'targets' in simspec:
        return simspec
    dry = call(ctx, lambda: run_sim(ctx, dict(simspec, mode='none', census=True, faults=[]), fn))
    by = {}
    for task, sid, n, hot in dry['stats']['census']:
        if task:
            by.setdefault(task, {}).setdefault('c' if sid.startswith('c+') else 'py', []).append((sid, n, hot))
    rng = random.Random(simspec['seed'])
    out = []
    tasks = sorted(by)
    for _ in range(simspec.get('depth', 2)):
        if not tasks:
            break
        t = rng.choice(tasks)
        s, k = pick_site(rng, by[t][rng.choice(sorted(by[t]))])
        out.append([-1 if rng.random() < .15 else t, s, k])
    return dict(simspec, targets=out)


def snap(ctx, env):
    """What can be observed of the objects, looked at in a process of its own: looking may already have effects."""
    from props import ops
    return call(ctx, lambda: ops.snapshot(env))


def process_state():
    """What is there once per process and belongs to the user."""
    import decimal
    import gc
    import locale
    return {'working directory': os.getcwd(), 'environment': {k: v for k, v in os.environ.items() if k != 'TRACEON_THREADS'},
            'floating point error handling': dict(np.geterr()), 'random numbers': [hsh(random.getstate()), hsh([str(x) for x in np.random.get_state()])],
            'interrupt handler': str(signal.getsignal(signal.SIGINT)), 'recursion limit': sys.getrecursionlimit(), 'garbage collection': gc.isenabled(),
            'print options': str(np.get_printoptions()), 'locale': locale.setlocale(locale.LC_ALL), 'decimal precision': decimal.getcontext().prec,
            'switch interval': sys.getswitchinterval(), 'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
            'hooks': [id(sys.excepthook), id(threading.excepthook), id(sys.gettrace()), id(sys.getprofile())], 'warning filters': str(warnings.filters),
            'file creation mask': umask(), 'thread stack size': threading.stack_size(), 'limits': [resource.getrlimit(r) for r in LIMITS],
            'priority': os.getpriority(os.PRIO_PROCESS, 0), 'other signal handlers': [str(signal.getsignal(s)) for s in (signal.SIGTERM, signal.SIGALRM, signal.SIGFPE,
            signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP)], 'timer': signal.getitimer(signal.ITIMER_REAL)[0] > 0, 'arithmetic': [(2.3e-308/n == 0., 1./n + n) for n in (3, 4, 7)],
            'maximum of digits': sys.get_int_max_str_digits(), 'default number formatting': f'{1e22/3:n}', 'search path': list(sys.path)}


LIMITS = (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE)


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def state_diff(a, b):
    for k in b:
        if a[k] != b[k]:
            return f'the {k} of the process changed: {str(a[k])[:200]} instead of {str(b[k])[:200]}'
    return None


def aim_fault(rng, f, stats):
    """Places a 'raise' fault from a dry run's statistics: half of the time uniformly over the passages,
    otherwise uniformly over the places in the code."""
    if f.get('by') == 'site' and stats.get('elig_sites'):
        s, k = pick_site(rng, stats['elig_sites'])
        return dict(f, site=s, n=k)
    return dict(f, n=int(f['frac']*max(1, stats['eligible'])))


def injected_in(e):
    import simrt
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, simrt.INJECTED):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def clients(fns):
    """Runs the functions as concurrent client threads (inside a simulated execution); returns
    their results in order."""
    res = [None]*len(fns)

    def go(i):
        try:
            res[i] = ('ok', fns[i]())
        except BaseException as e:
            res[i] = ('exc', type(e).__name__, str(e)[:300])
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def hsh(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True, default=str).encode()).hexdigest()[:16]


def viol(cls, detail, runs=(), **kw):
    v = {'status': 'violation', 'class': cls, 'detail': detail}
    return finish(v, runs, **kw)


def ok(runs=(), **kw):
    return finish({'status': 'ok'}, runs, **kw)


def merge(vs):
    """One verdict for several judged executions of a run that all were fine."""
    out = {'status': 'ok', 'sims': [], 'probes': {}, 'execs': 0, 'sig': [], 'faults': {}}
    for v in vs:
        out['sims'] += v['sims']
        out['execs'] += v.get('execs', 1)
        if v.get('sig'):
            out['sig'].append(v['sig'])
        for key in ('probes', 'faults'):
            for k, n in v.get(key, {}).items():
                out[key][k] = out[key].get(k, 0) + n
    if not out['sig']:
        del out['sig']
    return out


def finish(v, runs, **kw):
    sts = [x['stats'] for x in runs if x]
    if sts and sts[-1].get('aimed'):
        v['aimed'] = sts[-1]['aimed']
    v['sims'] = [{k: s[k] for k in ('events', 'c_events', 'sim_time', 'preempts', 'c_preempts', 'tasks', 'faults', 'hash')} for s in sts]
    if sts:
        v['decisions'] = sts[-1].get('decisions')
        v['hash'] = sts[-1]['hash']
    v.update(kw)
    return v


def child_verdict(e, what, probes=None, allow=()):
    """Verdict for a child that died: a deadlock, crash or lost progress of the code under test."""
    kw = {'probes': probes or {}}
    if e.status == 'deadlock':
        return viol('deadlock', f'{what}: every task is blocked', **kw)
    if e.status.startswith('signal:'):
        n = int(e.status.split(':')[1])
        if n in (4, 6, 7, 8, 11):
            return viol('crash', f'{what}: the process was killed by signal {n}', **kw)
        return {'status': 'harness', 'detail': f'{what}: {e.status}'}
    if e.status.startswith('exit:'):
        return viol('exit', f'{what}: the process exited ({e.status})', **kw)
    if e.status == 'nocap':
        return viol('no-progress', f'{what}: no progress within the event limit', **kw)
    return {'status': 'harness', 'detail': f'{what}: {e.status}: {e.detail}'}


def guarded(ctx, what, fn, timeout=100):
    """Runs the whole judgement fn() in one forked child and maps its death to a verdict."""
    try:
        return call(ctx, fn, timeout=timeout)
    except Child as e:
        if e.status in ('timeout', 'exc'):
            return {'status': 'harness', 'detail': f'{what}: {e.status}: {e.detail}'}
        return child_verdict(e, what)


def fork_outcome(ctx, fn, timeout=60):
    """fn() in a fresh fork, exceptions as outcomes: ('ok', v) or ('exc', type, msg)."""
    def f():
        try:
            return ('ok', fn())
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:300])
    return call(ctx, f, timeout=timeout)


def sched_shrinks(spec):
    s = spec.get('sim')
    if not s:
        return
    if s.get('jumps'):
        yield dict(spec, sim=dict(s, jumps=[]))
    if s.get('expire'):
        yield dict(spec, sim={k: v for k, v in s.items() if k != 'expire'})
    if s.get('mode') == 'target' and len(s.get('targets', [])) > 1:
        for i in range(len(s['targets'])):
            yield dict(spec, sim=dict(s, targets=s['targets'][:i] + s['targets'][i+1:]))
    elif s.get('mode') == 'target' and s.get('depth', 2) > 1:
        yield dict(spec, sim=dict(s, depth=s['depth'] - 1))
    if s.get('mode') != 'none' and s.get('mode') != 'list':
        yield dict(spec, sim=dict(s, mode='none'))
        for b in (1, 2, 4, 8, 16, 64):
            if s.get('budget', 1 << 40) > b:
                yield dict(spec, sim=dict(s, budget=b))
    if s.get('granularity') == 'instr':
        yield dict(spec, sim=dict(s, granularity='line'))
    if s.get('c_yields'):
        yield dict(spec, sim=dict(s, c_yields=False))


PATTERNS = {'zero': 0, 'nan': 0x7FF8000000000000, 'ones': 0xFFFFFFFFFFFFFFFF, 'inf': 0x7FF0000000000000, 'big': 0x54B249AD2594C37D,
            'small': 0x3F3F3F3F3F3F3F3F, 'mid': 0x4049000000000000, 'neg': 0xC024000000000000}


def heap_fill(name):
    """From now on fresh memory (including numpy's cache of small blocks) holds this pattern."""
    if name is None:
        return
    import ctypes
    v = PATTERNS[name]
    f = ctypes.CDLL(None).hf_set
    f.argtypes = [ctypes.c_uint64]
    f(v)
    keep = [np.full(n, v, dtype=np.uint64) for n in range(1, 130) for _ in range(9)]
    keep += [np.full(n, v & 255, dtype=np.uint8) for n in range(1, 1024, 3) for _ in range(8)]
    del keep


def fresh(ctx, module, fn, args, hashseed='0', env=None, timeout=90, cwd=None, flags=()):
    """module.fn(*args) in a fresh interpreter; raises Child when it does not come back."""
    import pickle
    import subprocess
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e = {k: v for k, v in os.environ.items() if k != 'TRACEON_THREADS'}
    e.update(PYTHONHASHSEED=hashseed, **(env or {}))
    e = {k: v for k, v in e.items() if v is not None}
    r, w = os.pipe()
    try:
        p = subprocess.Popen([sys.executable, *flags, os.path.join(here, 'sim', 'oneshot.py')], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, env=e, cwd=cwd, preexec_fn=lambda: (os.dup2(w, 3), os.set_inheritable(3, True)), close_fds=False)
    finally:
        os.close(w)
    try:
        p.stdin.write(pickle.dumps((ctx.root, module, fn, args), protocol=4))
        p.stdin.close()
        data = b''
        import select
        import simrt
        end = simrt._real['monotonic']() + timeout
        while True:
            left = end - simrt._real['monotonic']()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                p.kill()
                raise Child('timeout', None)
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    finally:
        os.close(r)
        try:
            rc = p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
    if not data:
        raise Child(f'signal:{-rc}' if rc < 0 else f'exit:{rc}', None)
    st, v = pickle.loads(data)
    if st != 'ok':
        raise Child('exc', v)
    return v


def stack_fill(name):
    import ctypes
    f = ctypes.PyDLL(None).hf_stack
    f.argtypes = [ctypes.c_uint64]
    v = PATTERNS[name]
    return lambda: f(v)
