"""P16: calls can be repeated without end: none of them, not even one that fails, keeps memory, threads, files or anything else."""
import array
import ctypes
import gc
import os
import pickle
import random
import resource
import shutil
import sys
import tempfile
import threading
from props import ops as O, common as C, mixed, p06, p10

PROPERTY = 'P16'
RULE = 'distinct (set-up, repeated programs, fault) triples whose repetitions all ended and performed at least one operation or failed as planned'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED + ['malloc and free are counted']
ASSUMPTIONS = ['growth is what is left after results are dropped, a garbage collection has run and the threads that can still run have ended',
               'what grows in each of five repetitions goes on growing in 70 more (caches of the interpreter and numpy do not)']

WARM, FIRST, STRIDES, STRIDE = 3, 5, 7, 10       # repetitions before the first look, between looks, and when in doubt


def plan(tier):
    return {'budget_s': 60 if tier == 'quick' else 480, 'max_runs': 3000 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen_steps(rng, info, tag):
    out = []
    for j in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < .55:
            out += mixed.gen_op(rng, info, f'{tag}{j}')
        elif x < .63:
            out += mixed.churn(rng, info, 1, f'{tag}{j}', rng.getrandbits(30))
        elif x < .8:
            it = p10.gen_item(rng, j)
            out.append({'op': 'user', 'item': it, 'n': rng.choice([0, 1, 5]) if rng.random() < .6 else -1})
        elif x < .93:
            m = rng.choice(info['meshes'])[0]
            out.append({'op': 'file', 'm': m, 'ext': rng.choice(['vtk', 'vtu', 'obj', 'inp', 'ply', 'pkl']), 'fault': rng.choice([None, None, 'limit', 'nodir', 'missing']),
                        'frac': rng.random()})
        else:
            out.append({'op': 'pickle', 'o': rng.choice(info['fields'])[0]})
    return out


def gen(rng, tier, i):
    setup, info = mixed.gen_env(rng)
    cls = [gen_steps(rng, info, f'c{c}') for c in range(rng.choice([1, 1, 1, 2]))]
    s = O.gen_sched(rng, threads_c=False)
    if s['mode'] == 'target':
        s['mode'] = 'uniform'
    s['granularity'] = 'line'
    s['gap'] = rng.choice([30, 300])
    spec = {'variant': 'ship', 'setup': setup, 'clients': cls, 'sim': s, 'threads': rng.choice([1, 2, 3, 5]), 'faults': []}
    x = rng.random()
    if x < .4:
        spec['faults'] = [{'kind': 'raise', 'exc': rng.choice(['interrupt', 'memory', 'os', 'error']), 'frac': rng.random(), 'task': 'main', 'repeat': False,
                            'by': rng.choice(['site', 'site', 'passage'])}]
        if rng.random() < .4:
            spec['faults'][0].update(task='worker', files=['backend/'])
    elif x < .5:
        spec['faults'] = [{'kind': 'thread_start', 'n': rng.choice([0, 1, 2])}]
    elif x < .56:
        s['expire'] = .3
    return spec


def step(env, op, base):
    if op['op'] == 'user':
        it, k = op['item'], [0]

        def hook():
            k[0] += 1
            if k[0] - 1 == op['n']:
                raise p10.make_exc(it['exc'], 'planned')
        return p10.do(it, hook)
    if op['op'] == 'file':
        m = env[op['m']]
        p = os.path.join(base, 'f.' + op['ext'])
        if op['fault'] == 'nodir':
            p = os.path.join(base, 'none', 'f.' + op['ext'])
        if op['fault'] == 'missing':
            return type(m).read_file(os.path.join(base, 'missing.' + op['ext']))
        if op['fault'] == 'limit':
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(500*op['frac']), old[1]))
        try:
            (m.write if op['ext'] == 'pkl' else m.write_file)(p)
        finally:
            if op['fault'] == 'limit':
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        return type(m).read(p) if op['ext'] == 'pkl' else type(m).read_file(p)
    if op['op'] == 'pickle':
        return pickle.loads(pickle.dumps(env[op['o']]))
    return O.run_op(env, op)


def client(env, ops, base, tally):
    e = dict(env)
    for op in ops:
        if op.get('o') is not None and op['o'] not in e:
            continue
        try:
            v = step(e, op, base)
        except BaseException as x:
            if C.injected_in(x):
                tally[1] += 1
                return
            tally[1] += 1
            continue
        tally[0] += 1
        if op.get('out'):
            e[op['out']] = v


def measure(base, out):
    """Fills a row that has been allocated before."""
    gc.collect()
    gc.collect()
    sys._clear_type_cache()                  # it keeps names alive that numpy makes up at every call
    n = 0
    for d, ds, fs in os.walk(base):
        n += len(ds) + len(fs)
    import atexit
    kids = 0
    for t in os.listdir('/proc/self/task'):
        try:
            kids += len(open(f'/proc/self/task/{t}/children').read().split())
        except OSError:
            pass
    f = ctypes.PyDLL(None).hf_live
    f.restype = ctypes.c_int64
    f.argtypes = []
    out[:] = array.array('q', [threading.active_count(), len(os.listdir('/proc/self/fd')), n, kids, atexit._ncallbacks(), f(), sys.getallocatedblocks()])


WHAT = ('threads', 'open files', 'files on disk', 'processes', 'exit handlers', 'bytes allocated with malloc', 'Python memory blocks')


def growing(rows, per=1):
    """The quantities that were larger at every look than at the one before it, `per` repetitions earlier."""
    out = []
    for k, name in enumerate(WHAT):
        d = [b[k] - a[k] for a, b in zip(rows, rows[1:])]
        if min(d) >= per*(16 if name[0] == 'b' else 1):
            out.append((name, d))
    return out


def execute(ctx, spec):
    base = tempfile.mkdtemp(prefix='rep-', dir=ctx.scratch)
    try:
        return C.guarded(ctx, 'repeated calls', lambda: judge(ctx, spec, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def judge(ctx, spec, base):
    os.chdir(base)
    os.environ['TMPDIR'] = base
    tempfile.tempdir = None
    C.set_threads(1)
    env = O.build(spec['setup'])
    C.set_threads(spec['threads'])
    faults = [dict(f) for f in spec['faults']]

    def once(fs, cap):
        tally = [0, 0]
        cls = spec['clients']

        def go():
            if len(cls) == 1:
                client(env, cls[0], base, tally)
            else:
                C.clients([(lambda p=p: client(env, p, base, tally)) for p in cls])
        run = C.run_sim(ctx, dict(spec['sim'], faults=fs, cap=cap), go)
        return run, tally

    def work():
        rows, keep, done = [array.array('q', [0]*len(WHAT)) for _ in range(FIRST + STRIDES + 1)], None, [0, 0]
        fired = 0
        for i in range(WARM + FIRST + STRIDES*STRIDE):
            run, tally = once([dict(f) for f in faults], 60_000_000)
            done = [a + b for a, b in zip(done, tally)]
            fired += sum(run['stats']['faults'].values())
            if i == 0:
                keep = run
            del run
            j = i - WARM + 1
            if 0 <= j <= FIRST:
                measure(base, rows[j])
                if j == FIRST and not growing(rows[:FIRST + 1]):
                    break
            elif j > FIRST and (j - FIRST) % STRIDE == 0:
                measure(base, rows[FIRST + (j - FIRST)//STRIDE])
        return [list(r) for r in rows[FIRST + 2:]], keep, done, fired, i + 1
    try:
        for f in faults:
            if f['kind'] == 'raise' and 'n' not in f:
                dry = C.call(ctx, lambda: once([dict(f, n=-1)], 3_000_000)[0])
                f.update(C.aim_fault(random.Random(spec['sim']['seed']), f, dry['stats']))
        rows, run, done, fired, n = C.call(ctx, work, timeout=90)
    except C.Child as x:
        if x.status == 'nocap':
            return C.ok([], probes={'too_long_to_judge': 1})
        return C.child_verdict(x, 'repeated calls')
    pr = {'repetitions': n, 'operations': done[0], 'operations_failing': done[1], 'faults_fired': fired}
    kw = dict(probes=pr, execs=n)
    if sum(done):
        kw['sig'] = C.hsh([spec['setup'], spec['clients'], faults, spec['threads']])
    pr['looked_closer'] = int(n > WARM + FIRST)
    g = growing(rows, STRIDE) if n > WARM + FIRST else []
    if g:
        return C.viol('grows', '; '.join(f'{k} grew by {d} in {len(d)} times {STRIDE} repetitions' for k, d in g) + f' (faults {faults}, '
                      f'{done[1]} of {sum(done)} operations failed)', [run], **kw)
    return C.ok([run], **kw)


def shrink(spec):
    for cl in O.shrink_list(spec['clients'], 1):
        yield dict(spec, clients=cl)
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
    yield from mixed.shrink(spec, ('clients',))
    if spec['faults']:
        yield dict(spec, faults=[])
    if spec['threads'] > 1:
        yield dict(spec, threads=1)
    yield from C.sched_shrinks(spec)
