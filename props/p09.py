"""P09: an operation that is interrupted or runs out of memory part way leaves its inputs intact and can simply be repeated."""
import random
import sys
from props import ops as O, common as C, mixed, p06

PROPERTY = 'P09'
RULE = 'distinct (operation, set-up, place of the failure) triples in which the failure fired inside the operation'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = ['failures strike at lines and bytecode instructions of the package’s Python code on the calling thread, or when it prints']


def plan(tier):
    return {'budget_s': 75 if tier == 'quick' else 560, 'max_runs': 4000 if tier == 'quick' else 60000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, info = mixed.gen_env(rng)
    x = rng.random()
    pre = []
    if x < .15:
        # an operation that changes an object: a new excitation on an existing electrode
        if rng.random() < .6:
            # an electrode of several pieces, of which the normals are turned
            m, d3 = 'mp', rng.random() < .3
            ps = [{'shape': 'sphere', 'r': O.r(rng, .4, .9), 'z': 2.5*j, 'ms': 10.} if d3 else O.gen_part2d(rng, j, 'q', closed=True) for j in range(rng.choice([2, 3]))]
            sym, adds = '3d' if d3 else 'rz', [[rng.choice(['ebound', 'mbound']), 'q', True]]
            setup.append(['mp', {'type': 'mesh', 'parts': [dict(q, name='q') for q in ps], 'ho': rng.random() < .4 and not d3, 'ms': rng.choice([.5, 1., 3.])}])
        else:
            m, names, sym, adds = rng.choice(info['meshes'])
        setup.append(['en', {'type': 'exc', 'mesh': m, 'sym': sym, 'adds': []}])
        a = rng.choice(adds)
        prog = [{'op': 'add', 'o': 'en', 'a': a}]
        mut = ['en', m]
    elif x < .22:
        c = [n for n, k in info['fields'] if k != 'axial']
        f = rng.choice(c)
        prog = [{'op': 'setbounds', 'o': f, 'b': [[-1, 1], [-1.25, 1], [-3, 2.5]], 'fmt': rng.choice(['arr', 'tuple'])}]
        mut = [f] + [n for n, d in setup if d.get('field') == f]
    else:
        prog = mixed.gen_op(rng, info, 'x')
        while prog[0]['op'] in ('tracer', 'ev', 'area') and rng.random() < .7:
            prog = mixed.gen_op(rng, info, 'x')
        mut = []
    s = O.gen_sched(rng, threads_c=False)
    s['granularity'] = rng.choice(['line', 'line', 'instr'])
    s['gap'] = rng.choice([30, 300])
    f = {'kind': 'raise', 'exc': rng.choice(['interrupt', 'interrupt', 'memory', 'os', 'error']), 'frac': rng.random(), 'task': 'main', 'repeat': False,
         'by': rng.choice(['site', 'site', 'passage'])}
    if rng.random() < .12:
        f = {'kind': 'print', 'frac': rng.random()}
    spec = {'variant': rng.choice(['ship', 'inst']), 'block': None, 'setup': setup, 'prog': prog, 'mut': mut, 'sim': s,
            'threads': rng.choice([1, 1, 1, 3]), 'fault': f, 'times': rng.choice([1, 1, 1, 3]), 'tries': 6}
    if spec['variant'] == 'inst':
        spec['block'] = rng.choice([None, 200])
    return spec


class BrokenOut:
    """Standard output whose n-th write fails (a full disk or a closed pipe)."""

    def __init__(self, n):
        self.n, self.k, self.fired = n, 0, 0

    def write(self, s):
        k = self.k
        self.k += 1
        if k == self.n:
            self.fired += 1
            import simrt
            raise simrt.SimOSError(28, 'No space left on device')
        return len(s)

    def flush(self):
        pass


def chatty():
    import traceon.logging as L
    try:
        L.set_log_level(L.LogLevel.DEBUG)
    except Exception:
        pass


def execute(ctx, spec):
    def judge():
        setup, prog, mut = spec['setup'], spec['prog'], set(spec['mut'])
        C.set_threads(1)
        env = O.build(setup)
        before = C.snap(ctx, env)
        C.set_threads(spec['threads'])
        f0 = dict(spec['fault'])
        if f0['kind'] == 'print':
            chatty()
        k = len(prog) - 1                       # the last operation is the one that fails

        def lone():
            e = dict(env)
            out = O.run_program(e, prog)
            return out, O.snapshot({n: env[n] for n in before})
        ref, done = C.call(ctx, lone)

        def work(f, cap=60_000_000):
            e = dict(env)
            O.run_program(e, prog[:k])
            runs, outs = [], []
            state = C.process_state()
            for _ in range(spec['times']):
                old = sys.stdout
                bo = None
                try:
                    if f['kind'] == 'print':
                        bo = sys.stdout = BrokenOut(f['n'])
                    run = C.run_sim(ctx, dict(spec['sim'], cap=cap, faults=[f] if f['kind'] == 'raise' else []), lambda: O.canon(O.run_op(e, prog[k])))
                finally:
                    sys.stdout = old
                if bo is not None:
                    run['writes'] = bo.k
                    run['stats']['faults'] = {'print_fails': bo.fired} if bo.fired else {}
                runs.append(run)
            mid = O.snapshot({n: env[n] for n in before})
            mid['_process'] = C.state_diff(C.process_state(), state)
            again = O.run_program(e, prog[k:])
            return runs, mid, again, O.snapshot({n: env[n] for n in before})
        if 'n' in f0:
            return verdict(lambda: work(f0), f0, ref, done, before)
        try:
            dry = C.call(ctx, lambda: work(dict(f0, n=-1), 3_000_000))[0][0]
        except C.Child as e:
            if e.status == 'nocap':
                return C.ok([], probes={'too_long_to_judge': 1})
            raise
        total = dry['writes'] if f0['kind'] == 'print' else dry['stats']['eligible']
        if total <= 0:
            return C.ok([], probes={'nowhere_to_fail': 1})
        rng = random.Random(spec['sim']['seed'])
        vs = []
        for t in range(spec.get('tries', 1)):
            f = C.aim_fault(rng, f0, dry['stats']) if f0['kind'] == 'raise' else dict(f0, n=rng.randrange(total))
            v = verdict(lambda: work(f), f, ref, done, before)
            if v['status'] != 'ok':
                return dict(v, pin={'fault': f})
            vs.append(v)
            f0 = dict(f0, frac=rng.random(), exc=rng.choice(['interrupt', 'memory', 'os', 'error']))
        return C.merge(vs)

    def verdict(work, f, ref, done, before):
        prog, mut = spec['prog'], set(spec['mut'])
        k = len(prog) - 1
        try:
            runs, mid, again, end = C.call(ctx, work)
        except C.Child as x:
            return C.child_verdict(x, f'{prog[k]["op"]} interrupted')
        fired = any(r['stats']['faults'] for r in runs)
        pr = {'fired': int(fired), 'op_' + prog[k]['op']: 1, 'raised': sum(r['res'][0] == 'exc' for r in runs)}
        kw = dict(probes=pr, execs=3)
        if fired:
            kw['sig'] = C.hsh([spec['setup'], prog, f['n'], f.get('site'), f.get('exc'), f['kind'], spec['sim']['granularity']])
        where = f'{prog[k]["op"]}, {f.get("exc") or "print"} number {f["n"]} at {runs[0]["stats"]["fired"]}: '
        want = ref[k]
        for r in runs:
            res = r['res']
            if res[0] == 'ok':
                if want[0] == 'exc':
                    return C.viol('answer-instead-of-error', where + f'returns a value instead of raising {want[1]}', runs, **kw)
                if prog[k]['op'] not in ('add', 'setbounds'):
                    d = O.diff(res[1], want[1], 1e-8)
                    if d:
                        return C.viol('damaged-result', where + 'the call returned normally, but ' + d, runs, **kw)
            elif not r['stats']['faults'] and want[0] == 'ok' and not fired:
                return C.viol('spurious-failure', f'{where}no failure fired, yet {res[1]}: {res[2]}', runs, **kw)
        if mid['_process']:
            return C.viol('input-changed', where + mid['_process'], runs, **kw)
        for n in before:
            if n in mut:
                d = O.either(mid[n], before[n], done[n])
                if d:
                    return C.viol('changed-in-part', where + f'object {n}: {d}', runs, **kw)
                continue
            d = O.diff(mid[n], before[n], 0.)
            if d:
                return C.viol('input-changed', where + f'object {n}: {d}', runs, **kw)
        d = O.diff_outcomes(again, ref[k:], prog[k:], 1e-8, where + 'repeated, ')
        if d:
            return C.viol('cannot-be-repeated', d, runs, **kw)
        for n in before:
            d = O.diff(end[n], done[n], 0.)
            if d:
                return C.viol('cannot-be-repeated', where + f'after the repetition object {n}: {d}', runs, **kw)
        return C.ok(runs, **kw)
    return C.guarded(ctx, 'interrupted operation', judge)


def shrink(spec):
    yield from mixed.shrink(spec)
    if spec['threads'] > 1:
        yield dict(spec, threads=1)
    if spec.get('tries', 1) > 1 and 'n' in spec['fault']:
        yield dict(spec, tries=1)
    if spec['times'] > 1:
        yield dict(spec, times=1)
    yield from C.sched_shrinks(spec)
