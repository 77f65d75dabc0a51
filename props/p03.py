"""P03: a failure inside a worker thread makes the operation fail; it never returns a damaged result."""
import random
from props import ops as O, common as C

PROPERTY = 'P03'
RULE = 'distinct (workload, fault place, schedule hash) triples in which the planned fault actually fired'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME + ['faults are raised at Python lines of the wrapper around the C backend executed by worker threads, by thread creation, and timed waits that run out because a peer is stalled',
                          'a damaged result is one that differs from the fault-free serial result']


def plan(tier):
    return {'budget_s': 60 if tier == 'quick' else 480, 'max_runs': 1500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    d3 = rng.random() < .2
    m, adds = O.gen_case3d(rng) if d3 else O.gen_case2d(rng)
    op = rng.choice(['solve', 'solve', 'superpos', 'interp']) if not d3 else 'solve'
    if op == 'superpos' and any(a[0] == 'vfun' for a in adds):
        op = 'solve'
    spec = {'variant': rng.choice(['inst', 'ship']), 'mesh': m, 'adds': adds, 'sym': '3d' if d3 else 'rz', 'op': op,
            'N': rng.choice([3, 8, 20, 50]), 'threads': rng.choice([1, 2, 3, 4, 8, 16, 40]), 'sim': O.gen_sched(rng, threads_c=rng.random() < .3)}
    s = spec['sim']
    if s['granularity'] == 'none':
        s['granularity'] = 'line'
    x = rng.random()
    if x < .15:
        s['expire'] = rng.choice([.2, .5, 1.])
    if x < .06:
        spec['fault'] = {'kind': 'stall'}            # nothing but waits that run out
    elif rng.random() < .25:
        spec['fault'] = {'kind': 'thread_start', 'frac': rng.random()}
    else:
        spec['fault'] = {'kind': 'raise', 'exc': rng.choice(['error', 'memory', 'os', 'interrupt', 'exit']), 'frac': rng.random(), 'task': 'worker',
                         'files': ['backend/'], 'by': rng.choice(['site', 'passage'])}
        if rng.random() < .35:
            spec['fault']['several'] = rng.choice([2**30 - 1, rng.getrandbits(30), rng.getrandbits(30)])     # in these workers
    return spec


def execute(ctx, spec):
    def judge():
        C.set_threads(1)
        env = O.build([['m', spec['mesh']], ['e', {'type': 'exc', 'mesh': 'm', 'sym': spec['sym'], 'adds': spec['adds']}]])
        op = {'op': spec['op'], 'o': 'e'}
        if spec['op'] == 'interp':
            st = C.fork_outcome(ctx, lambda: O.run_op(env, {'op': 'solve', 'o': 'e'}))
            if st[0] != 'ok':
                return C.ok([], probes={'no_field': 1})
            env['f'] = st[1]
            op = {'op': 'interp', 'o': 'f', 'z': [-3., 3.], 'N': spec['N']}
        before = C.snap(ctx, env)
        ref = C.fork_outcome(ctx, lambda: O.canon(O.run_op(env, op)))
        if ref[0] != 'ok':
            return C.ok([], probes={'serial_raises': 1})
        C.set_threads(spec['threads'])
        f = dict(spec['fault'])
        if f['kind'] == 'stall':
            f['n'] = 0
        elif 'n' not in f:
            base = dict(f, n=-1)
            dry = C.call(ctx, lambda: C.run_sim(ctx, dict(spec['sim'], mode='none', c_yields=False, faults=[base] if f['kind'] == 'raise' else []),
                                                lambda: O.run_op(env, op) and None))
            total = dry['stats']['eligible'] if f['kind'] == 'raise' else dry['stats']['tasks'] - 1
            if total <= 0:
                return C.ok([], probes={'nothing_to_fail': 1})
            f = C.aim_fault(random.Random(spec['sim']['seed']), f, dry['stats']) if f['kind'] == 'raise' else dict(f, n=int(f['frac']*total))
        if f.get('several') and f['kind'] == 'raise':
            f = dict(f, tasks=f['several'], n=f['n']//max(1, dry['stats']['tasks'] - 1) if 'n' not in spec['fault'] else f['n'])

        def work():
            run = C.run_sim(ctx, dict(spec['sim'], faults=[f] if f['kind'] != 'stall' else []), lambda: O.canon(O.run_op(env, op)))
            after = O.snapshot(env)
            C.set_threads(2)
            try:
                again = ('ok', O.canon(O.run_op(env, op)))
            except Exception as e:
                again = ('exc', type(e).__name__, str(e)[:200])
            return run, after, again
        try:
            run, after, again = C.call(ctx, work)
        except C.Child as e:
            return C.child_verdict(e, f'{spec["op"]} with a failing worker')
        res = run['res']
        fired = bool(run['stats']['faults'])
        probes = {'fired': int(fired), 'raised': int(res[0] == 'exc'), 'op_' + spec['op']: 1,
                  'recovered': int(fired and res[0] == 'ok')}
        kw = dict(probes=probes, execs=4)
        if fired:
            kw['sig'] = C.hsh([spec['mesh'], spec['adds'], spec['op'], spec['threads'], f['n'], f.get('exc'), run['stats']['hash']])
        where = f'{spec["op"]}, threads={spec["threads"]}, fault {f["kind"]}/{f.get("exc")} number {f["n"]} {f.get("site", "")} at {run["stats"]["fired"]}: '
        if res[0] == 'ok':
            d = O.diff(res[1], ref[1], 1e-8)
            if d:
                return C.viol('damaged-result', where + 'the call returned normally, but ' + d, [run], **kw)
        elif not fired:
            return C.viol('spurious-failure', f'{where}no fault fired, yet {res[1]}: {res[2]}', [run], **kw)
        d = O.diff_snap(after, before)
        if d:
            return C.viol('input-changed', where + d, [run], **kw)
        if again[0] != 'ok':
            return C.viol('poisoned', f'{where}the same call without faults then raises {again[1]}: {again[2]}', [run], **kw)
        d = O.diff(again[1], ref[1], 1e-8)
        if d:
            return C.viol('poisoned', f'{where}the same call without faults then gives {d}', [run], **kw)
        return C.ok([run], **kw)
    return C.guarded(ctx, 'failing worker', judge)


def shrink(spec):
    m = spec['mesh']
    for ps in O.shrink_list(m['parts'], 1):
        names = {p['name'] for p in ps}
        yield dict(spec, mesh=dict(m, parts=ps), adds=[a for a in spec['adds'] if a[1] in names])
    for t in (1, 2, 3):
        if spec['threads'] > t:
            yield dict(spec, threads=t)
    yield from C.sched_shrinks(spec)
