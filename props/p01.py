"""P01: the parallel field solve gives the serial answer for every number of threads and every interleaving."""
import os
from props import ops as O, common as C

PROPERTY = 'P01'
RULE = 'distinct (geometry/excitation/threads spec, schedule hash) pairs whose simulated run used at least two tasks and at least one element'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME + ['the reference is the same solve on one thread in a fresh process']


def plan(tier):
    return {'budget_s': 75 if tier == 'quick' else 560, 'max_runs': 1500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


THREADS = [1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 31, 32, 64, 70]


def gen(rng, tier, i):
    big = rng.random() < .06
    d3 = rng.random() < .22
    op = 'superpos' if rng.random() < .2 else 'solve'
    if d3:
        m, adds = O.gen_case3d(rng)
    else:
        m, adds = O.gen_case2d(rng, ms=rng.choice([.02, .035, .02, .035, .005]) if big else None, kinds='elec' if big else None,
                               n_parts=rng.choice([1, 2]) if big else None)
    if op == 'superpos' and any(a[0] == 'vfun' for a in adds):
        op = 'solve'
    spec = {'variant': rng.choice(['inst', 'inst', 'ship']) if not big else 'ship', 'mesh': m, 'sym': '3d' if d3 else 'rz', 'adds': adds, 'op': op,
            'sim': O.gen_sched(rng), 'threads': rng.choice(THREADS) if rng.random() < .8 else rng.randint(1, 40)}
    if rng.random() < .2:
        # the thread count comes from the (simulated) number of CPUs
        spec['sim']['cpus'] = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 14, 16, 24, 64, 128, [None, None], [None, 1], [None, 7], [2, 16], [5, 64]])
        spec['threads'] = None
    elif rng.random() < .04:
        spec['threads'] = rng.choice(['0', '-2', '3.5', 'abc'])
    if rng.random() < .15:
        spec['sim']['jumps'] = [[rng.randint(0, 6), rng.choice([-1e6, -5., 3600., 1e7])]]
    if rng.random() < .2:
        spec['sim']['expire'] = rng.choice([.3, 1.])
    if spec['variant'] == 'ship' or big:
        spec['sim']['c_yields'] = False
        spec['sim']['gap'] = rng.choice([3, 10, 30, 100])
        if spec['sim']['granularity'] == 'none':
            spec['sim']['granularity'] = 'line'
    if d3 and spec['sim']['c_yields'] and spec['sim']['granularity'] == 'instr':
        spec['sim']['granularity'] = 'line'
    return spec


def execute(ctx, spec):
    def judge():
        env = O.build([['m', spec['mesh']], ['e', {'type': 'exc', 'mesh': 'm', 'sym': spec['sym'], 'adds': spec['adds']}]])
        op = {'op': spec['op'], 'o': 'e'}
        before = C.snap(ctx, env)
        C.set_threads(1)
        ref = C.fork_outcome(ctx, lambda: O.canon(O.run_op(env, op)))
        C.set_threads(spec['threads'])

        def work():
            return C.run_sim(ctx, sim, lambda: O.canon(O.run_op(env, op))), O.snapshot(env)
        bad = isinstance(spec['threads'], str) and not spec['threads'].isdigit() or spec['threads'] == '0'
        try:
            sim = C.aim(ctx, spec['sim'], lambda: O.run_op(env, op) and None)
            run, after = C.call(ctx, work)
        except C.Child as e:
            return C.child_verdict(e, 'parallel solve')
        res = run['res']
        n = sum(len(v[1][2]) for v in [ref[1][1]] if ref[0] == 'ok' and v[0] == 'EPC') if spec['op'] == 'solve' and ref[0] == 'ok' else -1
        probes = {'threads_%s' % ('bad' if bad else 'auto' if spec['threads'] is None else 'set'): 1, 'op_' + spec['op']: 1, 'dim_' + spec['sym']: 1,
                  'more_threads_than_elements': int(not bad and run['stats']['tasks']-1 > n >= 0), 'serial_raises': int(ref[0] == 'exc')}
        kw = dict(probes=probes, execs=3)
        if ref[0] == 'ok' and run['stats']['tasks'] > 1:
            kw['sig'] = C.hsh([spec['mesh'], spec['adds'], spec['op'], spec['threads'], spec['sim'].get('cpus'), run['stats']['hash']])
        if res[0] == 'ok':
            if ref[0] == 'exc':
                return C.viol('answer-instead-of-error', f'the serial solve raises {ref[1]}, the parallel one returned a field', [run], **kw)
            d = O.diff(res[1], ref[1], 1e-8)
            if d:
                return C.viol('wrong-field', f'threads={spec["threads"]} cpus={spec["sim"].get("cpus")}: {d}', [run], **kw)
        elif ref[0] == 'ok' and not bad and not run['stats']['faults'].get('timed_wait_expires'):
            return C.viol('solve-raises', f'threads={spec["threads"]} cpus={spec["sim"].get("cpus")}: {res[1]}: {res[2]} (serial solve succeeds)', [run], **kw)
        d = O.diff_snap(after, before)
        if d:
            return C.viol('input-changed', d, [run], **kw)
        return C.ok([run], **kw)
    return C.guarded(ctx, 'solve', judge)


def shrink(spec):
    m = spec['mesh']
    for ps in O.shrink_list(m['parts'], 1):
        names = {p['name'] for p in ps}
        yield dict(spec, mesh=dict(m, parts=ps), adds=[a for a in spec['adds'] if a[1] in names])
    for t in (2, 3, 4, 5, 8):
        if isinstance(spec['threads'], int) and spec['threads'] > t:
            yield dict(spec, threads=t)
    if m.get('ms') and m['ms'] < 5:
        yield dict(spec, mesh=dict(m, ms=10.))
    yield from C.sched_shrinks(spec)
