"""P15: processes: a process forked while other threads are inside the library works, and objects
sent from process to process behave like the originals."""
import os
import pickle
import time
from props import ops as O, common as C, mixed

PROPERTY = 'P15'
RULE = 'distinct (set-up, client programs, programs of the forked processes, schedule hash) tuples with at least one fork or one transported object'
REAL = C.REAL_LIB + ['real forked processes and real pickling']
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME + ['one BLAS thread, as its own threads are outside the simulation']


def plan(tier):
    return {'budget_s': 70 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, info = mixed.gen_env(rng)
    n = rng.choice([0, 1, 1, 2])
    cls = [mixed.program(rng, info, rng.choice([1, 2, 3]), f'c{c}_') for c in range(n)]
    forks = []
    for k in range(rng.choice([1, 1, 2])):
        allow = rng.choice([None, None, ['solve', 'interp'], ['mesh', 'geom', 'meshop'], ['field']])
        q = {'yields': rng.choice([0, 1, 3, 10, 30]), 'prog': mixed.program(rng, info, rng.choice([1, 2, 3]), f'k{k}_', allow),
             'ship_in': rng.random() < .5, 'threads': rng.choice([1, 1, 2, 4, 8])}
        if rng.random() < .4:
            q['pause'] = rng.choice([1, 3, 10, 30, 100])         # the processes take turns
        forks.append(q)
    s = O.gen_sched(rng, threads_c=rng.random() < .4)
    if s['granularity'] == 'none':
        s['granularity'] = 'line'
    return {'variant': 'inst' if s['c_yields'] else rng.choice(['inst', 'ship']), 'setup': setup, 'clients': cls, 'forks': forks,
            'pre': mixed.program(rng, info, 1, 'p', ['solve', 'interp', 'mesh']) if rng.random() < .4 else [],
            'resume': rng.choice([1, 3, 10, 30]), 'sim': s, 'threads': rng.choice([1, 2, 4]), 'back': rng.random() < .6}


SHIP = ('Mesh', 'Excitation', 'FieldRadialBEM', 'Field3D_BEM', 'FieldRadialAxial', 'Field3DAxial')


def shippable(o):
    if type(o).__name__ == 'Excitation':
        return not any(callable(v) for _, v in o.excitation_types.values())
    return type(o).__name__ in SHIP


def ship(o):
    return pickle.loads(pickle.dumps(o))


def probe(o):
    """What a receiver of an object can see of it and do with it."""
    n = type(o).__name__
    out = [O.canon(o)]
    env = {'o': o}
    if n == 'Mesh':
        return out + O.run_program(env, [{'op': 'str', 'o': 'o'}, {'op': 'meshadd', 'a': 'o', 'b': 'o'}])
    if n == 'Excitation':
        return out + O.run_program(env, [{'op': 'active', 'o': 'o', 't': 'electrostatic'}, {'op': 'active', 'o': 'o', 't': 'magnetostatic'}, {'op': 'solve', 'o': 'o'}])
    return out + O.run_program(env, [{'op': 'ev', 'o': 'o', 'f': f, 'p': p} for f in ('electrostatic_potential_at_point', 'magnetostatic_field_at_point')
                                     for p in ([.03, 0., -.7], [.2, .1, 1.1])] +
                               [{'op': 'tracer', 'o': 'o', 'b': [[-.5, .5], [-.5, .5], [-2.3, -2.]], 'out': 't'},
                                {'op': 'trace', 'o': 't', 'p': [.1, 0., -2.1], 'eV': 1000., 'd': [0., .1, -1.], 'atol': 1e-7}])


def execute(ctx, spec):
    return C.guarded(ctx, 'forked processes', lambda: judge(ctx, spec))


def judge(ctx, spec):
    import simrt
    C.set_threads(1)
    env = O.build(spec['setup'])
    before = C.snap(ctx, env)
    cap = 120_000_000 if spec['sim']['c_yields'] else 1_500_000

    def measured(fn):
        def f():
            C.set_threads(1)
            t = simrt._real['monotonic']()
            run = C.run_sim(ctx, {'mode': 'none', 'granularity': spec['sim']['granularity'], 'c_yields': spec['sim']['c_yields'], 'cap': cap}, fn)
            return run['res'], run['stats']['events'], simrt._real['monotonic']() - t
        return C.call(ctx, f)

    def child_work(k):
        q = spec['forks'][k]
        e = {n: (ship(o) if q['ship_in'] and shippable(o) else o) for n, o in env.items()}
        out = O.run_program(e, q['prog'])
        back = {}
        if spec['back']:
            for op in q['prog']:
                o = e.get(op.get('out'))
                if o is not None and shippable(o):
                    back[op['out']] = o
        return out, back

    def plain_work(k):                     # the same program in this process's objects, nothing shipped
        e = dict(env)
        out = O.run_program(e, spec['forks'][k]['prog'])
        back = {}
        if spec['back']:
            for op in spec['forks'][k]['prog']:
                o = e.get(op.get('out'))
                if o is not None and shippable(o):
                    back[op['out']] = probe(o)
        return out, back

    try:
        refs = [measured(lambda p=p: O.run_program(dict(env), p)) for p in spec['clients']]
        krefs = [measured(lambda k=k: plain_work(k)) for k in range(len(spec['forks']))]
    except C.Child as e:
        if e.status == 'nocap':
            return C.ok([], probes={'too_long_to_judge': 1})
        return C.child_verdict(e, 'a process forked after the library was used')
    cost = sum(r[1] for r in refs) + 2*sum(r[1] for r in krefs)
    for r in refs + krefs:
        if r[0][0] != 'ok':
            return {'status': 'harness', 'detail': f'lone run: {r[0]}'}

    def forker():
        res, paused = [], []

        def ended(k, st, v):
            if st == 'timeout':
                return 'hang', krefs[k][2] > 2.0
            if st != 'ok':
                return 'died', st, str(v)[-600:]
            if v['res'][0] != 'ok':
                return 'raised', v['res'][1:3], v['left']
            out, back = v['res'][1]
            return 'ok', out, {n: probe(o) for n, o in back.items()}, v['left']
        for k, q in enumerate(spec['forks']):
            for _ in range(q['yields']):
                simrt.lib.sim_yield_now()

            turns = ctx.Turns() if q.get('pause') else None

            def stop_once():
                for _ in range(q['pause']):
                    simrt.lib.sim_yield_now()
                turns.pause()

            def two_tasks():
                (st, *v), _ = C.clients([lambda: child_work(k), stop_once])
                if st != 'ok':
                    raise RuntimeError(str(v))
                return v[0]

            def in_child():
                simrt.S.stop()             # only this thread exists here: a new simulation with it alone
                C.set_threads(q['threads'])
                s = dict(spec['sim'], cap=8*cost + 5_000_000)
                if s['mode'] == 'list':
                    s.update(mode='none', decisions=[])
                elif s['mode'] == 'target':
                    s['mode'] = 'uniform'
                return C.run_sim(ctx, s, two_tasks if turns else lambda: child_work(k))
            h = ctx.fork_start(in_child, turns=turns)
            if turns:
                turns.wait(80 if krefs[k][2] > 2.0 else 40)
                paused.append((k, h, turns))
                res.append(None)
            else:
                res.append(ended(k, *ctx.fork_join(h, 80 if krefs[k][2] > 2.0 else 40)))
        for k, h, turns in paused:
            for _ in range(spec.get('resume', 1)):
                simrt.lib.sim_yield_now()
            turns.resume()
            res[k] = ended(k, *ctx.fork_join(h, 80 if krefs[k][2] > 2.0 else 40))
        return res

    def work():
        C.set_threads(spec['threads'])
        O.run_program(dict(env), spec['pre'])
        fns = [(lambda p=p: O.run_program(dict(env), p)) for p in spec['clients']] + [forker]
        run = C.run_sim(ctx, sim, lambda: C.clients(fns))
        return run, O.snapshot(env)
    try:
        C.set_threads(spec['threads'])
        sim = C.aim(ctx, dict(spec['sim'], cap=4*cost + 10_000_000), lambda: C.clients([(lambda p=p: O.run_program(dict(env), p)) for p in spec['clients']]))
        run, after = C.call(ctx, work, timeout=95)
    except C.Child as e:
        return C.child_verdict(e, 'forking process')
    pr = {'forks': len(spec['forks']), 'processes_taking_turns': sum(bool(q.get('pause')) for q in spec['forks']), 'clients_%d' % len(spec['clients']): 1, 'shipped_in': sum(q['ship_in'] for q in spec['forks']),
          'switched_mid_operation': int(run['stats']['preempts'] > 0)}
    kw = dict(probes=pr, execs=2 + len(spec['clients']) + 2*len(spec['forks']), faults={'fork': len(spec['forks'])},
              sig=C.hsh([spec['setup'], spec['clients'], spec['forks'], run['stats']['hash']]))
    if run['res'][0] != 'ok':
        return C.viol('raises', f'{run["res"][1:3]}', [run], **kw)
    *cl, fk = run['res'][1]
    for i, (got, want) in enumerate(zip(cl, refs)):
        if got[0] != 'ok':
            return C.viol('client-dies', f'client {i}: {got[1:]}', [run], **kw)
        d = O.diff_outcomes(got[1], want[0][1], spec['clients'][i], 1e-9, f'client {i}, ')
        if d:
            return C.viol('parent-disturbed', d, [run], **kw)
    if fk[0] != 'ok':
        return C.viol('transport', f'the forking client: {fk[1:]}', [run], **kw)
    for k, (got, want) in enumerate(zip(fk[1], krefs)):
        w = f'process forked at yield {spec["forks"][k]["yields"]}: '
        if got[0] == 'hang':
            if got[1]:
                return {'status': 'harness', 'detail': 'slow child'}
            return C.viol('child-hangs', w + 'does not come back', [run], **kw)
        if got[0] == 'died':
            if got[1] == 'exc':
                return C.viol('child-fails', w + got[2], [run], **kw)
            return C.viol('child-dies', w + {'deadlock': 'every task is blocked', 'nocap': 'no progress within the event limit'}.get(got[1], got[1]), [run], **kw)
        if got[0] == 'raised':
            return C.viol('child-fails', w + str(got[1]), [run], **kw)
        d = O.diff_outcomes(got[1], want[0][1][0], spec['forks'][k]['prog'], 1e-9, w)
        if d:
            return C.viol('child-differs', d, [run], **kw)
        for n, v in got[2].items():
            pr['transported_back'] = pr.get('transported_back', 0) + 1
            d = O.diff(v, want[0][1][1][n], 1e-9)
            if d:
                return C.viol('transport', f'{n}, sent back to the parent: {d}', [run], **kw)
    d = O.diff_snap(after, before, 0.0)
    if d:
        return C.viol('parent-disturbed', d, [run], **kw)
    return C.ok([run], **kw)


def shrink(spec):
    for key in ('clients', 'forks', 'pre'):
        for q in O.shrink_list(spec[key], 0 if key != 'forks' else 1):
            yield dict(spec, **{key: q})
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
    for i, f in enumerate(spec['forks']):
        def put(**kw):
            return dict(spec, forks=spec['forks'][:i] + [dict(f, **kw)] + spec['forks'][i+1:])
        for q in O.shrink_list(f['prog'], 1):
            yield put(prog=q)
        if f['ship_in']:
            yield put(ship_in=False)
        if f['yields']:
            yield put(yields=0)
        if f.get('pause'):
            yield put(pause=None)
        if f['threads'] > 1:
            yield put(threads=1)
    flat = dict(spec, all=[spec['clients'], spec['forks'], spec['pre']])
    for c in mixed.shrink(flat, ('all',)):
        if c['all'] == flat['all']:
            yield {k: v for k, v in c.items() if k != 'all'}
    if spec['back']:
        yield dict(spec, back=False)
    if spec['threads'] > 1:
        yield dict(spec, threads=1)
    yield from C.sched_shrinks(spec)
