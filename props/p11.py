"""P11: what a process did before does not matter: each call answers as in a fresh process."""
import pickle
import random
from props import ops as O, common as C, mixed

PROPERTY = 'P11'
RULE = 'distinct (history with its failures, probe program) pairs whose history ran at least one operation and whose probe returned a value'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = ['the reference is the probe program run in a process forked before the history started']


def plan(tier):
    return {'budget_s': 75 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, info = mixed.gen_env(rng)
    hist = mixed.program(rng, info, rng.choice([1, 3, 6, 10]), 'h')
    prog = mixed.program(rng, info, rng.choice([1, 2, 3]), 'x')
    if rng.random() < .35:
        # the probe repeats (part of) the history, perhaps with the steps in another order
        steps = [hist[j:] for j in range(len(hist))]
        prog = (steps[0] if rng.random() < .5 else rng.choice(steps)) + prog
    if rng.random() < .3:
        # requests that resemble earlier ones, for the same objects
        base = [q for q in hist if q['op'] not in ('bad', 'threads')]
        if base:
            hist = hist + mixed.again(rng, base, rng.choice([0, 0, 1, 2]))
            prog = mixed.again(rng, base, rng.choice([1, 2, 4])) + (prog if rng.random() < .3 else [])
    twin = rng.random() < .2
    if twin:
        # the same requests but for a number that is nearly the same
        base = mixed.program(rng, info, rng.choice([1, 2, 4]), 'n', rng.choice([['field'], ['field'], ['field'], None]))
        prog = O.renamed([O.near(rng, q) for q in base], 'y')
        hist = (hist if rng.random() < .3 else []) + base
    x = rng.random()
    if x < .4 and not twin:
        # similar objects come and go
        k = rng.getrandbits(30)
        hist = (hist if rng.random() < .3 else []) + mixed.churn(rng, info, rng.choice([1, 2, 4, 8]), 'k', k)
        prog = mixed.churn(rng, info, rng.choice([1, 2, 4]), 'x', k)
    s = O.gen_sched(rng, threads_c=False)
    s['granularity'] = 'line'
    s['gap'] = rng.choice([30, 300])
    spec = {'variant': rng.choice(['ship', 'inst']), 'block': None, 'setup': setup, 'hist': hist, 'prog': prog, 'sim': s, 'threads': rng.choice([1, 1, 3]),
            'faults': []}
    if spec['variant'] == 'inst':
        spec['block'] = rng.choice([None, 200])
    x = rng.random()
    if x < .6:
        spec['faults'] = [{'kind': 'raise', 'exc': rng.choice(['interrupt', 'memory', 'os', 'error']), 'frac': rng.random(), 'task': 'main', 'repeat': False,
                            'by': rng.choice(['site', 'site', 'passage'])}]
        if rng.random() < .2:
            spec['faults'][0].update(task='worker', files=['backend/'], exc='memory')
            spec['threads'] = 3
    elif x < .7:
        spec['faults'] = [{'kind': 'thread_start', 'n': rng.choice([0, 1, 2, 5])}]
        spec['threads'] = 3
    return spec


def execute(ctx, spec):
    def judge():
        setup, hist, prog = spec['setup'], spec['hist'], spec['prog']
        C.set_threads(1)
        env = O.build(setup)
        before = C.snap(ctx, env)
        C.set_threads(spec['threads'])
        ref = C.call(ctx, lambda: hermetic(ctx, dict(env), prog))
        faults = [dict(f) for f in spec['faults']]
        for f in faults:
            if f['kind'] == 'raise' and 'n' not in f:
                dry = C.call(ctx, lambda: C.run_sim(ctx, dict(spec['sim'], mode='none', faults=[dict(f, n=-1)]), lambda: history(env, hist) and None))
                f.update(C.aim_fault(random.Random(spec['sim']['seed']), f, dry['stats']))

        def work():
            state = C.process_state()
            run = C.run_sim(ctx, dict(spec['sim'], faults=faults), lambda: history(env, hist))
            after = O.snapshot(env)
            after['_process'] = C.state_diff(C.process_state(), state)
            return run, after, O.run_program(dict(env), prog)
        try:
            run, after, got = C.call(ctx, work)
        except C.Child as x:
            return C.child_verdict(x, 'program with a history')
        h = run['res'][1] if run['res'][0] == 'ok' else []
        fired = sum(run['stats']['faults'].values())
        pr = {'history_operations': len(h), 'history_failures': sum(o != 'ok' for o in h), 'faults_fired': fired,
              'probe_operations': len(prog), 'probe_raising': sum(o[0] == 'exc' for o in ref)}
        kw = dict(probes=pr, execs=3)
        if h and any(o[0] == 'ok' for o in ref):
            kw['sig'] = C.hsh([setup, hist, prog, faults, spec['threads']])
        d = after.pop('_process') or O.diff_snap(after, before)
        if d:
            return C.viol('history-changes-object', f'after {len(h)} operations with faults {faults} at {run["stats"]["fired"]}: {d}', [run], **kw)
        d = O.diff_outcomes(got, ref, prog, 1e-8)
        if d:
            return C.viol('history-shows', f'after {len(h)} operations with faults {faults} at {run["stats"]["fired"]}: {d}', [run], **kw)
        return C.ok([run], **kw)
    return C.guarded(ctx, 'history', judge)


def hermetic(ctx, env, prog):
    """The outcomes of a program each of whose operations runs in a process in which no other one has run
    (as far as the results can be sent from process to process)."""
    out = []
    for op in prog:
        if op['op'] == 'threads':
            out += O.run_program(env, [op])
            continue

        def one():
            e = dict(env)
            o = O.run_program(e, [op])
            try:
                return o, pickle.dumps(e[op['out']]) if op.get('out') and e.get(op['out']) is not None else None
            except Exception:
                return o, False
        o, p = C.call(ctx, one)
        out += o
        if p:
            env[op['out']] = pickle.loads(p)
        elif p is False:
            O.run_program(env, [op])
        elif op.get('out') and o[0][0] == 'ok':
            env[op['out']] = None
    return out


def history(env, hist):
    """Runs the history, whatever happens; a call that is interrupted is simply over.
    In the end the caller overwrites the arrays it was given."""
    e = dict(env)
    out = []
    kept = []
    for op in hist:
        if op.get('o') is not None and e.get(op['o']) is None and op['o'] not in env:
            out.append('skipped')
            continue
        try:
            v = O.run_op(e, op)
            if not op.get('out'):
                O.scribble(op, v)
        except BaseException as x:
            out.append(type(x).__name__)
            continue
        out.append('ok')
        if op.get('out'):
            e[op['out']] = v
            kept.append((op, v))
    for op, v in kept:
        O.scribble(op, v)
    return out


def shrink(spec):
    for q in O.shrink_list(spec['hist'], 0):
        yield dict(spec, hist=q)
    yield from mixed.shrink(spec, ('prog', 'hist'))
    if spec['faults']:
        yield dict(spec, faults=[])
    if spec['threads'] > 1:
        yield dict(spec, threads=1)
    yield from C.sched_shrinks(spec)
