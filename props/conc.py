"""Generic judgement for concurrent clients: every client must observe exactly what it observes
when it is the only one, and shared objects stay as they were."""
from props import ops as O, common as C


LONG = 120_000_000
LONG_PY = 400_000


def lone(ctx, env, prog, spec, flat=True):
    """The program alone in a fresh process, in which callbacks do not re-enter the library; also
    how many yield points it passes."""
    def f():
        C.set_threads(1)
        O.FLAT[0] = flat
        s = {'mode': 'none', 'granularity': spec['sim']['granularity'], 'c_yields': spec['sim']['c_yields'], 'cap': LONG if spec['sim']['c_yields'] else LONG_PY}
        run = C.run_sim(ctx, s, lambda: O.run_program(dict(env), prog))
        return run['res'][1], run['stats']['events'], O.NESTED[0]
    return C.call(ctx, f)


def execute(ctx, spec, tol=1e-9, what='clients', probes=None, check_shared=True):
    def judge():
        C.set_threads(1)
        O.NESTED[0] = False
        env = O.build(spec['setup'])
        before = C.snap(ctx, env)
        # clients may use different call orders, but each has private result names
        progs = spec['clients']
        try:
            refs, cost, nested = zip(*[lone(ctx, env, p, spec) for p in progs])
            if any(nested):
                runs, cost, _ = zip(*[lone(ctx, env, p, spec, False) for p in progs])
                for i, (got, want) in enumerate(zip(runs, refs)):
                    d = O.diff_outcomes(got, want, progs[i], tol, f'client {i}, alone, ')
                    if d:
                        return C.viol('nesting-shows', d, [])
        except C.Child as e:
            if e.status == 'nocap':
                return C.ok([], probes={'too_long_to_judge': 1})
            raise

        def work():
            C.set_threads(spec.get('threads', 1))
            return C.run_sim(ctx, sim, together), O.snapshot(env)

        def together():
            return C.clients([(lambda p=p: O.run_program(dict(env), p)) for p in progs])

        def rehearse():
            C.set_threads(spec.get('threads', 1))
            try:
                return C.aim(ctx, dict(spec['sim'], cap=4*sum(cost) + 5_000_000), together)
            finally:
                C.set_threads(1)
        try:
            sim = rehearse()
            run, after = C.call(ctx, work)
        except C.Child as e:
            return C.child_verdict(e, what)
        pr = {'clients_%d' % min(len(progs), 4): 1, 'operations': sum(len(p) for p in progs),
              'operations_raising': sum(o[0] == 'exc' for ref in refs for o in ref), 'switched_mid_operation': int(run['stats']['preempts'] > 0),
              'switched_inside_c': int(run['stats']['c_preempts'] > 0), 'schedule_' + sim['mode']: 1}
        for p in progs:
            for op in p:
                pr['op_' + op['op']] = pr.get('op_' + op['op'], 0) + 1
        kw = dict(probes=dict(pr, **(probes or {})), execs=2+len(progs))
        if run['stats']['preempts'] > 0:
            kw['sig'] = C.hsh([spec['setup'], progs, run['stats']['hash']])
        res = run['res']
        if res[0] == 'exc':
            return C.viol('raises', f'{what}: {res[1]}: {res[2]}', [run], **kw)
        for i, (got, want) in enumerate(zip(res[1], refs)):
            if got[0] == 'exc':
                return C.viol('client-dies', f'client {i}: {got[1]}: {got[2]}', [run], **kw)
            d = O.diff_outcomes(got[1], want, progs[i], tol, f'client {i}, ')
            if d:
                return C.viol('differs-from-lone-caller', d, [run], **kw)
        if check_shared:
            d = O.diff_snap(after, before, 0.0)
            if d:
                return C.viol('shared-object-changed', d, [run], **kw)
        return C.ok([run], **kw)
    return C.guarded(ctx, what, judge)


def shrink(spec):
    for cl in O.shrink_list(spec['clients'], 1):
        yield dict(spec, clients=cl)
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
    used = set()

    def walk(o):
        if isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
        elif isinstance(o, str):
            used.add(o)
    walk(spec['clients'])
    need = set(used)
    for n, d in reversed(spec['setup']):
        if n in need or d['type'] == 'bounds' and d['field'] in need:
            walk([v for k, v in d.items() if k not in ('type', 'parts')])
            need |= used
    kept = [[n, d] for n, d in spec['setup'] if n in need or d['type'] == 'bounds' and d['field'] in need]
    if len(kept) < len(spec['setup']):
        yield dict(spec, setup=kept)
    if spec.get('threads', 1) not in (1, 2):
        yield dict(spec, threads=1)
        yield dict(spec, threads=2)
    yield from C.sched_shrinks(spec)
