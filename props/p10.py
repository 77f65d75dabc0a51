"""P10: an exception raised by a user's function reaches the caller, only that caller, and leaves nothing behind."""
import numpy as np
from props import ops as O, common as C, p06, p04

PROPERTY = 'P10'
RULE = 'distinct (operations, failing calls, schedule hash) triples in which at least one user function raised'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME


def plan(tier):
    return {'budget_s': 60 if tier == 'quick' else 480, 'max_runs': 3000 if tier == 'quick' else 60000, 'batch': 6, 'minimise_s': 60}


KINDS = ['trace', 'trace', 'solve', 'solve', 'meshsize', 'meshsize', 'map', 'average', 'irregular', 'pathfun']
EXC = ['ValueError', 'KeyError', 'ZeroDivisionError', 'MemoryError', 'KeyboardInterrupt', 'StopIteration', 'UserError', 'OSError', 'AssertionError',
       'TypeError', 'AttributeError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'GeneratorExit', 'SystemExit', 'StopAsyncIteration', 'RecursionError',
       'FloatingPointError', 'TimeoutError', 'EOFError', 'BaseException', 'Exception', 'Warning', 'NameError', 'ImportError']


class UserError(Exception):
    pass


def gen_item(rng, j, deep=True):
    k = rng.choice(KINDS)
    it = {'kind': k, 'frac': rng.choice([0., .999, rng.random(), rng.random()]), 'exc': rng.choice(EXC), 'fail': rng.random() < .75}
    if k == 'trace':
        it.update(k=[round(rng.uniform(-1e3, 1e3), 1), round(rng.uniform(-1e3, 1e3), 1), 0.0], p=[.1, 0., round(rng.uniform(-2.3, -2.1), 3)],
                  d=[round(rng.uniform(-.1, .1), 3), .02, rng.choice([-1., 1.])], re=rng.random() < .15)
    elif k == 'solve':
        d3 = rng.random() < .2
        m, adds = O.gen_case3d(rng, n_parts=1, kinds='vfun') if d3 else O.gen_case2d(rng, n_parts=rng.choice([1, 2]), ms=rng.choice([1., 10.]), kinds='vfun')
        if d3:
            m['parts'][0]['ms'] = 10.
        adds = [['vfun', a[1], a[2] if isinstance(a[2], list) else [1., 2., 3.]] for a in adds]
        it.update(mesh=m, adds=adds, sym='3d' if d3 else 'rz')
    elif k == 'meshsize':
        if rng.random() < .5:
            it['part'] = O.gen_part2d(rng, 0, 'q')
        else:
            it['part'] = p06.surf_part(rng, 0, 'q')
        it['ms'] = [rng.choice([.8, 1.6]), .1]
    elif k == 'map':
        x = rng.random()
        it['part'] = O.gen_part2d(rng, 0, 'q') if x < .5 else p06.surf_part(rng, 0, 'q')
        it['of'] = rng.choice(['mesh', 'geom'])
    elif k == 'average':
        it['part'] = O.gen_part2d(rng, 0, 'q')
    if deep and rng.random() < .3:
        # one of the calls of the user function does something itself, and handles its exceptions
        it['inner'] = dict(gen_item(rng, j, False), at=rng.random())
        if rng.random() < .5 and k != 'solve':
            it['inner'].update({a: b for a, b in it.items() if a not in ('inner', 'frac', 'exc')}, fail=rng.random() < .75)
    return it


def gen(rng, tier, i):
    cls = [[gen_item(rng, j) for j in range(rng.choice([1, 2, 3]))] for c in range(rng.choice([1, 2, 2, 3]))]
    s = O.gen_sched(rng, threads_c=rng.random() < .3)
    if s['granularity'] == 'none':
        s['granularity'] = 'line'
    return {'variant': rng.choice(['inst', 'ship']) if not s['c_yields'] else 'inst', 'block': rng.choice([None, 17, 100]),
            'clients': cls, 'sim': s, 'threads': rng.choice([1, 1, 3])}


def do(it, hook):
    """Performs the operation; hook() is called at the start of every call of the user function."""
    G, M, E, S, I, TR, F, B = O.T()
    k = it['kind']
    if k == 'trace':
        f0 = O.user_field(it['k'])

        def f(*a):
            hook()
            if it.get('re') and a[2] < -2.31:
                O.UserTracer(f0, [[-.3, .3], [-.3, .3], [-2.25, -2.15]])(np.array([.1, 0., -2.2]), TR.velocity_vec(1000., [0., 0., -1.]), 1e-7)
            return f0(*a)
        b = [[-.3, .3], [-.3, .3], [-2.5, -2.]]
        return O.UserTracer(f, b)(np.array(it['p']), TR.velocity_vec(1000., it['d']), 1e-7)
    if k == 'solve':
        e = E.Excitation(O.mkmesh(it['mesh']), E.Symmetry.THREE_D if it['sym'] == '3d' else E.Symmetry.RADIAL)
        for _, n, v in it['adds']:
            def f(x, y, z, v=v):
                hook()
                return v[0] + v[1]*x + v[2]*z
            e.add_voltage(**{n: f})
        return S.solve_direct(e)
    if k == 'meshsize':
        g = O.mksurf(it['part']) if O.is_surface(it['part']) else O.mkpath(it['part'])
        a, b = it['ms']

        def f(x, y, z):
            hook()
            return a + b*abs(z)
        return g.mesh(mesh_size=f)
    if k == 'map':
        g = O.mksurf(it['part']) if O.is_surface(it['part']) else O.mkpath(it['part'])

        def f(p):
            hook()
            return np.array([p[0] + .1*p[2], p[1], p[2]])
        if it['of'] == 'mesh':
            return g.mesh(mesh_size=2.).map_points(f)
        return g.map_points(f).mesh(mesh_size=2.)
    if k == 'average':
        def f(p):
            hook()
            return 2*p[0] + p[2]
        return O.mkpath(it['part']).average(f)
    if k == 'irregular':
        def f(u):
            hook()
            return [1.0 + .3*u, 0., u**2]
        return G.Path.from_irregular_function(f, N=20).mesh(mesh_size=.5)
    if k == 'pathfun':
        def f(u):
            hook()
            return np.array([1. + .3*u, 0., .5*u])
        return G.Path(f, 1.5).mesh(mesh_size=.3)
    raise ValueError(k)


def make_exc(name, msg):
    if name == 'UserError':
        return UserError(msg)
    import builtins
    return getattr(builtins, name)(msg)


def attempt(it, n, msg, inner=None, log=None):
    """One operation whose user function fails at its n-th call.  At one of its calls before that
    it performs `inner` = (call, operation, failing call)."""
    seen = {'k': 0, 'e': None}

    def hook():
        k = seen['k']
        seen['k'] += 1
        if inner is not None and k == inner[0]:
            log.append(attempt(inner[1], inner[2], msg + ', inner'))
        if k == n:
            seen['e'] = make_exc(it['exc'], msg)
            raise seen['e']
    try:
        v = do(it, hook)
    except BaseException as e:
        chain, x = [], e
        while x is not None and len(chain) < 20:
            chain.append(x)
            x = x.__cause__ or x.__context__
        return ('exc', any(x is seen['e'] for x in chain) if seen['e'] is not None else None, type(e).__name__, str(e)[:200], seen['e'] is not None)
    return ('ok', O.canon(v), seen['e'] is not None)


def execute(ctx, spec):
    def judge():
        C.set_threads(1)
        def plan_of(it):
            def healthy():
                c = [0]

                def hook():
                    c[0] += 1
                return O.canon(do(it, hook)), c[0]
            st = C.fork_outcome(ctx, healthy)
            return int(it['frac']*st[1][1]) if st[0] == 'ok' and st[1][1] and it['fail'] else None, st
        where, deeper = {}, {}
        for ci, cl in enumerate(spec['clients']):
            for j, it in enumerate(cl):
                where[ci, j] = plan_of(it)
                st = where[ci, j][1]
                if it.get('inner') and st[0] == 'ok' and st[1][1]:
                    q = it['inner']
                    deeper[ci, j] = (int(q['at']*st[1][1]), q, *plan_of(q))

        def client(ci):
            out = []
            for j, it in enumerate(spec['clients'][ci]):
                n = where[ci, j][0]
                inner, la, lb = deeper.get((ci, j)), [], []
                a = attempt(it, n, f'client {ci} item {j}', inner, la) if n is not None else None
                out.append((a, attempt(it, None, '', inner, lb), la + lb))
            return out

        def work():
            C.set_threads(spec['threads'])
            return C.run_sim(ctx, sim, together)

        def together():
            return C.clients([(lambda ci=ci: client(ci)) for ci in range(len(spec['clients']))])
        C.set_threads(spec['threads'])
        try:
            sim = C.aim(ctx, spec['sim'], together)
            run = C.call(ctx, work)
        except C.Child as e:
            return C.child_verdict(e, 'failing user functions')
        pr = {}
        kw = dict(probes=pr, execs=2)
        if run['res'][0] != 'ok':
            return C.viol('raises', str(run['res'][1:3]), [run], **kw)
        raised = 0
        for ci, res in enumerate(run['res'][1]):
            if res[0] != 'ok':
                return C.viol('client-dies', f'client {ci}: {res[1]}: {res[2]}', [run], **kw)
            for j, ((a, b, inside), it) in enumerate(zip(res[1], spec['clients'][ci])):
                n, ref = where[ci, j]
                for x in inside:
                    q, qn, qr = deeper[ci, j][1:]
                    w = f'client {ci}, inside a user function of {it["kind"]}: {q["kind"]} with a user function that raises {q["exc"]} at call {qn}: '
                    pr['inside_' + it['kind']] = pr.get('inside_' + it['kind'], 0) + 1
                    if x[0] == 'ok' and x[2]:
                        return C.viol('swallowed', w + 'the call returned normally', [run], **kw)
                    if x[0] == 'exc' and x[1] is False:
                        return C.viol('wrong-exception', w + f'the caller gets {x[2]}: {x[3]}', [run], **kw)
                    if x[0] == 'exc' and not x[4] and qr[0] == 'ok':
                        return C.viol('foreign-exception', w + f'it was never reached, yet the caller gets {x[2]}: {x[3]}', [run], **kw)
                    if x[0] == 'ok' and qr[0] == 'ok':
                        d = O.diff(x[1], qr[1][0], 1e-8)
                        if d:
                            return C.viol('poisoned', w + d, [run], **kw)
                    raised += x[-1]
                w = f'client {ci}, {it["kind"]} with a user function that raises {it["exc"]} at call {n}: '
                pr['op_' + it['kind']] = pr.get('op_' + it['kind'], 0) + 1
                if a is not None:
                    if a[0] == 'ok' and a[2]:
                        return C.viol('swallowed', w + 'the call returned normally', [run], **kw)
                    if a[0] == 'exc' and a[1] is False:
                        return C.viol('wrong-exception', w + f'the caller gets {a[2]}: {a[3]}', [run], **kw)
                    if a[0] == 'exc' and not a[4]:
                        return C.viol('foreign-exception', w + f'it was never reached, yet the caller gets {a[2]}: {a[3]}', [run], **kw)
                    if a[-1]:
                        raised += 1
                        pr['raised_' + it['exc']] = pr.get('raised_' + it['exc'], 0) + 1
                w = f'client {ci}, {it["kind"]} with a healthy user function' + (' after one that raised: ' if a else ': ')
                if ref[0] == 'ok' and b[0] != 'ok':
                    return C.viol('poisoned' if a else 'foreign-exception', w + f'{b[2]}: {b[3]}', [run], **kw)
                if ref[0] == 'ok':
                    d = O.diff(b[1], ref[1][0], 1e-8)
                    if d:
                        return C.viol('poisoned', w + d, [run], **kw)
        if raised:
            kw['sig'] = C.hsh([spec['clients'], run['stats']['hash']])
            kw['faults'] = {'user_function_raises': raised}
        return C.ok([run], **kw)
    return C.guarded(ctx, 'user functions', judge)


def shrink(spec):
    for cl in O.shrink_list(spec['clients'], 1):
        yield dict(spec, clients=cl)
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
        for j, it in enumerate(p):
            if it['fail']:
                yield dict(spec, clients=spec['clients'][:i] + [p[:j] + [dict(it, fail=False)] + p[j+1:]] + spec['clients'][i+1:])
    if spec['threads'] > 1:
        yield dict(spec, threads=1)
    yield from C.sched_shrinks(spec)
