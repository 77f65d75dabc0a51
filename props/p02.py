"""P02: parallel axial interpolation gives the serial answer for every sample count, thread count and interleaving."""
from props import ops as O, common as C

PROPERTY = 'P02'
RULE = 'distinct (field, sample range, sample count, threads, schedule hash) tuples with at least two tasks'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME + ['the references are the same interpolation on one thread in a fresh process and the axial derivatives evaluated '
                          'in one call for all samples']


def plan(tier):
    return {'budget_s': 60 if tier == 'quick' else 480, 'max_runs': 1200 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    m, adds = O.gen_case2d(rng, n_parts=rng.choice([1, 2, 3]))
    z0 = round(rng.uniform(-4, 1), 3)
    spec = {'variant': rng.choice(['inst', 'inst', 'ship']), 'mesh': m, 'adds': adds, 'z': [z0, z0 + rng.choice([.01, 1., 3., 10.])],
            'N': rng.choice([None, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 200]) if rng.random() < .7 else rng.randint(2, 60),
            'sim': O.gen_sched(rng), 'threads': rng.choice([1, 2, 3, 4, 5, 8, 16, 31, 64]) if rng.random() < .7 else rng.randint(1, 24)}
    if rng.random() < .04:
        spec.update(variant='ship', N=rng.choice([300, 500, 512, 1000, 2049]))
    if rng.random() < .2:
        spec['sim']['cpus'] = rng.choice([1, 2, 3, 4, 6, 8, 16, 64, [None, None], [None, 12], [2, 16]])
        spec['threads'] = None
    if rng.random() < .1:
        spec['sim']['jumps'] = [[rng.randint(0, 3), rng.choice([-1e6, 3600.])]]
    if rng.random() < .2:
        spec['sim']['expire'] = rng.choice([.3, 1.])
    if spec['variant'] == 'ship':
        spec['sim'].update(c_yields=False, gap=rng.choice([3, 10, 30, 100]))
        if spec['sim']['granularity'] == 'none':
            spec['sim']['granularity'] = 'line'
    return spec


def execute(ctx, spec):
    def judge():
        import numpy as np
        C.set_threads(1)
        env = O.build([['m', spec['mesh']], ['e', {'type': 'exc', 'mesh': 'm', 'adds': spec['adds']}]])
        st = C.fork_outcome(ctx, lambda: O.run_op(env, {'op': 'solve', 'o': 'e'}))
        if st[0] != 'ok':
            return C.ok([], probes={'no_field': 1})
        env['f'] = st[1]
        op = {'op': 'interp', 'o': 'f', 'z': spec['z'], 'N': spec['N']}
        before = C.snap(ctx, {'f': env['f']})
        ref = C.fork_outcome(ctx, lambda: O.canon(O.run_op(env, op)))
        C.set_threads(spec['threads'])

        def work():
            hold = {}

            def go():
                hold['a'] = O.run_op(env, op)
                return O.canon(hold['a'])
            run = C.run_sim(ctx, sim, go)
            bad = None
            if run['res'][0] == 'ok':
                a = hold['a']
                for kind in ('electrostatic', 'magnetostatic'):
                    z = np.array(a.z)
                    want = getattr(env['f'], f'get_{kind}_axial_potential_derivatives')(z)
                    got = getattr(a, kind + '_coeffs')[:, :, 5]
                    bad = bad or O.diff(np.array(got), np.array(want[:-1]), 1e-7)
                    pot = np.array([getattr(a, kind + '_potential_at_point')(np.array([0., 0., t])) for t in z[:-1]])
                    bad = bad or O.diff(pot, want[:-1, 0].copy(), 1e-6)
                    if bad:
                        bad = f'{kind} samples {bad}'
            return run, O.snapshot({'f': env['f']}), bad
        try:
            sim = C.aim(ctx, spec['sim'], lambda: O.run_op(env, op) and None)
            run, after, bad = C.call(ctx, work)
        except C.Child as e:
            return C.child_verdict(e, 'parallel interpolation')
        res = run['res']
        probes = {'N_none': int(spec['N'] is None), 'fewer_samples_than_threads': int(spec['N'] is not None and (spec['threads'] or 0) > spec['N']),
                  'serial_raises': int(ref[0] == 'exc')}
        kw = dict(probes=probes, execs=4)
        if run['stats']['tasks'] > 1:
            kw['sig'] = C.hsh([spec['mesh'], spec['adds'], spec['z'], spec['N'], spec['threads'], spec['sim'].get('cpus'), run['stats']['hash']])
        where = f'N={spec["N"]} threads={spec["threads"]} cpus={spec["sim"].get("cpus")}: '
        if res[0] == 'ok':
            if ref[0] == 'exc':
                return C.viol('answer-instead-of-error', f'{where}serial raises {ref[1]}', [run], **kw)
            d = O.diff(res[1], ref[1], 1e-9)
            if d:
                return C.viol('wrong-interpolation', where + d, [run], **kw)
            if bad:
                return C.viol('samples-misplaced', where + bad, [run], **kw)
        elif ref[0] == 'ok' and not run['stats']['faults'].get('timed_wait_expires'):
            return C.viol('interpolation-raises', f'{where}{res[1]}: {res[2]}', [run], **kw)
        d = O.diff_snap(after, before)
        if d:
            return C.viol('input-changed', d, [run], **kw)
        return C.ok([run], **kw)
    return C.guarded(ctx, 'interpolation', judge)


def shrink(spec):
    m = spec['mesh']
    for ps in O.shrink_list(m['parts'], 1):
        names = {p['name'] for p in ps}
        yield dict(spec, mesh=dict(m, parts=ps), adds=[a for a in spec['adds'] if a[1] in names])
    for t in (2, 3, 4, 5, 8):
        if isinstance(spec['threads'], int) and spec['threads'] > t:
            yield dict(spec, threads=t)
    for n in (2, 3, 4, 5, 8, 16):
        if spec['N'] and spec['N'] > n:
            yield dict(spec, N=n)
    yield from C.sched_shrinks(spec)
