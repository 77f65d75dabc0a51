"""P12: results are a function of the inputs: memory contents, clocks, CPU count, thread count and hash seeds do not show."""
from props import ops as O, common as C, mixed

PROPERTY = 'P12'
RULE = 'distinct (program, environment) pairs with at least one operation that returned a value'
REAL = C.REAL_LIB
STUB = ['contents of fresh heap memory and of unused stack: chosen by the simulator', 'clocks: virtual, with jumps',
        'CPU count and thread scheduling: decided by the simulator']
ASSUMPTIONS = ['out-of-bounds reads are visible up to 512 bytes past a heap block', 'an uninitialised local is visible when the compiler left it in memory or in a stack slot the simulator filled']


def plan(tier):
    return {'budget_s': 75 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, info = mixed.gen_env(rng)
    prog = mixed.program(rng, info, rng.choice([2, 3, 5]), 'x', ['field'] if rng.random() < .3 else None)
    s = O.gen_sched(rng)
    s['granularity'] = rng.choice(['line', 'none'])
    s['c_yields'] = False
    s['gap'] = 30
    env = {'fill': rng.choice(sorted(C.PATTERNS))}
    if rng.random() < .5:
        s['jumps'] = [[rng.randint(0, rng.choice([3, 12, 30])), rng.choice([-1e9, -3600., -.001, 86400., 1e9])] for _ in range(rng.choice([1, 3]))]
        s['clock_base'] = rng.choice([0., 1.0e9, 4.0e9, -1e6])
    if rng.random() < .5:
        s['cpus'] = rng.choice([1, 2, 3, 7, 64, 192, [None, None], [None, 6], [2, 64]])
        env['threads'] = None
    else:
        env['threads'] = rng.choice([1, 2, 5, 11])
    if rng.random() < .3:
        env['log'] = rng.choice([0, 0, 1, 2, 3])
    if i % 16 == 5:
        env['fresh'] = {'hashseed': rng.choice(['random', '1', '12345']), 'cwd': rng.random() < .5,
                        'flags': ['-O'] if rng.random() < .3 else [], 'env': rng.choice([{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0'}, {'TZ': 'Asia/Kathmandu'}, {'HOME': '/nonexistent'}])}
    if i % 16 != 5 and rng.random() < .3:
        return {'variant': 'pat', 'twin': 'zer', 'block': None, 'setup': setup, 'prog': prog, 'sim': s, 'env': {'fill': 'locals', 'threads': 1}}
    v = 'ship' if 'fresh' in env else rng.choice(['ship', 'inst'])
    return {'variant': v, 'block': rng.choice([None, 500, 60, 10, 10]) if v == 'inst' else None, 'setup': setup, 'prog': prog, 'sim': s, 'env': env}


def whole(setup, prog, fill, threads, log=None):
    C.set_threads(threads)
    if log is not None:
        from traceon import logging
        logging.set_log_level(logging.LogLevel(log))
    stir = None
    if fill:
        C.heap_fill(fill)
        stir = C.stack_fill(fill)
    env = O.build(setup)
    out = O.run_program(env, prog, on_op=(lambda i, op: stir()) if stir else None)
    return out, O.snapshot({k: env[k] for k, _ in setup})


def execute(ctx, spec):
    def judge():
        setup, prog, e = spec['setup'], spec['prog'], spec['env']
        try:
            if ctx.twin:
                st = ctx.twin.call('props.p12', 'whole', (setup, prog, 'zero', 1))
                if st[0] != 'ok':
                    raise C.Child(*st)
                ref, snap = st[1]
            else:
                ref, snap = C.call(ctx, lambda: whole(setup, prog, 'zero', 1))
        except C.Child as x:
            if x.status == 'exc':
                return C.ok([], probes={'setup_raises': 1})
            return C.child_verdict(x, 'program')
        run = None
        pr = {'operations': len(ref), 'operations_raising': sum(o[0] == 'exc' for o in ref), 'fill_' + e['fill']: 1}
        kw = dict(probes=pr, execs=2)
        if any(o[0] == 'ok' for o in ref):
            kw['sig'] = C.hsh([setup, prog, e, spec['sim'].get('cpus'), spec['sim'].get('jumps')])
        if 'fresh' in e:
            f = e['fresh']
            pr['fresh_interpreter'] = 1
            try:
                got, gsnap = C.fresh(ctx, 'props.p12', 'whole', (setup, prog, None, e['threads'], e.get('log')), f['hashseed'], f['env'],
                                     cwd='/' if f['cwd'] else None, flags=f.get('flags', []))
            except C.Child as x:
                return C.child_verdict(x, 'program in a fresh interpreter') if x.status != 'exc' else \
                    C.viol('raises', f'in a fresh interpreter with {f}: {x.detail}', [], **kw)
            runs = []
        else:
            try:
                run = C.call(ctx, lambda: C.run_sim(ctx, spec['sim'], lambda: whole(setup, prog, 'zero' if ctx.twin else e['fill'], e['threads'], e.get('log'))))
            except C.Child as x:
                return C.child_verdict(x, f'program with fresh memory {e["fill"]}')
            runs = [run]
            if run['res'][0] != 'ok':
                return C.viol('raises', f'environment {e}: {run["res"][1:3]}', runs, **kw)
            got, gsnap = run['res'][1]
        if e.get('fresh', {}).get('flags') and any(o[0] != 'ok' for o in ref):
            return C.ok([], probes=dict(pr, refused_inputs_without_asserts=1))
        d = O.diff_outcomes(got, ref, prog, 1e-8)
        if d:
            return C.viol('environment-shows', f'environment {e}, {d}', runs, **kw)
        for k in snap:
            d = O.diff(gsnap[k], snap[k], 1e-8)
            if d:
                return C.viol('environment-shows', f'environment {e}, object {k}: {d}', runs, **kw)
        kw['faults'] = {'memory_garbage': 1, 'clock_jump_planned': len(spec['sim'].get('jumps', []))}
        return C.ok(runs, **kw)
    return C.guarded(ctx, 'program', judge)


def shrink(spec):
    yield from mixed.shrink(spec)
    s = spec['sim']
    if s.get('jumps'):
        yield dict(spec, sim=dict(s, jumps=[]))
    if spec['env'].get('threads') != 1:
        yield dict(spec, env=dict(spec['env'], threads=1))
    if s.get('cpus'):
        yield dict(spec, sim={k: v for k, v in s.items() if k != 'cpus'}, env=dict(spec['env'], threads=1))
    yield from C.sched_shrinks(spec)
