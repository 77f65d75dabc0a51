"""P08: a trajectory has no seams: the size of the internal tracing buffers is invisible."""
import random
from props import ops as O, common as C, tracework as W

PROPERTY = 'P08'
RULE = 'distinct (field, traces, buffer size, schedule hash) tuples with at least one trajectory longer than one buffer, all its seams compared against the model'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED + ['the number of samples per tracing buffer is a knob of the simulator (its shipped value is also run)']
ASSUMPTIONS = C.ASSUME + ['the reference model is the documented Fehlberg pair with the force taken from the field object’s own field evaluation']


def plan(tier):
    return {'budget_s': 70 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


LONG = {'type': 'mesh', 'parts': [{'shape': 'line', 'pts': [[700., 0.], [701., 0.]], 'name': 'a'}], 'ho': False, 'ms': 10.}


def gen(rng, tier, i):
    s = O.gen_sched(rng)
    if i % 320 == 7 or i % 80 == 27:
        # the shipped buffer size: a very long flight
        kind = rng.choice(['bem', 'user'])
        setup = [['m', LONG], ['e', {'type': 'exc', 'mesh': 'm', 'sym': 'rz', 'adds': [['voltage', 'a', rng.choice([1., -3.])]]}],
                 ['f', {'type': 'field', 'exc': 'e'}]]
        L = 1000.05 if i % 320 == 7 else 10030. if i % 320 == 27 else rng.choice([1000.05, 1010., 2050., 3000.5])
        b = [[-500, 500], [-500, 500], [-L/2, L/2]]
        setup.append(['T0', {'type': 'tracer', 'field': 'f', 'b': b}])
        s['mode'] = 'none'
        prog = [{'op': 'trace', 'o': 'T0', 'p': [.1, 0., L/2-1e-9], 'eV': 1000., 'd': [0.001, .002, -1.], 'atol': 1e-7, 'out': 't', 'bounds': b}]
        return {'variant': 'ship' if i % 320 == 7 else 'fast', 'setup': setup, 'field': 'f', 'clients': [prog], 'sim': s, 'pick': rng.getrandbits(30),
                'heavy': True}
    setup, name, kind = W.field_setup(rng, rng.choice(['elec', 'mag', 'both', '3d', 'axial', 'elec', 'axial']))
    z0 = O.r(rng, -3., 3.)
    if kind == 'axial':
        z0 = round(rng.uniform(*setup[-1][1]['z']), 3)
    boxes = [W.box(rng, z0) for _ in range(2)]
    conc = rng.random() < .35
    for j in range(2):
        setup.append([f'T{j}', {'type': 'tracer', 'field': name, 'b': boxes[j]}])
    if rng.random() < .3:
        setup.append(['Tu', {'type': 'utracer', 'field': name, 'b': boxes[0]}])
    if kind != 'axial' and rng.random() < .3:
        setup.append(['_b', {'type': 'bounds', 'field': name, 'b': W.inner(rng, boxes[0])}])
    cls = []
    for c in range(rng.choice([2, 2, 3]) if conc else 1):
        prog = []
        for q in range(rng.choice([1, 2, 3])):
            j = rng.randrange(2)
            t, b = f'T{j}', boxes[j]
            if any(x[0] == 'Tu' for x in setup) and rng.random() < .3:
                t, b = 'Tu', boxes[0]
            prog.append(dict(W.gen_trace(rng, t, b, f't{c}_{q}'), bounds=b))
            if t != 'Tu' and rng.random() < .25:
                w = W.gen_more(rng, prog[-1], f'w{c}_{q}')
                w['o'] = f'W{c}_{q}'
                prog += [{'op': 'tracer', 'o': name, 'b': w['bounds'], 'out': w['o']}, w]
        cls.append(prog)
    if not conc:
        s['mode'] = 'none'
    return {'variant': 'inst', 'block': rng.choice([2, 3, 5, 8, 13, 21, 34, 64]), 'setup': setup, 'field': name, 'clients': cls, 'sim': s,
            'pick': rng.getrandbits(30), 'fill': rng.choice([None, 'nan', 'mid', 'neg'])}


def execute(ctx, spec):
    def judge():
        C.set_threads(1)
        env = O.build(spec['setup'])
        f = env[spec['field']]
        b0 = next((s[1]['b'] for s in spec['setup'] if s[1]['type'] == 'bounds'), None)
        progs = spec['clients']
        block = spec.get('block') or 100000
        C.heap_fill(spec.get('fill'))

        def work():
            return C.run_sim(ctx, sim, together)

        def together():
            return C.clients([(lambda p=p: O.run_program(dict(env), p)) for p in progs])
        try:
            sim = C.aim(ctx, dict(spec['sim'], cap=300_000_000), together)
            run = C.call(ctx, work)
        except C.Child as e:
            if e.status == 'nocap':
                return C.ok([], probes={'too_long_to_judge': 1})
            return C.child_verdict(e, 'traces')
        kw = dict(probes={'clients_%d' % len(progs): 1, 'field_' + type(f).__name__: 1})
        pr = kw['probes']
        if run['res'][0] == 'exc':
            return C.viol('raises', str(run['res'][1:3]), [run], **kw)
        rng = random.Random(spec['pick'])
        force = O.force_of(f)
        seams = 0
        for ci, (p, res) in enumerate(zip(progs, run['res'][1])):
            if res[0] == 'exc':
                return C.viol('client-dies', f'{res[1]}: {res[2]}', [run], **kw)
            for op, out in zip(p, res[1]):
                if op['op'] != 'trace':
                    continue
                op = W.started(p, res[1], op)
                if op is None:
                    continue
                cand = [(force, None if op['o'] == 'Tu' else b0)]
                v, n = W.judge_trace(env, op, out, op['bounds'], cand, rng, block, 60)
                pr['traces'] = pr.get('traces', 0) + 1
                pr['steps_compared'] = pr.get('steps_compared', 0) + n
                if v:
                    return C.viol(v[0], f'client {ci}, buffers of {block} samples, {op}: {v[1]}', [run], **kw)
                k = (len(W.arr(out[1][1][0]))-1)//(block-1)
                seams += k
                pr['seams'] = pr.get('seams', 0) + k
                if not spec.get('block') and k:
                    pr['shipped_buffer_size_crossed'] = 1
        if seams:
            kw['sig'] = C.hsh([spec['setup'], progs, block, run['stats']['hash']])
        return C.ok([run], **kw)
    return C.guarded(ctx, 'traces', judge)


from props.p14 import shrink
