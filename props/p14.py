"""P14: a traced electron feels exactly the field the field object reports, and none outside its bounds."""
import random
from props import ops as O, common as C, tracework as W

PROPERTY = 'P14'
RULE = 'distinct (field, history, schedule hash) triples with at least ten recorded steps compared against the reference model'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME + ['the reference model is the documented Fehlberg pair with the force taken from the field object’s own field evaluation',
                          'steps with a stage within 1e-8 of a face of the field bounds are not judged (rounding decides the side)']


def plan(tier):
    return {'budget_s': 70 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, name, kind = W.field_setup(rng)
    z0 = O.r(rng, -3., 3.)
    if kind == 'axial':
        z0 = round(rng.uniform(*setup[-1][1]['z']), 3)
    boxes = [W.box(rng, z0) for _ in range(2)]
    conc = rng.random() < .4
    nt = rng.choice([1, 2])
    for j in range(nt):
        setup.append([f'T{j}', {'type': 'tracer', 'field': name, 'b': boxes[j]}])
    second = rng.random() < .35
    if second:
        # a second field: on the same mesh with other voltages, or made from the first one
        if rng.random() < .4:
            how = rng.choice(['add', 'add', 'pickle', 'copy'] if kind != 'axial' else ['pickle', 'copy'])     # no arithmetic on axial fields
            setup.append(['g', {'type': 'derived', 'field': name, 'how': how}])
        else:
            e = dict(setup[1][1])
            k = rng.choice([-1., 2., .5])
            e['adds'] = [[a[0], a[1], a[2]*k] if a[0] in ('voltage', 'current', 'magpot') else a for a in e['adds']]
            setup.append(['e2', e])
            if kind == 'axial':
                setup += [['f2', {'type': 'field', 'exc': 'e2'}], ['g', dict(next(s[1] for s in setup if s[0] == name), field='f2')]]
            else:
                setup.append(['g', {'type': 'field', 'exc': 'e2'}])
        setup.append(['G0', {'type': 'tracer', 'field': 'g', 'b': boxes[0]}])
    if rng.random() < .25:
        setup.append(['Tu', {'type': 'utracer', 'field': name, 'b': boxes[0]}])
    FM = ['list', 'tuple', 'fortran', 'strided', 'arr', 'f32']
    if kind != 'axial' and rng.random() < .4:
        setup.append(['_b', {'type': 'bounds', 'field': name, 'b': W.inner(rng, boxes[0])}])
    cls = []
    for c in range(rng.choice([2, 2, 3]) if conc else 1):
        prog = []
        for q in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if c == 0 and x < .45 and kind != 'axial':
                b = W.inner(rng, boxes[0])
                fmt = rng.choice(FM)
                if fmt == 'f32':
                    b = [[round(v*64)/64 for v in e] for e in b]
                prog.append({'op': 'setbounds', 'o': 'g' if second and rng.random() < .4 else name, 'b': b, 'fmt': fmt})
            j = rng.randrange(nt)
            t, b = f'T{j}', boxes[j]
            if rng.random() < .3:
                prog.append({'op': 'tracer', 'o': name, 'b': b, 'out': f'P{c}_{q}'})
                t = f'P{c}_{q}'
            if any(s[0] == 'Tu' for s in setup) and rng.random() < .3:
                t, b = 'Tu', boxes[0]
            prog.append(dict(W.gen_trace(rng, t, b, f't{c}_{q}'), bounds=b))
            if second and rng.random() < .6:
                # the same electron in the other field
                o = dict(prog[-1], o='G0', bounds=boxes[0], fld='g', out=f's{c}_{q}')
                k = len(prog) if rng.random() < .5 else len(prog) - 1
                if prog[-1]['o'][0] == 'P':
                    prog.append({'op': 'tracer', 'o': 'g', 'b': b, 'out': f'Q{c}_{q}'})
                    o.update(o=f'Q{c}_{q}', bounds=b)
                    k = len(prog)
                prog.insert(k, o)
            if t != 'Tu' and rng.random() < .25:
                last = next(p for p in reversed(prog) if p['op'] == 'trace' and 'fld' not in p)
                w = W.gen_more(rng, last, f'w{c}_{q}')
                w['o'] = f'W{c}_{q}'
                prog += [{'op': 'tracer', 'o': name, 'b': w['bounds'], 'out': w['o']}, w]
            if rng.random() < .2:
                prog.append({'op': 'ev', 'o': name, 'f': 'electrostatic_field_at_point', 'p': [.01, .02, z0]})
        cls.append(prog)
    s = O.gen_sched(rng)
    if not conc:
        s['mode'] = 'none'
    # a very slow electron may stay for ever, which only the instrumented build can notice
    slow = any(op['op'] == 'trace' and op.get('eV', 20.) < 1. for p in cls for op in p)
    return {'variant': 'inst' if conc and s['c_yields'] or slow else rng.choice(['inst', 'ship']), 'block': rng.choice([None, None, 9, 50]),
            'setup': setup, 'field': name, 'clients': cls, 'sim': s, 'pick': rng.getrandbits(30)}


def execute(ctx, spec):
    def judge():
        C.set_threads(1)
        env = O.build(spec['setup'])
        f = env[spec['field']]
        b0 = next((s[1]['b'] for s in spec['setup'] if s[1]['type'] == 'bounds'), None)
        progs = spec['clients']

        def work():
            return C.run_sim(ctx, sim, together)

        def together():
            return C.clients([(lambda p=p: O.run_program(dict(env), p)) for p in progs])
        try:
            sim = C.aim(ctx, dict(spec['sim'], cap=300_000_000), together)
            run = C.call(ctx, work)
        except C.Child as e:
            if e.status == 'nocap':
                return C.ok([], probes={'too_long_to_judge': 1})
            return C.child_verdict(e, 'traces')
        kw = dict(probes={'clients_%d' % len(progs): 1, 'field_' + type(f).__name__: 1})
        pr = kw['probes']
        if run['res'][0] == 'exc':
            return C.viol('raises', str(run['res'][1:3]), [run], **kw)
        rng = random.Random(spec['pick'])
        F = spec['field']
        force = {n: O.force_of(env[n]) for n in (F, 'g') if n in env}
        first = {F: b0, 'g': None}
        every = {n: [first[n]] + [op['b'] for p in progs for op in p if op['op'] == 'setbounds' and op['o'] == n] for n in force}
        total = 0
        for ci, (p, res) in enumerate(zip(progs, run['res'][1])):
            cur = dict(first)
            if res[0] == 'exc':
                return C.viol('client-dies', f'{res[1]}: {res[2]}', [run], **kw)
            for op, out in zip(p, res[1]):
                if op['op'] == 'setbounds':
                    cur[op['o']] = op['b']
                    if out[0] == 'exc':
                        return C.viol('setbounds-raises', f'{op}: {out[1]}: {out[2]}', [run], **kw)
                if op['op'] != 'trace':
                    continue
                op = W.started(p, res[1], op)
                if op is None:
                    continue
                n = op.get('fld', F)
                if op['o'] == 'Tu':
                    cand = [(force[F], None)]
                elif ci == 0:
                    cand = [(force[n], cur[n])]
                else:
                    cand = [(force[n], b) for b in every[n]]
                v, n = W.judge_trace(env, op, out, op['bounds'], cand, rng, spec.get('block'), 40)
                total += n
                pr['traces'] = pr.get('traces', 0) + 1
                if cand[0][1] is not None:
                    pr['traces_with_field_bounds'] = pr.get('traces_with_field_bounds', 0) + 1
                if v:
                    return C.viol(v[0], f'client {ci}, {op} with field bounds {[b for _, b in cand]}: {v[1]}', [run], **kw)
        pr['steps_compared'] = total
        if total >= 10:
            kw['sig'] = C.hsh([spec['setup'], progs, run['stats']['hash']])
        return C.ok([run], **kw)
    return C.guarded(ctx, 'traces', judge)


def shrink(spec):
    for cl in O.shrink_list(spec['clients'], 1):
        yield dict(spec, clients=cl)
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
    m = spec['setup'][0][1]
    for ps in O.shrink_list(m['parts'], 1):
        names = {p['name'] for p in ps}
        st = [list(s) for s in spec['setup']]
        st[0] = ['m', dict(m, parts=ps)]
        st[1] = ['e', dict(st[1][1], adds=[a for a in st[1][1]['adds'] if a[1] in names])]
        yield dict(spec, setup=st)
    if spec.get('block'):
        yield dict(spec, block=None)
    yield from C.sched_shrinks(spec)
