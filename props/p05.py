"""P05: solving and interpolating from several callers at once, on shared meshes, excitations and fields."""
import random
from props import ops as O, common as C, conc

PROPERTY = 'P05'
RULE = 'distinct (shared objects, client programs, thread count, schedule hash) tuples with at least one switch between clients in mid-operation'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME


def plan(tier):
    return {'budget_s': 70 if tier == 'quick' else 560, 'max_runs': 1500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def gen(rng, tier, i):
    setup, exs, fields, meshes = [], [], [], []
    outer = rng
    for j in range(rng.choice([1, 1, 2])):
        d3 = rng.random() < .2
        if d3:
            m, adds = O.gen_case3d(rng, n_parts=rng.choice([1, 2]))
            for p in m['parts']:
                p['ms'] = 10.
        else:
            m, adds = O.gen_case2d(rng, n_parts=rng.choice([1, 2, 2, 3, 6]), ms=rng.choice([1., 10.]),
                                   kinds=rng.choice([None, 'both', 'elec', 'mag', 'diel', 'vfun']))
        sym = '3d' if d3 else 'rz'
        if rng.random() < .3:
            O.nest(rng, adds)
        setup += [[f'm{j}', m], [f'e{j}', {'type': 'exc', 'mesh': f'm{j}', 'sym': sym, 'adds': adds}]]
        meshes.append((f'm{j}', sym, adds))
        exs.append((f'e{j}', adds))
        if not d3 and rng.random() < .6:
            setup.append([f'f{j}', {'type': 'field', 'exc': f'e{j}'}])
            fields.append(f'f{j}')
    cls = []
    same = (rng.random() < .45, rng.random(), rng.getrandbits(30))
    for c in range(rng.choice([2, 2, 3, 4])):
        prog = []
        if same[0]:
            rng = random.Random(same[2])             # every client runs the same program
        for q in range(rng.choice([1, 1, 2])):
            o = f'c{c}_{q}'
            x = rng.random()
            if fields and x < .3:
                prog.append({'op': 'interp', 'o': rng.choice(fields), 'z': [-4., rng.choice([1., 4.])], 'N': rng.choice([4, 9, 16, 33, None]), 'out': o})
                if rng.random() < .5:
                    prog.append({'op': 'ev', 'o': o, 'f': 'electrostatic_field_at_point', 'p': [.05, 0., .5]})
            elif fields and x < .36:
                prog.append({'op': 'derivs', 'o': rng.choice(fields), 'f': rng.choice(['get_electrostatic_axial_potential_derivatives',
                             'get_magnetostatic_axial_potential_derivatives', 'get_current_axial_potential_derivatives']), **O.gen_zs(rng, [-3., 3., rng.choice([2, 5, 7, 12])])})
            elif x < .45:
                e, adds = rng.choice(exs)
                prog.append({'op': 'active', 'o': e, 't': rng.choice(['electrostatic', 'magnetostatic'])})
            elif x < .6:
                m, sym, adds = rng.choice(meshes)
                adds = [[a[0], a[1], (a[2]*rng.choice([1, 2, -1]) if isinstance(a[2], (int, float)) and not isinstance(a[2], bool) and a[0] in
                        ('voltage', 'current') else a[2])] for a in adds]
                prog.append({'op': 'exc', 'mesh': m, 'x': {'sym': sym, 'adds': adds}, 'out': o})
                prog.append({'op': 'solve', 'o': o})
            else:
                e, adds = rng.choice(exs)
                sup = rng.random() < .3 and not any(a[0] == 'vfun' for a in adds)
                prog.append({'op': 'superpos' if sup else 'solve', 'o': e, 'out': o})
                if not sup and rng.random() < .4:
                    prog.append({'op': 'ev', 'o': o, 'f': rng.choice(['field_at_point', 'electrostatic_potential_at_point',
                                 'magnetostatic_field_at_point']), 'p': [.03, .02, .7]})
        cls.append(prog)
    rng = outer
    if rng.random() < .2:
        # everybody asks for nearly the same as the first one
        cls[1:] = [[O.vary(rng, op) if rng.random() < .7 else op for op in cls[0]] for _ in cls[1:]]
    if rng.random() < .15:
        # someone changes the number of threads while the others are at work
        k = rng.randrange(len(cls))
        cls[k] = cls[k][:1] + [{'op': 'threads', 'n': rng.choice([1, 2, 4, 7])} for _ in range(rng.choice([1, 2]))] + cls[k][1:]
        if rng.random() < .5:
            cls.append([{'op': 'threads', 'n': rng.choice([1, 2, 3, 5])} for _ in range(4)])
    s = O.gen_sched(rng)
    return {'variant': rng.choice(['inst', 'inst', 'ship']) if not s['c_yields'] else 'inst', 'setup': setup, 'clients': cls, 'sim': s,
            'threads': rng.choice([1, 1, 2, 3, 5])}


def execute(ctx, spec):
    return conc.execute(ctx, spec, tol=1e-8, what='concurrent solves')


shrink = conc.shrink
