"""P04: callers that evaluate, trace and differentiate shared fields at the same time get a lone caller's answers."""
from props import ops as O, common as C, conc

PROPERTY = 'P04'
RULE = 'distinct (shared objects, client programs, schedule hash) triples with at least one switch between clients in mid-operation'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME


def plan(tier):
    return {'budget_s': 75 if tier == 'quick' else 560, 'max_runs': 1500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


B2 = [[-.5, .5], [-.4, .6], [-3.5, -2.]]     # small: a step is at most 0.01 long
B3 = [[-.6, .6], [-.6, .6], [1., 2.]]
BS = [[-.2, .2], [-.2, .2], [-2.9, -2.3]]
BW = [[-.9, .9], [-.9, .9], [-3.9, -1.9]]


def gen_bounds(rng):
    """Field bounds: away from where the electrons go, around all of it, or through it."""
    return rng.choice([[[-1, 1], [-1.5, 1.5], [-2, 3]], [[-1, 1], [-1, 1], [-4, 3]], [[-.7, .7], [-.7, .7], [-3.1, -2.2]],
                       [[-.3, .3], [-.3, .3], [-3., -2.1]], [[-.05, 1], [-1, .05], [-4, 4]]])


def small(rng):
    """A cheap case with a field of the wanted kind."""
    kind = rng.choice(['elec', 'elec', 'mag', 'both', 'diel'])
    return O.gen_case2d(rng, n_parts={'both': 3}.get(kind, rng.choice([1, 2])), ms=rng.choice([1., 10.]), kinds=kind)


def pt(rng, axis=.2):
    a = rng.random() < axis
    return [0.0 if a else round(rng.uniform(-1, 1), 3), 0.0 if a else round(rng.uniform(-1, 1), 3), round(rng.uniform(-4, 4), 3)]


EV = ['electrostatic_field_at_point', 'electrostatic_potential_at_point', 'magnetostatic_field_at_point', 'magnetostatic_potential_at_point',
      'field_at_point', 'potential_at_point']


def look(rng, name, kind):
    """Less common calls on a field."""
    y = rng.random()
    if y < .35:
        f = rng.choice(['add', 'sub', 'mul', 'rmul', 'add', 'neg'])
        return {'op': 'arith', 'o': name, 'f': f, 'b': name if f in ('add', 'sub', 'neg') else rng.choice([2., -1, .5])}
    if y < .45:
        return {'op': 'copy', 'o': name}
    ms = [('__str__', []), ('is_electrostatic', []), ('is_magnetostatic', [])]
    if kind != 'axial':
        ms += [('area_of_element', [0]), ('charge_on_element', [0])]
    if kind == 'bem2':
        ms += [('current_field_at_point', [[.1, 0., .3]]), ('current_potential_axial', [.4]), ('current_field_at_point', [[.2, .1, -1.]]), ('current_potential_axial', [-1.3])]
    f, a = rng.choice(ms)
    return {'op': 'm', 'o': name, 'f': f, 'a': a}


def field_ops(rng, name, kind, n, tag):
    """n operations on a shared field (kind 'bem2', 'axial', 'bem3')."""
    out = []
    for j in range(n):
        x = rng.random()
        o = f'{tag}_{j}'
        if x < .3:
            out.append({'op': 'ev', 'o': name, 'f': rng.choice(EV), 'p': pt(rng)})
        elif x < .4:
            out.append({'op': 'evs', 'o': name, 'f': rng.choice(EV[:4]), 'ps': [pt(rng) for _ in range(4)], 'reuse': rng.random() < .5})
        elif x < .5 and kind == 'bem2':
            out.append({'op': 'derivs', 'o': name, 'f': rng.choice(['get_electrostatic_axial_potential_derivatives',
                        'get_magnetostatic_axial_potential_derivatives', 'get_current_axial_potential_derivatives']),
                        **O.gen_zs(rng, [-3., 3., rng.choice([1, 2, 4, 5, 9])])})
        elif x < .57 and kind != 'axial':
            out.append({'op': rng.choice(['area', 'charge']), 'o': name, 'i': [0, 1, 2]})
        elif x < .66:
            out.append(look(rng, name, kind))
        else:
            t = 'T' + name
            b = B2
            if rng.random() < .4:
                b = rng.choice([B2, B3, BS, BW])
                out.append({'op': 'tracer', 'o': name, 'b': b, 'out': o + 't'})
                t = o + 't'
            z = round(rng.uniform(b[2][0] + .1, b[2][1]), 3) if rng.random() < .9 else 5.
            out.append({'op': 'trace', 'o': t, 'p': [round(rng.uniform(-.1, .1), 3), 0., z],
                        'eV': rng.choice([100., 1000., 5000.]), 'd': [round(rng.uniform(-.05, .05), 3), round(rng.uniform(-.05, .05), 3), -1.],
                        'atol': rng.choice([1e-6, 1e-8]), 'out': o})
            if rng.random() < .2:
                # one more trace that goes on where this one ended, in a wider box
                out.append({'op': 'tracer', 'o': name, 'b': [[-.7, .7], [-.7, .7], [round(b[2][0] - .3, 2), round(b[2][1] + .3, 2)]], 'out': o + 'w'})
                out.append({'op': 'trace', 'o': o + 'w', 'from': o, 'atol': rng.choice([1e-6, 1e-8]), 'out': o + 'c'})
            y = rng.random()
            if y < .3:
                out.append({'op': 'isect', 'o': o, 'f': 'xy_plane_intersection', 'a': [round(rng.uniform(-3.4, -2.1), 2)]})
            elif y < .4:
                out.append({'op': 'focus', 'os': [o, o]})
            elif y < .47:
                f = rng.choice(['xz_plane_intersection', 'yz_plane_intersection', 'plane_intersection'])
                out.append({'op': 'isect', 'o': o, 'f': f, 'a': [.01] if f[0] != 'p' else [[.0, 0., round(rng.uniform(-3., -2.1), 2)], [.1, .2, 1.]]})
            elif y < .5:
                out.append({'op': 'axisect', 'o': o})
    return out


def gen(rng, tier, i):
    setup = []
    shared = []
    nf = rng.choice([1, 1, 2])
    for j in range(nf):
        if rng.random() < .3:
            m, adds = O.gen_case3d(rng, n_parts=1)
            for p in m['parts']:
                p['ms'] = 10.
            sym, kind = '3d', 'bem3'
        else:
            m, adds = small(rng)
            sym, kind = 'rz', 'bem2'
        setup += [[f'm{j}', m], [f'e{j}', {'type': 'exc', 'mesh': f'm{j}', 'sym': sym, 'adds': adds}], [f'f{j}', {'type': 'field', 'exc': f'e{j}'}]]
        name = f'f{j}'
        if kind == 'bem2' and rng.random() < .5:
            setup.append([f'a{j}', {'type': 'axial', 'field': f'f{j}', 'z': rng.choice([[-4., 2.], [-4., 4.], [-2.7, 2.], [-3.2, -2.4]]), 'N': rng.choice([5, 12, 30])}])
            shared.append((f'a{j}', 'axial'))
            setup.append([f'Ta{j}', {'type': 'tracer', 'field': f'a{j}', 'b': B2}])
        if rng.random() < .35:
            setup.append([f'b{j}', {'type': 'bounds', 'field': f'f{j}', 'b': gen_bounds(rng)}])
        setup.append([f'Tf{j}', {'type': 'tracer', 'field': f'f{j}', 'b': B2}])
        shared.append((name, kind))
    if rng.random() < .15:
        setup.append(['Tu', {'type': 'utracer', 'k': [round(rng.uniform(-1e3, 1e3), 1), round(rng.uniform(-1e3, 1e3), 1), 0.0], 'b': B2}])
    cls = []
    if rng.random() < .45:
        # every client does the same thing to the same object, at its own place
        name, kind = rng.choice(shared)
        t = field_ops(rng, name, kind, 1, 'h')
        places = [pt(rng), pt(rng)] if rng.random() < .4 else None       # the clients may meet at the same places
        place = lambda: list(rng.choice(places)) if places else pt(rng)
        for c in range(rng.choice([2, 2, 3])):
            prog = []
            for q in range(rng.choice([1, 2, 3])):
                for op in t:
                    op = {k: (f'{v}_{c}_{q}' if k in ('o', 'out', 'from') and str(v).startswith('h_') else v) for k, v in op.items()}
                    if op['op'] == 'ev':
                        op['p'] = place()
                    elif op['op'] == 'evs':
                        op['ps'] = [place() for _ in range(4)]
                    elif op['op'] == 'trace' and 'p' in op:
                        op.update(p=[round(rng.uniform(-.1, .1), 3), 0., op['p'][2]], eV=rng.choice([100., 1000., 5000.]))
                    elif op['op'] == 'derivs':
                        k = len(op['zs']) if 'zs' in op else op['z'][2]
                        op = {a: b for a, b in op.items() if a not in ('z', 'zs')}
                        op.update(O.gen_zs(rng, [-3., 3., k] if rng.random() < .5 else [rng.choice([-3., -2.]), rng.choice([2., 3.]), k]))
                    elif op['op'] in ('area', 'charge'):
                        op['i'] = rng.choice([[0, 1, 2], [2, 0], [1]])
                    elif op['op'] == 'focus':
                        op['os'] = [f'{v}_{c}_{q}' for v in op['os']]
                    prog.append(op)
            cls.append(prog)
    elif rng.random() < .25:
        # one tracer for everybody; the electrons differ
        names = [n for n, d in setup if d['type'] in ('tracer', 'utracer')]
        t = rng.choice(names)
        if t != 'Tu':
            f = next(d['field'] for n, d in setup if n == t)
            setup.append(['Ts', {'type': 'tracer', 'field': f, 'b': rng.choice([BS, BS, BW, B2])}])
            t = 'Ts'
        z = round(rng.uniform(-2.8, -2.4), 3)
        at = rng.choice([1e-6, 1e-8])
        for c in range(rng.choice([2, 2, 3])):
            cls.append([{'op': 'trace', 'o': t, 'p': [round(rng.uniform(-.1, .1), 3) if rng.random() < .5 else .05, 0., z], 'eV': rng.choice([100., 1000., 1000.]),
                         'd': [round(rng.uniform(-.3, .3), 3), round(rng.uniform(-.05, .05), 3), rng.choice([-1., 1.])],
                         'atol': at if rng.random() < .7 else 1e-7, 'out': f'c{c}_{q}'} for q in range(rng.choice([1, 1, 2]))])
    elif rng.random() < .25:
        # tracers of different sizes in one field with bounds, some of them inside, some of them across
        name, kind = rng.choice([x for x in shared if x[1] != 'axial'])
        if not any(d[1]['type'] == 'bounds' and d[1]['field'] == name for d in setup):
            setup.append(['bb', {'type': 'bounds', 'field': name, 'b': gen_bounds(rng)}])
        p = [round(rng.uniform(-.1, .1), 3), 0., round(rng.uniform(-2.8, -2.4), 3)]
        for c in range(rng.choice([2, 2, 3])):
            prog = []
            for q in range(rng.choice([1, 2])):
                prog += [{'op': 'tracer', 'o': name, 'b': rng.choice([BS, BS, B2, BW]), 'out': f't{c}_{q}'},
                         {'op': 'trace', 'o': f't{c}_{q}', 'p': p, 'eV': rng.choice([5., 100., 1000.]), 'd': [round(rng.uniform(-.05, .05), 3), .02, rng.choice([-1., 1.])],
                          'atol': rng.choice([1e-6, 1e-8]), 'out': f'c{c}_{q}'}]
            cls.append(prog)
    for c in range(rng.choice([2, 2, 3, 4, 6]) if not cls else 0):
        prog = []
        for q in range(rng.choice([1, 2, 3])):
            name, kind = rng.choice(shared)
            prog += field_ops(rng, name, kind, rng.choice([1, 1, 2]), f'c{c}_{q}')
        if any(s[0] == 'Tu' for s in setup) and rng.random() < .5:
            prog.append({'op': 'trace', 'o': 'Tu', 'p': [.1, 0., -2.2], 'eV': 1000., 'd': [0., .02, -1.], 'atol': 1e-7, 'out': f'u{c}'})
        cls.append(prog)
    if rng.random() < .2:
        # everybody asks for nearly the same as the first one
        cls[1:] = [[rng.choice([O.vary, O.vary, O.near])(rng, op) if rng.random() < .7 else op for op in cls[0]] for _ in cls[1:]]
    s = O.gen_sched(rng)
    if rng.random() < .7:
        s.update(c_yields=True, gap=rng.choice([30, 100, 300, 1000, 5000, 20000]))
    return {'variant': 'inst', 'block': rng.choice([7, 40, 300, 2000]), 'setup': setup, 'clients': cls, 'sim': s}


def execute(ctx, spec):
    return conc.execute(ctx, spec, what='concurrent field users')


shrink = conc.shrink
