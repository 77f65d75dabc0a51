"""Random programs that mix every part of the library: geometry, meshes, excitations, solves,
interpolations, field evaluation, tracing, intersections and focus finding."""
import random
from props import ops as O, p04, p05, p06, tracework as W


def gen_env(rng, heavy=False):
    """A set-up with a path, a surface, a mesh, an excitation, a field (maybe an axial one) and tracers."""
    setup, info = [], {'paths': [], 'surfs': [], 'meshes': [], 'excs': [], 'fields': []}
    p = O.gen_part2d(rng, 0, 'pp')
    setup.append(['p0', dict(p, type='path')])
    info['paths'].append('p0')
    if rng.random() < .5:
        setup.append(['s0', dict(p06.surf_part(rng, 1, 'ss'), type='surf')])
        info['surfs'].append('s0')
    for j in range(rng.choice([1, 1, 2])):
        if rng.random() < .25:
            m, adds = O.gen_case3d(rng, n_parts=rng.choice([1, 2]))
            for q in m['parts']:
                q['ms'] = 10.
            sym, kind = '3d', 'bem3'
        else:
            m, adds = O.gen_case2d(rng, n_parts=rng.choice([1, 2, 3]), ms=rng.choice([1., 10.]))
            sym, kind = 'rz', 'bem2'
        setup += [[f'm{j}', m], [f'e{j}', {'type': 'exc', 'mesh': f'm{j}', 'sym': sym, 'adds': adds}], [f'f{j}', {'type': 'field', 'exc': f'e{j}'}]]
        info['meshes'].append((f'm{j}', [q['name'] for q in m['parts']], sym, adds))
        info['excs'].append((f'e{j}', adds))
        info['fields'].append((f'f{j}', kind))
        if kind == 'bem2' and rng.random() < .5:
            setup.append([f'a{j}', {'type': 'axial', 'field': f'f{j}', 'z': rng.choice([[-4., 4.], [-2.6, 2.], [-3., -2.3], [2., 3.]]), 'N': rng.choice([5, 12, 30])}])
            setup.append([f'Ta{j}', {'type': 'tracer', 'field': f'a{j}', 'b': p04.B2}])
            info['fields'].append((f'a{j}', 'axial'))
        if rng.random() < .25:
            setup.append([f'b{j}', {'type': 'bounds', 'field': f'f{j}', 'b': p04.gen_bounds(rng)}])
        setup.append([f'Tf{j}', {'type': 'tracer', 'field': f'f{j}', 'b': p04.B2}])
    if rng.random() < .3:
        setup.append(['Tu', {'type': 'utracer', 'k': [round(rng.uniform(-1e3, 1e3), 1), round(rng.uniform(-1e3, 1e3), 1), 0.0], 'b': p04.B2}])
        info['tu'] = True
    return setup, info


def gen_op(rng, info, tag, allow=None):
    """A few operations making one step of a program."""
    kinds = allow or ['geom', 'geom', 'meshop', 'mesh', 'solve', 'solve', 'exc', 'interp', 'field', 'field', 'field', 'active']
    if allow is None and rng.random() < .1:
        y = rng.random()
        if y < .5:
            return [O.gen_bad(rng, info)]
        if y < .6:
            return [{'op': 'threads', 'n': rng.choice([1, 1, 2, 3])}]
        if y < .7:
            return [{'op': 'vel', 'f': 'velocity_vec_spherical', 'a': [100., .1, .2]}]
        return [p06.look(rng, info['paths'], info['surfs'], [m[0] for m in info['meshes']])]
    x = rng.choice(kinds)
    if x == 'geom':
        t = rng.choice(info['paths'] + info['surfs'])
        y = rng.random()
        if y < .5:
            op = p06.size(rng, {'op': 'meshof', 'o': t, 'out': tag})
            if t in info['paths'] and not isinstance(op.get('ms', 1.), float):
                op['ms'] = .6                  # paths take no function
            if t in info['paths'] and rng.random() < .3:
                op['ho'] = True
            if rng.random() < .35:
                op['name'] = 'nm'
            return [op]
        if y < .7:
            return [{'op': 'xf', 'o': t, 'x': p06.xf(rng), 'out': tag}, p06.size(rng, {'op': 'meshof', 'o': tag})]
        if t in info['surfs']:
            return [{'op': 'boundary', 'o': t}]
        return [{'op': 'average', 'o': t, 'c': 2.0}]
    if x == 'meshop':
        m, names, _, _ = rng.choice(info['meshes'])
        k = rng.choice(['meshadd', 'flip', 'extract', 'nolines', 'notri', 'str', 'meshio', 'xf'])
        op = {'op': k, 'o': m, 'out': tag}
        if k == 'meshadd':
            op.update(a=m, b=m)
        elif k == 'extract':
            op['name'] = rng.choice(names + ['nope'])
        elif k == 'xf':
            op['x'] = p06.mesh_xf(rng)
        return [op]
    if x == 'mesh':
        if rng.random() < .7:
            return [{'op': 'mesh', 'm': {'parts': [O.gen_part2d(rng, 0, 'u'), O.gen_part2d(rng, 1, 'v')], 'ms': .7, 'ho': rng.random() < .3}, 'out': tag}]
        return [{'op': 'mesh', 'm': {'parts': [dict(p06.surf_part(rng, 0, 'u'), ms=2.)]}, 'out': tag}]
    if x == 'solve':
        e, adds = rng.choice(info['excs'])
        sup = rng.random() < .4 and not any(a[0] == 'vfun' for a in adds)
        return [{'op': 'superpos' if sup else 'solve', 'o': e, 'out': tag}]
    if x == 'active':
        return [{'op': 'active', 'o': rng.choice(info['excs'])[0], 't': rng.choice(['electrostatic', 'magnetostatic'])}]
    if x == 'exc':
        m, names, sym, adds = rng.choice(info['meshes'])
        if rng.random() < .1:
            adds = adds + [['voltage', 'nope', 3.]]
        return [{'op': 'exc', 'mesh': m, 'x': {'sym': sym, 'adds': adds}, 'out': tag}, {'op': 'solve', 'o': tag}]
    if x == 'interp':
        c = [n for n, k in info['fields'] if k == 'bem2']
        if not c:
            return gen_op(rng, info, tag, ['field'])
        return [{'op': 'interp', 'o': rng.choice(c), 'z': [-4., rng.choice([1., 4.])], 'N': rng.choice([4, 9, 16, 33, None]), 'out': tag},
                {'op': 'ev', 'o': tag, 'f': 'electrostatic_field_at_point', 'p': [.05, 0., .5]}]
    if info.get('tu') and rng.random() < .15:
        return [{'op': 'trace', 'o': 'Tu', 'p': [.1, 0., -2.2], 'eV': 1000., 'd': [0., .02, -1.], 'atol': 1e-7, 'out': tag}]
    n, k = rng.choice(info['fields'])
    return p04.field_ops(rng, n, k, 1, tag)


def program(rng, info, n, tag='x', allow=None):
    out = []
    for j in range(n):
        out += gen_op(rng, info, f'{tag}{j}', allow)
    return out


def again(rng, steps, n):
    """n requests that resemble ones of these steps; results get names of their own."""
    out = []
    for j in range(n):
        op = O.vary(rng, rng.choice(steps))
        if rng.random() < .3:
            op = O.vary(rng, op)
        if op.get('out'):
            op['out'] += f'v{j}'
        out.append(op)
    return out


def churn(rng, info, n, tag, seed):
    """n variants of one and the same step (other voltages, other points, other shapes, same names and
    sizes), each replacing the objects of the one before."""
    t = random.Random(seed)
    x = t.choice(['derivs', 'derivs', 'interp', 'solve', 'geom', 'surf', 'mesh', 'trace', 'flip'])
    ms = [q for q in info['meshes'] if q[2] == 'rz'] or info['meshes']
    m, names, sym, adds = t.choice(ms if x in ('derivs', 'interp') else info['meshes'])
    shape, slot = t.getrandbits(30), t.choice([0, 1])
    f = t.choice(['electrostatic', 'electrostatic', 'magnetostatic', 'current'])
    steps = []
    chain = t.random() < .6
    n_int = t.choice([9, 9, None])
    for j in range(n):
        out = []
        steps.append(out)

        def a2(a):
            k = rng.choice([1, 2, -1, 3, .5])
            return [a[0], a[1], a[2]*k] if a[0] in ('voltage', 'current', 'magpot') else [a[0], a[1], [v*k for v in a[2]]] if a[0] == 'vfun' else a
        var = random.Random(shape)
        if x in ('derivs', 'interp', 'solve', 'trace'):
            out += [{'op': 'exc', 'mesh': m, 'x': {'sym': sym, 'adds': [a2(a) for a in adds]}, 'out': tag + 'e'}, {'op': 'solve', 'o': tag + 'e', 'out': tag + 'f'}]
            if x == 'derivs':
                out.append({'op': 'derivs', 'o': tag + 'f', 'f': f'get_{f}_axial_potential_derivatives', **O.gen_zs(rng, [-3., 3., 5])})
            elif x == 'interp':
                out.append({'op': 'interp', 'o': tag + 'f', 'z': [-3., 3.], 'N': n_int, 'out': tag + 'a'})
                out.append({'op': 'ev', 'o': tag + 'a', 'f': 'field_at_point', 'p': [.05, 0., .5]})
            elif x == 'trace':
                out.append({'op': 'tracer', 'o': tag + 'f', 'b': p04.B2, 'out': tag + 't'})
                out.append({'op': 'trace', 'o': tag + 't', 'p': [.05, 0., -2.2], 'eV': 100., 'd': [0., .03, -1.], 'atol': 1e-7, 'out': tag + 'p'})
            else:
                out.append({'op': 'ev', 'o': tag + 'f', 'f': 'potential_at_point', 'p': [.05, 0., .5]})
        elif x in ('geom', 'surf'):
            p = O.gen_part2d(var, slot, 'v') if x == 'geom' else p06.surf_part(var, slot, 'v')
            p['xf'] = [['move', O.r(rng, 0, .5), 0., O.r(rng, -.5, .5)]] if rng.random() < .7 else [p06.xf(rng)]
            out.append({'op': 'build', 'd': dict(p, type='path' if x == 'geom' else 'surf'), 'out': tag + 'g'})
            out.append({'op': 'meshof', 'o': tag + 'g', 'ms': .8, 'out': tag + 'm'})
        elif x == 'mesh':
            p = dict(O.gen_part2d(var, 0, 'v'), xf=[['move', O.r(rng, 0, .5), 0., O.r(rng, -.5, .5)]])
            out.append({'op': 'mesh', 'm': {'parts': [p], 'ms': 10., 'ho': shape % 2 == 0}, 'out': tag + 'm'})
            out.append({'op': 'exc', 'mesh': tag + 'm', 'x': {'sym': 'rz', 'adds': [['voltage', 'v', 10.]]}, 'out': tag + 'e'})
            out.append({'op': rng.choice(['solve', 'solve', 'active']), 'o': tag + 'e', 't': 'electrostatic', 'out': tag + 'f'})
        else:
            out.append({'op': 'xf', 'o': m, 'x': ['move', 0., 0., O.r(rng, -.5, .5)], 'out': tag + 'm'})
            out.append({'op': 'flip', 'o': tag + 'm'})
            out.append({'op': 'extract', 'o': tag + 'm', 'name': names[0]})
    return [{'op': 'chain', 'ops': s} for s in steps] if chain else [q for s in steps for q in s]


def shrink(spec, keys=('prog',)):
    """Drops operations and unused parts of the set-up."""
    for k in keys:
        for q in O.shrink_list(spec[k], 1 if k == 'prog' else 0):
            yield dict(spec, **{k: q})
    used = set()

    def walk(o):
        if isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
        elif isinstance(o, str):
            used.add(o)
    for k in keys:
        walk(spec[k])
    for n, d in reversed(spec['setup']):
        if n in used or d['type'] == 'bounds' and d['field'] in used:
            walk([v for k, v in d.items() if k not in ('type', 'parts', 'name')])
    kept = [[n, d] for n, d in spec['setup'] if n in used or d['type'] == 'bounds' and d['field'] in used]
    if len(kept) < len(spec['setup']):
        yield dict(spec, setup=kept)
