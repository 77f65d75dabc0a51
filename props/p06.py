"""P06: building geometry and meshes from several callers at once, and from inside mesh-size callbacks."""
import random
from props import ops as O, common as C, conc

PROPERTY = 'P06'
RULE = 'distinct (shared geometry, client programs, schedule hash) triples with at least one switch between clients in mid-operation'
REAL = C.REAL_LIB
STUB = C.STUB_SCHED
ASSUMPTIONS = C.ASSUME


def plan(tier):
    return {'budget_s': 70 if tier == 'quick' else 560, 'max_runs': 2500 if tier == 'quick' else 40000, 'batch': 6, 'minimise_s': 60}


def surf_part(rng, slot, name):
    z = 2.5*slot
    k = rng.choice(['plate', 'tube', 'disk', 'box', 'cone', 'sphere', 'span', 'extr', 'extrb', 'plate', 'tube', 'disk', 'more', 'more', 'more'])
    p = {'shape': k, 'name': name}
    if k == 'plate':
        p.update(b=[-1., O.r(rng, .2, 1.), -.5, O.r(rng, .2, 1.)], z=z)
    elif k in ('tube', 'cone'):
        p.update(r=O.r(rng, .3, 1.), z=z, h=O.r(rng, .4, 1.))
        if k == 'cone' and rng.random() < .5:
            p['a'] = 1.3
    elif k == 'disk':
        p.update(r=O.r(rng, .3, 1.), z=z)
    elif k == 'box':
        p.update(p0=[-.5, -.4, z], p1=[.6, O.r(rng, .1, .7), z+1.])
    elif k == 'sphere':
        p.update(r=O.r(rng, .5, 1.), z=z)
    elif k == 'span':
        p.update(p1={'shape': 'line', 'pts': [[.2, z], [.9, z]]}, p2={'shape': 'line', 'pts': [[.2, z+1], [.6, z+1]]})
    elif k == 'extr':
        p.update(p1={'shape': 'line', 'pts': [[.2, z], [.9, z], [.9, z+.6]]}, v=[0., O.r(rng, .3, 1.), 0.])
    elif k == 'extrb':
        p.update(b=[-.5, .5, -.4, O.r(rng, .1, .6)], v=[0., 0., .7])
        if rng.random() < .3:
            p['enc'] = False
    elif k == 'more':
        more_part(rng, p, z)
    return p


def more_part(rng, p, z):
    k = rng.choice(['rev', 'revb', 'bpaths', 'extrp', 'pcoll', 'scoll', 'rect3', 'disk3', 'saper'])
    line = lambda: {'shape': 'line', 'pts': [[.2, z + .2], [O.r(rng, .6, 1.), z + .2]]}
    p['shape'] = k
    if k == 'rev':
        p.update(p1={'shape': 'line', 'pts': [[.3, z + .2], [O.r(rng, .7, 1.), z + .9]]}, ax=rng.choice('xyz'), a=rng.choice([1., 2*3.141592653589793]))
    elif k == 'revb':
        p.update(b=[.4, O.r(rng, .7, 1.), .3 + abs(z), O.r(rng, .6, 1.) + abs(z)], ax=rng.choice('xyz'), a=rng.choice([1., .7, 2*3.141592653589793]),
                 enc=rng.random() < .6)
        if p['ax'] == 'y' and p['a'] > 6:
            p['a'] = 1.
    elif k == 'bpaths':
        p.update(b=[.1, O.r(rng, .5, 1.), z, z + O.r(rng, .4, 1.)], bulge=O.r(rng, 0., .3))
    elif k == 'extrp':
        p.update(p1=line(), v=O.r(rng, .3, .8))
    elif k == 'pcoll':
        p.update(p1=line(), p2={'shape': 'line', 'pts': [[.2, z + .8], [.7, z + O.r(rng, .9, 1.2)]]}, how=rng.choice(['extrude', 'revolve']), v=O.r(rng, .4, 1.))
    elif k == 'scoll':
        p.update(s1={'shape': 'plate', 'b': [-.5, O.r(rng, .1, .5), -.5, .5], 'z': z}, s2={'shape': 'disk', 'r': O.r(rng, .3, .8), 'z': z + 1.})
        if rng.random() < .4:
            p['s3'] = {'shape': 'tube', 'r': .9, 'z': z + .2, 'h': .5}
    elif k == 'rect3':
        p.update(pl=rng.choice(['xz', 'yz', 'xy']), b=[.1, O.r(rng, .5, 1.), .2, O.r(rng, .7, 1.)])
    elif k == 'disk3':
        p.update(pl=rng.choice(['xz', 'yz', 'xy']), c=[1., .5], r=O.r(rng, .2, .6))
    else:
        p.update(h=.3, r=O.r(rng, .2, .4), e=O.r(rng, .6, 1.), z=z)


def xf(rng):
    x = rng.random()
    if x < .4:
        return ['move', O.r(rng, 0, .3), 0., O.r(rng, -.2, .2)]
    if x < .6:
        return ['rot', rng.choice(['Rx', 'Ry', 'Rz']), O.r(rng, .1, 1.)]
    if x < .7:
        return ['roto', 'Rz', O.r(rng, .1, 1.), [.1, 0., .2]]
    if x < .9:
        return ['mirror', rng.choice(['xy', 'yz', 'xz'])]
    return ['map', O.r(rng, 0., .1)]


def mesh_xf(rng):
    return xf(rng) if rng.random() < .6 else ['flat', rng.choice([0, 0, 1, 2]), O.r(rng, -1., 1.)]


def size(rng, o):
    x = rng.random()
    if x < .3:
        o['msf'] = 1
    elif x < .6:
        o['ms'] = rng.choice([.7, 2., 2.])
    elif x < .9:
        o['ms'] = [rng.choice([.8, 1.6]), .1]
    else:
        o['ms'] = {'a': rng.choice([1.2, 1.2, .9]), 'b': rng.choice([0., .1]),
                   'part': rng.choice([{'shape': 'line', 'pts': [[.1, 0.], [1., 0.]], 'name': 'x'}, {'shape': 'tube', 'r': .5, 'z': 0., 'h': 1., 'name': 'x'},
                                       {'shape': 'tube', 'r': .5, 'z': 0., 'h': 1., 'name': 'x', 'ms': [.5, .2]}, surf_part(rng, 0, 'x')])}
        if rng.random() < .4:
            o['ms'].update(self=rng.choice([[.8, .1], [1.1, .1], .9]), a=rng.choice([1.2, 1.]))
    return o


def refine(rng, t):
    """One surface, meshed with sizes that call for several levels of refinement."""
    s = rng.choice([.2, .3, .4])
    x = rng.random()
    if x < .6:
        return {'op': 'meshof', 'o': t, 'ms': [s, rng.choice([0., .1])]}
    return {'op': 'meshof', 'o': t, 'ms': {'a': s, 'b': rng.choice([0., .1]), 'part': {'shape': 'line', 'pts': [[.1, 0.], [1., 0.]], 'name': 'x'},
                                           'self': [rng.choice([.25, .4, .6]), .1]}}


def look(rng, paths, surfs, meshes):
    """A call that only looks at (or copies) an object."""
    o = rng.choice(paths + surfs + meshes + meshes)
    if rng.random() < .15:
        return {'op': 'copy', 'o': o}
    if rng.random() < .2:
        return {'op': 'str', 'o': o}
    if o in paths:
        f, a = rng.choice([('starting_point', []), ('middle_point', []), ('endpoint', []), ('is_closed', []), ('cut', [.3]), ('add_phase', [.1]),
                           ('close', []), ('revolve_x', [1.]), ('revolve_y', [.5]), ('revolve_z', []), ('extrude', [[0., .5, 0.]]),
                           ('line_to', [[.5, 0., 9.]]), ('__call__', [.1])])
    elif o in surfs:
        f, a = rng.choice([('get_boundary_paths', []), ('extrude_boundary', [[0., .1, .5]]), ('revolve_boundary_z', [.5]), ('revolve_boundary_x', [.5]),
                           ('revolve_boundary_y', [.4]), ('__call__', [.1, .2])])
    else:
        f, a = rng.choice([('is_2d', []), ('is_3d', []), ('is_higher_order', []), ('get_electrodes', []), ('to_meshio', []), ('mirror_xy', []), ('mirror_yz', [])])
    return {'op': 'm', 'o': o, 'f': f, 'a': a}


def gen(rng, tier, i):
    setup, paths, surfs, meshes = [], [], [], []
    for j in range(rng.choice([1, 2, 3])):
        if rng.random() < .5:
            p = O.gen_part2d(rng, j, f'n{j}')
            if rng.random() < .3:
                p['xf'] = [xf(rng)]
            if rng.random() < .2 and p['shape'] == 'rect' and not p.get('xf'):
                p['phase'] = .2
            setup.append([f'p{j}', dict(p, type='path')])
            paths.append(f'p{j}')
        else:
            p = surf_part(rng, j, f'n{j}')
            setup.append([f's{j}', dict(p, type='surf')])
            surfs.append(f's{j}')
    for j in range(rng.choice([1, 2])):
        m = {'type': 'mesh', 'parts': [O.gen_part2d(rng, 3+j, f'g{j}'), O.gen_part2d(rng, 5+j, f'h{j}')], 'ms': 1., 'ho': False}
        if rng.random() < .4:
            m['parts'].append(dict(surf_part(rng, -2-j, 'k'), ms=1.))
        if rng.random() < .3:
            m = {'type': 'mesh', 'parts': [O.gen_part2d(rng, 3+j, f'g{j}')], 'ms': 1., 'ho': False}
        setup.append([f'm{j}', m])
        meshes.append((f'm{j}', [q['name'] for q in m['parts']]))
    cls = []
    outer, same = rng, (rng.random() < .4, rng.getrandbits(30))
    for c in range(rng.choice([2, 2, 3, 4, 5])):
        prog = []
        if same[0]:
            rng = random.Random(same[1])             # every client runs the same program
        for q in range(rng.choice([1, 2, 3, 4])):
            o = f'c{c}_{q}'
            x = rng.random()
            if x < .3 and paths + surfs:
                t = rng.choice(paths + surfs)
                op = size(rng, {'op': 'meshof', 'o': t, 'out': o})
                if t in paths and not isinstance(op.get('ms', 1.), float) and rng.random() < .8:
                    op['ms'] = .6              # paths take no function
                if t in paths and rng.random() < .3:
                    op['ho'] = True
                if rng.random() < .3:
                    op['name'] = f'q{c}'
                prog.append(op)
                if rng.random() < .3:
                    prog.append({'op': 'flip', 'o': o})
            elif x < .4 and paths + surfs:
                t = rng.choice(paths + surfs)
                prog.append({'op': 'xf', 'o': t, 'x': xf(rng), 'out': o})
                if rng.random() < .4:
                    prog.append(size(rng, {'op': 'meshof', 'o': o}))
            elif x < .48 and surfs:
                prog.append({'op': 'boundary', 'o': rng.choice(surfs)})
            elif x < .52 and paths:
                prog.append({'op': 'average', 'o': rng.choice(paths), 'c': 2.0})
            elif x < .56:
                prog.append(look(rng, paths, surfs, [m for m, _ in meshes]))
            elif x < .72:
                m, names = rng.choice(meshes)
                k = rng.choice(['meshadd', 'flip', 'extract', 'nolines', 'notri', 'str', 'meshio', 'xf'])
                op = {'op': k, 'o': m, 'out': o}
                if k == 'meshadd':
                    op.update(a=m, b=rng.choice(meshes)[0])
                elif k == 'extract':
                    op['name'] = rng.choice(names)
                elif k == 'xf':
                    op['x'] = mesh_xf(rng)
                prog.append(op)
            elif x < .84:
                prog.append({'op': 'build', 'd': dict(O.gen_part2d(rng, 0, f'z{c}'), type='path', xf=[xf(rng)] if rng.random() < .3 else []), 'out': o})
                prog.append(size(rng, {'op': 'meshof', 'o': o, 'ho': rng.random() < .3}))
                if not isinstance(prog[-1].get('ms', 1.), float):
                    prog[-1]['ms'] = .6
            elif x < .92:
                prog.append({'op': 'build', 'd': dict(surf_part(rng, 0, f'z{c}'), type='surf'), 'out': o})
                prog.append(size(rng, {'op': 'meshof', 'o': o}))
            else:
                prog.append({'op': 'mesh', 'm': {'parts': [O.gen_part2d(rng, 0, 'u'), O.gen_part2d(rng, 1, 'v')], 'ms': .7, 'ho': rng.random() < .3}})
        cls.append(prog)
    rng = outer
    if surfs and rng.random() < .1:
        t = rng.choice(surfs)
        cls = [[refine(rng, t) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2, 3]))]
    elif rng.random() < .2:
        # everybody asks for nearly the same as the first one
        cls[1:] = [[O.vary(rng, op) if rng.random() < .7 else op for op in cls[0]] for _ in cls[1:]]
    s = O.gen_sched(rng, threads_c=False)
    s['granularity'] = rng.choice(['line', 'line', 'instr'])
    s['gap'] = rng.choice([3, 10, 30, 100, 300, 2000])
    return {'variant': rng.choice(['inst', 'ship']), 'setup': setup, 'clients': cls, 'sim': s}


def execute(ctx, spec):
    return conc.execute(ctx, spec, tol=0., what='concurrent geometry users')


shrink = conc.shrink
