"""A small language of user-level operations on the library: set-up objects, client programs,
random generators for both, and canonical (comparable) outcomes.  Everything is JSON so that a
spec is a complete description of the workload."""
import copy
import json
import math
import os

try:
    import numpy as np
except ImportError:          # the driver itself does not need numpy
    np = None


# ---------------------------------------------------------------- building objects
def T():
    import traceon.geometry as G, traceon.mesher as M, traceon.excitation as E, traceon.solver as S, \
        traceon.interpolation as I, traceon.tracing as TR, traceon.focus as F, traceon.backend as B
    return G, M, E, S, I, TR, F, B


def mkpath(p):
    G = T()[0]
    s = p['shape']
    if s == 'line':
        pts = [[a, 0., b] for a, b in p['pts']]
        out = G.Path.line(pts[0], pts[1])
        for q in pts[2:]:
            out = out.line_to(q)
    elif s == 'arc':
        out = G.Path.circle_xz(p['c'][0], p['c'][1], p['r'], angle=p['a'])
    elif s == 'rect':
        out = G.Path.rectangle_xz(*p['b'])
    elif s == 'aperture':
        out = G.Path.aperture(p['h'], p['r'], p['e'], z=p['z'])
    elif s == 'spline':
        out = G.Path.spline_through_points([[a, 0., b] for a, b in p['pts']], N=p.get('N', 20))
    elif s == 'irregular':
        a, b, k = p['k']
        out = G.Path.from_irregular_function(lambda u: [1.0 + a*u, 0., b + k*math.sin(3*u)], N=p.get('N', 20),
                                             breakpoints=p.get('bp', []))
    elif s == 'arcp':
        c = [p['c'][0], 0., p['c'][1]]
        at = lambda a: [c[0] + p['r']*math.cos(a), 0., c[2] + p['r']*math.sin(a)]
        out = G.Path.arc(c, at(p['a'][0]), at(p['a'][1]), reverse=p['rev'])
    elif s == 'arcto':
        (x, z), l, r_ = p['p0'], p['l'], p['r']
        out = G.Path.line([x, 0., z], [x + l, 0., z]).arc_to([x + l, 0., z + r_], [x + l + r_, 0., z + r_])
    elif s == 'ellipse':
        cx, cz = p['c']
        out = G.Path.ellipse(*p['ax']).map_points(lambda q: np.array([cx + q[0], 0., cz + q[1]]))
    elif s == 'close':
        pts = [[a, 0., b] for a, b in p['pts']]
        out = G.Path.line(pts[0], pts[1]).line_to(pts[2]).close()
    elif s == 'cutp':
        q = mkpath(p['of'])
        L = q.path_length
        l = L*p['f']
        while (L - l) + l > L or l + (L - l) > L:       # the second part of a cut path ends a rounding error past the path it came from
            l = l*(1 + 1e-9) + 1e-12
        a, b = q.cut(l)
        out = {'a': a, 'b': b}.get(p['take']) or a >> b
    elif s == 'coll':
        out = mkpath(p['p1']) + mkpath(p['p2'])
        if p.get('p3'):
            out = out + mkpath(p['p3'])
    else:
        raise ValueError(s)
    if p.get('phase'):
        out = out.add_phase(p['phase']*out.path_length)
    for x in p.get('xf', []):
        out = transform(out, x)
    if p.get('name'):
        out.name = p['name']
    return out


def mksurf(p):
    G = T()[0]
    s = p['shape']
    if s == 'coil':
        out = G.Surface.rectangle_xz(*p['b'])
    elif s == 'coil_disk':
        out = G.Surface.disk_xz(p['c'][0], p['c'][1], p['r'])
    elif s == 'plate':
        out = G.Surface.rectangle_xy(*p['b']).move(dz=p['z'])
    elif s == 'box':
        out = G.Surface.box(p['p0'], p['p1'])
    elif s == 'sphere':
        out = G.Surface.sphere(p['r']).move(dz=p.get('z', 0.))
    elif s == 'tube':
        out = G.Path.line([p['r'], 0., p['z']], [p['r'], 0., p['z']+p['h']]).revolve_z()
    elif s == 'cone':
        out = G.Path.line([p['r'], 0., p['z']], [2*p['r'], 0., p['z']+p['h']]).revolve_z(angle=p.get('a', 2*math.pi))
    elif s == 'disk':
        out = G.Surface.disk_xy(0., 0., p['r']).move(dz=p['z'])
    elif s == 'span':
        out = G.Surface.spanned_by_paths(mkpath(p['p1']), mkpath(p['p2']))
    elif s == 'extr':
        out = mkpath(p['p1']).extrude(p['v'])
    elif s == 'extrb':
        out = G.Surface.rectangle_xy(*p['b']).extrude_boundary(p['v'], enclose=p.get('enc', True))
    elif s == 'rev':
        out = getattr(mkpath(p['p1']), 'revolve_' + p['ax'])(p['a'])
    elif s == 'revb':
        out = getattr(G.Surface.rectangle_xz(*p['b']), 'revolve_boundary_' + p['ax'])(p['a'], enclose=p['enc'])
    elif s == 'bpaths':
        (x0, x1, z0, z1), b = p['b'], p['bulge']
        a, c, d, e = [x0, 0., z0], [x1, b, z0], [x1, 0., z1], [x0, b, z1]
        out = G.Surface.from_boundary_paths(G.Path.line(a, c), G.Path.line(c, d), G.Path.line(d, e), G.Path.line(e, a))
    elif s == 'extrp':
        out = mkpath(p['p1']).extrude_by_path(G.Path.line([0., 0., 0.], [0., p['v'], 0.]).line_to([.2, p['v'] + .3, 0.]))
    elif s == 'pcoll':
        out = mkpath(p['p1']) + mkpath(p['p2'])
        out = out.extrude([0., p['v'], 0.]) if p['how'] == 'extrude' else out.revolve_z(p['v'])
    elif s == 'scoll':
        out = mksurf(p['s1']) + mksurf(p['s2'])
        if p.get('s3'):
            out = mksurf(p['s3']) + out
    elif s == 'rect3':
        out = getattr(G.Surface, 'rectangle_' + p['pl'])(*p['b'])
    elif s == 'disk3':
        out = getattr(G.Surface, 'disk_' + p['pl'])(*p['c'], p['r'])
    elif s == 'saper':
        out = G.Surface.aperture(p['h'], p['r'], p['e'], z=p['z'])
    else:
        raise ValueError(s)
    for x in p.get('xf', []):
        out = transform(out, x)
    if p.get('name'):
        out.name = p['name']
    return out


def transform(o, x):
    k = x[0]
    if k == 'move':
        return o.move(dx=x[1], dy=x[2], dz=x[3])
    if k == 'rot':
        return o.rotate(**{x[1]: x[2]})
    if k == 'roto':
        return o.rotate(**{x[1]: x[2]}, origin=x[3])
    if k == 'mirror':
        return getattr(o, 'mirror_' + x[1])()
    if k == 'map':
        a = x[1]
        return o.map_points(lambda p: np.array([p[0] + a*p[2]**2, p[1], p[2]]))
    if k == 'flat':                                     # makes some elements degenerate
        a, c = x[1], x[2]
        return o.map_points(lambda p: np.array([max(v, c) if j == a else v for j, v in enumerate(p)]))
    raise ValueError(k)


NESTED = [False]   # some callback re-enters the library
FLAT = [False]     # callbacks do not re-enter the library, but give the value they would have got


def size_fun(ms, obj=None):
    """A mesh-size given as a list is a function of position; as a dictionary, a function that
    itself builds geometry and meshes it (re-entering the library), or meshes the very object it
    is the mesh size of."""
    if isinstance(ms, dict):
        a, b = ms['a'], ms.get('b', 0.)
        NESTED[0] = True

        def inner():
            if ms.get('self') and obj is not None:
                return len(obj.mesh(mesh_size=size_fun(ms['self'])).points)
            return len(mkmesh({'parts': [ms['part']], 'ms': 10.}).points)
        known = inner() if FLAT[0] else None
        seen = [0, known]

        def f(x, y, z):
            if known is None and seen[0] < 150:          # enough of it
                seen[:] = [seen[0] + 1, inner()]
            return a + 1e-3*seen[1] + b*abs(z)
        return f
    if isinstance(ms, (list, tuple)):
        a, b = ms
        return lambda x, y, z: a + b*abs(z)
    return ms


def is_surface(p):
    return p['shape'] in SURFACES


SURFACES = ('coil', 'coil_disk', 'plate', 'box', 'sphere', 'tube', 'cone', 'disk', 'span', 'extr', 'extrb', 'rev', 'revb', 'bpaths', 'extrp', 'pcoll',
            'scoll', 'rect3', 'disk3', 'saper')


def mkmesh(m):
    G, M = T()[:2]
    out = None
    kw = {}
    if m.get('msf'):
        kw['mesh_size_factor'] = m['msf']
    elif m.get('ms'):
        kw['mesh_size'] = m['ms']
    for p in m['parts']:
        k = dict(kw)
        if p.get('ms'):
            k = {'mesh_size': size_fun(p['ms'])}
        if is_surface(p):
            o = mksurf(p).mesh(**k)
        else:
            o = mkpath(p).mesh(higher_order=m.get('ho', False), **k)
        out = o if out is None else out + o
    for new, src, a, b in m.get('groups', []):
        for d in (out.physical_to_lines, out.physical_to_triangles):
            if src in d:
                d[new] = d[src][a:b].copy()
    return out


def vfun(v):
    a, b, c = v[:3]
    if len(v) > 3:                           # solves another excitation, and looks at the field
        def inner():
            S = T()[3]
            f = S.solve_direct(mkexc(v[3], mkmesh(v[3]['mesh'])))
            return float(f.electrostatic_potential_at_point([.1, 0., .3]))
        known = inner()
        NESTED[0] = True
        return lambda x, y, z: a + b*x + c*z + .1*(known if FLAT[0] else inner())
    return lambda x, y, z: a + b*x + c*z


def nest(rng, adds):
    """Some of the voltage functions solve an excitation of their own."""
    for a in adds:
        if a[0] == 'vfun' and len(a[2]) == 3 and rng.random() < .6:
            m, more = gen_case2d(rng, n_parts=1, ms=10., kinds=rng.choice(['elec', 'vfun']))
            a[2] = a[2] + [{'mesh': m, 'sym': 'rz', 'adds': more}]


def add_exc(e, kind, name, value):
    if kind == 'voltage':
        e.add_voltage(**{name: value})
    elif kind == 'vfun':
        e.add_voltage(**{name: vfun(value)})
    elif kind == 'dielectric':
        e.add_dielectric(**{name: value})
    elif kind == 'ebound':
        e.add_electrostatic_boundary(name, ensure_inward_normals=bool(value))
    elif kind == 'current':
        e.add_current(**{name: value})
    elif kind == 'magpot':
        e.add_magnetostatic_potential(**{name: value})
    elif kind == 'magnetizable':
        e.add_magnetizable(**{name: value})
    elif kind == 'mbound':
        e.add_magnetostatic_boundary(name, ensure_inward_normals=bool(value))
    else:
        raise ValueError(kind)


def mkexc(x, mesh):
    E = T()[2]
    e = E.Excitation(mesh, E.Symmetry.THREE_D if x.get('sym') == '3d' else E.Symmetry.RADIAL)
    for a in x.get('adds', []):
        add_exc(e, *a)
    return e


MU0 = 1.25663706212e-06


def force_of(f):
    """E + v x B as the field object itself reports it."""
    e, m = f.is_electrostatic(), f.is_magnetostatic()

    def fun(x, y, z, vx, vy, vz):
        p = np.array([x, y, z])
        F = np.zeros(3)
        if e:
            F = F + f.electrostatic_field_at_point(p)
        if m:
            bx, by, bz = MU0*np.asarray(f.magnetostatic_field_at_point(p))
            F = F + np.array([vy*bz - vz*by, vz*bx - vx*bz, vx*by - vy*bx])
        return F
    return fun


def user_field(k):
    """A field given by a Python function (used with the generic tracer)."""
    a, b, c = k
    def f(x, y, z, vx, vy, vz):
        return np.array([-a*x, -a*y, b + c*z])
    return f


class UserTracer:
    """The generic tracing entry point with a Python callback."""

    def __init__(self, fun, bounds):
        self.fun = fun
        self.bounds = np.array(bounds, dtype=float)

    def __call__(self, position, velocity, atol=1e-10):
        TR, B = T()[5], T()[7]
        return B.trace_particle(position, TR._convert_velocity_to_SI(velocity), self.fun, self.bounds, atol)


def mkaxial(f, x):
    I = T()[4]
    return I.FieldRadialAxial(f, x['z'][0], x['z'][1], N=x.get('N'))


def derived(f, d):
    """Another field made from a field."""
    import copy
    import pickle
    h = d['how']
    return f + f if h == 'add' else pickle.loads(pickle.dumps(f)) if h == 'pickle' else copy.copy(f)


def build(setup, env=None):
    """Builds the named objects of a set-up (a list of [name, description])."""
    env = {} if env is None else env
    for name, d in setup:
        t = d['type']
        if t == 'mesh':
            o = mkmesh(d)
        elif t == 'path':
            o = mkpath(d)
        elif t == 'surf':
            o = mksurf(d)
        elif t == 'exc':
            o = mkexc(d, env[d['mesh']])
        elif t == 'field':
            S = T()[3]
            o = S.solve_direct(env[d['exc']])
        elif t == 'axial':
            o = mkaxial(env[d['field']], d)
        elif t == 'bounds':
            env[d['field']].set_bounds(d['b'])
            o = None
        elif t == 'tracer':
            o = env[d['field']].get_tracer(d['b'])
        elif t == 'utracer':
            o = UserTracer(force_of(env[d['field']]) if d.get('field') else user_field(d['k']), d['b'])
        elif t == 'derived':
            o = derived(env[d['field']], d)
        elif t == 'traj':
            TR = T()[5]
            o = env[d['tracer']](np.array(d['p']), TR.velocity_vec(d['eV'], d['d']), **({'atol': d['atol']} if d.get('atol') else {}))
        elif t == 'const':
            o = d['v']
        else:
            raise ValueError(t)
        env[name] = o
    return env


# ---------------------------------------------------------------- operations
def set_bounds(f, op):
    """Sets field bounds given in one of the array layouts a caller may have."""
    b, fmt = op['b'], op.get('fmt', 'list')
    if fmt == 'list':
        a = [list(x) for x in b]
    elif fmt == 'tuple':
        a = tuple(tuple(x) for x in b)
    elif fmt == 'fortran':
        a = np.asfortranarray(np.array(b, dtype=float))
    elif fmt == 'strided':
        big = np.zeros((6, 4))
        big[::2, ::2] = b
        a = big[::2, ::2]
    elif fmt == 'f32':
        a = np.array(b, dtype=np.float32)
    else:
        a = np.array(b, dtype=float)
    f.set_bounds(a)
    if isinstance(a, np.ndarray):
        a[:] = 0.0                  # the caller goes on using its own array
    elif isinstance(a, list):
        a[0][0] = 1e9


def run_op(env, op):
    G, M, E, S, I, TR, F, B = T()
    k = op['op']
    g = env.get
    if k == 'mesh':
        return mkmesh(op['m'])
    if k == 'chain':                         # several steps, of which only the last result survives
        e = dict(env)
        v = None
        for q in op['ops']:
            v = run_op(e, q)
            if q.get('out'):
                e[q['out']] = v
        return v
    if k == 'build':
        return build([['_', op['d']]], dict(env))['_']
    if k == 'meshof':                        # mesh a (shared) path or surface
        o = g(op['o'])
        kw = {}
        if op.get('msf'):
            kw['mesh_size_factor'] = op['msf']
        else:
            kw['mesh_size'] = size_fun(op['ms'], o)
        if op.get('name'):
            kw['name'] = op['name']
        if op.get('ho'):
            kw['higher_order'] = True
        return o.mesh(**kw)
    if k == 'xf':
        return transform(g(op['o']), op['x'])
    if k == 'call':
        o = g(op['o'])
        return o(*[t for t in op['at']])
    if k == 'average':
        c = op['c']
        return g(op['o']).average(lambda p: c*p[0] + p[2]**2)
    if k == 'boundary':
        return g(op['o']).get_boundary_paths()
    if k == 'meshadd':
        return g(op['a']) + g(op['b'])
    if k == 'flip':
        return g(op['o']).flip_normals()
    if k == 'extract':
        return g(op['o']).extract_physical_group(op['name'])
    if k == 'nolines':
        return g(op['o']).remove_lines()
    if k == 'notri':
        return g(op['o']).remove_triangles()
    if k == 'meshio':
        return M.Mesh.from_meshio(g(op['o']).to_meshio())
    if k == 'str':
        return str(g(op['o']))
    if k == 'exc':
        return mkexc(op['x'], g(op['mesh']))
    if k == 'add':
        return add_exc(g(op['o']), *op['a'])
    if k == 'active':
        return getattr(g(op['o']), 'get_%s_active_elements' % op['t'])()
    if k == 'solve':
        return S.solve_direct(g(op['o']))
    if k == 'superpos':
        return S.solve_direct_superposition(g(op['o']))
    if k == 'interp':
        return mkaxial(g(op['o']), op)
    if k == 'setbounds':
        return set_bounds(g(op['o']), op)
    if k == 'fadd':
        return g(op['a']) + g(op['b'])
    if k == 'arith':
        a, b, f = g(op['o']), op['b'], op['f']
        b = g(b) if isinstance(b, str) else b
        return a + b if f == 'add' else a - b if f == 'sub' else a*b if f == 'mul' else b*a if f == 'rmul' else -a
    if k == 'm':                             # any method, by name
        return getattr(g(op['o']), op['f'])(*[np.array(a) if isinstance(a, list) else a for a in op.get('a', [])])
    if k == 'copy':
        return copy.deepcopy(g(op['o']))
    if k == 'threads':                       # the user asks for another number of threads from now on
        if op['n'] is None:
            os.environ.pop('TRACEON_THREADS', None)
        else:
            os.environ['TRACEON_THREADS'] = str(op['n'])
        return None
    if k == 'vel':
        return getattr(TR, op['f'])(*op['a'])
    if k == 'bad':
        return bad_call(env, op)
    if k == 'ev':
        f = getattr(g(op['o']), op['f'])
        return f(np.array(op['p'], dtype=float)) if op.get('np', True) else f(list(op['p']))
    if k == 'evs':
        f = getattr(g(op['o']), op['f'])
        if op.get('reuse'):                  # the caller puts one point after the other into the same array
            a, out = np.empty(3), []
            for p in op['ps']:
                a[:] = p
                out.append(f(a))
            return out
        return [f(np.array(p, dtype=float)) for p in op['ps']]
    if k == 'derivs':
        return getattr(g(op['o']), op['f'])(np.array(op['zs']) if 'zs' in op else np.linspace(*op['z']))
    if k == 'area':
        return g(op['o']).area_of_elements(op['i'])
    if k == 'charge':
        return g(op['o']).charge_on_elements(op['i'])
    if k == 'tracer':
        return g(op['o']).get_tracer(op['b'])
    if k == 'trace':
        kw = {'atol': op['atol']} if op.get('atol') else {}
        if op.get('from'):                   # goes on where another trajectory ended
            y = g(op['from'])[1][-1]
            return g(op['o'])(np.array(y[:3]), ev_velocity(y[3:]), **kw)
        return g(op['o'])(np.array(op['p'], dtype=float), TR.velocity_vec(op['eV'], op['d']), **kw)
    if k == 'isect':
        return getattr(TR, op['f'])(g(op['o'])[1], *[np.array(a) if isinstance(a, list) else a for a in op['a']])
    if k == 'axisect':
        return TR.axis_intersection(g(op['o'])[1])
    if k == 'focus':
        return F.focus_position([g(n)[1] for n in op['os']])
    if k == 'write':
        return g(op['o']).write_file(op['fn'])
    if k == 'read':
        return M.Mesh.read_file(op['fn'], **({'name': op['name']} if op.get('name') else {}))
    raise ValueError(k)


def ev_velocity(v):
    from scipy.constants import e, m_e
    v = np.array(v)
    return v*np.linalg.norm(v)*m_e/(2*e)


def bad_call(env, op):
    """A call that the library has to refuse."""
    G, M, E, S, I, TR, F, B = T()
    o, w = env.get(op['o']), op['what']
    if w == 'setbounds':
        return o.set_bounds(op['b'])
    if w == 'tracer':
        return o.get_tracer(op['b'])
    if w == 'position':
        return o(np.array(op['p'], dtype=float), TR.velocity_vec(100., [0., 0., -1.]))
    if w == 'velocity':
        return o(np.array([.05, 0., -2.2]), np.array([0., -100.]))
    if w == 'point':
        return o.electrostatic_field_at_point(np.array(op['p'], dtype=float))
    if w == 'voltage':
        E.Excitation(o, E.Symmetry.RADIAL).add_voltage(**{op['name']: 'much'})
        return 'accepted'
    if w == 'name':
        E.Excitation(o, E.Symmetry.RADIAL).add_dielectric(nope=3.)
        return 'accepted'
    if w == 'nothing':
        return S.solve_direct(E.Excitation(o, E.Symmetry.RADIAL))
    if w == 'interp':
        return I.FieldRadialAxial(o, op['z'][0], op['z'][1], N=op['N'])
    if w == 'derivs':
        return o.get_electrostatic_axial_potential_derivatives(np.array(op['z']))
    if w == 'meshadd':
        return o + 3
    if w == 'focus':
        return F.focus_position([])
    if w == 'read':
        return M.Mesh.read_file(op['fn'])
    if w == 'size':
        return o.mesh(mesh_size='small')
    if w == 'map':
        return o.map_points(lambda p: p[5]).mesh(mesh_size=2.)
    if w == 'direction':
        return TR.velocity_vec(-1., [0., 0., 1.])
    raise ValueError(w)


def gen_zs(rng, z, same=None):
    """Axial positions: evenly spaced (z = [first, last, number]), or (as 'zs') the same ends and number with
    other places in between."""
    z = list(z)
    if z[2] < 3 or rng.random() < .6:
        return {'z': z}
    inner = sorted(r(rng, z[0], z[1]) for _ in range(z[2] - 2))
    zs = [z[0]] + inner + [z[1]]
    x = rng.random()
    if x < .15:
        zs.reverse()
    elif x < .3:
        rng.shuffle(zs)
    return {'zs': zs}


OTHER = [('electrostatic', 'magnetostatic', 'current'), ('field_at_point', 'potential_at_point'), ('xy_', 'xz_', 'yz_'), ('area', 'charge')]


def vary(rng, op):
    """Nearly the same request: one argument is slightly different, everything else is as it was."""
    op = json.loads(json.dumps(op))
    if op['op'] == 'chain':
        return dict(op, ops=[vary(rng, q) if rng.random() < .5 else q for q in op['ops']])
    if op['op'] == 'derivs' and rng.random() < .7:
        zs = op.pop('zs', None) or [op['z'][0] + (op['z'][1]-op['z'][0])*j/max(1, op['z'][2]-1) for j in range(op['z'][2])]
        op.pop('z', None)
        j = rng.randrange(len(zs))
        if 0 < j < len(zs)-1:
            zs[j] = round(zs[j-1] + (zs[j+1]-zs[j-1])*rng.uniform(.2, .45), 4)
        else:
            zs[j] = round(zs[j] + rng.choice([.1, -.1, 1e-3]), 4)
        return dict(op, zs=zs)
    if isinstance(op.get('f'), str) and rng.random() < .3:
        for g in OTHER:
            for a in g:
                if a in op['f']:
                    return dict(op, f=op['f'].replace(a, rng.choice([b for b in g if b != a])))
    leaves = []

    def walk(o, path):
        if isinstance(o, (dict, list)):
            for k in o if isinstance(o, dict) else range(len(o)):
                if k not in ('op', 'o', 'out', 'sym', 'parts', 'n', 'nb'):
                    walk(o[k], path + [k])
        elif isinstance(o, (int, float)) and not isinstance(o, bool):
            leaves.append((path, o))
    walk(op, [])
    if leaves:
        path, v = rng.choice(leaves)
        q = op
        for k in path[:-1]:
            q = q[k]
        if isinstance(v, float) and rng.random() < .3:
            q[path[-1]] = v*rng.choice([1 + 1e-6, 1 - 5e-6, 1 + 1e-5]) if v else rng.choice([1e-7, -1e-6])       # as good as the same
            return op
        q[path[-1]] = v + rng.choice([-1, 1]) if isinstance(v, int) and v > 3 else v if isinstance(v, int) else \
            round(v*rng.choice([1.1, .9, 1.01, .95]), 4) if v else rng.choice([.01, .1])
    return op


def renamed(prog, suffix):
    """The program with its own results called otherwise."""
    own = {q['out'] for q in prog if q.get('out')}

    def walk(v):
        return {k: walk(w) for k, w in v.items()} if isinstance(v, dict) else [walk(w) for w in v] if isinstance(v, list) else \
            v + suffix if isinstance(v, str) and v in own else v
    return walk(prog)


def near(rng, op):
    """The same request but for one number, which is nearly the same."""
    op = json.loads(json.dumps(op))
    spots = []

    def walk(o):
        for k in (o if isinstance(o, dict) else range(len(o))):
            if isinstance(o[k], (dict, list)):
                walk(o[k])
            elif isinstance(o[k], float):
                spots.append((o, k))
    walk({k: op[k] for k in op if k in ('p', 'ps', 'z', 'zs', 'eV', 'd', 'a', 'at', 'b', 'x', 'm', 'ms', 'c')})
    if spots:
        o, k = rng.choice(spots)
        o[k] = o[k]*rng.choice([1 + 1e-6, 1 - 5e-6, 1 + 9e-6, 1 + 1e-4]) if o[k] else rng.choice([1e-7, -1e-6])
    return op


def gen_bad(rng, info):
    x = rng.choice(['setbounds', 'setbounds', 'tracer', 'point', 'derivs', 'interp', 'position', 'velocity', 'voltage', 'name', 'nothing', 'meshadd',
                    'focus', 'read', 'size', 'map', 'direction'])
    bem = [n for n, k in info['fields'] if k != 'axial']
    rz = [n for n, k in info['fields'] if k == 'bem2']
    op = {'op': 'bad', 'what': x}
    if x == 'setbounds':
        op.update(o=rng.choice(bem), b=rng.choice([[[-.1, .1], [-.1, .1]], [[-.1], [.1], [.2]], [-.1, .1], [[-1, 1, 2], [-1, 1, 2]], 'no', [[-.1, .1]],
                                                   [[[-.1, .1], [-.1, .1], [-.1, .1]]]]))
    elif x == 'tracer':
        op.update(o=rng.choice(bem), b=rng.choice([[[-1, 1], [-1, 1]], [1, 2, 3], 'no']))
    elif x in ('position', 'velocity'):
        op.update(o='T' + rng.choice(bem), p=rng.choice([[0., 1.], [0., 0., 0., 0.], []]))
    elif x == 'point':
        op.update(o=rng.choice(info['fields'])[0], p=rng.choice([[], [1., 2., 3., 4., 5.]]))
    elif x in ('derivs', 'interp'):
        if not rz:
            return gen_bad(rng, info)
        op.update(o=rng.choice(rz), z=[2., -2.] if x == 'interp' else [[0., 1.], [2., 3.]], N=8)
    elif x in ('voltage', 'name', 'nothing', 'meshadd'):
        m = rng.choice(info['meshes'])
        op.update(o=m[0], name=m[1][0])
    elif x == 'read':
        op.update(o=None, fn='/nonexistent/dir/mesh.msh')
    elif x in ('size', 'map'):
        op.update(o=rng.choice(info['paths'] + info['surfs']))
    else:
        op.update(o=None)
    return op


def run_program(env, ops, on_op=None):
    """Runs a client program; returns one outcome per operation: ('ok', canonical value) or
    ('exc', type name), or ('changed', what) when a result did not stay what it was.  Outputs go to the
    client's own names."""
    out = []
    kept = []
    moved = {op.get('o') for op in ops if op['op'] in ('setbounds', 'add', 'bad')}
    for i, op in enumerate(ops):
        if on_op:
            on_op(i, op)
        try:
            v = run_op(env, op)
        except Exception as e:
            out.append(('exc', type(e).__name__, str(e)[:200]))
            v = None
        else:
            if op.get('out'):
                env[op['out']] = v
            out.append(('ok', canon(v)))
            if op['op'] in VALUES or op['op'] in OBJECTS and op.get('out') and op['out'] not in moved:
                kept.append((i, v, op['op'] in OBJECTS))
    for i, v, named in kept:
        if out[i][0] == 'ok' and not (named and env.get(ops[i]['out']) is not v):
            d = diff(canon(v), out[i][1], 0.0)
            if d:
                out[i] = ('changed', f'the result changed after it was returned: {d}')
    return out


# results that nothing may change any more, and results that are objects of their own (of those only
# the ones the program keeps anyhow are looked at again)
VALUES = {'trace', 'ev', 'evs', 'derivs', 'isect', 'axisect', 'focus', 'average', 'call', 'active'}
OBJECTS = {'mesh', 'meshof', 'meshadd', 'extract', 'nolines', 'notri', 'meshio', 'interp', 'solve', 'superpos'}
SCRIBBLE = {'trace', 'ev', 'evs', 'derivs', 'isect', 'axisect', 'focus'}


def scribble(op, v):
    """The caller does with a result what it likes."""
    if op['op'] in SCRIBBLE:
        for a in v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 777


# ---------------------------------------------------------------- canonical values
def spline(z, c):
    """Coefficients of quintic pieces, one array per derivative, as contributions over a whole piece: what is left
    of the highest powers in units of the function is rounding noise."""
    z, c = np.asarray(z), np.asarray(c)
    if c.ndim != 3 or c.shape[2] != 6 or len(z) != len(c) + 1:
        return canon(c)
    h = np.abs(np.diff(z))[:, None]**np.arange(5, -1, -1)[None, :]
    return [str(c.dtype)] + [canon(c[:, k, :]*h) for k in range(c.shape[1])]


def canon(o, depth=0):
    """A plain, picklable description of everything a user can observe of a value."""
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, (int, float, complex)):
        return o if not isinstance(o, bool) else o
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return ('arr', str(o.dtype), np.array(o))
    n = type(o).__name__
    G, M, E, S, I, TR, F, B = T()
    if isinstance(o, M.Mesh):
        return ('Mesh', canon(o.points), canon(o.lines), canon(o.triangles),
                sorted((k, canon(v)) for k, v in o.physical_to_lines.items()),
                sorted((k, canon(v)) for k, v in o.physical_to_triangles.items()))
    if isinstance(o, S.EffectivePointCharges):
        return ('EPC', canon(o.charges), canon(o.jacobians), canon(o.positions))
    if isinstance(o, S.FieldBEM):
        return (n, canon(o.electrostatic_point_charges), canon(o.magnetostatic_point_charges), canon(o.current_point_charges),
                canon(o.field_bounds))
    if isinstance(o, (S.FieldAxial, I.FieldAxial)):
        return (n, canon(o.z), spline(o.z, o.electrostatic_coeffs), spline(o.z, o.magnetostatic_coeffs), bool(o.has_electrostatic), bool(o.has_magnetostatic))
    if isinstance(o, E.Excitation):
        return ('Excitation', canon(o.mesh), sorted(o.electrodes), int(o.symmetry),
                sorted((k, int(t), v if not callable(v) else [float(v(1., 0., 2.)), float(v(.5, 0., -1.))]) for k, (t, v) in o.excitation_types.items()))
    if isinstance(o, TR.Tracer):
        return (n, canon(o.bounds), canon(o.field))
    if isinstance(o, G.Path):
        u = [o.path_length*t for t in (0., .1, .37, .5, .93, 1.)]
        return ('Path', canon(float(o.path_length)), [float(b) for b in o.breakpoints], o.name, [canon(np.array(o(t))) for t in u])
    if isinstance(o, G.PathCollection):
        return ('PathCollection', o.name, [canon(p) for p in o.paths])
    if isinstance(o, G.Surface):
        l1, l2 = o.path_length1, o.path_length2
        uv = [(0., 0.), (l1*.3, l2*.8), (l1, 0.), (l1*.5, l2)]
        return ('Surface', float(l1), float(l2), [float(b) for b in o.breakpoints1], [float(b) for b in o.breakpoints2], o.name,
                [canon(np.array(o(*t))) for t in uv])
    if isinstance(o, G.SurfaceCollection):
        return ('SurfaceCollection', o.name, [canon(p) for p in o.surfaces])
    if isinstance(o, UserTracer):
        return ('UserTracer', canon(o.bounds))
    if isinstance(o, dict):
        return ('dict', sorted((str(k), canon(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return ('list', [canon(v) for v in o])
    if callable(o):
        return ('callable',)
    return ('obj', n)


def fnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def close(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a-b) <= tol*abs(b)


def diff(a, b, tol=1e-9, path=''):
    """None when equal up to rounding, otherwise a short description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f'{path}: array against {type(b).__name__}'
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} instead of {b.shape}'
        if a.size == 0:
            return None
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
            same_nan = np.isnan(a) == np.isnan(b)
            fin = b[np.isfinite(b)]
            scale = np.max(np.abs(fin)) if fin.size else 1.0
            with np.errstate(all='ignore'):
                ok = same_nan & ((a == b) | np.isnan(b) | (np.abs(a-b) <= tol*np.abs(b) + tol*1e-2*scale))
            if not ok.all():
                i = tuple(int(v) for v in np.argwhere(~ok)[0])
                return f'{path}{list(i)}: {a[i]!r} instead of {b[i]!r} ({int((~ok).sum())} of {ok.size} entries differ)'
            return None
        if not np.array_equal(a, b):
            i = tuple(int(v) for v in np.argwhere(a != b)[0])
            return f'{path}{list(i)}: {a[i]} instead of {b[i]}'
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == 3 and a and a[0] == 'arr' and len(b) == 3 and b[0] == 'arr':
            if a[2].size == 0 and b[2].size == 0:
                return None if a[2].shape[0] == b[2].shape[0] else f'{path}: shape'
            return diff(a[2], b[2], tol, path)
        if len(a) != len(b):
            return f'{path}: length {len(a)} instead of {len(b)}'
        tag = a[0] if a and isinstance(a[0], str) else ''
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, f'{path}/{tag}{i}')
            if d:
                return d
        return None
    if fnum(a) and fnum(b):
        return None if close(a, b, tol) else f'{path}: {a!r} instead of {b!r}'
    return None if a == b else f'{path}: {str(a)[:80]!r} instead of {str(b)[:80]!r}'


def diff_outcomes(got, want, ops, tol=1e-9, who=''):
    """Compares two outcome lists of the same program (exception messages are not compared)."""
    for i, (g, w) in enumerate(zip(got, want)):
        if 'changed' in (g[0], w[0]):
            return f'{who}operation {i} ({ops[i]["op"]}): {g[1] if g[0] == "changed" else "alone: " + w[1]}'
        if g[0] != w[0]:
            return f'{who}operation {i} ({ops[i]["op"]}): {"raised " + g[1] + " " + g[2] if g[0] == "exc" else "returned a value"} instead of ' \
                   f'{"raising " + w[1] if w[0] == "exc" else "returning a value"}'
        if g[0] == 'exc':
            continue
        d = diff(g[1], w[1], tol)
        if d:
            return f'{who}operation {i} ({ops[i]["op"]}): {d}'
    if len(got) != len(want):
        return f'{who}{len(got)} outcomes instead of {len(want)}'
    return None


def snapshot(env):
    return {k: canon(v) for k, v in env.items()}


def either(mid, before, done, path=''):
    """None when every part of `mid` is as it was before, or as it is when all is done."""
    d = diff(mid, before, 0., path)
    if d is None or diff(mid, done, 0.) is None:
        return None
    if all(isinstance(x, tuple) and len(x) == len(mid) and isinstance(x[0], str) for x in (mid, before, done)) and \
            (mid[0] in ('Mesh', 'Excitation', 'FieldRadialBEM', 'Field3D_BEM') or mid[0].startswith('Tracer')):
        for j, q in enumerate(zip(mid, before, done)):
            x = either(*q, f'{path}[{j}]')
            if x:
                return x
        return None
    return d


def diff_snap(a, b, tol=0.0):
    for k in b:
        d = diff(a.get(k), b[k], tol)
        if d:
            return f'shared object {k} changed: {d}'
    return None


# ---------------------------------------------------------------- random generation
def r(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def gen_part2d(rng, slot, name, closed=None, ms=None):
    """One 2D part inside the band 2*slot <= z <= 2*slot+1.3 (parts never touch)."""
    z = 2.0*slot
    k = rng.choice(['line', 'line2', 'line3', 'arc', 'rect', 'aperture', 'spline', 'line', 'rect', 'more']) if closed is None else ('rect' if closed else 'line')
    x0 = r(rng, .2, .8)
    p = {'name': name}
    if k == 'line':
        p.update(shape='line', pts=[[x0, z], [x0 + r(rng, .3, 1.5), z + r(rng, 0., 1.)]])
    elif k == 'line2':
        p.update(shape='line', pts=[[x0, z], [x0 + 1., z], [x0 + 1., z + r(rng, .3, 1.2)]])
    elif k == 'line3':
        p.update(shape='line', pts=[[x0 + 1, z], [x0, z], [x0, z + .8], [x0 + 1.2, z + r(rng, .9, 1.2)]])
    elif k == 'arc':
        p.update(shape='arc', c=[x0 + .8, z + .6], r=r(rng, .2, .55), a=rng.choice([2*math.pi, math.pi, 1.0]))
    elif k == 'rect':
        p.update(shape='rect', b=[x0, x0 + r(rng, .3, 1.), z, z + r(rng, .3, 1.2)])
    elif k == 'aperture':
        p.update(shape='aperture', h=r(rng, .1, .5), r=x0, e=x0 + r(rng, .4, 1.), z=z + .5)
    elif k == 'spline':
        p.update(shape='spline', pts=[[x0, z], [x0 + .5, z + .6], [x0 + 1.1, z + .2]], N=20)
    if k == 'more':
        more_part2d(rng, p, x0, z)
    if ms:
        p['ms'] = ms
    return p


def more_part2d(rng, p, x0, z):
    k = rng.choice(['arcp', 'arcto', 'close', 'cutp', 'coll', 'ellipse'])
    p['shape'] = k
    if k == 'arcp':
        a = r(rng, 0., 1.)
        p.update(c=[x0 + .7, z + .6], r=r(rng, .2, .55), a=[a, a + r(rng, .5, 2.5)], rev=rng.random() < .3)
    elif k == 'arcto':
        p.update(p0=[x0, z], l=r(rng, .2, .6), r=r(rng, .2, .6))
    elif k == 'close':
        p.update(pts=[[x0, z], [x0 + r(rng, .4, 1.), z + r(rng, 0., .3)], [x0 + .3, z + r(rng, .6, 1.2)]])
    elif k == 'cutp':
        p.update(of=gen_part2d(rng, z/2, None, closed=rng.random() < .5), f=r(rng, .2, .8), take=rng.choice(['a', 'b', 'ab']))
    elif k == 'coll':
        p.update(p1={'shape': 'line', 'pts': [[x0, z], [x0 + .8, z]]}, p2={'shape': 'line', 'pts': [[x0, z + .5], [x0 + r(rng, .3, 1.), z + .9]]})
        if rng.random() < .3:
            p['p3'] = {'shape': 'arc', 'c': [x0 + 1.8, z + .5], 'r': r(rng, .1, .4), 'a': rng.choice([2*math.pi, 1.5])}
    else:
        p.update(ax=[r(rng, .2, .5), r(rng, .1, .5)], c=[x0 + .6, z + .6])


def gen_coil(rng, slot, name, ms=None):
    z = 2.0*slot
    x0 = r(rng, .5, 1.)
    p = {'shape': 'coil', 'b': [x0, x0 + r(rng, .2, .6), z, z + r(rng, .2, 1.)], 'name': name, 'ms': ms or 2.0}
    return p


def gen_case2d(rng, n_parts=None, ms=None, kinds=None, ho=None):
    """Returns (mesh description, list of excitation adds)."""
    n = n_parts or rng.choice([1, 1, 2, 2, 3, 4])
    family = kinds or rng.choice(['elec', 'elec', 'elec', 'mag', 'both', 'diel', 'vfun'])
    parts, adds = [], []
    slots = list(range(-3, 4))
    rng.shuffle(slots)
    for i in range(n):
        nm = 'abcdefgh'[i]
        if family == 'elec':
            parts.append(gen_part2d(rng, slots[i], nm))
            adds.append(['voltage', nm, rng.choice([1.0, 100, -50.5, 0, 1e3, 2.5])])
        elif family == 'vfun':
            parts.append(gen_part2d(rng, slots[i], nm))
            adds.append(['vfun', nm, [r(rng, -5, 5), r(rng, -1, 1), r(rng, -1, 1)]] if rng.random() < .7 else ['voltage', nm, 10.0])
        elif family == 'diel':
            if i == 0:
                parts.append(gen_part2d(rng, slots[i], nm))
                adds.append(['voltage', nm, 100.0])
            else:
                parts.append(gen_part2d(rng, slots[i], nm, closed=True))
                adds.append(rng.choice([['dielectric', nm, r(rng, 1.5, 9.)], ['ebound', nm, rng.random() < .5]]))
        elif family == 'mag':
            k = rng.choice(['coil', 'magpot', 'magnetizable', 'mbound']) if i else rng.choice(['coil', 'magpot'])
            if k == 'coil':
                parts.append(gen_coil(rng, slots[i], nm))
                adds.append(['current', nm, rng.choice([1.0, -3, 10])])
            else:
                parts.append(gen_part2d(rng, slots[i], nm, closed=k != 'magpot'))
                adds.append([k, nm, {'magpot': 20.0, 'magnetizable': r(rng, 2., 50.), 'mbound': rng.random() < .5}[k]])
        else:
            k = ['voltage', 'coil', 'magnetizable', 'voltage', 'magpot', 'dielectric'][i % 6]
            if k == 'coil':
                parts.append(gen_coil(rng, slots[i], nm))
                adds.append(['current', nm, 5.0])
            else:
                parts.append(gen_part2d(rng, slots[i], nm, closed=k in ('magnetizable', 'dielectric')))
                adds.append([k, nm, {'voltage': 50.0, 'magnetizable': 10.0, 'magpot': 3.0, 'dielectric': 4.0}[k]])
    m = {'type': 'mesh', 'parts': parts, 'ho': rng.random() < .4 if ho is None else ho}
    for i in range(1, n):
        if adds[i][0] == adds[i-1][0] != 'current' and is_surface(parts[i]) == is_surface(parts[i-1]) and rng.random() < .12:
            # an electrode of several pieces
            parts[i]['name'], adds[i] = parts[i-1]['name'], None
            break
    adds = [a for a in adds if a]
    if family in ('elec', 'vfun') and rng.random() < .12:
        # elements that are part of two electrodes
        src = rng.choice(parts)['name']
        m['groups'] = [[x, src, rng.choice([0, 0, 1]), rng.choice([1, 2, 3, None])] for x in rng.choice([['za'], ['za', 'ya']])]
        adds += [['voltage', x[0], 7.0 + j] for j, x in enumerate(m['groups'])]
    if all(is_surface(p) for p in parts):
        # a current-only excitation: nothing to solve for, a legal corner case
        m['ho'] = False
    if ms:
        m['ms'] = ms
    elif rng.random() < .3:
        m['msf'] = rng.choice([1, 1, 2])
    else:
        m['ms'] = rng.choice([.3, .5, 1., 10.])
    if any(is_surface(p) for p in parts) and 'msf' in m:
        m.pop('msf')
        m['ms'] = 0.5
    return m, adds


def gen_case3d(rng, n_parts=None, kinds=None):
    n = n_parts or rng.choice([1, 2])
    family = kinds or rng.choice(['elec', 'elec', 'diel', 'mag', 'vfun', 'both'])
    parts, adds = [], []
    slots = [-2, -1, 0, 1, 2]
    rng.shuffle(slots)
    for i in range(n):
        nm = 'abcdefgh'[i]
        z = slots[i]*2.5
        k = rng.choice(['plate', 'plate', 'tube', 'disk'])
        if i and family in ('diel', 'mag') and rng.random() < .3:
            # closed: it has an inside
            k = 'sphere'
            p = {'shape': 'sphere', 'r': r(rng, .5, 1.), 'z': z}
        elif k == 'plate':
            p = {'shape': 'plate', 'b': [-1., r(rng, .5, 1.), -1., r(rng, .5, 1.)], 'z': z}
        elif k == 'tube':
            p = {'shape': 'tube', 'r': r(rng, .5, 1.), 'z': z, 'h': 1.}
        else:
            p = {'shape': 'disk', 'r': r(rng, .5, 1.), 'z': z}
        p['name'] = nm
        p['ms'] = rng.choice([5., 5., 1.])
        parts.append(p)
        if family == 'elec' or i == 0 and family in ('diel', 'vfun'):
            adds.append(['voltage', nm, rng.choice([1.0, 100, -50.5])])
        elif family == 'vfun':
            adds.append(['vfun', nm, [r(rng, -5, 5), 1., -1.]])
        elif family == 'diel':
            adds.append(rng.choice([['dielectric', nm, r(rng, 1.5, 9.)]]*2 + [['ebound', nm, p['shape'] == 'sphere']]))
        elif family == 'mag':
            adds.append(['magpot', nm, rng.choice([10., -3.])] if i == 0 or rng.random() < .4 else
                        rng.choice([['magnetizable', nm, r(rng, 2., 50.)], ['mbound', nm, p['shape'] == 'sphere']]))
        elif family == 'both':
            adds.append(rng.choice([['voltage', nm, 70.], ['magpot', nm, 30.]]) if i else ['voltage', nm, -20.])
    return {'type': 'mesh', 'parts': parts}, adds


def gen_sched(rng, threads_c=True):
    """A random scheduling policy."""
    s = {'seed': rng.getrandbits(48)}
    x = rng.random()
    s['mode'] = 'uniform' if x < .3 else 'pct' if x < .45 else 'target' if x < .93 else 'none'
    if s['mode'] == 'target':
        s['depth'] = rng.choice([1, 1, 2, 2, 3, 4])
    s['granularity'] = rng.choice(['line', 'line', 'line', 'instr', 'none'])
    s['c_yields'] = bool(threads_c and rng.random() < .6)
    if s['granularity'] == 'none' and not s['c_yields']:
        s['granularity'] = 'line'
    s['gap'] = rng.choice([3, 10, 30, 100, 300]) if not s['c_yields'] else rng.choice([50, 300, 1000, 5000, 20000])
    s['budget'] = rng.choice([2, 5, 20, 100, 1000, 100000])
    return s


def shrink_list(lst, minimum=0):
    """Candidate sublists, largest removals first."""
    n = len(lst)
    size = n//2
    while size >= 1:
        for i in range(0, n, size):
            c = lst[:i] + lst[i+size:]
            if len(c) >= minimum and len(c) < n:
                yield c
        size //= 2
