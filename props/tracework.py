"""Workloads of traces judged against the reference model (shared by P08 and P14)."""
import math
import random
from props import ops as O, common as C, rkf
import numpy as np


def velocity(eV, d):
    from scipy.constants import e, m_e
    d = np.array(d, dtype=float)
    return math.sqrt(2*eV*e/m_e)*d/np.linalg.norm(d)


def arr(c):
    return np.asarray(c[2], dtype=float)


def box(rng, z0):
    a = O.r(rng, .05, .3)
    return [[-a, O.r(rng, .05, .3)], [-O.r(rng, .05, .3), a], [round(z0 - O.r(rng, .1, .6), 3), round(z0 + O.r(rng, .05, .5), 3)]]


def gen_trace(rng, tracer, b, out, scale=1.0):
    p = [round(rng.uniform(b[c][0]*.5, b[c][1]*.5), 4) for c in range(2)] + [round(rng.uniform(*b[2]), 4)]
    if rng.random() < .04:
        p[2] = b[2][1] + 1.0                       # starts outside the bounds
    d = [round(rng.gauss(0, .3), 3), round(rng.gauss(0, .3), 3), rng.choice([-1., -1., 1.])]
    if rng.random() < .1:
        d = [1., round(rng.gauss(0, .3), 3), 0.]
    return {'op': 'trace', 'o': tracer, 'p': p, 'eV': rng.choice([1., 20., 300., 1000., 3e4, 20., 300., .01, .0003]), 'd': d,
            'atol': rng.choice([None, 1e-8, 1e-10, 1e-7, 1e-11]), 'out': out}


def inner(rng, b):
    """Field bounds that cut through the traced box."""
    out = []
    for lo, hi in b:
        w = hi-lo
        x = rng.random()
        if x < .3:
            out.append([round(lo - 1., 3), round(hi + 1., 3)])
        else:
            m = lo + w*rng.uniform(.1, .7)
            out.append([round(m - (w if x < .6 else .15*w), 4), round(m + .2*w, 4)])
    return out


def field_setup(rng, fam=None):
    """Set-up producing field 'f' and its kind."""
    fam = fam or rng.choice(['elec', 'elec', 'mag', 'both', 'both', '3d', '3d', 'axial', 'axial', 'diel'])
    if fam == '3d':
        m, adds = O.gen_case3d(rng, n_parts=rng.choice([1, 2]), kinds=rng.choice(['elec', 'mag', 'elec', 'diel']))
        for p in m['parts']:
            p['ms'] = 10.
        if rng.random() < .3 and len(m['parts']) == 2:
            adds = [['voltage', 'a', 70.], ['magpot', 'b', 300.]]
        sym = '3d'
    else:
        k = {'axial': rng.choice(['elec', 'both', 'mag'])}.get(fam, fam)
        m, adds = O.gen_case2d(rng, n_parts={'both': 3}.get(k, rng.choice([1, 2])), ms=rng.choice([1., 10.]), kinds=k)
        sym = 'rz'
    setup = [['m', m], ['e', {'type': 'exc', 'mesh': 'm', 'sym': sym, 'adds': adds}], ['f', {'type': 'field', 'exc': 'e'}]]
    if fam == 'axial':
        lo = O.r(rng, -4., -1.)
        setup.append(['a', {'type': 'axial', 'field': 'f', 'z': [lo, round(lo + O.r(rng, 1., 4.), 3)], 'N': rng.choice([4, 6, 11, 25])}])
        return setup, 'a', 'axial'
    return setup, 'f', sym


def gen_more(rng, op, out):
    """A trace that goes on where another one ended, in a wider box."""
    b = [[round(lo - .1, 3), round(hi + .1, 3)] for lo, hi in op['bounds']]
    return {'op': 'trace', 'o': None, 'from': op['out'], 'bounds': b, 'atol': rng.choice([None, 1e-8, 1e-7]), 'out': out}


def started(p, outs, op):
    """The operation with the state its trace starts from filled in (None when there is no such state)."""
    if 'from' not in op:
        return op
    for q, out in zip(p, outs):
        if q.get('out') == op['from']:
            if out[0] != 'ok':
                return None
            y = arr(out[1][1][1])[-1]
            return dict(op, p=y[:3].tolist(), v0=y[3:].tolist())


def judge_trace(env, op, out, bounds, fields, rng, block, limit, faces_extra=()):
    """(violation or None, steps checked).  `fields` lists the candidate (field, field bounds)
    pairs, one of which must explain the whole trajectory."""
    if out[0] == 'changed':
        return ('result-changed', out[1]), 0
    if out[0] == 'exc':
        return ('raises', f'{out[1]}: {out[2]}'), 0
    c = out[1]
    if not (isinstance(c, (list, tuple)) and c[0] == 'list' and len(c[1]) == 2):
        return ('shape', 'a trace must return times and positions'), 0
    t, y = arr(c[1][0]), arr(c[1][1])
    v0 = np.array(op['v0']) if 'v0' in op else velocity(op['eV'], op['d'])
    s = rkf.shape_of(t, y, op['p'], v0, bounds) or (rkf.limit_of(t, y) if block else None)
    if s:
        return s, 0
    n = len(t)
    important = []
    if block:
        for j in range(1, n//max(1, block-1) + 2):
            important += [j*(block-1) - 1, j*(block-1)]
    fb = [b for _, b in fields if b is not None]
    # the sides of the field bounds are where something changes
    for b in fb:
        ins = np.array([all(b[k][0] < q[k] < b[k][1] for k in range(3)) for q in y[:, :3]])
        important += [int(i) for i in np.nonzero(ins[1:] != ins[:-1])[0]]
    idx = rkf.pick(rng, n, important, limit)
    first = None
    for force, b in fields:
        v, k = rkf.steps_of(t, y, idx, op['atol'] or 1e-10, rkf.bounded(force, b), [b] if b is not None else [])
        if v is None:
            return None, k
        first = first or v
    return first, 0
