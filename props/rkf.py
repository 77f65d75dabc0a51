"""Reference model of the documented tracing algorithm (Fehlberg's RK45 pair with adaptive steps):
decides whether a recorded trajectory is one that the model can produce with the force the field
object itself reports."""
import numpy as np
from props import ops as O

EM = -175882001077.2163
STEP = 0.01
B = [[], [2/9], [1/12, 1/4], [69/128, -243/128, 135/64], [-17/12, 27/4, -27/5, 16/15], [65/432, -5/16, 13/16, 4/27, 5/144]]
CH = np.array([47/450, 0, 12/25, 32/225, 1/30, 6/25])
CT = np.array([-1/150, 0, 3/100, -16/75, -1/20, 6/25])


def step(y, h, force):
    k = np.zeros((6, 6))
    stages = []
    for i in range(6):
        s = y + sum((c*k[j] for j, c in enumerate(B[i])), np.zeros(6))
        stages.append(s)
        k[i, :3] = h*s[3:]
        k[i, 3:] = h*EM*force(*s)
    err = np.abs(CT @ k)
    return y + CH @ k, err[:3].max() + h*err[3:].max(), stages, k


def bounded(force, b):
    """The force, absent outside the field bounds."""
    if b is None:
        return force
    zero = np.zeros(3)

    def f(x, y, z, vx, vy, vz):
        if b[0][0] < x < b[0][1] and b[1][0] < y < b[1][1] and b[2][0] < z < b[2][1]:
            return force(x, y, z, vx, vy, vz)
        return zero
    return f


def near_face(stages, faces):
    for b in faces:
        for s in stages:
            for c in range(3):
                if abs(s[c]-b[c][0]) < 1e-8 or abs(s[c]-b[c][1]) < 1e-8:
                    return True
    return False


def inside(p, b):
    return all(b[c][0] <= p[c] <= b[c][1] for c in range(3))


def shape_of(t, y, p0, v0, b):
    """The trajectory as a whole: starts at the given state, runs forward in time, stays inside
    the bounds until its last sample."""
    if t.ndim != 1 or y.shape != (len(t), 6) or len(t) == 0:
        return 'shape', f'times {t.shape}, positions {y.shape}'
    if not np.isfinite(t).all() or not np.isfinite(y).all():
        return 'not-finite', 'a sample is not finite'
    if t[0] != 0. or not np.allclose(y[0, :3], p0, rtol=1e-12, atol=0) or not np.allclose(y[0, 3:], v0, rtol=1e-9, atol=0):
        return 'start', f'starts at t={t[0]} {y[0].tolist()} instead of {list(p0)} {list(v0)}'
    d = np.diff(t)
    if (d <= 0).any():
        i = int(np.argmax(d <= 0))
        return 'time', f'time does not increase between samples {i} and {i+1} of {len(t)}: {t[i]} {t[i+1]}'
    out = [not inside(p, b) for p in y[:, :3]]
    if any(out[:-1]):
        return 'beyond-bounds', f'sample {out.index(True)} of {len(t)} is outside the tracer bounds, yet the trajectory goes on'
    if all(b[c][0] < y[-1, c] < b[c][1] for c in range(3)):
        return 'stops-early', f'the last of {len(t)} samples is inside the tracer bounds: {y[-1].tolist()}'
    return None


def limit_of(t, y):
    """No step is longer than the limit on the distance covered in one."""
    v = np.linalg.norm(y[:, 3:], axis=1).min()
    d = np.diff(t)
    if len(d) and d.max()*v > STEP*(1+1e-6) + 1e-15*abs(t[-1])*v:
        i = int(d.argmax())
        return 'step-limit', f'samples {i} to {i+1} of {len(t)}: a step of {d[i]*v} m at least, the limit is {STEP}'
    return None


def steps_of(t, y, idx, atol, force, faces):
    """Every chosen pair of neighbouring samples is one step of the model."""
    n = 0
    for i in idx:
        h = t[i+1] - t[i]
        y1, err, st, k = step(y[i], h, force)
        if near_face(st, faces):
            continue
        n += 1
        d, dm = y[i+1]-y[i], y1-y[i]
        # time differences lose digits to cancellation
        rel = 1e-7 + 4e-16*t[i+1]/h
        tp = rel*np.abs(dm[:3]).max() + 1e-13*np.abs(y[i, :3]).max()
        tv = rel*np.abs(k[:, 3:]).max() + 1e-13*np.abs(y[i, 3:]).max()
        if np.abs(d[:3]-dm[:3]).max() > tp or np.abs(d[3:]-dm[3:]).max() > tv:
            return ('step', f'samples {i} to {i+1} of {len(t)}: the electron moves by {d.tolist()}, the model by {dm.tolist()} (dt={h})'), n
        if err > atol*1.001 + 1e-14:
            return ('step-error', f'samples {i} to {i+1} of {len(t)}: accepted with estimated error {err}, tolerance {atol}'), n
    return None, n


def pick(rng, n, important, limit):
    idx = list(range(n-1))
    if len(idx) <= limit:
        return idx
    imp = [i for i in important if 0 <= i < n-1]
    rng.shuffle(imp)
    return sorted(set(imp[:limit]) | set(rng.sample(idx, max(8, limit-len(imp)))))
