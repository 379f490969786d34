"""Velocity fields with known trajectories, described by JSON-able dictionaries."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gens, ref


@st.composite
def field(draw, kinds=('uniform', 'linear', 'radial', 'shear', 'well')):
    """A field, a start and a duration; the path length is S (about) and the duration |T| = 1e-2 .. 2e4 days."""
    kind = draw(gens.pick(*kinds))
    T = draw(gens.logq(0.01, 20000.0)) * draw(gens.pick(1, -1))
    S = draw(gens.logq(1.0, 2000.0))
    off = draw(gens.OFFSETS)
    third = draw(gens.pick(0.0, 0.0, 1 / 3))
    x0, y0 = off[0] + draw(gens.sq(500, 0.25)) + third, off[1] + draw(gens.sq(500, 0.25)) - third
    if draw(gens.ints(0, 9)) == 9:
        # whole numbers, as people write them
        x0, y0, T = round(x0), round(y0), round(T) or 1
    f = dict(kind=kind, T=T, S=S, x0=x0, y0=y0)
    U = S / abs(T)
    if kind == 'uniform':
        a = draw(gens.ANGLES)
        f['u'] = [U * math.cos(a), U * math.sin(a)]
    elif kind == 'linear':
        f['c'] = [x0 - S * draw(gens.sq(1.0)), y0 - S * draw(gens.sq(1.0))]
        f['M'] = [draw(gens.sq(3.0)) / abs(T) for _ in range(4)]
        if draw(gens.ints(0, 2)) == 0:
            w = draw(gens.q(0.2, 8.0)) / abs(T)
            f['M'] = [0.0, -w, w, 0.0]
    elif kind == 'radial':
        # v = c (x - xc)/r^2: r^2 = r0^2 + 2 c t; never into the singularity.
        a = draw(gens.ANGLES)
        r0 = S * draw(gens.logq(0.1, 1.0))
        f['c'] = [x0 - r0 * math.cos(a), y0 - r0 * math.sin(a)]
        f['k'] = S * S / (2 * T)
    elif kind == 'shear':
        # x is a clock: x' = U, y' = B y + A cos(k x + p) about the start.
        f.update(U=U * draw(gens.pick(1, -1)), B=draw(gens.sq(1.5)) / abs(T), A=U * draw(gens.slog(0.01, 3.0)),
                 k=draw(gens.logq(0.1, 20.0)) / S, p=draw(gens.q(0.0, 6.283)))
    elif kind == 'well':
        # a well's backward flow plus uniform flow, traced away from the well.
        a = draw(gens.ANGLES)
        r0 = S * draw(gens.logq(0.1, 1.0))
        f['c'] = [x0 - r0 * math.cos(a), y0 - r0 * math.sin(a)]
        f['k'] = S * S / (2 * T)
        b = draw(gens.ANGLES)
        u = abs(f['k']) / r0 * draw(gens.q(0.0, 0.7))
        f['u'] = [u * math.cos(b), u * math.sin(b)]
    return f


def velocity(f):
    """v(x, y) of the field."""
    kind = f['kind']
    x0, y0 = f['x0'], f['y0']
    if kind == 'still':
        return lambda x, y: (0.0, 0.0)
    if kind == 'uniform':
        u = f['u']
        return lambda x, y: (u[0], u[1])
    if kind == 'linear':
        a, b, c, d = f['M']
        cx, cy = f['c']
        return lambda x, y: (a * (x - cx) + b * (y - cy), c * (x - cx) + d * (y - cy))
    if kind in ('radial', 'well'):
        cx, cy = f['c']
        k = f['k']
        ux, uy = f.get('u', (0.0, 0.0))

        def v(x, y):
            dx, dy = x - cx, y - cy
            r2 = dx * dx + dy * dy
            return k * dx / r2 + ux, k * dy / r2 + uy
        return v
    if kind == 'shear':
        return lambda x, y: (f['U'], f['B'] * (y - y0) + f['A'] * math.cos(f['k'] * (x - x0) + f['p']))
    raise KeyError(kind)


def shear_y(f, t, y, dt):
    """Exact y after dt from (t, y), t and y relative to the start."""
    w = f['k'] * f['U']
    B, A, p = f['B'], f['A'], f['p']
    if B * B + w * w == 0:
        return y + A * math.cos(p) * dt
    den = B * B + w * w
    a, b = -A * B / den, A * w / den

    def part(s):
        return a * math.cos(w * s + p) + b * math.sin(w * s + p)
    return (y - part(t)) * math.exp(B * dt) + part(t + dt)


def exact(f, T=None):
    """(end point, largest amplification of an error on the way)."""
    T = f['T'] if T is None else T
    kind, x0, y0 = f['kind'], f['x0'], f['y0']
    if kind == 'still':
        return (x0, y0), 1.0
    if kind == 'uniform':
        return (x0 + f['u'][0] * T, y0 + f['u'][1] * T), 1.0
    if kind == 'linear':
        from scipy.linalg import expm
        M = np.array(f['M']).reshape(2, 2)
        cx, cy = f['c']
        e = expm(M * T) @ np.array([x0 - cx, y0 - cy])
        amp = max(np.linalg.norm(expm(M * T * s), 2) for s in np.linspace(0, 1, 9))
        # an error made at time s is amplified by exp(M (T - s)): covered by the same family.
        return (cx + e[0], cy + e[1]), 2 * float(amp)
    if kind == 'radial':
        cx, cy = f['c']
        dx, dy = x0 - cx, y0 - cy
        r0 = math.hypot(dx, dy)
        r = math.sqrt(r0 * r0 + 2 * f['k'] * T)
        return (cx + dx / r0 * r, cy + dy / r0 * r), 1.0 + r / r0
    if kind == 'shear':
        return (x0 + f['U'] * T, y0 + shear_y(f, 0.0, 0.0, T)), math.exp(abs(f['B'] * T)) * (1 + abs(f['A'] * f['k'] * T))
    if kind == 'well':
        v = velocity(f)
        sol = ref.trace(v, x0, y0, T, rtol=1e-11, atol=1e-10)
        e = sol.y[:, -1]
        d = 1e-5 * f['S']
        amp = 1.0
        for ex, ey in ((d, 0), (0, d)):
            s2 = ref.trace(v, x0 + ex, y0 + ey, T, rtol=1e-11, atol=1e-10)
            amp += float(np.hypot(*(s2.y[:, -1] - e)) / d)
        return (float(e[0]), float(e[1])), 2 * amp
    raise KeyError(kind)


def feval_of(f, sign=1.0):
    v = velocity(f)

    def feval(xy):
        a, b = v(xy[0], xy[1])
        return np.array([sign * a, sign * b])
    return feval


def vertices_of(out):
    return np.array([[float(v[0]), float(v[1])] for v in out])


def nearness(f):
    """The smallest length over which the velocity changes along the path."""
    if f['kind'] in ('radial', 'well'):
        return min(f['S'], math.hypot(f['x0'] - f['c'][0], f['y0'] - f['c'][1]))
    if f['kind'] == 'shear':
        return min(f['S'], 1.0 / f['k'])
    return f['S']
