import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, fields

RULE = ('steps: every step of traces in oscillating shear flow (x is a clock, y known in closed form) with 1 to 2000 steps, tolerances 1e-10 to 3 of '
        'the wave length; limits: all field kinds, maximum steps 1e-3 to 10 times the path length, speeds up to 1e6 m/d, still water, '
        'durations 1e-4 to 2e4 days; order: traces short enough for one step. Non-trivial: at least 3 vertices (steps), the step limit binds '
        '(limits), the error is above rounding for a fifth-order method (order).')
ASSUMPTIONS = ['the local error may exceed 10 times the tolerance where the error estimate passes through zero: there it is at most twice that of the '
               'Dormand-Prince step of the same size']


def run(x, y, T, tol, maxstep, feval):
    from oneka.capturezone import compute_backtrace
    return fields.vertices_of(compute_backtrace(x, y, T, tol, maxstep, feval))


def estimate(vel, xy, dt):
    """The error estimate of one Dormand-Prince step, with the constants of scipy's RK45."""
    from scipy.integrate import RK45
    K = []
    for i in range(6):
        K.append(np.array(vel(*(xy + dt * sum((RK45.A[i, j] * K[j] for j in range(i)), np.zeros(2))))))
    new = xy + dt * sum(RK45.B[j] * K[j] for j in range(6))
    K.append(np.array(vel(*new)))
    return float(np.max(np.abs(dt * sum(RK45.E[j] * K[j] for j in range(7))))), new


@st.composite
def shears(draw):
    f = draw(fields.field(('shear',)))
    if draw(gens.ints(0, 2)) == 0:
        f['B'] = 0.0
    lam = 1.0 / f['k']
    return dict(f=f, tol=lam * (draw(gens.logq(1e-10, 1e-2)) if draw(gens.ints(0, 4)) else draw(gens.logq(1e-3, 3.0))),
                maxstep=min(0.3 * f['S'], lam * (draw(gens.logq(0.05, 1.0)) if draw(gens.ints(0, 4)) else draw(gens.logq(0.3, 5.0)))))


def steps(case, rec):
    f, tol, maxstep = case['f'], case['tol'], case['maxstep']
    # Keep it short: at most about 600 steps.
    f['T'] = math.copysign(min(abs(f['T']), 600 * maxstep / abs(f['U'])), f['T'])
    v = run(f['x0'], f['y0'], f['T'], tol, maxstep, fields.feval_of(f))
    require(v[0, 0] == f['x0'] and v[0, 1] == f['y0'], 'the first vertex is {}, the start ({}, {})', list(v[0]), f['x0'], f['y0'])
    t = (v[:, 0] - f['x0']) / f['U']
    eps = 4e-16 * (abs(f['x0']) + abs(f['y0']) + f['S'])
    slope = (abs(f['A']) + abs(f['B']) * float(np.max(np.abs(v[:, 1] - f['y0'])))) / abs(f['U'])
    slack = 4 * eps * (1 + slope) + 1e-12 * float(np.max(np.abs(v[:, 1] - f['y0'])))
    rec.hit(len(v) >= 4 and slack < tol)
    rec.label('under 10 steps' if len(v) < 11 else '10 to 100 steps' if len(v) < 100 else 'over 100 steps')
    require(abs(t[-1] - f['T']) * abs(f['U']) <= 1e-9 * abs(f['U'] * f['T']) + (4 + len(v)) * eps, 'the trace ends after {} of {} days', t[-1], f['T'])
    vel = fields.velocity(f)
    for i in range(len(v) - 1):
        est, step = estimate(vel, v[i], t[i + 1] - t[i])
        require(est <= 1.001 * tol + slack, 'step {} of {}: from {} over {} days was accepted with an estimated error of {}, the tolerance is {}',
                i, len(v) - 1, list(v[i]), t[i + 1] - t[i], est, tol)
        y = fields.shear_y(f, t[i], v[i, 1] - f['y0'], t[i + 1] - t[i]) + f['y0']
        # Where the estimate passes through zero the error of the true step of this size may be larger.
        require(abs(y - v[i + 1, 1]) <= max(10 * tol, 2 * abs(y - step[1])) + slack, 'step {} of {}: from {} over {} days to {}, exact y = {}: local error {} with tolerance {}',
                i, len(v) - 1, list(v[i]), t[i + 1] - t[i], list(v[i + 1]), y, abs(y - v[i + 1, 1]), tol)


@st.composite
def limited(draw):
    f = draw(fields.field(('still', 'uniform', 'linear', 'radial', 'shear', 'well')))
    fast = draw(gens.ints(0, 4)) == 0
    if fast:
        # the same path at up to 1e6 m/d
        s = min(1.0, abs(f['T']) * 1e6 / f['S'])
        for name in ('u', 'M'):
            if name in f:
                f[name] = [c * abs(f['T']) for c in f[name]]
        for name in ('U', 'A', 'B', 'k'):
            if name in f and (name != 'k' or f['kind'] in ('radial', 'well')):
                f[name] *= abs(f['T'])
        f['T'] = math.copysign(1.0, f['T'])
    return dict(f=f, tol=f['S'] * draw(gens.logq(1e-8, 1.0)), maxstep=fields.nearness(f) * draw(gens.logq(0.01, 10.0)))


def limits(case, rec):
    f, tol, maxstep = case['f'], case['tol'], case['maxstep']
    if f['kind'] in ('radial', 'well'):
        tol = min(tol, 0.01 * fields.nearness(f))
        maxstep = min(maxstep, 0.25 * fields.nearness(f))
    fe = fields.feval_of(f)
    calls = [0]

    def feval(xy):
        calls[0] += 1
        return fe(xy)
    v = run(f['x0'], f['y0'], f['T'], tol, maxstep, feval)
    require(v[0, 0] == f['x0'] and v[0, 1] == f['y0'], 'the first vertex is {}, the start ({}, {})', list(v[0]), f['x0'], f['y0'])
    d = np.hypot(*np.diff(v, axis=0).T) if len(v) > 1 else np.zeros(0)
    eps = 1e-15 * (abs(f['x0']) + abs(f['y0']) + f['S'] * 10)
    require(np.all(d <= maxstep * (1 + 1e-9) + eps), 'consecutive vertices are {} apart, the maximum step is {}', float(np.max(d, initial=0)), maxstep)
    require(np.all(np.isfinite(v)), 'vertices are not finite')
    if f['kind'] == 'still':
        require(np.all(d == 0), 'a particle in still water moved to {}', list(v[-1]))
        rec.hit()
    else:
        require(len(v) > 1, 'the trace of a moving particle has one vertex')
        rec.hit(np.max(d) > 0.5 * maxstep)
    rec.label(f['kind'])


@st.composite
def short(draw):
    f = draw(fields.field(('linear', 'radial', 'shear', 'shear')))
    z = draw(gens.logq(0.02, 0.2))
    T = draw(gens.logq(0.001, 0.1)) * draw(gens.pick(1, -1))
    f['x0'], f['y0'] = draw(gens.sq(5, 0.25)), draw(gens.sq(5, 0.25))
    S = f['S'] = draw(gens.logq(1.0, 50.0))
    a = draw(gens.ANGLES)
    lam = z / abs(T)
    f['T'] = T
    if f['kind'] == 'linear':
        M = np.array([draw(gens.sq(1.0)) for _ in range(4)])
        n = np.linalg.norm(M.reshape(2, 2), 2)
        f['M'] = [0.0, -lam, lam, 0.0] if n < 0.1 else [float(c) for c in M / n * lam]
        f['c'] = [f['x0'] - S * math.cos(a), f['y0'] - S * math.sin(a)]
    elif f['kind'] == 'radial':
        f['c'] = [f['x0'] - S * math.cos(a), f['y0'] - S * math.sin(a)]
        f['k'] = math.copysign(lam * S * S, draw(gens.pick(1, -1)))
    else:
        f['U'] = lam * S * draw(gens.pick(1, -1))
        f['k'] = 1.0 / S
        f['B'] = lam * draw(gens.sq(1.0))
        f['A'] = lam * S * draw(gens.logq(0.05, 1.0))
    return dict(f=f, z=z)


def order(case, rec):
    f, z = case['f'], case['z']
    S = f['S']
    v = run(f['x0'], f['y0'], f['T'], 10 * S, 10 * S, fields.feval_of(f))
    (ex, ey), _ = fields.exact(f)
    err = float(np.hypot(v[-1, 0] - ex, v[-1, 1] - ey))
    bound = (0.25 if f['kind'] == 'radial' else 0.01) * z**6 * S
    rec.hit(bound > 1e-13 * S)
    rec.label(f['kind'])
    require(err <= bound + 2e-14 * (S + 10), '{} field: over {} days (step {} in units of its time scale) the error is {} of the length scale, a fifth-order '
            'method stays below {}', f['kind'], f['T'], z, err / S, bound / S)


SUBS = [Sub('steps', shears(), steps, 6400, 51200, 'closed-form shear flow, per step', cpu=30),
        Sub('limits', limited(), limits, 4800, 38400, 'start, maximum step, still water', cpu=30),
        Sub('order', short(), order, 12000, 96000, 'one-step error against z^6', cpu=10)]
