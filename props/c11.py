import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens

RULE = ('confined aquifers with a pumping well traced backward or an injecting well traced forward, capture radius 20 to 2000 m, uniform flow up to the one '
        'that stretches the zone to several radii, recharge and strain up to half the well, up to 3 further wells outside; confined and general velocity. '
        'The enclosed area (Richardson over 48 and 24 paths) against the water balance to 0.5%. Non-trivial: the zone is at least twice the starting disc.')
ASSUMPTIONS = ['the enclosed region is the polygon of the end points; the polygon error is removed to 0.5% by Richardson extrapolation']


@st.composite
def cases(draw):
    R = draw(gens.logq(20.0, 2000.0))
    n, H = draw(gens.q(0.05, 0.6, 0.01)), draw(gens.logq(1.0, 100.0))
    T = draw(gens.logq(30.0, 10000.0))
    Q = math.pi * R * R * n * H / T
    ux = Q / (2 * math.pi * R) * draw(gens.q(0.0, 0.8, 0.01))
    a = draw(gens.ANGLES)
    rate = n * H / T                                 # the scale of strain and recharge
    N = rate * draw(st.one_of(st.just(0.0), gens.sq(0.5, 0.01)))
    s1, s2 = rate * draw(gens.sq(0.2, 0.01)), rate * draw(gens.sq(0.2, 0.01))
    others = []
    for _ in range(draw(gens.pick(0, 0, 1, 2, 3))):
        b = draw(gens.ANGLES)
        d = R * draw(gens.q(6.0, 20.0, 0.1))
        others.append([d * math.cos(b), d * math.sin(b), 0.25, Q * draw(gens.sq(1.0, 0.01))])
    return dict(R=R, n=n, H=H, T=T, Q=Q, D=ux * math.cos(a), E=ux * math.sin(a), N=N, s=[s1, s2], others=others, off=list(draw(gens.OFFSETS)),
                rw=draw(gens.pick(0.25, 0.1, 1.0, 3.0)), inject=draw(st.booleans()), general=draw(st.booleans()), K=draw(gens.logq(0.5, 100.0)),
                at=draw(gens.ints(0, 3)))


def balance(case, rec):
    from oneka.capturezone import compute_capturezone
    from oneka.model import Model
    from oneka.probabilityfield import ProbabilityField
    c = case
    sign = -1.0 if c['inject'] else 1.0
    x0, y0 = c['off']
    # Reversing time reverses every discharge, so everything below is the pumping case times the sign.
    A, B = -c['N'] / 4 + c['s'][0], -c['N'] / 4 - c['s'][0]
    # High enough potential to be confined everywhere around.
    F = 0.5 * c['K'] * c['H']**2 + 1e4 * c['Q'] + 1e3 * abs(c['N']) * c['R']**2
    wells = [(x0 + w[0], y0 + w[1], w[2], sign * w[3]) for w in c['others']]
    wells.insert(c['at'] % (len(wells) + 1), (x0, y0, c['rw'], sign * c['Q']))
    mo = Model(0.0, c['K'], c['n'], c['H'], wells, x0, y0, np.array([sign * A, sign * B, sign * c['s'][1], sign * c['D'], sign * c['E'], F]))
    compute = mo.compute_velocity if c['general'] else mo.compute_velocity_confined

    def feval(xy):
        vx, vy = compute(xy[0], xy[1])
        return np.array([-vx, -vy])

    ends = []

    class Recorder(ProbabilityField):
        def rasterize(self, x, y, *args, **kwargs):
            ends.append((float(x[-1]) - x0, float(y[-1]) - y0))

    paths = 48
    compute_capturezone(x0, y0, c['rw'], paths, sign * c['T'], Recorder(10.0, 10.0, x0, y0), 10.0, 1.0, 1e-5 * c['R'], c['R'] / 5, feval)
    require(len(ends) == paths, '{} traces for {} paths', len(ends), paths)
    P = np.array(ends)

    def area(p):
        x, y = p[:, 0], p[:, 1]
        return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))
    a1, a2 = area(P), area(P[::2])
    got = (4 * a1 - a2) / 3
    a0 = math.pi * (c['rw'] + 1)**2
    k = c['N'] / (c['n'] * c['H'])
    grow = c['T'] if abs(k * c['T']) < 1e-9 else -math.expm1(-k * c['T']) / k
    want = a0 * math.exp(-k * c['T']) + c['Q'] / (c['n'] * c['H']) * grow
    smooth = abs(a1 - a2) < 0.05 * want
    rec.hit(want > 2 * a0 and smooth)
    rec.label('injecting, forward' if c['inject'] else 'pumping, backward', 'general' if c['general'] else 'confined', 'recharge' if c['N'] else 'no recharge',
              '{} other wells'.format(len(c['others'])))
    if not smooth:
        rec.label('too drawn out for 48 paths')
        return
    require(abs(got - want) <= 0.005 * want, 'the zone encloses {} m2, the water balance gives {} (pore depth {}, recharge {})', got, want, c['n'] * c['H'], c['N'])


SUBS = [Sub('balance', cases(), balance, 1920, 20000, 'closed-form water balance', cpu=60)]
