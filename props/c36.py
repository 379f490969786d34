import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, fields

RULE = ('traces in real models: 0 to 4 wells of either sign, uniform flow, strain and (half of the cases) recharge, confined, unconfined and mixed, both directions, started 0.1 to 3 '
        'radii from a well or anywhere, kept away from wells they run into. Non-trivial: the trace is longer than a tenth of the length scale of the flow.')
ASSUMPTIONS = ['travel times are compared to 1%: quadrature along traces of at least 200 steps', 'traces that come near a singularity, a stagnation point or a dry place are not judged']


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    R = draw(gens.logq(20.0, 1000.0))
    K, n, H = draw(gens.logq(0.5, 100.0)), draw(gens.q(0.05, 0.5, 0.01)), draw(gens.logq(5.0, 80.0))
    state = draw(gens.pick('confined', 'general', 'unconfined', 'low', 'mixed'))
    h0 = H * {'confined': 2.0, 'general': 2.0, 'unconfined': 0.7, 'low': draw(gens.logq(0.02, 0.5)), 'mixed': 1.0}[state]
    q0 = K * min(h0, H) * h0 / draw(gens.logq(20.0, 300.0))            # the discharge of the well of interest
    wells = []
    for _ in range(draw(gens.ints(0, 4))):
        a, d = draw(gens.ANGLES), R * draw(gens.q(0.0, 3.0, 0.01))
        wells.append([off[0] + d * math.cos(a), off[1] + d * math.sin(a), 0.25, q0 * draw(gens.pick(1.0, 1.0, 0.5, -0.5, -1.0))])
    U = q0 / (2 * math.pi * R) * draw(gens.q(0.1, 2.0, 0.01))
    a = draw(gens.ANGLES)
    N = draw(st.one_of(st.just(0.0), gens.sq(0.5, 0.01))) * q0 / (math.pi * R * R)
    s1, s2 = draw(gens.sq(0.2, 0.01)) * U / R, draw(gens.sq(0.2, 0.01)) * U / R
    b, d = draw(gens.ANGLES), R * draw(gens.q(0.1, 3.0, 0.01))
    # anchor the potential at the start
    phi0 = ref.potential_of_head(K, H, h0)
    start = [off[0] + d * math.cos(b), off[1] + d * math.sin(b)]
    for w in wells:
        if math.hypot(start[0] - w[0], start[1] - w[1]) < 0.1 * R:
            start[0] += 0.21 * R
            start[1] += 0.13 * R
    m = dict(base=0.0, K=K, n=n, H=H, wells=wells, xo=off[0] + R * draw(gens.sq(1.0, 0.1)), yo=off[1] + R * draw(gens.sq(1.0, 0.1)),
             coef=[-N / 4 + s1, -N / 4 - s1, s2, U * math.cos(a), U * math.sin(a), 0.0])
    m['coef'][5] = phi0 - ref.potential(m, start[0], start[1])[0]
    qs = math.hypot(*ref.discharge(m, start[0], start[1])[0])
    T = n * min(h0, H) * R / max(qs, U * 0.3) * draw(gens.q(0.1, 2.0, 0.01)) * draw(gens.pick(1, -1))
    return dict(m=m, R=R, start=start, T=T, state=state, N=N, s=[s1, s2], U=[U * math.cos(a), U * math.sin(a)])


def stream(m, case, x, y):
    """Stream function of the flow without recharge, unwrapped along the trace."""
    dx, dy = x - m['xo'], y - m['yo']
    A, B, C, D, E, F = m['coef']
    # Qx = -(2A dx + C dy + D) = -dPsi/dy, Qy = -(2B dy + C dx + E) = dPsi/dx, with B = -A
    psi = 2 * A * dx * dy + 0.5 * C * (dy * dy - dx * dx) + D * dy - E * dx
    for w in m['wells']:
        psi = psi + w[3] / (2 * math.pi) * np.unwrap(np.arctan2(y - w[1], x - w[0]))
    return psi


def follow(case, rec):
    from oneka.capturezone import compute_backtrace
    m, R, T = case['m'], case['R'], case['T']
    mo = ref.make_model(m)
    velocity = mo.compute_velocity_confined if case['state'] == 'confined' else mo.compute_velocity

    def feval(xy):
        vx, vy = velocity(xy[0], xy[1])
        return np.array([-vx, -vy])
    maxstep, tol = R / 250, R * 1e-7
    count = [0]

    class Long(BaseException):
        pass

    def counted(xy):
        count[0] += 1
        if count[0] > 40000:
            raise Long()
        return feval(xy)
    try:
        v = fields.vertices_of(compute_backtrace(case['start'][0], case['start'][1], T, tol, maxstep, counted))
    except Long:
        rec.label('not judged: too many steps')
        return
    x, y = v[:, 0], v[:, 1]
    ds = np.hypot(np.diff(x), np.diff(y))
    length = float(np.sum(ds))
    # discharge, saturated thickness and potential along the way, from the definitions
    phi = np.array([ref.potential(m, a, b)[0] for a, b in zip(x, y)])
    near = min([float(np.min(np.hypot(x - w[0], y - w[1]))) for w in m['wells']] + [math.inf])
    Q = np.array([math.hypot(*ref.discharge(m, a, b)[0]) for a, b in zip(x, y)])
    if near < 0.03 * R or (case['state'] != 'confined' and phi.min() < 0.1 * phi[0]) or Q.min() < 1e-3 * Q.max() or len(v) < 3:
        rec.label('not judged: near a well, a stagnation point or a dry place')
        return
    rec.hit(length > 0.1 * R)
    rec.label(case['state'], 'with recharge' if case['N'] else 'no recharge', 'backward' if T > 0 else 'forward', '{} wells'.format(len(m['wells'])))
    # 1. head rises against the flow and falls along it
    rise = np.diff(phi) * math.copysign(1, T)
    eps = 2e-12 * (np.abs(phi).max() + sum(abs(w[3]) for w in m['wells']) + abs(m['coef'][5])) + 1e-9 * Q.max() * R
    require(np.all(rise > -eps), 'the potential falls from {} to {} on a trace {} the flow', phi[:-1][rise <= -eps][:1], phi[1:][rise <= -eps][:1], 'against' if T > 0 else 'along')
    # 2. the stream function is constant
    if case['N'] == 0:
        psi = stream(m, case, x, y)
        bound = 3 * (len(v) + 1) * tol * Q.max() * (Q.max() / Q.min()) + 1e-11 * (np.abs(psi).max() + abs(x[0]) * Q.max())
        require(np.all(np.abs(psi - psi[0]) <= bound), 'the stream function changes from {} by {} along the trace (bound {})', psi[0], float(np.abs(psi - psi[0]).max()), bound)
    # 3. the travel time
    depth = np.array([m['H'] if case['state'] == 'confined' else min(m['H'], ref.head_of_potential(m['K'], m['H'], p)) for p in phi])
    xm, ym = 0.5 * (x[1:] + x[:-1]), 0.5 * (y[1:] + y[:-1])
    pm = np.array([ref.potential(m, a, b)[0] for a, b in zip(xm, ym)])
    dm = np.array([m['H'] if case['state'] == 'confined' else min(m['H'], ref.head_of_potential(m['K'], m['H'], p)) for p in pm])
    Qm = np.array([math.hypot(*ref.discharge(m, a, b)[0]) for a, b in zip(xm, ym)])
    f, fm = depth / Q, dm / Qm
    t = m['n'] * float(np.sum(ds * (f[:-1] + 4 * fm + f[1:]) / 6))
    curve = (Q.max() / Q.min()) * (maxstep / min(near, R))**2
    require(abs(t - abs(T)) <= (0.01 + curve) * abs(T), 'a trace of {} days takes {} days at the velocities along it', T, t)


SUBS = [Sub('follow', cases(), follow, 840, 10000, 'stream function, monotone head, travel time by quadrature along the vertices', cpu=40)]
