"""Complete projects (wells, distributions, observations, options) as JSON-able cases, and an independent pipeline for them."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gens, ref


# ------------------------------------------------------------------ distributions
@st.composite
def dist(draw, lo, hi, kinds=('num', 'num', 'pair', 'triple'), width=0.3):
    """A distribution about a number between lo and hi: {'k': 'num' | 'tuple' | 'list', 'v': [...]}."""
    m = draw(gens.logq(lo, hi)) if lo > 0 else draw(gens.q(lo, hi))
    return spread(draw, m, kinds, width)


def spread(draw, m, kinds=('num', 'num', 'pair', 'triple'), width=0.3):
    k = draw(gens.pick(*kinds))
    if k == 'num':
        return dict(k='num', v=[m])
    seq = draw(gens.pick('tuple', 'tuple', 'list'))
    w = abs(m) * width
    a, b = m - w * draw(gens.q(0, 1, 0.05)), m + w * draw(gens.q(0, 1, 0.05))
    if k == 'pair':
        return dict(k=seq, v=[a, b])
    return dict(k=seq, v=[a, m, b])


def value(d):
    """The Python object of a distribution."""
    if d['k'] == 'num':
        return d['v'][0]
    return tuple(d['v']) if d['k'] == 'tuple' else list(d['v'])


def mean(d):
    return d['v'][0] if len(d['v']) == 1 else math.fsum(d['v']) / len(d['v'])


def support(d):
    return d['v'][0], d['v'][-1]


def constant(d):
    return dict(k='num', v=[mean(d)])


# ------------------------------------------------------------------ projects
@st.composite
def project(draw, kinds=('num', 'num', 'pair', 'triple'), width=0.3, paths=(1, 2, 3, 4, 5, 6, 8), aquifer=('confined', 'general', 'unconfined', 'mixed', 'confined', 'general', 'unconfined', 'mixed', 'assumed'), noise=True,
            forward=True, neighbours=(0, 0, 1, 2, 3), fine=0.3, opposite=True, off=None, R=None):
    """
    A capture zone of about radius R around the target, resolved by about 6 to 12 cells, inside a well-posed field of observations.
    Without wells of the opposite sign no trace can run into a well (where it needs very many very small steps).
    """
    off = off or draw(gens.OFFSETS)
    R = R or (draw(gens.logq(40.0, 400.0)) if draw(gens.ints(0, 3)) else draw(gens.logq(15.0, 2000.0)))
    fwd = forward and draw(gens.ints(0, 2)) == 0
    sgn = -1.0 if fwd else 1.0
    T = draw(gens.logq(100.0, 8000.0)) if draw(gens.ints(0, 3)) else draw(gens.logq(20.0, 40000.0))
    if T > 50 and draw(gens.ints(0, 4)) == 4:
        T = math.ceil(T)     # (a whole number of days)
    n = draw(dist(0.08, 0.4, kinds, width))
    H = draw(dist(5.0, 50.0, kinds, width))
    state = draw(gens.pick(*aquifer))
    h0 = mean(H) * {'confined': draw(gens.q(1.3, 2.5, 0.01)), 'general': draw(gens.q(1.3, 2.5, 0.01)), 'unconfined': draw(gens.q(0.5, 0.85, 0.01)),
                    'mixed': draw(gens.q(0.9, 1.1, 0.01)), 'assumed': draw(gens.q(0.3, 0.95, 0.01))}[state]
    if state == 'unconfined' and draw(gens.ints(0, 2)) == 0:
        # a thick aquifer with little water in it
        deep = draw(gens.logq(1.5, 60.0))
        H['v'] = [v * deep for v in H['v']]
    # 'assumed': not full, but taken as confined
    depth = mean(n) * (mean(H) if state == 'assumed' else min(mean(H), h0))
    Q = math.pi * R * R * depth / T
    K = spread(draw, Q * draw(gens.logq(4.0, 40.0)) / (min(mean(H), h0) * h0), kinds, width)
    spacing = R / draw(gens.q(5.0, 10.0, 0.1))
    if spacing > 4 and draw(gens.ints(0, 4)) == 4:
        spacing = round(spacing)
    umbra = spacing * draw(gens.q(0.6, 1.8, 0.01))

    wells = [[off[0] + draw(gens.sq(200, 0.5)), off[1] + draw(gens.sq(200, 0.5)), draw(gens.pick(0.25, 0.1524, 1.0, 0.0508, 3.0)), spread(draw, sgn * Q, kinds, width)]]
    for _ in range(draw(gens.pick(*neighbours))):
        b, d = draw(gens.ANGLES), R * draw(gens.q(1.0, 5.0, 0.01))
        q = Q * draw(gens.pick(0.0, 0.3, 1.0, 1.5)) * sgn * (draw(gens.pick(1, 1, 1, -1)) if opposite else 1)
        wells.append([wells[0][0] + d * math.cos(b), wells[0][1] + d * math.sin(b), draw(gens.pick(0.25, 0.5)), spread(draw, q, kinds, width)])
        if opposite and draw(gens.ints(0, 7)) == 0 and len(wells[-1][3]['v']) > 1:
            # it may pump or inject
            wells[-1][3]['v'][0] = -0.2 * sgn * Q * draw(gens.q(0.1, 1.0, 0.1))
    many = max(neighbours) > 1 and draw(gens.ints(0, 13)) == 13
    if many:
        # a well field as large as in real projects
        r = random.Random(draw(gens.ints(0, 10**6)))
        for _ in range(r.randint(5, 30)):
            b, d = r.uniform(0.0, 6.283), R * r.uniform(1.5, 6.0)
            wells.append([wells[0][0] + d * math.cos(b), wells[0][1] + d * math.sin(b), 0.25, spread(draw, 0.2 * Q * sgn, kinds, width)])
    for w in wells:
        w[3]['v'].sort()
    if R > 30 and draw(gens.ints(0, 9)) == 9:
        # whole numbers, as people write them
        for w in wells:
            w[0], w[1] = round(w[0]), round(w[1])
            if min(abs(v) for v in w[3]['v']) > 20:
                w[3]['v'] = [round(v) for v in w[3]['v']]
    xt, yt = wells[0][:2]
    target = draw(gens.ints(0, len(wells) - 1))
    wells[0], wells[target] = wells[target], wells[0]

    # The regional flow that the observations come from.
    U = Q / (2 * math.pi * R) * (draw(gens.q(0.0, 1.5, 0.01)) if draw(gens.ints(0, 5)) else draw(gens.q(1.5, 4.0, 0.01)))
    a = draw(gens.ANGLES)
    rate = depth / T
    N = rate * draw(st.one_of(st.just(0.0), gens.sq(0.3, 0.01)))
    s1, s2 = rate * draw(gens.sq(0.1, 0.01)), rate * draw(gens.sq(0.1, 0.01))
    k0, t0 = mean(K), mean(H)
    truth = dict(wells=[[w[0], w[1], w[2], mean(w[3])] for w in wells], xo=xt, yo=yt,
                 coef=[-N / 4 + s1, -N / 4 - s1, s2, U * math.cos(a), U * math.sin(a), 0.0])
    lay = draw(gens.layout(9, 20, (4.0, 10.0)))
    base = draw(gens.sq(300, 0.5)) if draw(gens.ints(0, 4)) else draw(gens.sq(3000, 0.5))
    places = [[xt + R * p[0], yt + R * p[1]] for p in lay['pts']]
    phis = []
    for p in places:
        while min(math.hypot(p[0] - w[0], p[1] - w[1]) for w in wells) < 0.15 * R:
            p[0] += 0.1 * R
            p[1] += 0.05 * R
        phis.append(ref.potential(truth, p[0], p[1])[0])
    want = ref.potential_of_head(k0, t0, h0)
    shift = want - sorted(phis)[len(phis) // 2]
    obs = []
    r = random.Random(draw(gens.ints(0, 10**6))) if len(places) > 25 else None
    rough = draw(gens.pick(0.3, 0.3, 0.3, 2.0))
    for p, phi in zip(places, phis):
        phi = max(phi + shift, 0.2 * want)
        z = ref.head_of_potential(k0, t0, phi)
        s = h0 * (draw(gens.q(0.002, 0.02, 0.001)) if r is None else round(r.uniform(0.002, 0.02), 3))
        e = s * (draw(gens.sq(1.0, 0.01)) if r is None else round(r.uniform(-1, 1), 2)) * rough if noise else 0.0
        obs.append([p[0], p[1], base + z + e, s])
    if draw(gens.ints(0, 9)) == 9:
        # one that hardly counts
        obs[draw(gens.ints(0, len(obs) - 1))][3] = draw(gens.logq(5.0, 50.0))
    return dict(target=target, npaths=draw(gens.pick(*paths)), duration=T * int(sgn), base=base, c=K, p=n, t=H, wells=wells, obs=obs,
                spacing=spacing, umbra=umbra, confined=state in ('confined', 'assumed'), tol=1e-4 * spacing, maxstep=fine * spacing * draw(gens.q(0.5, 1.0, 0.01)),
                R=R, state=state, form=draw(gens.pick('tuple', 'tuple', 'tuple', 'list')))


def wells_of(p):
    # equal distributions are one object, as when people name them
    known = {}
    row = list if p.get('form') == 'list' else tuple
    return [row((w[0], w[1], w[2], known.setdefault((w[3]['k'], *w[3]['v']), value(w[3])))) for w in p['wells']]


def obs_of(p):
    return [list(o) if p.get('form') == 'list' else tuple(o) for o in p['obs']]


def deterministic(p, **change):
    from oneka.deterministic import create_deterministic_capturezone
    p = dict(p, **change)
    return create_deterministic_capturezone(p['target'], p['npaths'], p['duration'], p['base'], value(p['c']), value(p['p']), value(p['t']), wells_of(p), obs_of(p),
                                            p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])


def stochastic(p, n, **change):
    from oneka.stochastic import create_stochastic_capturezone
    p = dict(p, **change)
    return create_stochastic_capturezone(p['target'], p['npaths'], p['duration'], n, p['base'], value(p['c']), value(p['p']), value(p['t']), wells_of(p), obs_of(p),
                                         p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])


# ------------------------------------------------------------------ the independent pipeline
class Unfit(Exception):
    """The case is outside what can be compared (a trace runs dry or into a singularity): not judged."""


class Problem:
    """The mean problem of a project, from its definition; or the one with the parameters and coefficients of a given realization."""

    def __init__(self, p, state=None):
        self.p = p
        xt, yt = p['wells'][p['target']][:2]
        if state is None:
            self.K, self.n, self.H = mean(p['c']), mean(p['p']), mean(p['t'])
            ws = [[w[0], w[1], w[2], mean(w[3])] for w in p['wells']]
            self.fit = ref.wls(p['base'], self.K, self.H, ws, p['obs'], xt, yt)
            self.model = dict(wells=ws, xo=xt, yo=yt, coef=[float(c) for c in self.fit['coef']])
        else:
            self.K, self.n, self.H = state['K'], state['n'], state['H']
            self.model = dict(wells=[list(w) for w in state['wells']], xo=xt, yo=yt, coef=[float(c) for c in state['coef']])
        self.count = 0
        self.xt, self.yt, self.rt = xt, yt, p['wells'][p['target']][2]

    def back(self, x, y):
        """The velocity of the backtrace."""
        self.count += 1
        if self.count > 5000:
            raise Unfit('too many steps')
        m = self.model
        dx, dy = x - m['xo'], y - m['yo']
        A, B, C, D, E, F = m['coef']
        qx, qy = -(2 * A * dx + C * dy + D), -(2 * B * dy + C * dx + E)
        phi = A * dx * dx + B * dy * dy + C * dx * dy + D * dx + E * dy + F
        for w in m['wells']:
            ex, ey = x - w[0], y - w[1]
            r2 = ex * ex + ey * ey
            k = w[3] / (2 * math.pi)
            qx -= k * ex / r2
            qy -= k * ey / r2
            phi += 0.5 * k * math.log(r2)
        depth = self.H
        if not self.p['confined']:
            if phi <= 0:
                raise Unfit('dry')
            depth = min(self.H, ref.head_of_potential(self.K, self.H, phi))
        return -qx / (depth * self.n), -qy / (depth * self.n)

    def trace(self, k, nudge=0.0, share=1.0, rtol=1e-7):
        """Points of the exact trajectory of path k, close together."""
        p = self.p
        self.count = 0
        t = 2 * math.pi * k / p['npaths'] + nudge / (self.rt + 1)
        x0, y0 = self.xt + (self.rt + 1) * math.cos(t), self.yt + (self.rt + 1) * math.sin(t)
        try:
            sol = ref.trace(self.back, x0, y0, p['duration'] * share, rtol=rtol, atol=1e-6 * p['spacing'], dense=True)
        except (ArithmeticError, ValueError):
            raise Unfit('the reference trace failed')
        if len(sol.t) > 400:
            raise Unfit('too many steps')
        m = 400
        ts = np.linspace(0, 1, m)**2 * sol.t[-1]
        P = sol.sol(ts)
        arc = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(P[0]), np.diff(P[1])))])
        if arc[-1] > 60 * p['R']:
            raise Unfit('too long')
        ts = np.interp(np.linspace(0, arc[-1], max(20, int(arc[-1] / (0.15 * p['spacing'])))), arc, ts)
        P = sol.sol(ts)
        # away from dry places, at which a trial step might end the trace
        if not p['confined']:
            phi = ref.potentials(self.model, P[0], P[1])
            Q = np.hypot(*ref.discharges(self.model, P[0], P[1]))
            if np.any(phi <= 3 * p['maxstep'] * Q):
                raise Unfit('near a dry place')
        # away from wells that the trace runs into
        for i, w in enumerate(self.model['wells']):
            if w[3] * math.copysign(1, p['duration']) < 0:
                if np.min(np.hypot(P[0] - w[0], P[1] - w[1])) < 0.5 * p['spacing'] + 0.05 * p['R']:
                    raise Unfit('runs into a well')
            elif i != p['target'] and np.min(np.hypot(P[0] - w[0], P[1] - w[1])) < 0.2 * p['spacing']:
                raise Unfit('passes a well closely')
        return P, arc[-1]

    def near(self, P, X, Y):
        """The distances of places to a trace, where they matter."""
        reach = self.p['umbra'] + 2 * self.p['spacing']
        d = np.full(X.shape, np.inf)
        at = (X > P[0].min() - reach) & (X < P[0].max() + reach) & (Y > P[1].min() - reach) & (Y < P[1].max() + reach)
        d[at] = ref.dist_to_polyline(P[0], P[1], X[at], Y[at])
        return d

    def zone(self, pf):
        """(inside, sure) at the nodes of the field."""
        return self.zone_at(*ref.nodes(pf))

    def zone_at(self, X, Y):
        """(inside, sure) at places."""
        p = self.p
        inside, sure = np.zeros(X.shape, bool), np.ones(X.shape, bool)
        for k in range(p['npaths']):
            P, length = self.trace(k)
            d = self.near(P, X, Y)
            steps = 20 + length / p['maxstep']
            err = 5 * steps * p['tol']
            for nudge in (err, -err):
                P2, _ = self.trace(k, nudge, 1.0, 1e-6)
                d2 = self.near(P2, X, Y)
                sure &= (d < p['umbra']) == (d2 < p['umbra'])
            inside |= d < p['umbra']
            sure &= np.abs(d - p['umbra']) > 0.05 * p['spacing']
        return inside, sure
