import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, restate

RULE = ('a random model (0-5 wells of either sign, co-located ones included; any origin and coefficients), points anywhere and '
        'boxes of any aspect that keep 10% of their size away from every well. Non-trivial: superposition - at least one well; '
        'flux - the box encloses a well or has a non-zero areal term. Also models whose attributes are set anew between evaluations.')
ASSUMPTIONS = ['points at least 1e-3 m from every well; boxes avoid the wells by 10% of their size (quadrature accuracy)']


@st.composite
def points(draw):
    m = draw(gens.model())
    return dict(m=m, pts=[draw(gens.point_for(m)) for _ in range(3)])


def superposition(case, rec):
    m = case['m']
    mo = ref.make_model(m)
    rec.hit(bool(m['wells']))
    for x, y in case['pts']:
        a, b = ref.pot_terms(m, x, y)
        s = sum(map(abs, a)) + sum(map(abs, b)) + sum(abs(w[3]) for w in m['wells'])
        phi = mo.compute_potential(x, y)
        require(abs(phi - ref.math.fsum(a + b)) <= 1e-11 * s, 'potential at ({}, {}) is {}, the documented sum is {}',
                x, y, phi, ref.math.fsum(a + b))
        sb = sum(map(abs, b)) + sum(abs(w[3]) for w in m['wells'])
        pw = mo.compute_potential_wells_only(x, y)
        require(abs(pw - ref.math.fsum(b)) <= 1e-11 * sb, 'wells-only potential at ({}, {}) is {}, documented {}',
                x, y, pw, ref.math.fsum(b))
        if len(m['wells']) > 1:
            parts = [ref.make_model(dict(m, wells=[w])).compute_potential_wells_only(x, y) for w in m['wells']]
            require(abs(pw - ref.math.fsum(parts)) <= 1e-11 * sb, 'the wells together give {}, one by one {}', pw, sum(parts))
            rec.label('several wells')


@st.composite
def boxes(draw):
    m = draw(gens.model())
    if m['wells'] and draw(gens.ints(0, 3)):
        w = m['wells'][draw(gens.ints(0, len(m['wells']) - 1))]
        cx, cy = w[0], w[1]
    else:
        cx, cy = m['off']
        if draw(gens.ints(0, 3)) == 3:
            cx, cy = cx + draw(gens.sq(30000, 10.0)), cy + draw(gens.sq(30000, 10.0))
    lx, ly = draw(gens.logq(2.0, 800.0)) if draw(gens.ints(0, 5)) else draw(gens.logq(800.0, 40000.0)), draw(gens.logq(0.25, 4.0))
    ly *= lx
    x0, y0 = cx - lx * draw(gens.q(0.1, 0.9, 0.01)), cy - ly * draw(gens.q(0.1, 0.9, 0.01))
    return dict(m=m, box=clear(m, x0, y0, lx, ly))


def clear(m, x0, y0, lx, ly):
    """Shift the box until its edges are clear of the wells."""
    gap = 0.1 * min(lx, ly)
    for _ in range(60):
        x1, y1 = x0 + lx, y0 + ly
        ok = True
        for w in m['wells']:
            dx = min(abs(w[0] - x0), abs(w[0] - x1))
            dy = min(abs(w[1] - y0), abs(w[1] - y1))
            near = x0 - gap < w[0] < x1 + gap and y0 - gap < w[1] < y1 + gap
            if near and (dx < gap or dy < gap):
                ok = False
        if ok:
            break
        x0 += 0.043 * lx
        y0 -= 0.031 * ly
    else:
        x0 += 1e5
    return [x0, y0, lx, ly]


_GX, _GW = np.polynomial.legendre.leggauss(16)


def flux(case, rec):
    m = case['m']
    x0, y0, lx, ly = case['box']
    mo = ref.make_model(m)
    total, mag = [], []
    for side in range(4):
        panels = int(np.ceil((lx if side < 2 else ly) / (0.2 * min(lx, ly))))
        for p in range(panels):
            for g, w in zip(_GX, _GW):
                t = (p + 0.5 * (g + 1)) / panels
                wt = 0.5 * w / panels
                if side < 2:
                    x, y = x0 + t * lx, y0 + (ly if side else 0.0)
                    Q = mo.compute_discharge(x, y)
                    v = (Q[1] if side else -Q[1]) * wt * lx
                else:
                    x, y = x0 + (lx if side == 3 else 0.0), y0 + t * ly
                    Q = mo.compute_discharge(x, y)
                    v = (Q[0] if side == 3 else -Q[0]) * wt * ly
                total.append(v)
                mag.append(abs(v))
    inside = [w for w in m['wells'] if x0 < w[0] < x0 + lx and y0 < w[1] < y0 + ly]
    want = -sum(w[3] for w in inside) - 2 * (m['coef'][0] + m['coef'][1]) * lx * ly
    got = ref.math.fsum(total)
    tol = 1e-7 * (ref.math.fsum(mag) + sum(abs(w[3]) for w in m['wells'])) + 1e-12
    rec.hit(bool(inside) or m['coef'][0] + m['coef'][1] != 0)
    rec.label('{} wells inside'.format(min(len(inside), 2)), '{} wells outside'.format(min(2, len(m['wells']) - len(inside))))
    require(abs(got - want) <= tol, 'net outflow through the box {} is {}, the enclosed wells and areal term give {}',
            case['box'], got, want)


def restated(case, rec):
    for k, (mo, m, pts) in enumerate(restate.states(case)):
        for x, y in pts:
            a, b = ref.pot_terms(m, x, y)
            q = sum(abs(w[3]) for w in m['wells'])
            s = sum(map(abs, a)) + sum(map(abs, b)) + q
            rec.hit(k > 0)
            phi, pw = mo.compute_potential(x, y), mo.compute_potential_wells_only(x, y)
            require(abs(phi - ref.math.fsum(a + b)) <= 1e-11 * s, 'after {} changes of the model the potential at ({}, {}) is {}, the documented sum is {}',
                    k, x, y, phi, ref.math.fsum(a + b))
            require(abs(pw - ref.math.fsum(b)) <= 1e-11 * (sum(map(abs, b)) + q), 'after {} changes of the model the wells-only potential at ({}, {}) is {}, '
                    'documented {}', k, x, y, pw, ref.math.fsum(b))


SUBS = [Sub('superposition', points(), superposition, 20800, 166400, 'closed formula, and additivity over the wells'),
        Sub('flux', boxes(), flux, 5120, 40960, 'Gauss quadrature of the normal discharge round the box'),
        Sub('restated', restate.cases(), restated, 6400, 51200, 'the same places, and places very near, before and after the attributes of the model are set anew')]
