from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, restate

RULE = ('a random model (0-5 wells of either sign, co-located ones included, any origin and coefficients, UTM-sized or local '
        'coordinates) and points near wells, on their axes, at the origin or anywhere. Non-trivial: at least one well or '
        'one non-zero coefficient contributes more than 1e-6 of the discharge scale at the points. Also models whose attributes are set anew between evaluations.')
ASSUMPTIONS = ['points are at least 1e-3 m from every well (the potential is singular there)',
               'IEEE double arithmetic; tolerances scale with the magnitude of the individual terms']

EPS = 2.2e-16


@st.composite
def cases(draw):
    m = draw(gens.model())
    return dict(m=m, pts=[draw(gens.point_for(m)) for _ in range(3)])


def gradient(case, rec):
    m = case['m']
    mo = ref.make_model(m)
    for x, y in case['pts']:
        Qx, Qy = mo.compute_discharge(x, y)
        _, (sx, sy) = ref.discharge(m, x, y)
        scale = sx + sy
        d = min([ref.math.hypot(x - w[0], y - w[1]) for w in m['wells']] + [100.0])
        h = 0.01 * d
        _, phis = ref.potential(m, x, y)
        coord = max(abs(x), abs(y), 1.0) * EPS
        rec.hit(scale > 1e-3)
        for axis, Q in ((0, Qx), (1, Qy)):
            def f(k):
                p = [x, y]
                p[axis] += k * h
                return p[axis], mo.compute_potential(p[0], p[1])
            (x2, f2), (x1, f1), (xm1, fm1), (xm2, fm2) = f(2), f(1), f(-1), f(-2)
            d1, d2 = (f1 - fm1) / (x1 - xm1), (f2 - fm2) / (x2 - xm2)
            grad = (4 * d1 - d2) / 3
            tol = 1e-6 * scale + 50 * EPS * (phis + scale * d) / h + 20 * scale * coord / h
            require(abs(Q + grad) <= tol, 'at ({}, {}) component {} of the discharge is {} but minus the gradient is {}',
                    x, y, axis, Q, -grad)
        (rx, ry), _ = ref.discharge(m, x, y)
        require(abs(Qx - rx) <= 1e-10 * scale and abs(Qy - ry) <= 1e-10 * scale,
                'discharge at ({}, {}) is ({}, {}), the derivatives of the documented potential are ({}, {})',
                x, y, Qx, Qy, rx, ry)
        rec.label('inside radius' if any(ref.math.hypot(x - w[0], y - w[1]) < w[2] for w in m['wells']) else 'outside')


def restated(case, rec):
    for k, (mo, m, pts) in enumerate(restate.states(case)):
        for x, y in pts:
            Q = mo.compute_discharge(x, y)
            (rx, ry), (sx, sy) = ref.discharge(m, x, y)
            scale = sx + sy
            rec.hit(k > 0 and scale > 1e-3)
            require(abs(Q[0] - rx) <= 1e-10 * scale and abs(Q[1] - ry) <= 1e-10 * scale,
                    'after {} changes of the model the discharge at ({}, {}) is {}, the derivatives of its potential are ({}, {})', k, x, y, list(Q), rx, ry)


SUBS = [Sub('gradient', cases(), gradient, 20800, 166400,
            'Richardson central differences of the reported potential, and the closed-form derivative of the documented one'),
        Sub('restated', restate.cases(), restated, 6400, 51200, 'the same places, and places very near, before and after the attributes of the model are set anew')]
