from hypothesis import strategies as st

from vlib.core import Sub, Fail, require
from vlib import gens, ref, restate
from props.c03 import prepare

RULE = ('a random model with wells whose constant term puts the point in the unconfined, transition or confined state. '
        'Non-trivial: the discharge at the point is not zero. Also models whose attributes are set anew between evaluations.')
ASSUMPTIONS = ['points at least 1e-3 m from every well']

RATIOS = st.one_of(gens.logq(1e-4, 1e3), gens.logq(1e-4, 1e3), gens.logq(0.9, 1.1, 6),
                   st.sampled_from([1.0, 1 - 1e-10, 1 + 1e-10]))


@st.composite
def cases(draw):
    m = draw(gens.model(0, 4))
    p = draw(gens.point_for(m))
    return dict(m=m, pt=p, ratio=draw(RATIOS))


def velocity(case, rec):
    m = prepare(case['m'], case['pt'], case['ratio'], False)
    judge(ref.make_model(m), m, case['pt'], rec)


def judge(mo, m, pt, rec):
    x, y = pt
    n, H, K = m['n'], m['H'], m['K']
    (Qx, Qy), (sx, sy) = ref.discharge(m, x, y)
    s = sx + sy
    phi, phis = ref.potential(m, x, y)
    Vx, Vy = mo.compute_velocity_confined(x, y)
    rec.hit(abs(Qx) + abs(Qy) > 0)
    require(abs(Vx * n * H - Qx) <= 1e-10 * s and abs(Vy * n * H - Qy) <= 1e-10 * s,
            'confined velocity ({}, {}) times porosity and thickness is not the discharge ({}, {})', Vx, Vy, Qx, Qy)
    if phi <= 1e-9 * phis:
        rec.label('dry within rounding')
        return
    h = ref.head_of_potential(K, H, phi)
    b = min(h, H)
    # d(1/b)/b = -dh/h; dh = dphi/(K h)
    loose = 1e-10 + 1e-14 * phis / (K * b * b)
    Ux, Uy = mo.compute_velocity(x, y)
    require(abs(Ux * n * b - Qx) <= loose * s and abs(Uy * n * b - Qy) <= loose * s,
            'velocity ({}, {}) times porosity {} and saturated thickness {} is not the discharge ({}, {})', Ux, Uy, n, b, Qx, Qy)
    hc = mo.compute_head(x, y)
    require(abs(hc - h) <= loose * h, 'head {} should be {}', hc, h)
    if hc >= H:
        rec.label('confined')
        tiny = 1e-14 * s / (n * H)
        require(abs(Ux - Vx) <= tiny and abs(Uy - Vy) <= tiny, 'confined here (head {} >= thickness {}) but velocities ({}, {}) and ({}, {}) '
                'differ', hc, H, Ux, Uy, Vx, Vy)
    else:
        rec.label('unconfined')


def restated(case, rec):
    from oneka.model import AquiferError
    for k, (mo, m, pts) in enumerate(restate.states(case)):
        for pt in pts:
            phi, phis = ref.potential(m, *pt)
            if phi <= -1e-9 * phis:
                for f in (mo.compute_head, mo.compute_velocity):
                    try:
                        got = f(*pt)
                    except AquiferError:
                        continue
                    raise Fail('after {} changes of the model the potential at {} is {} but {} reports {}'.format(k, pt, phi, f.__name__, got))
                rec.label('dry')
            judge(mo, m, pt, rec)


SUBS = [Sub('velocity', cases(), velocity, 40000, 320000, 'discharge and head from the documented formulas'),
        Sub('restated', restate.cases(), restated, 6400, 51200, 'the same places, and places very near, before and after the attributes of the model are set anew')]
