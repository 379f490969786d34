import math
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref

RULE = ('segments of length 0 and 1e-3 to 1e4 m at small and UTM coordinates, points before, beside, beyond, on the segment, at its ends and on its '
        'normals; exact rational arithmetic as the reference, plus reversal, shift, quarter turn and reflection. '
        'Non-trivial: the point is not on the segment.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    ax, ay = off[0] + draw(gens.sq(100, 0.125)), off[1] + draw(gens.sq(100, 0.125))
    kind = draw(gens.pick('any', 'any', 'axis', 'zero', 'short', 'dyadic'))
    if kind == 'zero':
        bx, by = ax, ay
        L = 1.0
    else:
        L = draw(gens.logq(1e-3, 1e4)) if kind != 'short' else draw(gens.logq(1e-6, 1e-2))
        if kind == 'axis':
            bx, by = [(ax + L, ay), (ax, ay + L), (ax - L, ay), (ax, ay - L)][draw(gens.ints(0, 3))]
        elif kind == 'dyadic':
            bx, by = ax + draw(gens.ints(-8, 8)) * 0.5, ay + draw(gens.ints(-8, 8)) * 0.5
        else:
            t = draw(gens.q(0, 6.283))
            bx, by = ax + L * math.cos(t), ay + L * math.sin(t)
    ux, uy = bx - ax, by - ay
    where = draw(gens.pick('before', 'beside', 'beside', 'beyond', 'at a', 'at b', 'on', 'normal a', 'normal b', 'far'))
    s = dict(before=-draw(gens.logq(1e-3, 100.0)), beside=draw(gens.q(0, 1)), beyond=1 + draw(gens.logq(1e-3, 100.0)), on=draw(gens.pick(0.25, 0.5, 0.75)),
             far=draw(gens.sq(50, 0.1))).get(where, 0.0 if where.endswith('a') else 1.0)
    w = 0.0 if where in ('at a', 'at b', 'on') else draw(gens.slog(1e-3, 100.0))
    if ux == 0 and uy == 0:
        cx, cy = ax + s, ay + w
    else:
        cx, cy = ax + s * ux - w * uy, ay + s * uy + w * ux
    if where == 'at a':
        cx, cy = ax, ay
    if where == 'at b':
        cx, cy = bx, by
    if draw(gens.ints(0, 7)) == 7:
        ax, ay, bx, by, cx, cy = [round(v) for v in (ax, ay, bx, by, cx, cy)]
        where, kind = 'any', 'whole'
    return dict(p=[ax, ay, bx, by, cx, cy], where=where, kind=kind, shift=[draw(gens.sq(1000, 0.5)), draw(gens.sq(1000, 0.5))])


def distance(case, rec):
    from oneka.probabilityfield import ProbabilityField
    ax, ay, bx, by, cx, cy = case['p']
    f = ProbabilityField.distancesquared
    want = ref.exact_dist2(*case['p'])
    got = float(f(ax, ay, bx, by, cx, cy))
    rec.label(case['where'], case['kind'])
    rec.hit(want > 0)
    # Differences of coordinates are exact or rounded once; the formula squares them.
    size2 = max((bx - ax)**2 + (by - ay)**2, (cx - ax)**2 + (cy - ay)**2)
    tol = 1e-13 * size2

    def near(v, what):
        require(math.isfinite(v) and abs(Fraction(v) - want) <= Fraction(tol) + Fraction(1e-12) * want,
                'squared distance {} of ({}, {}) from the segment ({}, {}), ({}, {}) {}; exact {}', v, cx, cy, ax, ay, bx, by, what, float(want))
    near(got, '')
    near(float(f(bx, by, ax, ay, cx, cy)), 'reversed')
    require(got >= -tol, 'negative squared distance {}', got)
    # Exact symmetries of the coordinates.
    near(float(f(-ay, ax, -by, bx, -cy, cx)), 'after a quarter turn')
    near(float(f(-ax, ay, -bx, by, -cx, cy)), 'after a reflection')
    near(float(f(ay, ax, by, bx, cy, cx)), 'after swapping x and y')
    sx, sy = case['shift']
    q = [ax + sx, ay + sy, bx + sx, by + sy, cx + sx, cy + sy]
    moved = ref.exact_dist2(*q)
    v = float(f(*q))
    require(abs(Fraction(v) - moved) <= Fraction(tol) * 4 + Fraction(1e-12) * moved, 'squared distance {} after a shift, exact {}', v, float(moved))


SUBS = [Sub('distance', cases(), distance, 48000, 384000, 'exact rational minimum over the segment')]
