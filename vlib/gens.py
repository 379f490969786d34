"""Hypothesis strategies shared by the property modules. Cases are JSON-able; every choice is Hypothesis's own."""
import functools
import math
import random

from hypothesis import strategies as st

DRAW = st.composite


@functools.lru_cache(None)
def ints(lo, hi):
    return st.integers(lo, hi)


@functools.lru_cache(None)
def pick(*values):
    return st.sampled_from(values)




@functools.lru_cache(None)
def q(lo, hi, step=0.001):
    """Numbers lo..hi on a grid: no subnormals, exact shrinking, ties and coincidences occur."""
    n = int(round((hi - lo) / step))
    return st.integers(0, n).map(lambda k: round(lo + k * step, 9))


@functools.lru_cache(None)
def sq(hi, step=0.001):
    """Symmetric q: shrinks towards 0."""
    n = int(round(hi / step))
    return st.integers(-n, n).map(lambda k: round(k * step, 9))


@functools.lru_cache(None)
def logq(lo, hi, digits=4):
    """Log-uniform, rounded to some significant digits; shrinks towards lo."""
    r = math.log(hi / lo)

    def f(k):
        v = lo * math.exp(r * k / 2000)
        return float('{:.{d}g}'.format(v, d=digits))
    return st.integers(0, 2000).map(f)


@functools.lru_cache(None)
def slog(lo, hi):
    """Signed log-uniform or zero."""
    return st.one_of(logq(lo, hi), logq(lo, hi).map(lambda v: -v), st.just(0.0))


OFFSETS = st.sampled_from([(0.0, 0.0), (0.0, 0.0), (322579.0, 5093431.0), (-1200.5, 340.25), (355731.0, -91141.0), (2845310.5, -7312040.25)])

ANGLES = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 1.5]), q(0.0, 1.999)).map(lambda a: a * math.pi)


@DRAW
def polar_point(draw, cx, cy, rlo=0.01, rhi=1000.0):
    """A point at a log-uniform distance; on the axes through (cx, cy) with fair probability."""
    r = draw(logq(rlo, rhi))
    k = draw(ints(0, 7))
    if k < 4:
        dx, dy = [(r, 0.0), (0.0, r), (-r, 0.0), (0.0, -r)][k]
    else:
        a = draw(q(0.0, 6.283))
        dx, dy = r * math.cos(a), r * math.sin(a)
    return [cx + dx, cy + dy]


ANYQ = st.one_of(logq(1.0, 5000.0), logq(1.0, 5000.0), logq(1.0, 5000.0).map(lambda v: -v), st.just(0.0), slog(1e-3, 1e6))


@DRAW
def many_wells(draw, off, qs, reach):
    """As many wells as real projects have, over as large an area; a few discharges in turn."""
    n = draw(ints(6, 40))
    r = random.Random(draw(ints(0, 10**6)))
    reach = draw(pick(reach, 8000.0))
    some = [draw(qs) for _ in range(draw(ints(1, 3)))]
    return [[off[0] + 0.25 * round(4 * r.uniform(-reach, reach)), off[1] + 0.25 * round(4 * r.uniform(-reach, reach)), r.choice([0.25, 0.1524, 1.0]), some[i % len(some)]] for i in range(n)]


@DRAW
def wells(draw, off, nmin=0, nmax=5, qs=None, reach=500.0):
    n = draw(ints(nmin, nmax))
    if qs is None:
        qs = ANYQ
    if nmax >= 4 and draw(ints(0, 19)) == 19:
        return draw(many_wells(off, qs, reach))
    out = []
    for i in range(n):
        if i and draw(ints(0, 7)) == 0:
            x, y = out[draw(ints(0, i - 1))][:2]          # co-located, as in data/long_prairie.py
        else:
            x, y = off[0] + draw(sq(reach, 0.25)), off[1] + draw(sq(reach, 0.25))
        out.append([x, y, draw(pick(0.25, 0.1524, 0.0508, 1.0, 3.0, 20.0)), draw(qs)])
    if out and draw(ints(0, 7)) == 7:
        # whole numbers, as people write them
        out = [[round(w[0]), round(w[1]), w[2], round(w[3])] for w in out]
    return out


@DRAW
def model(draw, nmin=0, nmax=5, qs=None, coefs=None):
    """Any model: wells, local origin and six coefficients."""
    off = draw(OFFSETS)
    ws = draw(wells(off, nmin, nmax, qs))
    xo, yo = off[0] + draw(sq(800, 0.5)), off[1] + draw(sq(800, 0.5))
    if coefs is None:
        c = [draw(slog(1e-5, 1.0)), draw(slog(1e-5, 1.0)), draw(slog(1e-5, 1.0)),
             draw(slog(1e-2, 20.0)), draw(slog(1e-2, 20.0)), draw(slog(1.0, 50000.0))]
    else:
        c = draw(coefs)
    kind = draw(ints(0, 7))
    if kind == 7:
        # whole numbers, as people write them
        a = dict(base=draw(ints(-500, 500)), K=draw(ints(1, 200)), n=draw(q(0.02, 0.98, 0.01)), H=draw(ints(1, 200)))
    elif kind == 6:
        # other units, other soils
        a = dict(base=draw(sq(5000, 0.5)), K=draw(logq(1e-5, 1e5)), n=draw(logq(1e-4, 1.0)), H=draw(logq(0.05, 3000.0)))
    else:
        a = dict(base=draw(sq(500, 0.5)), K=draw(logq(0.05, 200.0)), n=draw(q(0.02, 0.98, 0.01)), H=draw(logq(0.5, 200.0)))
    return dict(a, wells=ws, xo=xo, yo=yo, coef=c, off=list(off))


@DRAW
def point_for(draw, m, rmin=0.01):
    """A point at least 1e-3 from every well; near a well, near the origin or anywhere."""
    k = draw(ints(0, 15))
    far = k == 15
    k = k % 4
    if far:
        r, a = draw(logq(1000.0, 40000.0)), draw(q(0.0, 6.283))
        x, y = m['off'][0] + r * math.cos(a), m['off'][1] + r * math.sin(a)
    elif k < 2 and m['wells']:
        w = m['wells'][draw(ints(0, len(m['wells']) - 1))]
        x, y = draw(polar_point(w[0], w[1], rmin, 500.0))
    elif k == 2:
        x, y = draw(polar_point(m['xo'], m['yo'], 0.01, 1000.0)) if draw(ints(0, 3)) else (m['xo'], m['yo'])
    else:
        x, y = m['off'][0] + draw(sq(1000, 0.1)), m['off'][1] + draw(sq(1000, 0.1))
    if draw(ints(0, 15)) == 15:
        x, y = round(x), round(y)
    while any(math.hypot(x - w[0], y - w[1]) < 1e-3 for w in m['wells']):
        x += 0.37
    return [x, y]


@DRAW
def layout(draw, nmin=7, nmax=25, scale=(20.0, 3000.0)):
    """
    Well-posed observation places: a jittered grid (at least 3 by 3), so that no conic passes through all of them,
    thinned and shuffled, on a scale L, about (0, 0).
    """
    L = draw(logq(*scale))
    if nmax >= 20 and draw(ints(0, 19)) == 19:
        # as many, and as far apart, as in real projects
        k = draw(ints(6, 16))
        L = draw(pick(L, 18000.0)) if scale[1] > 1000 else L
        r = random.Random(draw(ints(0, 10**6)))
        pts = [[L * ((i + r.uniform(-0.4, 0.4)) / (k - 1) - 0.5), L * ((j + r.uniform(-0.4, 0.4)) / (k - 1) - 0.5)] for i in range(k) for j in range(k)]
        r.shuffle(pts)
        return dict(L=L, pts=pts)
    k = draw(ints(3, 5))
    pts = []
    for i in range(k):
        for j in range(k):
            jx, jy = draw(sq(0.15, 0.01)), draw(sq(0.15, 0.01))
            pts.append([L * ((i + jx) / (k - 1) - 0.5), L * ((j + jy) / (k - 1) - 0.5)])
    perm = draw(st.permutations(range(len(pts))))
    pts = [pts[i] for i in perm]
    drop = draw(ints(0, max(0, min(len(pts) - max(nmin, 9), len(pts) - 9))))
    return dict(L=L, pts=pts[drop:][:max(nmax, 9)])
