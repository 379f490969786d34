import math
import random

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref

RULE = ('tracks of 2 to 14 (sometimes to 2500) vertices (axis-parallel, diagonal, backtracking, repeated vertices, much shorter or longer than a cell), spacings 0.5 to 50 m with '
        'ratios up to 8 between x and y, umbras 0.05 to 6 cells, fields with and without a centre, rasterised after up to 3 earlier tracks that may be far away '
        'or registered; also single tracks with umbras of up to 45 cells, and tracks whose flanks, ends and corners pass nodes at almost exactly the umbra. Non-trivial: some nodes are inside and some outside the umbra within the bounding box of the track and its umbra, or the grid must grow.')
ASSUMPTIONS = ['nodes whose distance is within rounding of the umbra are not judged']


@st.composite
def track(draw, ox, oy, dx, dy, reach=8):
    n = draw(gens.pick(2, 2, 3, 4, 6, 9, 14))
    x, y = ox + dx * draw(gens.sq(reach, 0.25)), oy + dy * draw(gens.sq(reach, 0.25))
    pts = [[x, y]]
    if draw(gens.ints(0, 19)) == 19:
        # as many vertices as a real trace: a zigzag
        r = random.Random(draw(gens.ints(0, 10**6)))
        step = r.choice([0.02, 0.1, 0.4])
        for _ in range(r.randint(100, 2500)):
            pts.append([pts[-1][0] + dx * step * r.uniform(-1, 1), pts[-1][1] + dy * step * r.uniform(-1, 1)])
        return pts
    step = draw(gens.pick(0.05, 0.5, 1.0, 3.0))
    while len(pts) < n:
        k = draw(gens.ints(0, 9))
        if k == 0:
            pts.append(list(pts[-1]))
        elif k == 1 and len(pts) > 1:
            pts.append(list(pts[-2]))
        elif k == 2:
            pts.append([pts[-1][0] + dx * step * draw(gens.pick(1, -1, 3, -3)), pts[-1][1]])
        elif k == 3:
            pts.append([pts[-1][0], pts[-1][1] + dy * step * draw(gens.pick(1, -1, 3, -3))])
        else:
            pts.append([pts[-1][0] + dx * step * draw(gens.sq(3.0, 0.01)), pts[-1][1] + dy * step * draw(gens.sq(3.0, 0.01))])
    return pts


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    dx = draw(gens.logq(0.5, 50.0, 3)) * draw(gens.pick(1.0, 1.0, 1.0, 0.3048, 4 / 3))
    dy = dx if draw(st.booleans()) else dx * draw(gens.pick(0.125, 0.5, 2.0, 1.3, 8.0))
    u = draw(gens.logq(0.05, 6.0, 3)) * (dx * dy)**0.5
    u = min(u, 8 * min(dx, dy))
    ops = []
    for _ in range(draw(gens.pick(1, 1, 2, 3, 4))):
        far = draw(gens.pick(*[0] * 12, *[20] * 3, 700, 1300))
        fx, fy = draw(gens.pick((1, 1), (1, -1), (-1, 1), (-1, -1))) if far < 100 else draw(gens.pick((1, 0), (-1, 0), (0, 1), (0, -1)))
        ops.append([draw(track(off[0] + far * dx * fx, off[1] + far * dy * fy, dx, dy)),
                    u if draw(gens.ints(0, 2)) else u * draw(gens.pick(0.1, 0.5, 1.5)), draw(gens.pick('keep', 'keep', 'register', 'reset'))])
    centre = draw(st.booleans())
    return dict(dx=dx, dy=dy, ops=ops, centre=list(off) if centre else None)


@st.composite
def edges(draw):
    """Tracks that pass nodes at almost exactly the umbra: their flanks, their ends, their corners."""
    off = draw(gens.OFFSETS)
    dx = draw(gens.logq(0.5, 50.0, 3)) * draw(gens.pick(1.0, 1.0, 1.0, 0.3048, 4 / 3))
    dy = dx if draw(st.booleans()) else dx * draw(gens.pick(0.5, 2.0, 1.3))
    s = min(dx, dy)
    u = s * draw(gens.logq(0.05, 4.0, 3))
    pts = [[off[0] + dx * draw(gens.sq(6, 0.25)), off[1] + dy * draw(gens.sq(6, 0.25))]]
    for _ in range(draw(gens.ints(1, 4))):
        # somewhere on the way to the node's rim, then a (short) move that touches it with its flank, its end or a corner
        ni, nj = round((pts[-1][0] - off[0]) / dx) + draw(gens.ints(-3, 3)), round((pts[-1][1] - off[1]) / dy) + draw(gens.ints(-3, 3))
        a = draw(gens.ANGLES)
        c, z = math.cos(a), math.sin(a)
        d = u * (1 + draw(gens.pick(-1, 1)) * draw(gens.logq(1e-7, 0.03)))
        x, y = off[0] + ni * dx + d * c, off[1] + nj * dy + d * z
        l = u * draw(gens.logq(0.01, 3.0))
        how = draw(gens.pick('flank', 'flank', 'from', 'to', 'corner'))
        f = draw(gens.q(0.1, 0.9, 0.05))
        if how == 'flank':
            pts += [[x - f * l * z, y + f * l * c], [x + (1 - f) * l * z, y - (1 - f) * l * c]]
        elif how == 'from':
            pts += [[x, y], [x + l * c, y + l * z]]
        elif how == 'to':
            pts += [[x + l * c, y + l * z], [x, y]]
        else:
            pts += [[x + l * c - l * f * z, y + l * z + l * f * c], [x, y], [x + l * c + l * f * z, y + l * z - l * f * c]]
    if draw(st.booleans()):
        pts = pts[1:]
    ops = [[pts, u, 'keep']]
    if draw(gens.ints(0, 3)) == 3:
        ops.insert(0, [[[off[0] + dx * draw(gens.sq(6, 0.25)), off[1]], [off[0], off[1] + dy * draw(gens.sq(6, 0.25))]], u, 'register'])
    return dict(dx=dx, dy=dy, ops=ops, centre=list(off))


@st.composite
def wide(draw):
    """Umbras of many cells, and tracks whose segments are much shorter than the umbra and than a cell."""
    off = draw(gens.OFFSETS)
    dx = draw(gens.logq(0.5, 50.0, 3))
    dy = dx * draw(gens.pick(1.0, 1.0, 0.5, 1.3))
    u = min(dx, dy) * draw(gens.logq(6.0, 45.0, 3))
    step = draw(gens.pick(0.001, 0.05, 0.3, 2.0, 20.0))
    pts = [[off[0] + dx * draw(gens.sq(3, 0.01)), off[1] + dy * draw(gens.sq(3, 0.01))]]
    for _ in range(draw(gens.pick(1, 2, 3))):
        pts.append([pts[-1][0] + dx * step * draw(gens.sq(1.0, 0.01)), pts[-1][1] + dy * step * draw(gens.sq(1.0, 0.01))])
    return dict(dx=dx, dy=dy, ops=[[pts, u, 'keep']], centre=list(off) if draw(st.booleans()) else None)


def content(pf):
    """{lattice node: (mark, weight)} relative to the first node position seen."""
    if pf.nrows == 0:
        return None
    return pf.xmin, pf.ymin, np.array(pf.rgrid, copy=True), np.array(pf.pgrid, copy=True)


def rasters(case, rec):
    from oneka.probabilityfield import ProbabilityField
    dx, dy = case['dx'], case['dy']
    pf = ProbabilityField(dx, dy, *case['centre']) if case['centre'] else ProbabilityField(dx, dy)
    for pts, umbra, after in case['ops']:
        x, y = [p[0] for p in pts], [p[1] for p in pts]
        old = content(pf)
        form = list if case['centre'] else np.array     # (as the caller holds it)
        pf.rasterize(form(x), form(y), umbra)
        require(pf.rgrid.shape == pf.pgrid.shape == (pf.nrows, pf.ncols), 'grids of shape {} and {} for {} rows and {} columns', pf.rgrid.shape,
                pf.pgrid.shape, pf.nrows, pf.ncols)
        big = max(abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
        tol = 1e-9 * umbra + 1e-14 * big * 10
        m = int(umbra / min(dx, dy)) + 3
        X = pf.xmin + (np.arange(pf.ncols + 2 * m) - m) * dx
        Y = pf.ymin + (np.arange(pf.nrows + 2 * m) - m) * dy
        PX, PY = np.meshgrid(X, Y)
        # nodes beyond the umbra of the track's own box are outside; the others are measured
        d = np.full(PX.shape, np.inf)
        reach = umbra + 2 * tol
        i0, i1 = np.searchsorted(Y, (min(y) - reach, max(y) + reach))
        j0, j1 = np.searchsorted(X, (min(x) - reach, max(x) + reach))
        near = np.s_[max(i0 - 1, 0):i1 + 1, max(j0 - 1, 0):j1 + 1]
        d[near] = ref.dist_to_polyline(x, y, PX[near], PY[near])
        marks = np.zeros(d.shape, bool)
        marks[m:-m, m:-m] = pf.rgrid
        before = np.zeros(d.shape, bool)
        weights = np.zeros(d.shape)
        if old:
            c, r = (old[0] - pf.xmin) / dx, (old[1] - pf.ymin) / dy
            # the corner may have been moved cell by cell, rounding at each
            off = 1e-5 + 2.3e-16 * big * (pf.nrows + pf.ncols) / min(dx, dy)
            require(abs(c - round(c)) < off and abs(r - round(r)) < off and round(c) >= 0 and round(r) >= 0,
                    'the grid moved off its lattice: from ({}, {}) to ({}, {})', old[0], old[1], pf.xmin, pf.ymin)
            r0, c0 = m + round(r), m + round(c)
            before[r0:r0 + old[2].shape[0], c0:c0 + old[2].shape[1]] = old[2]
            weights[r0:r0 + old[2].shape[0], c0:c0 + old[2].shape[1]] = old[3]
        inside, outside = d < umbra - tol, d > umbra + tol
        bad = inside & ~marks
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            raise_at(case, X[j], Y[i], d[i, j], umbra, 'is not marked' if m <= i < m + pf.nrows and m <= j < m + pf.ncols else 'is not in the grid')
        bad = outside & marks & ~before
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            raise_at(case, X[j], Y[i], d[i, j], umbra, 'is marked')
        require(not np.any(before & ~marks), 'rasterising removed {} earlier marks', int(np.sum(before & ~marks)))
        got = np.zeros(d.shape)
        got[m:-m, m:-m] = pf.pgrid
        require(np.array_equal(got, weights), 'rasterising changed the registered weights')
        box = (PX >= min(x) - umbra) & (PX <= max(x) + umbra) & (PY >= min(y) - umbra) & (PY <= max(y) + umbra)
        rec.hit(bool(np.any(inside & box) and np.any(outside & box)))
        rec.label('grown' if old and old[2].shape != pf.rgrid.shape else 'not grown' if old else 'new grid',
                  'thin umbra' if umbra < min(dx, dy) / 2 else 'wide umbra', 'square' if dx == dy else 'oblong')
        if len(pts) > 2 and any(pts[i] == pts[i + 1] for i in range(len(pts) - 1)):
            rec.label('repeated vertices')
        if after == 'register':
            pf.register(1.0)
        elif after == 'reset':
            pf.reset()


def raise_at(case, x, y, d, umbra, what):
    require(False, 'the node ({}, {}) at distance {} from the track {}; the umbra is {}', x, y, d, what, umbra)


SUBS = [Sub('wide', wide(), rasters, 1200, 8000, 'the same, for umbras of 6 to 45 cells and short segments', cpu=60),
        Sub('rasters', cases(), rasters, 9920, 80000, 'brute-force distance to the polyline at every node of the lattice, also beyond the grid', cpu=60),
        Sub('edges', edges(), rasters, 19200, 160000, 'the same, for tracks laid past nodes at the umbra but for 1e-7 to 3%', cpu=60)]
