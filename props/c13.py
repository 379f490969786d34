import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Fail, require
from vlib import gens

RULE = ('histories of up to 12 operations (grow by a box, a point, a box inside, a box on the edge or an inverted box; fill every node with its own weight and a '
        'random mark; rasterise; register; reset) on fields with or without a centre and with any spacings, boxes also in whole numbers. '
        'Non-trivial: a grid that has content grows.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    dx = draw(gens.logq(0.25, 100.0, 3)) * draw(gens.pick(1.0, 1.0, 1.0, 0.3048, 4 / 3))
    dy = dx if draw(st.booleans()) else dx * draw(gens.pick(0.25, 0.7, 2.0, 3.0))
    ops = []
    for _ in range(draw(gens.ints(1, 12))):
        k = draw(gens.pick('box', 'box', 'box', 'point', 'edge', 'inside', 'inverted', 'fill', 'fill', 'raster', 'register', 'reset'))
        far = draw(gens.pick(*[2] * 6, *[6] * 6, *[30] * 6, 1500))
        thin = draw(st.booleans())
        a = [draw(gens.sq(far, 0.25)), draw(gens.sq(far, 0.25)), draw(gens.q(0, far, 0.25)), draw(gens.q(0, far, 0.25))]
        if far > 100:
            # far along one axis only: the grid has to stay small enough to compare
            a[thin] %= 8
            a[thin + 2] %= 8
        ops.append([k, a, draw(gens.ints(0, 10**6))])
    whole = draw(gens.ints(0, 5)) == 5
    if whole:
        # whole-number boxes
        dx, dy, off = max(1, round(dx)) * 4, max(1, round(dy)) * 4, [round(v) for v in off]
    return dict(dx=dx, dy=dy, off=list(off), centre=draw(st.booleans()), ops=ops, whole=whole)


def geometry(pf):
    return (pf.nrows, pf.ncols) + ((pf.xmin, pf.xmax, pf.ymin, pf.ymax) if pf.nrows else ())


def growth(case, rec):
    from oneka.probabilityfield import ProbabilityField, RangeError
    dx, dy, off = case['dx'], case['dy'], case['off']
    pf = ProbabilityField(dx, dy, *off) if case['centre'] else ProbabilityField(dx, dy)
    big = max(abs(off[0]), abs(off[1])) + 100 * max(dx, dy)
    tol = 1e-13 * big + 1e-9 * min(dx, dy)

    def consistent(op):
        # the extent may be summed up cell by cell
        nonlocal tol, big
        if pf.nrows:
            big = max(big, abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
            tol = max(tol, 1e-13 * big + 1e-9 * min(dx, dy) + 2.3e-16 * big * (pf.nrows + pf.ncols))
        require(pf.deltax == dx and pf.deltay == dy, 'after {} the spacings are {}, {}', op, pf.deltax, pf.deltay)
        require(pf.pgrid.shape == pf.rgrid.shape == (pf.nrows, pf.ncols), 'after {}: grids {} and {} for {} rows, {} columns', op, pf.pgrid.shape,
                pf.rgrid.shape, pf.nrows, pf.ncols)
        if pf.nrows:
            require(abs(pf.xmax - pf.xmin - (pf.ncols - 1) * dx) <= tol and abs(pf.ymax - pf.ymin - (pf.nrows - 1) * dy) <= tol,
                    'after {}: extent ({}, {}) x ({}, {}) with {} columns, {} rows, spacings {}, {}', op, pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.ncols,
                    pf.nrows, dx, dy)

    consistent('creation')
    if case['centre']:
        require(pf.xmin < off[0] < pf.xmax and pf.ymin < off[1] < pf.ymax, 'the centre is not inside the new field')
        cx, cy = (off[0] - pf.xmin) / dx, (off[1] - pf.ymin) / dy
        require(abs(cx - round(cx)) < 1e-6 + tol / dx and abs(cy - round(cy)) < 1e-6 + tol / dy, 'the centre is not a node of the new field')
    for op, a, seed in case['ops']:
        if op in ('fill', 'register', 'reset', 'raster'):
            if op == 'fill' and pf.nrows:
                r = np.random.default_rng(seed)
                pf.pgrid[:] = r.random(pf.pgrid.shape)
                pf.rgrid[:] = r.random(pf.rgrid.shape) < 0.5
            elif op == 'register':
                pf.register(0.5)
            elif op == 'reset':
                pf.reset()
            elif op == 'raster':
                x, y = off[0] + a[0] * dx, off[1] + a[1] * dy
                pf.rasterize([x, x + a[2] * dx], [y, y + a[3] * dy], 0.75 * dx)
            consistent(op)
            continue
        x0, x1 = off[0] + a[0] * dx, off[0] + (a[0] + a[2]) * dx
        y0, y1 = off[1] + a[1] * dy, off[1] + (a[1] + a[3]) * dy
        if op == 'point':
            x1, y1 = x0, y0
        if case['whole']:
            x0, x1, y0, y1 = int(x0), int(x1), int(y0), int(y1)
        if op in ('inside', 'edge') and pf.nrows:
            fx, fy = 0.3 * (a[0] % 1), 0.3 * (a[1] % 1)
            x0, x1 = pf.xmin + (0.05 + fx) * dx, pf.xmax - (0.05 + fx) * dx
            y0, y1 = pf.ymin + (0.05 + fy) * dy, pf.ymax - (0.05 + fy) * dy
            if op == 'edge':
                side = seed % 4
                x0, x1, y0, y1 = [(pf.xmin, x1, y0, y1), (x0, pf.xmax, y0, y1), (x0, x1, pf.ymin, y1), (x0, x1, y0, pf.ymax)][side]
        old = (geometry(pf), pf.pgrid.copy(), pf.rgrid.copy(), pf.total_weight)
        if op == 'inverted':
            if seed % 2:
                x0, x1 = x1 + dx, x0
            else:
                y0, y1 = y1 + dy * 0.125, y0
            try:
                pf.expand(x0, x1, y0, y1)
            except RangeError:
                pass
            else:
                raise Fail('the box ({}, {}, {}, {}) was not refused'.format(x0, x1, y0, y1))
            require(geometry(pf) == old[0] and np.array_equal(pf.pgrid, old[1]) and np.array_equal(pf.rgrid, old[2]) and pf.total_weight == old[3],
                    'a refused box changed the field from {} to {}', old[0], geometry(pf))
            rec.label('inverted')
            continue
        pf.expand(x0, x1, y0, y1)
        consistent(op)
        # an edge of the box may fall on a lattice line by rounding, but not on the edge that the grid had
        g = old[0]
        slack = [tol if g[0] and box != edge else 0.0 for box, edge in zip((x0, x1, y0, y1), g[2:] or (None,) * 4)]
        in_grid = [x0 - pf.xmin, pf.xmax - x1, y0 - pf.ymin, pf.ymax - y1]
        require(all(d > -e if e else d > 0 for d, e in zip(in_grid, slack)), 'box ({}, {}, {}, {}) is not inside the grid {} after growing', x0, x1, y0, y1, geometry(pf))
        require(pf.total_weight == old[3], 'growing changed the total weight')
        if not old[0][0]:
            require(not pf.pgrid.any() and not pf.rgrid.any(), 'a new grid is not empty')
            rec.label('first grid')
            continue
        if min(x0 - g[2], g[3] - x1, y0 - g[4], g[5] - y1) > tol:
            rec.label('inside')
            require(geometry(pf) == g and np.array_equal(pf.pgrid, old[1]) and np.array_equal(pf.rgrid, old[2]), 'a box strictly inside changed the grid from {} to {}',
                    g, geometry(pf))
            continue
        c, r = (g[2] - pf.xmin) / dx, (g[4] - pf.ymin) / dy
        require(abs(c - round(c)) <= 1e-6 + tol / dx and abs(r - round(r)) <= 1e-6 + tol / dy and round(c) >= 0 and round(r) >= 0
                and round(c) + g[1] <= pf.ncols and round(r) + g[0] <= pf.nrows, 'growing to ({}, {}, {}, {}) changed the grid from {} to {}', x0, x1, y0, y1, g, geometry(pf))
        r, c = round(r), round(c)
        for name, grid, before in (('weights', pf.pgrid, old[1]), ('marks', pf.rgrid, old[2])):
            require(np.array_equal(grid[r:r + g[0], c:c + g[1]], before), 'growing from {} to {} moved or changed the {}', g, geometry(pf), name)
            rest = np.array(grid, dtype=float)
            rest[r:r + g[0], c:c + g[1]] = 0
            require(not rest.any(), 'growing from {} to {}: new nodes have {}', g, geometry(pf), name)
        if geometry(pf) != g:
            rec.hit(bool(old[1].any() or old[2].any()))
            rec.label(*[n for n, t in (('left', c > 0), ('down', r > 0), ('right', c + g[1] < pf.ncols), ('up', r + g[0] < pf.nrows)) if t])


def bad_spacing(case, rec):
    from oneka.probabilityfield import ProbabilityField, RangeError
    dx, dy = case
    rec.hit()
    if dx > 0 and dy > 0:
        rec.label('accepted')
        pf = ProbabilityField(dx, dy)
        require(pf.nrows == 0 and pf.ncols == 0, 'a new field without a centre has {} rows', pf.nrows)
        return
    rec.label('refused')
    for args in ((dx, dy), (dx, dy, 1.0, 2.0)):
        try:
            ProbabilityField(*args)
        except RangeError:
            continue
        raise Fail('spacings {} were accepted'.format(args))


spacing = st.one_of(gens.logq(1e-3, 1000.0), gens.logq(1e-3, 1000.0).map(lambda v: -v), st.just(0.0), st.just(0), gens.ints(-3, 20))
SUBS = [Sub('growth', cases(), growth, 32000, 256000, 'snapshots of every node before and after'),
        Sub('spacing', st.tuples(spacing, spacing).map(list), bad_spacing, 300, 5000, 'non-positive spacings are refused')]
