import math

import numpy as np
from hypothesis import strategies as st

from vlib import plots
from vlib.core import Sub, Fail, require
from vlib import build, gens, ref

RULE = ('maps: head and potential maps of any model over windows of 2 to 9 (sometimes 45) rows and columns, whose potential is shifted so that none, some or most of the window is dry; '
        'probability: maps of generated fields with wells, target, observations and smoothing 0 to 3 grids. '
        'Non-trivial: some places of the window are dry and some are not, or the window is not square (maps); probabilities other than 0 and 1 (probability).')
ASSUMPTIONS = ['windows in which every place is dry are not claimed', 'smoothing is compared with a Gaussian of unlimited reach within 2e-3 (the kernel may be truncated)']


@st.composite
def map_cases(draw):
    m = draw(gens.model(0, 3))
    nr, nc = draw(gens.ints(2, 9)), draw(gens.ints(2, 9))
    if draw(gens.ints(0, 14)) == 14:
        nr, nc = draw(gens.ints(15, 45)), draw(gens.ints(15, 45))
    x0, y0 = m['off'][0] + draw(gens.sq(500, 0.37)), m['off'][1] + draw(gens.sq(500, 0.37))
    top = draw(gens.pick(2000.0, 2000.0, 2000.0, 50000.0))
    w = [x0, x0 + draw(gens.logq(1.0, top)), y0, y0 + draw(gens.logq(1.0, top))]
    if draw(gens.ints(0, 5)) == 5:
        # in whole numbers
        w = [math.floor(w[0]), math.ceil(w[1]), math.floor(w[2]), math.ceil(w[3])]
    return dict(m=m, w=w, nr=nr, nc=nc, wet=draw(gens.q(0.1, 1.2, 0.01)), what=draw(gens.pick('head', 'head', 'potential')))


def maps(case, rec):
    from oneka import visualize
    from oneka.model import AquiferError
    m, (x0, x1, y0, y1), nr, nc = dict(case['m']), case['w'], case['nr'], case['nc']
    xs = [x0 + (x1 - x0) * j / (nc - 1) for j in range(nc)]
    ys = [y0 + (y1 - y0) * i / (nr - 1) for i in range(nr)]
    if any(math.hypot(x - w[0], y - w[1]) < 1e-6 for x in xs for y in ys for w in m['wells']):
        rec.label('not judged: a well at a place')
        return
    m['coef'] = m['coef'][:5] + [0.0]
    phi = np.array([[ref.potential(m, x, y)[0] for x in xs] for y in ys])
    size = np.array([[ref.potential(m, x, y)[1] for x in xs] for y in ys])
    span = float(phi.max() - phi.min()) + 1e-3 * float(size.max()) + 1e-3
    level = np.sort(phi.ravel())[::-1][min(phi.size - 1, int(case['wet'] * phi.size))]
    m['coef'][5] = -float(level) + (0.3 * span if case['wet'] >= 1 else 1e-4 * span)
    mo = ref.make_model(m)
    call = visualize.contour_head if case['what'] == 'head' else visualize.contour_potential
    want, sure = np.full((nr, nc), np.nan), np.ones((nr, nc), bool)
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            try:
                want[i, j] = mo.compute_head(x, y) if case['what'] == 'head' else mo.compute_potential(x, y)
            except AquiferError:
                pass
            sure[i, j] = abs(ref.potential(m, x, y)[0]) > 1e-9 * ref.potential(m, x, y)[1]
    if np.all(np.isnan(want)):
        rec.label('not judged: all dry')
        return
    rec.hit((np.isnan(want).any() and not np.isnan(want).all()) or nr != nc)
    rec.label(case['what'], 'partly dry' if np.isnan(want).any() else 'wet')
    coef = [float(c) for c in mo.coef]
    with plots.Drawn() as d:
        call(mo, x0, x1, y0, y1, nr, nc)
        data = [plots.grid(g) for g in d.filled]
    require(len(data) == 1 and data[0] is not None, 'the {} map draws {} filled contours', case['what'], len(data))
    require([float(c) for c in mo.coef] == coef, 'the map modified the model')
    x, y, z = data[0]
    require(z.shape == (nr, nc), 'the map of {} rows and {} columns has shape {}', nr, nc, z.shape)
    e = 1e-9 * max(abs(v) for v in (x0, x1, y0, y1)) * 1e-3 + 1e-9 * (x1 - x0 + y1 - y0)
    require(np.all(np.abs(x - xs) <= e) and np.all(np.abs(y - ys) <= e), 'the map is drawn at x = {}, y = {} instead of the window {}', x, y, case['w'])
    dry = np.isnan(want)
    bad = np.isnan(z) != dry
    require(not np.any(bad & sure), 'blank places {} where {} is dry', np.argwhere(np.isnan(z)).tolist(), np.argwhere(dry).tolist())
    ok = sure & ~dry & ~np.isnan(z)
    # positions differ by rounding: allow for the slope
    tol = np.zeros((nr, nc))
    for i, j in np.argwhere(ok):
        q = ref.discharge(m, xs[j], ys[i])
        s = math.hypot(q[0][0], q[0][1]) if isinstance(q[0], (tuple, list, np.ndarray)) else math.hypot(q[0], q[1])
        dphi = s * e + 1e-11 * size[i, j] + 1e-12 * abs(m['coef'][5])
        if case['what'] == 'potential':
            tol[i, j] = dphi
        else:
            p = ref.potential(m, xs[j], ys[i])[0]
            h0, h1 = (ref.head_of_potential(m['K'], m['H'], max(p + v, 1e-300)) for v in (-dphi, dphi))
            tol[i, j] = abs(h1 - h0) + 1e-12 * abs(want[i, j])
    off = ok & (np.abs(np.where(ok, z - want, 0.0)) > tol)
    if off.any():
        i, j = np.argwhere(off)[0]
        raise Fail('the map shows {} at ({}, {}), where the {} is {}'.format(z[i, j], xs[j], ys[i], case['what'], want[i, j]))


@st.composite
def prob_cases(draw):
    h = draw(build.filled()) if draw(gens.ints(0, 4)) == 0 else draw(build.history(nmax=5))
    off, n = h['off'], draw(gens.pick(3, 3, 2, 1, 9))
    return dict(h=h, target=draw(gens.ints(0, n - 1)), wells=[[off[0] + draw(gens.sq(9)), off[1] + draw(gens.sq(9)), 0.25, 100.0] for _ in range(n)],
                obs=[[off[0] + draw(gens.sq(50)), off[1] + draw(gens.sq(50)), 10.0, 1.0] for _ in range(draw(gens.pick(0, 1, 2, 3, 4, 4, 45)))], form=draw(gens.pick('tuple', 'tuple', 'list')),
                smooth=draw(gens.pick(0, 0, 0.0, None, 0.5, 1, 2.0, 3)))


def judge_probability(pf, h_off, smooth, filled, what='probability map'):
    """Compares the contour data of a probability map with the field."""
    data = [plots.grid(g) for g in filled]
    require(len(data) == 1 and data[0] is not None, 'the {} draws {} filled contours', what, len(data))
    x, y, z = data[0]
    require(z.shape == pf.pgrid.shape, 'the {} has shape {} for a field of {}', what, z.shape, pf.pgrid.shape)
    X, Y = ref.nodes(pf)
    e = 1e-7 * min(pf.deltax, pf.deltay) + 1e-14 * max(abs(h_off[0]), abs(h_off[1]))
    require(np.all(np.abs(x - X[0]) <= e) and np.all(np.abs(y - Y[:, 0]) <= e), 'the {} is drawn away from the nodes', what)
    p = pf.pgrid / pf.total_weight
    require(np.all((z >= 0) & (z <= 1 + 1e-9)), 'the {} shows probabilities from {} to {}', what, float(z.min()), float(z.max()))
    if not smooth:
        require(np.all(np.abs(z - p) <= 1e-12), 'the {} differs from the field by up to {}', what, float(np.abs(z - p).max()))
    else:
        g = plots.smoothed(p, float(smooth))
        require(np.all(np.abs(z - g) <= 2e-3), 'the {} smoothed by {} grids differs from the Gaussian average of the field by up to {}', what, smooth, float(np.abs(z - g).max()))


def probability(case, rec):
    from oneka.visualize import create_probability_plot
    h = case['h']
    pf = build.field(h)
    shown = build.state(pf)
    p = pf.pgrid / pf.total_weight
    rec.hit(np.any((p > 0.01) & (p < 0.99)))
    rec.label('smooth {}'.format(case['smooth']))
    form = list if case['form'] == 'list' else tuple
    wells, obs = [form(w) for w in case['wells']], [form(o) for o in case['obs']]
    with plots.Drawn() as d:
        if case['smooth'] is None:
            create_probability_plot(case['target'], wells, obs, pf)
        else:
            create_probability_plot(case['target'], wells, obs, pf, case['smooth'])
        marks = [plots.markers(plots.Drawn.axes(), m) for m in 'o*P']
        filled = d.filled
    require(build.state(pf) == shown, 'the map modified the field')
    judge_probability(pf, h['off'], case['smooth'], filled)
    pts = [(w[0], w[1]) for w in wells]
    require(sorted(marks[0]) == sorted(pts), 'the wells are drawn at {}, they are at {}', marks[0], pts)
    require(marks[1] == [pts[case['target']]], 'the target is drawn at {}, it is at {}', marks[1], pts[case['target']])
    require(sorted(marks[2]) == sorted((o[0], o[1]) for o in obs), 'the observations are drawn at {}', marks[2])


SUBS = [Sub('maps', map_cases(), maps, 1640, 13120, 'values of the model at independently computed places'),
        Sub('probability', prob_cases(), probability, 1080, 8640, 'the field itself or its definition-based Gaussian average')]
