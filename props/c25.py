import math

import numpy as np
from hypothesis import strategies as st

from vlib import plots
from vlib.core import Sub, Fail, require
from vlib import build, gens, ref

RULE = ('impact: fields of 1 to 9 realizations with equal and unequal weights, rasterised or set node by node on grids of up to 100 x 100 nodes; the returned table, ties included, and the points drawn; '
        'deterministic: fields with any spacings in x and y, captured nodes at the edges included; area and filled cells; empty: fields with a grid, without one, or with discarded tracks only, in each of the three reports. '
        'Non-trivial: at least two distinct positive probabilities (impact), a captured and a free node (deterministic).')
ASSUMPTIONS = ['the impact report assumes the square grid for which it is documented']
ACRE = 4046.86


@st.composite
def impact_cases(draw):
    return dict(h=draw(build.filled(isotropic=True)) if draw(gens.ints(0, 2)) == 0 else draw(build.history(isotropic=True, nmax=6)))


def impact(case, rec):
    from oneka.visualize import create_impact_plot
    pf = build.field(case['h'])
    shown = build.state(pf)
    s = case['h']['dx']
    with plots.Drawn():
        out = create_impact_plot(s, pf)
        points = [(float(a), float(b)) for ax in plots.Drawn.axes() for ln in ax.get_lines() for a, b in zip(ln.get_xdata(), ln.get_ydata())]
    require(build.state(pf) == shown, 'the report modified the field')
    require(len(out) == 2, 'the impact report returned {} values', len(out))
    pr, area = np.asarray(out[0], float), np.asarray(out[1], float)
    want = np.sort((pf.pgrid / pf.total_weight).ravel())[::-1]
    rec.hit(len(set(want[want > 0].round(9))) > 1)
    require(pr.shape == want.shape == area.shape, 'the table has {} probabilities and {} areas for {} nodes', pr.shape, area.shape, want.shape)
    require(np.all(np.abs(pr - want) <= 1e-14), 'the table does not list the node probabilities in descending order')
    cell = s * s
    more = np.searchsorted(-want, -want - 1e-14, 'left')
    atleast = np.searchsorted(-want, -want + 1e-14, 'right')
    bad = np.nonzero((area < more * cell * (1 - 1e-12)) | (area > atleast * cell * (1 + 1e-12)))[0]
    require(bad.size == 0, 'row {}: probability {} with area {}, {} nodes of {} m2 have more and {} at least that', bad[0] if bad.size else 0, *[float(v[bad[0]]) if bad.size else 0
            for v in (want, area, more)], cell, float(atleast[bad[0]]) if bad.size else 0)
    require(np.all(np.diff(area) >= 0) and abs(area[-1] - want.size * cell) <= 1e-9 * area[-1], 'the areas do not cumulate to that of the whole grid')
    table = {}
    for a, b in zip(pr, area):
        table.setdefault(round(float(a), 12), []).append(float(b) / ACRE)
    for a, b in points:
        require(any(abs(b - v) <= 1e-9 * v for v in table.get(round(a, 12), ())), 'the curve shows {} acres at {}, the table has {}', b, a, table.get(round(a, 12), ())[:5])
    drawn = {(round(a, 12), '{:.9g}'.format(b)) for a, b in points}
    for a, bs in table.items():
        if 0 < a < 1:
            for b in bs:
                require((a, '{:.9g}'.format(b)) in drawn, 'the curve does not show {} acres at {}', b, a)
    rec.label('{} probabilities'.format(min(5, len(set(want.round(9))))))


@st.composite
def det_cases(draw):
    h = draw(build.filled(large=False)) if draw(gens.ints(0, 3)) == 0 else draw(build.history(nmax=3))
    n = draw(gens.pick(1, 2, 2, 2, 9))
    return dict(h=h, target=draw(gens.ints(0, n - 1)), wells=[[h['off'][0] + draw(gens.sq(9)), h['off'][1] + draw(gens.sq(9)), 0.25, 100.0] for _ in range(n)],
                obs=[[h['off'][0] + draw(gens.sq(50)), h['off'][1] + draw(gens.sq(50)), 10.0, 1.0] for _ in range(draw(gens.pick(0, 1, 2, 3, 3, 45)))], form=draw(gens.pick('tuple', 'tuple', 'list')))


def det(case, rec):
    from oneka.visualize import create_deterministic_plot
    h = case['h']
    pf = build.field(h)
    shown = build.state(pf)
    inside = pf.pgrid > 0
    if inside.sum() > 600:
        rec.label('not judged: large')
        return
    rec.hit(inside.any() and not inside.all())
    form = list if case['form'] == 'list' else tuple
    wells, obs = [form(w) for w in case['wells']], [form(o) for o in case['obs']]
    with plots.Drawn():
        area = create_deterministic_plot(case['target'], wells, obs, pf)
        axes = plots.Drawn.axes()
        boxes = plots.patches(axes)
        marks = [plots.markers(axes, m) for m in 'o*P']
    require(build.state(pf) == shown, 'the report modified the field')
    dx, dy = h['dx'], h['dy']
    size = max(abs(h['off'][0]), abs(h['off'][1]), 1.0)
    rel = 1e-9 + 1e-15 * size / min(dx, dy) * 10
    require(abs(area - inside.sum() * dx * dy) <= rel * inside.sum() * dx * dy, 'area {} for {} captured nodes with cells of {} x {}', area, int(inside.sum()), dx, dy)
    X, Y = ref.nodes(pf)
    want = {(i, j) for i, j in zip(*np.nonzero(inside))}
    got = set()
    e = 1e-6 * min(dx, dy) + 1e-14 * size
    for b in boxes:
        # a polygon fills one cell, or a rectangle of several
        j0, i0 = round((b[0] - pf.xmin) / dx + 0.5), round((b[2] - pf.ymin) / dy + 0.5)
        nj, ni = round((b[1] - b[0]) / dx), round((b[3] - b[2]) / dy)
        cells = {(i, j) for i in range(i0, i0 + ni) for j in range(j0, j0 + nj)}
        require(cells and cells <= want, 'the rectangle {} is filled, where no node is captured', b)
        x, y = pf.xmin + (j0 - 0.5) * dx, pf.ymin + (i0 - 0.5) * dy
        require(abs(b[0] - x) <= e and abs(b[1] - x - nj * dx) <= e and abs(b[2] - y) <= e and abs(b[3] - y - ni * dy) <= e,
                'the filled rectangle {} is not made of the cells of nodes', b)
        got |= cells
    require(got == want, '{} captured nodes have no filled cell', len(want - got))
    pts = [(w[0], w[1]) for w in wells]
    require(sorted(marks[0]) == sorted(pts) and marks[1] == [pts[case['target']]] and sorted(marks[2]) == sorted((o[0], o[1]) for o in obs), 'markers of wells, target or '
            'observations are misplaced: {}', marks)


@st.composite
def empty_cases(draw):
    h = draw(build.history(nmax=2))
    return dict(h=h, kind=draw(gens.pick('new', 'discarded', 'grown')), which=draw(gens.ints(0, 2)))


def empty(case, rec):
    from oneka import visualize
    from oneka.probabilityfield import ProbabilityField
    h = case['h']
    pf = ProbabilityField(h['dx'], h['dy'], *h['off']) if h['centre'] else ProbabilityField(h['dx'], h['dy'])
    if case['kind'] == 'discarded':
        for tracks, _ in h['reals']:
            for t in tracks:
                pf.rasterize([p[0] for p in t], [p[1] for p in t], h['u'])
            pf.reset()
    elif case['kind'] == 'grown':
        pf.expand(h['off'][0], h['off'][0] + 3 * h['dx'], h['off'][1], h['off'][1])
    rec.hit()
    rec.label(case['kind'])
    wells = [(h['off'][0], h['off'][1], 0.25, 10.0)]
    call = [lambda: visualize.create_impact_plot(h['dx'], pf), lambda: visualize.create_deterministic_plot(0, wells, [], pf),
            lambda: visualize.create_probability_plot(0, wells, [], pf)][case['which']]
    with plots.Drawn():
        try:
            call()
        except visualize.CaptureZoneError:
            return
    raise Fail('an empty field was reported without the capture-zone error')


SUBS = [Sub('impact', impact_cases(), impact, 1640, 13120, 'node counts'),
        Sub('deterministic', det_cases(), det, 1080, 8640, 'node counts and cell boxes'),
        Sub('empty', empty_cases(), empty, 1080, 8640, 'error raised')]
