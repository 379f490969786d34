import random

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref
from props.c12 import track

RULE = ('histories of up to 7 (sometimes to 300) realizations, each of 0 to 4 tracks (with overlaps, re-visited nodes and far places), registered with weights 0 or 1e-7 to 1000, or '
        'discarded, with growth in between, on fields with or without a centre or any grid at all; every history also in another order. '
        'Non-trivial: at least two realizations are registered and some node belongs to one but not to another.')
ASSUMPTIONS = ['nodes whose distance to some track is within rounding of its umbra are not judged']


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    dx = draw(gens.logq(0.5, 50.0, 3))
    dy = dx if draw(st.booleans()) else dx * draw(gens.pick(0.5, 2.0, 1.3))
    u = min(draw(gens.logq(0.3, 3.0, 3)) * (dx * dy)**0.5, 4 * min(dx, dy))
    reals = []
    for _ in range(draw(gens.ints(1, 7))):
        tracks = []
        for _ in range(draw(gens.pick(0, 1, 1, 2, 3, 4))):
            if tracks and draw(gens.ints(0, 3)) == 0:
                far = draw(gens.pick(12, 12, 12, 12, 12, 120))
                tracks.append(['grow', [draw(gens.sq(far, 0.25)), draw(gens.sq(far, 0.25))]])
            else:
                tracks.append(['track', draw(track(off[0], off[1], dx, dy, 5))[:6]])
        reals.append([tracks, draw(gens.pick('register', 'register', 'register', 'discard')), draw(gens.pick(1.0, 1.0, None, None, 0.0)) ])
    for t in reals:
        if t[2] is None:
            t[2] = draw(gens.ints(1, 9)) if draw(gens.ints(0, 4)) == 4 else draw(gens.logq(0.001, 1000.0)) if draw(gens.ints(0, 3)) else draw(gens.logq(1e-7, 1e-3))
    if draw(gens.ints(0, 19)) == 19:
        # as many realizations as in real projects
        r = random.Random(draw(gens.ints(0, 10**6)))
        some = [t for t in reals if t[0]] or reals
        for _ in range(r.randint(50, 300)):
            t = r.choice(some)
            reals.append([t[0], 'register' if r.random() < 0.9 else 'discard', r.choice([1.0, t[2]])])
        perm = list(range(len(reals)))
        r.shuffle(perm)
        return dict(dx=dx, dy=dy, u=u, off=list(off), centre=draw(st.booleans()), reals=reals, perm=perm)
    perm = draw(st.permutations(range(len(reals))))
    return dict(dx=dx, dy=dy, u=u, off=list(off), centre=draw(st.booleans()), reals=reals, perm=list(perm))


def play(case, order, rec=None):
    from oneka.probabilityfield import ProbabilityField
    dx, dy, u, off = case['dx'], case['dy'], case['u'], case['off']
    pf = ProbabilityField(dx, dy, *off) if case['centre'] else ProbabilityField(dx, dy)
    registered = []
    total = 0.0
    for i in order:
        tracks, fate, weight = case['reals'][i]
        pts = []
        for kind, t in tracks:
            if kind == 'grow':
                x, y = off[0] + t[0] * dx, off[1] + t[1] * dy
                pf.expand(x, x, y, y)
            else:
                pf.rasterize([p[0] for p in t], [p[1] for p in t], u)
                pts.append(t)
        if fate == 'discard':
            pf.reset()
        else:
            pf.register(weight)
            registered.append((pts, weight))
            total += weight
        require(abs(pf.total_weight - total) <= 1e-12 * total, 'total weight {} after registering weights {}', pf.total_weight, [w for _, w in registered])
        require(not np.any(pf.rgrid), 'marks remain after {}', fate)
    return pf, registered, total


def expected(case, pf, registered):
    X, Y = ref.nodes(pf)
    want, sure = np.zeros(X.shape), np.ones(X.shape, bool)
    sets = []
    tol = 1e-9 * case['u'] + 1e-13 * max(abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
    for pts, weight in registered:
        inside = np.zeros(X.shape, bool)
        for t in pts:
            d = ref.dist_to_polyline([p[0] for p in t], [p[1] for p in t], X, Y)
            inside |= d < case['u']
            sure &= np.abs(d - case['u']) > tol
        want[inside] += weight
        sets.append(inside)
    return want, sure, sets


def history(case, rec):
    pf, registered, total = play(case, range(len(case['reals'])))
    rec.label('no grid' if pf.nrows == 0 else 'grid', 'some discarded' if any(r[1] == 'discard' for r in case['reals']) else 'none discarded')
    if pf.nrows == 0:
        require(pf.pgrid.size == 0, 'a field without tracks has content')
        return
    want, sure, sets = expected(case, pf, registered)
    bad = sure & (np.abs(pf.pgrid - want) > 1e-12 * max(total, 1e-300))
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        require(False, 'node ({}, {}) has accumulated {}, the realizations that visited it weigh {} (total {})', pf.xmin + j * pf.deltax, pf.ymin + i * pf.deltay,
                pf.pgrid[i, j], want[i, j], total)
    if total > 0:
        pr = pf.pgrid / pf.total_weight
        require(np.all(pr >= 0) and np.all(pr <= 1 + 1e-12), 'probabilities range from {} to {}', float(np.min(pr)), float(np.max(pr)))
    for a in sets[:8]:
        for b in sets[:8]:
            rec.hit(bool(np.any(a & ~b)))
    # The same realizations in another order.
    pf2, registered2, _ = play(case, case['perm'])
    want2, sure2, _ = expected(case, pf2, registered2)
    bad = sure2 & (np.abs(pf2.pgrid - want2) > 1e-12 * max(total, 1e-300))
    require(not np.any(bad), 'in another order {} nodes have another weight', int(np.sum(bad)))
    if case['centre']:
        c, r = round((pf2.xmin - pf.xmin) / pf.deltax), round((pf2.ymin - pf.ymin) / pf.deltay)
        r0, r1, c0, c1 = max(0, r), min(pf.nrows, r + pf2.nrows), max(0, c), min(pf.ncols, c + pf2.ncols)
        a = pf.pgrid[r0:r1, c0:c1]
        b = pf2.pgrid[r0 - r:r1 - r, c0 - c:c1 - c]
        ok = sure[r0:r1, c0:c1]
        require(np.all(np.abs(a - b)[ok] <= 1e-12 * max(total, 1e-300)), 'the order of the realizations changes the field')


SUBS = [Sub('history', cases(), history, 6000, 48000, 'brute-force weight of the realizations within the umbra of every node', cpu=60)]
