"""Probability fields built from generated histories of public operations."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens
from props.c12 import track


# most between 0.5 and 50, some larger, some whole numbers
SPACING = st.one_of(gens.logq(0.5, 50.0, 3), gens.logq(0.5, 50.0, 3), gens.logq(50.0, 400.0, 3), gens.ints(1, 100))


@st.composite
def history(draw, isotropic=None, nmax=5, weights=True, empty=False):
    off = draw(gens.OFFSETS)
    dx = draw(SPACING)
    same = draw(st.booleans()) if isotropic is None else isotropic
    dy = dx if same else dx * draw(gens.pick(0.5, 2.0, 1.3))
    u = min(draw(gens.logq(0.3, 3.0, 3)) * (dx * dy)**0.5, 3 * min(dx, dy))
    reals = []
    for _ in range(draw(gens.ints(0 if empty else 1, nmax))):
        tracks = [draw(track(off[0], off[1], dx, dy, 4))[:5] for _ in range(draw(gens.pick(1, 1, 2, 3)))]
        w = draw(gens.logq(1e-5, 10.0)) if weights and draw(gens.ints(0, 3)) == 0 else 1.0
        reals.append([tracks, w])
    extra = draw(track(off[0], off[1], dx, dy, 4))[:5]
    return dict(dx=dx, dy=dy, u=u, off=list(off), centre=draw(st.booleans()), reals=reals, extra=extra)


@st.composite
def filled(draw, isotropic=None, large=True):
    """A field of any size whose marks are set node by node, up to its edges."""
    off = draw(gens.OFFSETS)
    dx = draw(SPACING)
    same = draw(st.booleans()) if isotropic is None else isotropic
    dy = dx if same else dx * draw(gens.pick(0.5, 2.0, 1.3))
    n = draw(gens.pick(3, 10, 100)) if large else draw(gens.pick(2, 6, 12))
    fill = dict(nx=draw(gens.ints(0, n)), ny=draw(gens.ints(0, n)), seed=draw(gens.ints(0, 10**6)), share=draw(gens.pick(0.02, 0.3, 0.6, 0.95, 1.0)),
                weights=[draw(gens.logq(1e-5, 10.0)) if draw(gens.ints(0, 3)) == 0 else 1.0 for _ in range(draw(gens.pick(1, 2, 3, 5, 9, 30)))])
    return dict(dx=dx, dy=dy, off=list(off), fill=fill)


def field(h):
    from oneka.probabilityfield import ProbabilityField
    if 'fill' in h:
        f, (x, y) = h['fill'], h['off']
        pf = ProbabilityField(h['dx'], h['dy'], x, y)
        pf.expand(x, x + f['nx'] * h['dx'], y, y + f['ny'] * h['dy'])
        r = np.random.default_rng(f['seed'])
        near = r.random(pf.rgrid.shape)
        for w in f['weights']:
            pf.rgrid[:, :] = near + 0.5 * r.random(pf.rgrid.shape) < 1.5 * f['share']
            pf.rgrid[0, 0] = False      # a grid always reaches beyond its marks
            pf.register(w)
        return pf
    pf = ProbabilityField(h['dx'], h['dy'], *h['off']) if h['centre'] else ProbabilityField(h['dx'], h['dy'])
    for tracks, w in h['reals']:
        for t in tracks:
            pf.rasterize([p[0] for p in t], [p[1] for p in t], h['u'])
        pf.register(w)
    return pf


def mark(pf, h):
    """One more track, in the same place."""
    t = h['extra']
    pf.rasterize([p[0] for p in t], [p[1] for p in t], h['u'])


STATE = ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight')


def state(pf):
    """Everything observable of a field, as plain data."""
    return dict({k: getattr(pf, k, None) for k in STATE}, pgrid=pf.pgrid.tolist(), rgrid=pf.rgrid.tolist(), shape=(tuple(pf.pgrid.shape), tuple(pf.rgrid.shape)))
