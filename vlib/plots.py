"""What is drawn: data handed to matplotlib axes, and the artists on them."""
import os

import numpy as np

os.environ['MPLBACKEND'] = 'Agg'


class Drawn:
    """Records contour data given to any axes; figures are closed afterwards."""

    def __init__(self):
        self.filled, self.lines = [], []

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        plt.close('all')
        self.saved = Axes.contourf, Axes.contour
        f0, f1 = self.saved

        def contourf(ax, *args, **kw):
            self.filled.append([np.array(a, dtype=float, copy=True) if not np.ma.isMaskedArray(a) else a.astype(float).filled(np.nan) for a in args[:3]])
            return f0(ax, *args, **kw)

        def contour(ax, *args, **kw):
            self.lines.append([np.array(a, dtype=float, copy=True) for a in args[:3]])
            return f1(ax, *args, **kw)
        Axes.contourf, Axes.contour = contourf, contour
        return self

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        Axes.contourf, Axes.contour = self.saved
        plt.close('all')

    @staticmethod
    def axes():
        import matplotlib.pyplot as plt
        return [a for n in plt.get_fignums() for a in plt.figure(n).axes]


def grid(data):
    """(x, y, z) vectors and matrix of a contour call, or None if it is not a plain grid."""
    if len(data) < 3:
        return None
    x, y, z = data
    if x.ndim == 2:
        x = x[0]
    if y.ndim == 2:
        y = y[:, 0]
    if z.shape != (y.size, x.size):
        return None
    return x, y, z


def markers(axes, marker):
    """All points drawn with a marker."""
    out = []
    for ax in axes:
        for ln in ax.get_lines():
            if ln.get_marker() == marker:
                out += [(float(a), float(b)) for a, b in zip(ln.get_xdata(), ln.get_ydata())]
    return out


def patches(axes):
    """Bounding boxes (xmin, xmax, ymin, ymax) of all polygons, drawn one by one or as a collection."""
    from matplotlib.collections import PatchCollection, PolyCollection
    out = []
    for ax in axes:
        for p in ax.patches:
            v = p.get_path().vertices
            v = p.get_patch_transform().transform(v)
            out.append((float(v[:, 0].min()), float(v[:, 0].max()), float(v[:, 1].min()), float(v[:, 1].max())))
        for c in ax.collections:
            if isinstance(c, (PatchCollection, PolyCollection)):
                for path in c.get_paths():
                    v = path.vertices
                    if len(v):
                        out.append((float(v[:, 0].min()), float(v[:, 0].max()), float(v[:, 1].min()), float(v[:, 1].max())))
    return out


def smoothed(z, sigma):
    """Gaussian smoothing with zeros outside, from its definition."""
    if sigma == 0:
        return z
    z = np.asarray(z, float)
    for axis in (0, 1):
        n = z.shape[axis]
        k = np.arange(n)
        reach = int(8 * sigma + 2)
        d = np.arange(-reach, reach + 1)
        norm = np.exp(-0.5 * (d / sigma)**2).sum()
        w = np.exp(-0.5 * ((k[:, None] - k[None, :]) / sigma)**2) / norm
        z = np.tensordot(w, z, (1, axis))
        z = np.moveaxis(z, 0, axis)
    return z
