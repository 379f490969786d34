"""Independent references, written from the documentation (README.md, docstrings, Strack's potential)."""
import math
from fractions import Fraction

import numpy as np


# ------------------------------------------------------------------ model
def make_model(m):
    from oneka.model import Model
    return Model(m['base'], m['K'], m['n'], m['H'], [tuple(w) for w in m['wells']], m['xo'], m['yo'],
                 np.array(m['coef'], dtype=float))


def pot_terms(m, x, y):
    """The ten or so terms whose sum is the discharge potential."""
    dx, dy = x - m['xo'], y - m['yo']
    A, B, C, D, E, F = m['coef']
    t = [A * dx * dx, B * dy * dy, C * dx * dy, D * dx, E * dy, F]
    return t, well_terms(m, x, y)


def well_terms(m, x, y):
    return [w[3] / (2 * math.pi) * math.log(math.hypot(x - w[0], y - w[1])) for w in m['wells']]


def potential(m, x, y):
    a, b = pot_terms(m, x, y)
    return math.fsum(a + b), math.fsum(abs(v) for v in a + b)


def discharge_terms(m, x, y):
    dx, dy = x - m['xo'], y - m['yo']
    A, B, C, D, E, F = m['coef']
    tx = [-2 * A * dx, -C * dy, -D]
    ty = [-2 * B * dy, -C * dx, -E]
    for w in m['wells']:
        ex, ey = x - w[0], y - w[1]
        r = math.hypot(ex, ey)
        tx.append(-w[3] / (2 * math.pi * r) * (ex / r))
        ty.append(-w[3] / (2 * math.pi * r) * (ey / r))
    return tx, ty


def discharge(m, x, y):
    tx, ty = discharge_terms(m, x, y)
    return (math.fsum(tx), math.fsum(ty)), (math.fsum(abs(v) for v in tx), math.fsum(abs(v) for v in ty))


def potentials(m, x, y):
    """Potentials at arrays of places."""
    dx, dy = x - m['xo'], y - m['yo']
    A, B, C, D, E, F = m['coef']
    phi = A * dx * dx + B * dy * dy + C * dx * dy + D * dx + E * dy + F
    for w in m['wells']:
        phi = phi + w[3] / (2 * math.pi) * np.log(np.hypot(x - w[0], y - w[1]))
    return phi


def discharges(m, x, y):
    """Discharge vectors at arrays of places."""
    dx, dy = x - m['xo'], y - m['yo']
    A, B, C, D, E, F = m['coef']
    qx, qy = -(2 * A * dx + C * dy + D), -(2 * B * dy + C * dx + E)
    for w in m['wells']:
        ex, ey = x - w[0], y - w[1]
        k = w[3] / (2 * math.pi) / (ex * ex + ey * ey)
        qx, qy = qx - k * ex, qy - k * ey
    return qx, qy


def head_of_potential(K, H, phi):
    """Head of a positive potential (Strack)."""
    if phi <= 0.5 * K * H * H:
        return math.sqrt(2 * phi / K)
    return phi / (K * H) + 0.5 * H


def potential_of_head(K, H, h):
    if h <= H:
        return 0.5 * K * h * h
    return K * H * h - 0.5 * K * H * H


# ------------------------------------------------------------------ weighted least squares
def observed_potential(base, K, H, z, s):
    h = z - base
    if h >= H:
        return K * H * (h - 0.5 * H), K * H * s
    return 0.5 * K * (h * h + s * s), K * h * s


def wls(base, K, H, ws, obs, xo, yo):
    """Scaled weighted least squares: coefficients, covariance, and the scaled normal system."""
    rows, rhs = [], []
    for x, y, z, s in obs:
        ev, sd = observed_potential(base, K, H, z, s)
        dx, dy = x - xo, y - yo
        wp = math.fsum(w[3] / (2 * math.pi) * math.log(math.hypot(x - w[0], y - w[1])) for w in ws)
        rows.append([dx * dx / sd, dy * dy / sd, dx * dy / sd, dx / sd, dy / sd, 1 / sd])
        rhs.append((ev - wp) / sd)
    A, b = np.array(rows), np.array(rhs)
    scale = np.linalg.norm(A, axis=0)
    As = A / scale
    Q, R = np.linalg.qr(As)
    cs = np.linalg.solve(R, Q.T @ b)
    Ri = np.linalg.inv(R)
    covs = Ri @ Ri.T
    return dict(A=A, b=b, scale=scale, As=As, coef=cs / scale, cov=covs / np.outer(scale, scale),
                cond=np.linalg.cond(As), covs=covs)


# ------------------------------------------------------------------ tracing
class Path:
    """A reference trajectory: end point, and any point of it."""

    def __init__(self, sol, x0, y0):
        self._sol, self._o = sol, np.array([x0, y0])
        self.y = sol.y + self._o[:, None]
        self.t = sol.t

    def sol(self, t):
        p = self._sol.sol(t)
        return p + (self._o[:, None] if p.ndim == 2 else self._o)


def trace(v, x0, y0, T, rtol=1e-10, atol=1e-9, dense=False):
    """dx/dt = v(x, y) from (x0, y0) for time T (T may be negative): DOP853 in coordinates relative to the start."""
    from scipy.integrate import solve_ivp
    sol = solve_ivp(lambda t, u: v(x0 + u[0], y0 + u[1]), (0.0, T), [0.0, 0.0], method='DOP853', rtol=rtol, atol=atol,
                    dense_output=dense)
    if sol.status != 0:
        raise ArithmeticError('reference trace failed: ' + sol.message)
    return Path(sol, x0, y0)


# ------------------------------------------------------------------ rasterising
def dist_to_polyline(xs, ys, px, py):
    """Distances of the points (px, py) (arrays) to the polyline with vertices (xs, ys)."""
    px, py = np.asarray(px, float), np.asarray(py, float)
    best = np.full(px.shape, np.inf)
    n = len(xs)
    if n == 1:
        return np.hypot(px - xs[0], py - ys[0])
    for i in range(n - 1):
        ax, ay, bx, by = xs[i], ys[i], xs[i + 1], ys[i + 1]
        ux, uy = bx - ax, by - ay
        l2 = ux * ux + uy * uy
        if l2 == 0:
            d = np.hypot(px - ax, py - ay)
        else:
            t = np.clip(((px - ax) * ux + (py - ay) * uy) / l2, 0.0, 1.0)
            d = np.hypot(px - (ax + t * ux), py - (ay + t * uy))
        np.minimum(best, d, out=best)
    return best


def exact_dist2(ax, ay, bx, by, cx, cy):
    """Squared distance between point c and segment [a, b], in exact rationals."""
    ax, ay, bx, by, cx, cy = map(Fraction, (ax, ay, bx, by, cx, cy))
    ux, uy = bx - ax, by - ay
    l2 = ux * ux + uy * uy
    t = Fraction(0) if l2 == 0 else min(Fraction(1), max(Fraction(0), ((cx - ax) * ux + (cy - ay) * uy) / l2))
    dx, dy = cx - (ax + t * ux), cy - (ay + t * uy)
    return dx * dx + dy * dy


def nodes(pf):
    """Coordinates of all nodes of a field, shape (nrows, ncols)."""
    X = pf.xmin + np.arange(pf.ncols) * pf.deltax
    Y = pf.ymin + np.arange(pf.nrows) * pf.deltay
    return np.meshgrid(X, Y)
