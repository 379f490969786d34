import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, fields

RULE = ('1 to 500 paths in still water; up to 3 capture zones in succession on one field (that may hold random weights before), around targets of radius 0.01 to 30 m, 1 to 60 paths, in uniform, '
        'linear, radial, shear and still flow, also with a region where the velocity fails, weights 1e-6 to 100, umbras 0.3 to 3 (sometimes 25) cells, traces of up to 90 cells, durations also whole numbers. '
        'Non-trivial: at least two paths, whose umbras overlap without being equal.')
ASSUMPTIONS = ['nodes within rounding of the edge of an umbra are not judged']


@st.composite
def zones(draw):
    off = draw(gens.OFFSETS)
    s = draw(gens.logq(1.0, 30.0, 3))
    out = []
    for _ in range(draw(gens.pick(1, 1, 2, 3))):
        r = draw(gens.logq(0.05, 5.0, 3)) if draw(gens.ints(0, 4)) else draw(gens.logq(0.01, 30.0, 3))
        size = draw(gens.pick(*['usual'] * 12, 'long', 'wide', 'paths'))
        S = s * (draw(gens.q(40.0, 90.0, 0.1)) if size == 'long' else draw(gens.q(0.5, 12.0, 0.1)))
        T = draw(gens.logq(1.0, 5000.0)) * draw(gens.pick(1, 1, -1))
        if draw(gens.ints(0, 4)) == 4:
            # a whole number of days
            T = math.copysign(math.ceil(abs(T)), T)
            T = int(T)
        kind = draw(gens.pick('uniform', 'linear', 'radial', 'radial', 'shear', 'still'))
        x, y = off[0] + s * draw(gens.sq(6, 0.25)), off[1] + s * draw(gens.sq(6, 0.25))
        U = S / abs(T)
        f = dict(kind=kind, T=T, S=S, x0=x, y0=y)
        a = draw(gens.ANGLES)
        if kind == 'uniform':
            f['u'] = [U * math.cos(a), U * math.sin(a)]
        elif kind == 'linear':
            f['c'], f['M'] = [x, y], [draw(gens.sq(1.5)) / abs(T) for _ in range(4)]
        elif kind == 'radial':
            f['c'], f['k'] = [x, y], S * S / (2 * T)
        elif kind == 'shear':
            f.update(U=U, B=draw(gens.sq(1.0)) / abs(T), A=U * draw(gens.sq(1.5)), k=draw(gens.logq(0.3, 6.0)) / S, p=0.5)
        out.append(dict(f=f, r=r, paths=draw({'usual': gens.pick(1, 2, 3, 4, 5, 7, 8, 9, 12, 24), 'long': gens.pick(1, 2), 'wide': gens.pick(1, 2, 3), 'paths': gens.pick(11, 31, 36, 48, 60)}[size]), w=draw(st.one_of(st.just(1.0), gens.logq(0.01, 100.0), gens.logq(1e-6, 0.01))),
                        umbra=s * (draw(gens.logq(8.0, 25.0, 3)) if size == 'wide' else draw(gens.logq(0.3, 3.0, 3))), tol=draw(gens.logq(1e-4, 1.0)), maxstep=max(S / 40, s * draw(gens.logq(0.2, 3.0))),
                        fail=draw(gens.pick(None, None, None, 0.3, 0.7))))
    return dict(s=s, ratio=draw(gens.pick(1.0, 1.0, 1.0, 0.5, 1.7)), off=list(off), zones=out, prior=draw(st.one_of(st.none(), gens.ints(0, 10**6))),
                centre=draw(gens.ints(0, 3)) > 0)


def callback(z, seen=None):
    f = z['f']
    vel = fields.velocity(f)
    limit = None if z['fail'] is None else f['x0'] + z['r'] + 1 + z['fail'] * f['S']

    def feval(xy):
        if seen is not None:
            seen.append((float(xy[0]), float(xy[1])))
        if limit is not None and xy[0] > limit:
            raise ArithmeticError('no velocity here')
        a, b = vel(xy[0], xy[1])
        return np.array([a, b])
    return feval


def starts_of(z):
    return [(z['f']['x0'] + (z['r'] + 1) * math.cos(2 * math.pi * k / z['paths']), z['f']['y0'] + (z['r'] + 1) * math.sin(2 * math.pi * k / z['paths']))
            for k in range(z['paths'])]


def starts(case, rec):
    """In still water the only places where the velocity is asked for are the starting points."""
    from oneka.capturezone import compute_capturezone
    from oneka.probabilityfield import ProbabilityField
    for z in case['zones']:
        f = z['f']
        pf = ProbabilityField(case['s'], case['s'], f['x0'], f['y0'])
        seen = []

        def feval(xy):
            seen.append((float(xy[0]), float(xy[1])))
            return np.array([0.0, 0.0])
        compute_capturezone(f['x0'], f['y0'], z['r'], z['paths'], f['T'], pf, z['umbra'], z['w'], z['tol'], z['maxstep'], feval)
        eps = 1e-14 * (abs(f['x0']) + abs(f['y0'])) + 1e-9 * (z['r'] + 1)
        places = np.array(sorted(set(seen)))
        # merge places equal up to rounding
        groups = []
        for p in places:
            if not any(np.hypot(*(p - g)) <= 4 * eps for g in groups):
                groups.append(p)
        rec.hit(z['paths'] > 1)
        require(len(groups) == z['paths'], '{} distinct starting points for {} paths', len(groups), z['paths'])
        d = np.array(groups) - [f['x0'], f['y0']]
        require(np.all(np.abs(np.hypot(d[:, 0], d[:, 1]) - z['r'] - 1) <= 4 * eps), 'starting points are {} from the centre of a well of radius {}',
                sorted(np.hypot(d[:, 0], d[:, 1])), z['r'])
        ang = np.sort(np.arctan2(d[:, 1], d[:, 0]))
        gaps = np.diff(np.append(ang, ang[0] + 2 * math.pi))
        require(np.all(np.abs(gaps - 2 * math.pi / z['paths']) <= 16 * eps / (z['r'] + 1)), '{} starting points are separated by the angles {}', z['paths'], sorted(gaps))


@st.composite
def counts(draw):
    off = draw(gens.OFFSETS)
    return dict(x=off[0] + draw(gens.sq(50, 0.25)), y=off[1] + draw(gens.sq(50, 0.25)), r=draw(gens.logq(0.01, 30.0, 3)), n=draw(gens.ints(1, 500)),
                T=draw(gens.logq(1.0, 5000.0)) * draw(gens.pick(1, -1)))


def many(case, rec):
    """Any number of paths: as many different starting points, each followed once."""
    from oneka.capturezone import compute_capturezone
    from oneka.probabilityfield import ProbabilityField
    c = case
    seen = {}

    def feval(xy):
        p = (float(xy[0]), float(xy[1]))
        seen[p] = seen.get(p, 0) + 1
        return np.array([0.0, 0.0])
    pf = ProbabilityField(2.0, 2.0, c['x'], c['y'])
    compute_capturezone(c['x'], c['y'], c['r'], c['n'], c['T'], pf, 1.0, 1.0, 1.0, 1.0, feval)
    rec.hit(c['n'] > 8)
    rec.label('up to 24' if c['n'] <= 24 else 'up to 100' if c['n'] <= 100 else 'more')
    require(len(seen) == c['n'], '{} distinct starting points for {} paths', len(seen), c['n'])
    require(len(set(seen.values())) == 1, 'of {} paths some starting points are followed more often than others: {}', c['n'], sorted(set(seen.values())))
    P = np.array(sorted(seen)) - [c['x'], c['y']]
    eps = (1e-14 * (abs(c['x']) + abs(c['y'])) + 1e-12) / (c['r'] + 1)
    k = np.arctan2(P[:, 1], P[:, 0]) / (2 * math.pi / c['n'])
    frac = (k - k[0]) - np.round(k - k[0])
    require(np.all(np.abs(frac) < 4 * eps * c['n'] + 1e-9) and len(set(np.round(k - k[0]).astype(int) % c['n'])) == c['n'],
            '{} starting points are not evenly spaced', c['n'])


def union(case, rec):
    from oneka.capturezone import compute_capturezone, compute_backtrace
    from oneka.probabilityfield import ProbabilityField
    s, t = case['s'], case['s'] * case['ratio']
    z0 = case['zones'][0]['f']
    pf = ProbabilityField(s, t, z0['x0'], z0['y0']) if case['centre'] else ProbabilityField(s, t)
    if case['prior'] is not None:
        x, y = z0['x0'], z0['y0']
        pf.expand(x - 3 * s, x + 4 * s, y - 2 * t, y + 5 * t)
        pf.pgrid[:] = np.random.default_rng(case['prior']).integers(0, 5, pf.pgrid.shape) * 0.5
        pf.total_weight = 2.5
    for z in case['zones']:
        f = z['f']
        before = (pf.nrows, getattr(pf, 'xmin', None), getattr(pf, 'ymin', None), pf.pgrid.copy(), pf.total_weight)
        compute_capturezone(f['x0'], f['y0'], z['r'], z['paths'], f['T'], pf, z['umbra'], z['w'], z['tol'], z['maxstep'], callback(z))
        require(abs(pf.total_weight - before[4] - z['w']) <= 1e-12 * (before[4] + z['w']), 'a zone of weight {} changed the total weight from {} to {}',
                z['w'], before[4], pf.total_weight)
        require(not np.any(pf.rgrid), 'marks remain after the capture zone')
        X, Y = ref.nodes(pf)
        inside, sure = np.zeros(X.shape, bool), np.ones(X.shape, bool)
        sets = []
        big = max(abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
        for x, y in starts_of(z):
            v = fields.vertices_of(compute_backtrace(x, y, f['T'], z['tol'], z['maxstep'], callback(z)))
            d = ref.dist_to_polyline(v[:, 0], v[:, 1], X, Y)
            if len(v) == 1:
                sure &= d > z['umbra'] * (1 + 1e-9)     # (a track of a single point)
                continue
            inside |= d < z['umbra']
            sets.append(d < z['umbra'])
            # the same start up to rounding, and the same trace up to that
            sure &= np.abs(d - z['umbra']) > 1e-6 * z['umbra'] + 1e-13 * big
        old = np.zeros(X.shape)
        if before[0]:
            r, c = round((before[2] - pf.ymin) / t), round((before[1] - pf.xmin) / s)
            old[r:r + before[3].shape[0], c:c + before[3].shape[1]] = before[3]
        gain = pf.pgrid - old
        bad = sure & (np.abs(gain - np.where(inside, z['w'], 0.0)) > 1e-9 * z['w'] + 1e-14 * old)
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            require(False, 'node ({}, {}) gained {}, it is {} the umbra of {} of the {} traces; weight {}', X[i, j], Y[i, j], gain[i, j],
                    'inside' if inside[i, j] else 'outside', sum(bool(q[i, j]) for q in sets), z['paths'], z['w'])
        rec.label(f['kind'], 'failing' if z['fail'] is not None else 'sound', 'prior content' if np.any(old) else 'empty')
        for a in sets[:6]:
            for b in sets[:6]:
                rec.hit(bool(np.any(a & b) and np.any(a & ~b)))


SUBS = [Sub('many', counts(), many, 1240, 12000, 'up to 500 paths in still water', cpu=60),
        Sub('starts', zones(), starts, 1640, 20000, 'places where the velocity callback is evaluated in still water', cpu=60),
        Sub('union', zones(), union, 2040, 25000, 'brute-force union of the traces', cpu=60)]
