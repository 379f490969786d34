import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, fields

RULE = ('uniform, linear (nodes, saddles, spirals, pure rotation), radial, oscillating shear and well-plus-uniform velocity fields, durations '
        '0.01 to 20000 days of either sign, path lengths 1 to 2000 m, tolerances 1e-9 to 1e-2 of the path length, 1 to 300 space steps. '
        'Non-trivial: the particle moves and the error bound is below 5% of the path length.')
ASSUMPTIONS = ['the global error is bounded by 2 (number of steps + 1) * tolerance * amplification of the flow; velocities are smooth along the path']


@st.composite
def cases(draw):
    f = draw(fields.field())
    tol = f['S'] * draw(gens.logq(1e-9, 1e-2))
    maxstep = f['S'] / draw(gens.logq(0.2, 300.0))
    if f['kind'] in ('radial', 'well', 'shear'):
        # Resolve the field: otherwise an error estimate can be small by coincidence.
        tol, maxstep = min(tol, 1e-3 * fields.nearness(f)), min(maxstep, 0.25 * fields.nearness(f))
    elif f['kind'] == 'linear':
        tol, maxstep = min(tol, 1e-4 * f['S']), min(maxstep, 0.5 * f['S'])
    if isinstance(f['T'], int):
        tol, maxstep = [int(v) if v >= 1 else v for v in (tol, maxstep)]
    return dict(f=f, tol=tol, maxstep=maxstep,
                split=draw(gens.q(0.05, 0.95, 0.01)))


def run(f, T, tol, maxstep, x0=None, y0=None):
    from oneka.capturezone import compute_backtrace
    return fields.vertices_of(compute_backtrace(f['x0'] if x0 is None else x0, f['y0'] if y0 is None else y0, T, tol, maxstep, fields.feval_of(f)))


def follow(case, rec):
    f, tol, maxstep = case['f'], case['tol'], case['maxstep']
    (ex, ey), amp = fields.exact(f)
    v = run(f, f['T'], tol, maxstep)
    coord = 1e-15 * (abs(f['x0']) + abs(f['y0']) + f['S']) * len(v)
    bound = 2 * ((len(v) + 1) * tol + coord) * amp + 1e-9 * f['S']
    length = float(np.sum(np.hypot(*np.diff(v, axis=0).T))) if len(v) > 1 else 0.0
    if bound > 0.05 * max(length, np.hypot(ex - f['x0'], ey - f['y0']), 1e-9):
        rec.label('bound too wide to say anything')
        return
    rec.hit()
    rec.label(f['kind'], 'backwards' if f['T'] < 0 else 'forwards', 'few steps' if len(v) < 10 else 'many steps')
    err = float(np.hypot(v[-1, 0] - ex, v[-1, 1] - ey))
    require(err <= bound, '{} field: after {} days the trace ends at {}, exact ({}, {}); error {} exceeds {}', f['kind'], f['T'],
            list(v[-1]), ex, ey, err, bound)
    # Every vertex is on the trajectory, in order.
    if len(v) > 2:
        if f['kind'] == 'shear':
            t = (v[:, 0] - f['x0']) / f['U']
            require(np.all(np.diff(t) * np.sign(f['T']) > -1e-9 * abs(f['T'])), 'vertices are not in order of time')
            for i in range(0, len(v), max(1, len(v) // 40)):
                y = f['y0'] + fields.shear_y(f, 0.0, 0.0, t[i])
                require(abs(v[i, 1] - y) <= bound, 'vertex {} of {} is at {}, the trajectory at y = {}', i, len(v), list(v[i]), y)
        else:
            sol = ref.trace(fields.velocity(f), f['x0'], f['y0'], f['T'], rtol=1e-9, atol=1e-8 * f['S'], dense=True)
            ts = np.linspace(0, 1, 3000)**1.5 * f['T']
            P = sol.sol(ts)
            arc = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(P[0]), np.diff(P[1])))])
            ts = np.interp(np.linspace(0, arc[-1], 1500), arc, ts)
            P = sol.sol(ts)
            pick = np.unique(np.linspace(0, len(v) - 1, 40).astype(int))
            d = np.min(np.hypot(P[0][:, None] - v[pick, 0], P[1][:, None] - v[pick, 1]), axis=0)
            sag = 2.0 * arc[-1] / 1500
            require(np.max(d) <= bound + sag, 'vertex {} is {} away from the trajectory', list(v[pick[int(np.argmax(d))]]), float(np.max(d)))


def reverse(case, rec):
    f, tol, maxstep = case['f'], case['tol'], case['maxstep']
    (ex, ey), amp = fields.exact(f)
    v = run(f, f['T'], tol, maxstep)
    g = dict(f, x0=ex, y0=ey)
    if f['kind'] == 'shear':
        back = amp
    elif f['kind'] in ('radial', 'well'):
        back = amp
    else:
        _, back = fields.exact(g, -f['T'])
    coord = 1e-15 * (abs(f['x0']) + abs(f['y0']) + f['S']) * 2 * len(v)
    near = fields.nearness(f)

    def bound_of(m):
        return 2 * ((((len(v) + 1) * tol + coord) * amp + (m + 1) * tol + coord) * back) + 1e-9 * f['S']
    if f['kind'] in ('radial', 'well') and bound_of(3 * len(v)) > 0.05 * near:
        rec.label('too near the singularity')
        return
    w = run(f, -f['T'], tol, maxstep, v[-1, 0], v[-1, 1])
    bound = bound_of(len(w))
    if bound > 0.05 * f['S']:
        rec.label('bound too wide to say anything')
        return
    rec.hit()
    rec.label(f['kind'])
    err = float(np.hypot(w[-1, 0] - f['x0'], w[-1, 1] - f['y0']))
    require(err <= bound, '{} field: forth and back over {} days ends {} from the start (bound {})', f['kind'], f['T'], err, bound)


def concat(case, rec):
    f, tol, maxstep = case['f'], case['tol'], case['maxstep']
    _, amp = fields.exact(f)
    T1 = f['T'] * case['split']
    v = run(f, f['T'], tol, maxstep)
    a = run(f, T1, tol, maxstep)
    b = run(f, f['T'] - T1, tol, maxstep, a[-1, 0], a[-1, 1])       # (the field stays anchored at the first start)
    n = len(v) + len(a) + len(b) + 3
    coord = 1e-15 * (abs(f['x0']) + abs(f['y0']) + f['S']) * n
    bound = 2 * (n * tol + coord) * amp + 1e-9 * f['S']
    if bound > 0.05 * f['S']:
        rec.label('bound too wide to say anything')
        return
    rec.hit()
    rec.label(f['kind'])
    err = float(np.hypot(*(v[-1] - b[-1])))
    require(err <= bound, '{} field: {} then {} days ends {} from the end of {} days (bound {})', f['kind'], T1, f['T'] - T1, err, f['T'], bound)


@st.composite
def long_cases(draw):
    kind = draw(gens.pick('rotation', 'uniform', 'shear'))
    n = draw(gens.logq(4000.0, 40000.0))
    T = draw(gens.logq(1.0, 20000.0)) * draw(gens.pick(1, -1))
    S = draw(gens.logq(10.0, 2000.0))
    off = draw(gens.OFFSETS)
    return dict(kind=kind, n=n, T=T, S=S, off=list(off), a=draw(gens.ANGLES), turns=draw(gens.q(0.5, 20.0, 0.01)))


def long(case, rec):
    """Traces of thousands to tens of thousands of steps."""
    c = case
    x0, y0 = c['off']
    U = c['S'] / abs(c['T'])
    if c['kind'] == 'uniform':
        f = dict(kind='uniform', T=c['T'], S=c['S'], x0=x0, y0=y0, u=[U * np.cos(c['a']), U * np.sin(c['a'])])
    elif c['kind'] == 'rotation':
        w = 2 * np.pi * c['turns'] / abs(c['T'])
        r = U / w
        f = dict(kind='linear', T=c['T'], S=c['S'], x0=x0, y0=y0, c=[x0 - r * np.cos(c['a']), y0 - r * np.sin(c['a'])], M=[0.0, -w, w, 0.0])
    else:
        f = dict(kind='shear', T=c['T'], S=c['S'], x0=x0, y0=y0, U=U, B=0.0, A=U * 0.5, k=2 * np.pi * c['turns'] / c['S'], p=1.0)
    (ex, ey), amp = fields.exact(f)
    maxstep = c['S'] / c['n']
    v = run(f, f['T'], maxstep, maxstep)
    rec.hit(len(v) > 1000)
    rec.label(c['kind'], 'over 10000 steps' if len(v) > 10000 else 'under 10000 steps')
    err = float(np.hypot(v[-1, 0] - ex, v[-1, 1] - ey))
    bound = 1e-4 * c['S'] + 1e-14 * len(v) * (abs(x0) + abs(y0))
    require(err <= bound, '{} field: after {} steps and {} days the trace ends {} from the exact end', c['kind'], len(v) - 1, f['T'], err)


SUBS = [Sub('follow', cases(), follow, 2880, 40000, 'closed-form trajectories, DOP853 at 1e-11 for well-plus-uniform', cpu=30),
        Sub('reverse', cases(), reverse, 1280, 20000, 'trace forth and back', cpu=30),
        Sub('concat', cases(), concat, 1280, 20000, 'two durations in succession', cpu=30),
        Sub('long', long_cases(), long, 152, 1216, 'closed-form ends of traces with 4000 to 40000 and more steps', cpu=120, shrink=False)]
