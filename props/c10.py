import logging
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Fail, require
from vlib import gens, ref, fields

RULE = ('faults: one of nine exceptions, NaN or infinity in either component, or Ctrl-C injected at one evaluation (or from it on) of a trace in any of '
        'five kinds of velocity fields; dry: a real model whose aquifer runs dry along the path at a known time; late: traces of thousands of steps; clear: paths that stay clear of failing places; pipeline: whole capture zones there. Non-trivial: the fault is reached and '
        'at least one step was accepted before it (faults); the trace starts within 100 times the time to run dry (dry), more than 1000 steps (late), a step of a tenth of a day would overshoot (clear), some trace gets to a front (pipeline).')
ASSUMPTIONS = ['the velocity at a position that is not finite is not finite']

ERRORS = ['AquiferError', 'ValueError', 'ZeroDivisionError', 'FloatingPointError', 'OverflowError', 'KeyError', 'LinAlgError', 'RuntimeError', 'TypeError']


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())

    def __enter__(self):
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *args):
        logging.getLogger().removeHandler(self)


def raise_error(name):
    if name == 'AquiferError':
        from oneka.model import AquiferError
        raise AquiferError('dry')
    if name == 'LinAlgError':
        raise np.linalg.LinAlgError('injected')
    if name == 'KeyboardInterrupt':
        raise KeyboardInterrupt()
    raise {c.__name__: c for c in (ValueError, ZeroDivisionError, FloatingPointError, OverflowError, KeyError, RuntimeError, TypeError)}[name]('injected')


@st.composite
def cases(draw):
    f = draw(fields.field())
    kind = draw(st.one_of(gens.pick(*ERRORS), gens.pick('nan', 'nan', 'inf', '-inf', 'inf both', 'nan both'), gens.pick('KeyboardInterrupt')))
    tol, maxstep = f['S'] * draw(gens.logq(1e-7, 1e-3)), f['S'] / draw(gens.logq(1.0, 60.0))
    if f['kind'] in ('radial', 'well', 'shear'):
        maxstep = min(maxstep, fields.nearness(f))
    # where: the first or last few evaluations, or anywhere
    at = draw(st.one_of(gens.ints(0, 12), gens.ints(-8, -1), gens.ints(0, 10000)))
    return dict(f=f, tol=tol, maxstep=maxstep, kind=kind, at=at, persist=draw(st.booleans()), component=draw(gens.ints(0, 1)))


def faults(case, rec):
    from oneka.capturezone import compute_backtrace
    f = case['f']
    vel = fields.velocity(f)
    places = []

    def clean(xy):
        places.append((float(xy[0]), float(xy[1])))
        if not (math.isfinite(xy[0]) and math.isfinite(xy[1])):
            return np.array([np.nan, np.nan])
        return np.array(vel(xy[0], xy[1]))

    with Warnings() as w:
        full = fields.vertices_of(compute_backtrace(f['x0'], f['y0'], f['T'], case['tol'], case['maxstep'], clean))
    require(not w.seen, 'a trace without failures logged {}', w.seen)
    n = len(places)
    k = case['at'] % n
    kind = case['kind']
    count = [0]

    def faulty(xy):
        i = count[0]
        count[0] += 1
        v = clean(xy)
        if i == k or (i > k and case['persist']):
            if kind in ERRORS or kind == 'KeyboardInterrupt':
                raise_error(kind)
            bad = {'n': np.nan, 'i': np.inf, '-': -np.inf}[kind[0]]
            if kind.endswith('both'):
                v[:] = bad
            else:
                v[case['component']] = bad
        return v

    rec.label(kind, 'first evaluation' if k == 0 else 'first step' if k < 7 else 'later')
    first, last = {}, {}
    for i, p in enumerate(places[:n]):
        first.setdefault(p, i)
        last[p] = i
    with Warnings() as w:
        try:
            got = fields.vertices_of(compute_backtrace(f['x0'], f['y0'], f['T'], case['tol'], case['maxstep'], faulty))
        except KeyboardInterrupt:
            if kind != 'KeyboardInterrupt':
                raise Fail('KeyboardInterrupt raised for an injected ' + kind)
            rec.hit(k > 0)
            return
        except BaseException as e:
            raise Fail('{} at evaluation {} of {} raised {} instead of ending the trace'.format(kind, k, n, type(e).__name__))
    require(kind != 'KeyboardInterrupt', 'Ctrl-C at evaluation {} of {} was swallowed: the trace returned {} of {} vertices', k, n, len(got), len(full))
    require(1 <= len(got) <= len(full), '{} at evaluation {} of {}: {} vertices, {} without the failure', kind, k, n, len(got), len(full))
    require(np.array_equal(got, full[:len(got)]), '{} at evaluation {} of {}: the {} vertices are not the first of the trace without it: {}', kind, k, n, len(got), got[-3:].tolist())
    if f['kind'] != 'still':
        # Vertex j was accepted before the failure iff the velocity there was evaluated before it.
        must = 1
        may = 1
        for j in range(1, len(full)):
            p = (float(full[j, 0]), float(full[j, 1]))
            if p not in first:                  # the very end, of a method that does not evaluate there
                may = max(may, j + 1)
                continue
            if last[p] < k:
                must = j + 1
            if first[p] <= k:
                may = j + 1
        require(must <= len(got) <= max(may, must), '{} at evaluation {} of {}: {} vertices were returned, {} had been accepted', kind, k, n, len(got), must)
        rec.hit(must > 1)
    require(w.seen, '{} at evaluation {} of {} ended the trace without a warning', kind, k, n)


@st.composite
def aquifers(draw):
    K, n, H = draw(gens.logq(0.5, 100.0)), draw(gens.q(0.05, 0.5, 0.01)), draw(gens.logq(5.0, 100.0))
    h0 = H * draw(gens.q(0.2, 0.95, 0.01))
    grad = draw(gens.logq(1e-3, 0.1))
    return dict(K=K, n=n, H=H, h0=h0, grad=grad, a=draw(gens.ANGLES), off=list(draw(gens.OFFSETS)),
                share=draw(st.one_of(gens.q(0.05, 0.9, 0.01), gens.logq(1.02, 50.0))), tol=draw(gens.logq(1e-5, 1.0)), maxstep=draw(gens.logq(2.0, 50.0)))


def dry(case, rec):
    from oneka.capturezone import compute_backtrace
    from oneka.model import Model
    c = case
    # phi falls linearly along direction a from K h0^2/2; phi^(3/2) falls linearly in time.
    phi0 = 0.5 * c['K'] * c['h0']**2
    g = c['K'] * c['h0'] * c['grad']
    tdry = phi0**1.5 / (1.5 * g * g * math.sqrt(c['K'] / 2) / c['n'])
    T = c['share'] * tdry
    ca, sa = math.cos(c['a']), math.sin(c['a'])
    x0, y0 = c['off']
    mo = Model(0.0, c['K'], c['n'], c['H'], [], x0, y0, np.array([0, 0, 0, -g * ca, -g * sa, phi0]))
    s_dry = phi0 / g

    def feval(xy):
        vx, vy = mo.compute_velocity(xy[0], xy[1])
        return np.array([-vx, -vy])
    maxstep = max(c['maxstep'], s_dry / 400)
    tol = min(c['tol'], s_dry * 1e-3)
    with Warnings() as w:
        v = fields.vertices_of(compute_backtrace(x0, y0, -T, tol, maxstep, feval))
    s = (v[:, 0] - x0) * ca + (v[:, 1] - y0) * sa
    phi = phi0 - g * s
    rec.hit(T < 100 * tdry)
    eps = 1e-8 * phi0
    require(np.all(phi > -eps), 'the trace entered the dry aquifer at {}', list(v[-1]))
    if T > tdry:
        rec.label('runs dry')
        require(w.seen, 'the aquifer runs dry after {} of {} days: no warning', tdry, T)
    else:
        rec.label('stays wet')
        require(not w.seen, 'the aquifer does not run dry before {} of {} days: {}', tdry, T, w.seen)
        want = phi0 * (1 - c['share'])**(2 / 3)
        amp = 2.0 / math.sqrt(want / phi0)
        require(abs(phi[-1] - want) <= (3 * (len(v) + 1) * tol * amp + 1e-8 * s_dry) * g, 'after {} of {} days the potential is {}, exact {}', T, tdry, phi[-1], want)


@st.composite
def late_cases(draw):
    off = draw(gens.OFFSETS)
    return dict(off=list(off), n=draw(gens.logq(8000.0, 40000.0)), share=draw(gens.pick(0.6, 0.9, 1.05, 1.2, 2.0)), S=draw(gens.logq(10.0, 3000.0)), T=draw(gens.logq(1.0, 20000.0)) * draw(gens.pick(1, -1)),
                a=draw(gens.ANGLES), kind=draw(gens.pick('ValueError', 'AquiferError', 'nan')))


def late(case, rec):
    """A trace of thousands of steps through sound water up to a front where the velocity fails (or that it does not reach)."""
    from oneka.capturezone import compute_backtrace
    c = case
    x0, y0 = c['off']
    ca, sa = math.cos(c['a']), math.sin(c['a'])
    U = c['S'] / c['T']
    front = c['share'] * c['S']

    def feval(xy):
        if (xy[0] - x0) * ca + (xy[1] - y0) * sa > front:
            if c['kind'] == 'nan':
                return np.array([np.nan, np.nan])
            raise_error(c['kind'])
        return np.array([U * ca, U * sa])
    step = c['S'] / c['n']
    with Warnings() as w:
        v = fields.vertices_of(compute_backtrace(x0, y0, c['T'], step, step, feval))
    s = (v[:, 0] - x0) * ca + (v[:, 1] - y0) * sa
    eps = 1e-9 * c['S'] + 1e-14 * len(v) * (abs(x0) + abs(y0))
    rec.hit(len(v) > 1000)
    rec.label('over 10000 steps' if len(v) > 10000 else 'under 10000 steps')
    if front > c['S'] + eps:
        require(not w.seen, 'no velocity failed on the way, but: {}', w.seen)
        require(abs(s[-1] - c['S']) <= eps, 'no velocity failed on the way, but the trace ends after {} of {} m and {} steps', s[-1], c['S'], len(v) - 1)
    elif front < c['S'] - eps:
        rec.label('fails late')
        require(w.seen, 'the velocity fails at {} of {} m: no warning', front, c['S'])
        require(front - 1.1 * step - eps <= s[-1] <= front + eps, 'the velocity fails at {} m, the trace with steps of {} m ends at {}', front, step, s[-1])


@st.composite
def clear_cases(draw):
    return dict(off=list(draw(gens.OFFSETS)), r0=draw(gens.logq(1.05, 3.0, 3)), step=draw(gens.logq(0.5, 20.0)), steps=draw(gens.q(5.0, 60.0, 0.5)), rate=draw(st.one_of(gens.logq(1e-3, 1e4), gens.logq(50.0, 1e5))),
                spin=draw(gens.sq(1.0, 0.1)), a=draw(gens.ANGLES), way=draw(gens.pick(1, -1)), kind=draw(gens.pick('ValueError', 'AquiferError', 'nan')), tol=draw(gens.logq(1e-4, 1e-2)))


def clear(case, rec):
    """A trace away from a well, in water that is sound to several steps beyond the end of the path."""
    from oneka.capturezone import compute_backtrace
    c = case
    x0, y0 = c['off']
    step, r0 = c['step'], c['r0']
    R = r0 + c['steps'] * step
    V0 = c['rate'] * step / 0.1                                 # the speed at the start, in steps per tenth of a day
    k = V0 * r0
    T = (R * R - r0 * r0) / (2 * k)
    front = R + 6 * step

    def feval(xy):
        dx, dy = xy[0] - x0, xy[1] - y0
        r2 = dx * dx + dy * dy
        if r2 > front * front:
            if c['kind'] == 'nan':
                return np.array([np.nan, np.nan])
            raise_error(c['kind'])
        q = c['way'] * k / r2
        return np.array([q * (dx - c['spin'] * dy), q * (dy + c['spin'] * dx)])
    with Warnings() as w:
        v = fields.vertices_of(compute_backtrace(x0 + r0 * math.cos(c['a']), y0 + r0 * math.sin(c['a']), c['way'] * T, c['tol'] * step, step, feval))
    rec.hit(V0 * min(0.1, T) > front - r0)
    rec.label('first tenth of a day overshoots' if V0 * min(0.1, T) > front - r0 else 'slow start')
    require(not w.seen, 'the velocity fails only {} steps beyond the end of the path, but: {}', 6, w.seen)
    r = np.hypot(v[:, 0] - x0, v[:, 1] - y0)
    require(abs(r[-1] - R) <= 0.05 * (R - r0) + 5 * len(v) * c['tol'] * step, 'the velocity fails only beyond the end of the path at {} from the well, but the trace ends at {}', R, r[-1])


@st.composite
def dry_projects(draw):
    c = draw(aquifers())
    c.update(paths=draw(gens.pick(1, 2, 3, 5, 8)), rw=draw(gens.pick(0.1, 0.25, 1.0)), runs=draw(gens.pick(0, 0, 1, 3)), base=draw(gens.sq(200, 0.5)),
             h0=c['H'] * draw(gens.q(0.4, 0.9, 0.01)), grad=draw(gens.logq(0.003, 0.1)), share=draw(st.one_of(gens.q(0.05, 0.9, 0.01), gens.logq(1.1, 50.0))),
             cells=draw(gens.q(8.0, 40.0, 0.5)), umbra=draw(gens.q(0.8, 2.0, 0.01)))
    return c


def pipeline(case, rec):
    """Whole capture zones whose traces run into the dry part of the aquifer: each is warned of and keeps what it has."""
    from oneka.deterministic import create_deterministic_capturezone
    from oneka.stochastic import create_stochastic_capturezone
    c = case
    K, H, h0 = c['K'], c['H'], c['h0']
    phi0 = 0.5 * K * h0 * h0
    g = K * h0 * c['grad']
    sdry = phi0 / g                                             # distance from the target to the dry front
    ca, sa = math.cos(c['a']), math.sin(c['a'])
    x0, y0 = c['off']
    if sdry < 20 * (c['rw'] + 1):
        rec.label('front too near')
        return
    tdry = phi0**1.5 / (1.5 * g * g * math.sqrt(K / 2) / c['n'])
    T = c['share'] * tdry
    obs = []
    for u in (-1.0, -0.5, 0.1, 0.55):
        for w in (-0.8, -0.3, 0.25, 0.9):
            x, y = sdry * (u * ca - w * sa), sdry * (u * sa + w * ca)
            phi = phi0 - g * u * sdry
            h = math.sqrt(2 * phi / K) if phi <= 0.5 * K * H * H else phi / (K * H) + 0.5 * H
            s = 1e-7 * h
            obs.append((x0 + x, y0 + y, c['base'] + h, s))
    spacing = sdry / c['cells']
    umbra, maxstep, tol = spacing * c['umbra'], max(min(c['maxstep'], sdry / 10), sdry / 100), sdry * 1e-4
    wells = [(x0, y0, c['rw'], 0.0)]
    with Warnings() as w:
        if c['runs'] == 0:
            pf = create_deterministic_capturezone(0, c['paths'], -T, c['base'], K, c['n'], H, wells, obs, spacing, umbra, False, tol, maxstep)
        else:
            pf = create_stochastic_capturezone(0, c['paths'], -T, c['runs'], c['base'], K, c['n'], H, wells, obs, spacing, umbra, False, tol, maxstep)
    n = max(1, c['runs'])
    rec.label('deterministic' if c['runs'] == 0 else 'stochastic')
    X, Y = ref.nodes(pf)
    U, W = (X - x0) * ca + (Y - y0) * sa, -(X - x0) * sa + (Y - y0) * ca
    phi0s = [phi0 - g * (c['rw'] + 1) * math.cos(2 * math.pi * k / c['paths'] - c['a']) for k in range(c['paths'])]
    tdrys = [p**1.5 / (1.5 * g * g * math.sqrt(K / 2) / c['n']) for p in phi0s]
    late = [T > t * 1.02 for t in tdrys]
    early = [T < t * 0.98 for t in tdrys]
    messages = [m for m in w.seen if 'trace' in m]
    require(len(messages) >= n * sum(late), '{} of {} traces in each of {} realizations run into the dry aquifer within {} days: {} warnings', sum(late), c['paths'], n, T, len(messages))
    require(len(messages) <= n * (c['paths'] - sum(early)), 'only {} of {} traces in each of {} realizations run into the dry aquifer: {} warnings', c['paths'] - sum(early),
            c['paths'], n, len(messages))
    p = pf.pgrid / pf.total_weight
    require(abs(pf.total_weight - n * 1.0) < 1e-9, 'total weight {} after {} realizations', pf.total_weight, n)
    slack = 0.1 * umbra + 0.02 * sdry
    # Nothing beyond the dry front, and everything up to near where each trace must have got.
    bad = (p > 0) & (U > sdry + umbra + slack)
    require(not np.any(bad), 'a node {} beyond the dry front is marked', float((U - sdry)[bad].max()) if np.any(bad) else 0)
    reached = 0
    for k in range(c['paths']):
        b = 2 * math.pi * k / c['paths'] - c['a']
        u0, w0 = (c['rw'] + 1) * math.cos(b), (c['rw'] + 1) * math.sin(b)
        left = phi0s[k] * max(0.0, 1 - T / tdrys[k])**(2 / 3)
        end = (phi0 - left) / g - (4 * maxstep if not early[k] else 0.0) - slack
        if end <= u0:
            continue
        reached += 1
        inside = (np.abs(W - w0) < 0.9 * umbra) & (U > u0) & (U < end)
        miss = inside & (p < 1 - 1e-9)
        require(not np.any(miss), 'a node {} downstream on a trace that gets to {} has probability {}', float(U[miss][0]) if np.any(miss) else 0, end,
                float(p[miss][0]) if np.any(miss) else 0)
    rec.hit(reached > 0 and sum(late) > 0)
    rec.label('runs dry' if any(late) else 'stays wet')


SUBS = [Sub('faults', cases(), faults, 5560, 80000, 'injected failures against the same trace without them', cpu=30),
        Sub('dry', aquifers(), dry, 1040, 15000, 'closed-form time to run dry', cpu=30),
        Sub('late', late_cases(), late, 112, 896, 'traces of 8000 to 40000 steps up to a front', cpu=120, shrink=False),
        Sub('clear', clear_cases(), clear, 1040, 12000, 'closed-form paths that stay six steps clear of every failing place', cpu=60),
        Sub('pipeline', dry_projects(), pipeline, 680, 8000, 'whole capture zones in an aquifer that runs dry downstream, closed-form fronts', cpu=60)]
