import copy

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Fail, require
from vlib import gens, ref
from props.c05 import observations

RULE = ('failed: sets that cannot be fitted for another reason (all in one column through the origin; a '
        'malformed tuple, no observation); accepted: levels as little as a micrometre above the base; '
        'refusal: observation sets with one or more levels at or below the base at random places of the list, on a model that already '
        'carries an arbitrary or a fitted state; histories: up to 12 operations (create with default or given coefficients as arrays of several types and shapes, lists or tuples, fit, failing fit, '
        'assign, edit in place) on up to 5 models. Non-trivial: the bad entry is not the first / the history edits or fits while two models exist.')
ASSUMPTIONS = []


@st.composite
def bad_sets(draw):
    c = draw(observations())
    n = len(c['obs'])
    bad = draw(st.lists(st.tuples(gens.ints(0, n - 1), st.one_of(st.just(0.0), gens.logq(1e-6, 500.0))), min_size=1, max_size=3))
    c['bad'] = [[i, d] for i, d in bad]
    c['prefit'] = draw(st.booleans())
    c['precoef'] = [draw(gens.slog(1e-4, 10.0)) for _ in range(6)]
    c['pre'] = [draw(gens.sq(100, 0.5)), draw(gens.sq(100, 0.5))]
    return c


def refused(case, rec):
    from oneka.model import Model, RangeError
    c = case
    good = [tuple(o) for o in c['obs']]
    obs = [list(o) for o in c['obs']]
    for i, d in c['bad']:
        obs[i][2] = c['base'] - d
        while obs[i][2] - c['base'] > 0:
            obs[i][2] = np.nextafter(obs[i][2], -np.inf)
    obs = [tuple(o) for o in obs]
    mo = Model(c['base'], c['K'], c['n'], c['H'], [tuple(w) for w in c['wells']], c['pre'][0], c['pre'][1], np.array(c['precoef']))
    if c['prefit']:
        mo.fit_regional_flow(good, c['xo'], c['yo'])
    px, py = c['off'][0] + 0.3137 * c['L'], c['off'][1] - 0.2711 * c['L']
    before = (mo.xo, mo.yo, list(np.reshape(mo.coef, 6)), mo.compute_potential(px, py), tuple(mo.compute_discharge(px, py)),
              mo.base, mo.conductivity, mo.porosity, mo.thickness, repr(mo.wells))
    rec.hit(min(i for i, _ in c['bad']) > 0)
    rec.label('exactly at base' if any(d == 0 for _, d in c['bad']) else 'below base', 'after a fit' if c['prefit'] else 'initial')
    try:
        out = mo.fit_regional_flow(obs, c['xo'] + 1.0, c['yo'] - 2.0)
    except RangeError:
        pass
    else:
        raise Fail('observation(s) {} at or below the base {} were fitted: {}'.format([obs[i] for i, _ in c['bad']], c['base'], out[0]))
    after = (mo.xo, mo.yo, list(np.reshape(mo.coef, 6)), mo.compute_potential(px, py), tuple(mo.compute_discharge(px, py)),
             mo.base, mo.conductivity, mo.porosity, mo.thickness, repr(mo.wells))
    require(repr(before) == repr(after), 'the refused fit changed the model from {} to {}', before, after)


@st.composite
def failing_sets(draw):
    c = draw(observations())
    c['how'] = draw(gens.pick('column', 'row', 'short', 'text', 'nothing'))
    c['at'] = draw(gens.ints(0, len(c['obs']) - 1))
    c['prefit'] = draw(st.booleans())
    c['precoef'] = [draw(gens.slog(1e-4, 10.0)) for _ in range(6)]
    c['pre'] = [draw(gens.sq(100, 0.5)), draw(gens.sq(100, 0.5))]
    return c


def failed(case, rec):
    from oneka.model import Model
    c = case
    good = [tuple(o) for o in c['obs']]
    obs, at, xo, yo = list(good), c['at'], c['xo'] + 1.0, c['yo'] - 2.0
    how = c['how']
    if how == 'column':
        obs = [(xo,) + o[1:] for o in obs]
    elif how == 'row':
        obs = [(o[0], yo) + o[2:] for o in obs]
    elif how == 'short':
        obs[at] = obs[at][:3]
    elif how == 'text':
        obs[at] = obs[at][:2] + ('dry', obs[at][3])
    else:
        obs = []
    mo = Model(c['base'], c['K'], c['n'], c['H'], [tuple(w) for w in c['wells']], c['pre'][0], c['pre'][1], np.array(c['precoef']))
    if c['prefit']:
        mo.fit_regional_flow(good, c['xo'], c['yo'])
    px, py = c['off'][0] + 0.3137 * c['L'], c['off'][1] - 0.2711 * c['L']

    def state():
        return repr((mo.xo, mo.yo, list(np.reshape(mo.coef, 6)), mo.compute_potential(px, py), tuple(mo.compute_discharge(px, py)),
                     mo.base, mo.conductivity, mo.porosity, mo.thickness, mo.wells))
    before = state()
    try:
        with np.errstate(all='ignore'):
            mo.fit_regional_flow(obs, xo, yo)
    except Exception as ex:
        rec.hit(True)
        rec.label(how, type(ex).__name__)
        require(before == state(), 'the fit that failed ({}: {!r}) changed the model from {} to {}', how, ex, before, state())
    else:
        rec.label(how + ' not refused')


@st.composite
def thin_sets(draw):
    c = draw(observations('unconfined'))
    c['thin'] = [[draw(gens.ints(0, len(c['obs']) - 1)), draw(gens.logq(1e-6, 0.1))] for _ in range(draw(gens.ints(1, 3)))]
    return c


def accepted(case, rec):
    from oneka.model import Model
    c = case
    obs = [list(o) for o in c['obs']]
    for i, d in c['thin']:
        obs[i][2] = c['base'] + d
    if not all(o[2] - c['base'] > 0 for o in obs):
        return
    mo = Model(c['base'], c['K'], c['n'], c['H'], [tuple(w) for w in c['wells']])
    try:
        mo.fit_regional_flow([tuple(o) for o in obs], c['xo'], c['yo'])
    except np.linalg.LinAlgError:
        rec.label('ill posed')
        return
    rec.hit(True)
    require(mo.xo == c['xo'] and mo.yo == c['yo'] and np.all(np.isfinite(mo.coef)), 'the fit left the origin ({}, {}) and coefficients {}', mo.xo, mo.yo, mo.coef)


@st.composite
def histories(draw):
    c = draw(observations('confined'))
    ops = []
    nm = 0
    for _ in range(draw(gens.ints(2, 12))):
        kind = draw(gens.pick('default', 'given', 'shared', 'fit', 'badfit', 'assign', 'edit', 'edit'))
        if nm == 0 or (kind in ('default', 'given', 'shared') and nm < 5):
            if kind not in ('default', 'given', 'shared'):
                kind = 'default'
            form = draw(gens.pick('array', 'column', 'list', 'tuple', 'whole', 'whole list', 'row', 'single'))
            whole = form.startswith('whole')
            ops.append([kind, [draw(gens.ints(-50, 50)) if whole else draw(gens.slog(1e-3, 10.0)) for _ in range(6)] if kind == 'given' else None, form])
            nm += 1
        else:
            i = draw(gens.ints(0, nm - 1))
            if kind == 'assign':
                form = draw(gens.pick('array', 'column', 'list', 'tuple', 'whole', 'whole list', 'row', 'single'))
                whole = form.startswith('whole')
                ops.append([kind, i, [draw(gens.ints(-50, 50)) if whole else draw(gens.slog(1e-3, 10.0)) for _ in range(6)], form])
            elif kind in ('fit', 'badfit'):
                ops.append([kind, i, draw(gens.sq(1.0)) * c['L'] if draw(gens.ints(0, 2)) else draw(gens.pick(0.0, 1e-4, 0.02, -0.5))])
            else:
                ops.append(['edit', i, draw(gens.ints(0, 5)), draw(gens.slog(1e-3, 10.0))])
    c['ops'] = ops
    return c


def shaped(values, form):
    if form in ('list', 'whole list'):
        return list(values)
    if form == 'tuple':
        return tuple(values)
    a = np.array(values, dtype=np.float32 if form == 'single' else None)
    return a.reshape(6, 1) if form == 'column' else a.reshape(1, 6) if form == 'row' else a


def history(case, rec):
    from oneka.model import Model, RangeError
    c = case
    ws = [tuple(w) for w in c['wells']]
    good = [tuple(o) for o in c['obs']]
    bad = good[:3] + [(good[3][0], good[3][1], c['base'] - 1.0, 1.0)] + good[4:]
    shared = np.array([0.5, 0.25, -0.5, 1.0, 2.0, 3.0])
    models, want, arrays = [], [], [(shared, shared.copy())]
    for op in c['ops']:
        k = op[0]
        if k in ('default', 'given', 'shared'):
            if k == 'default':
                models.append(Model(c['base'], c['K'], c['n'], c['H'], ws))
                want.append([0, 0, np.zeros(6)])
            else:
                a = shared if k == 'shared' else shaped(op[1], op[2])
                arrays.append((a, copy.deepcopy(a)))
                models.append(Model(c['base'], c['K'], c['n'], c['H'], ws, 1.5, -2.5, a))
                want.append([1.5, -2.5, np.array(a, dtype=float).reshape(6)])
        elif k == 'assign':
            a = shaped(op[2], op[3])
            models[op[1]].coef = a
            arrays.append((a, copy.deepcopy(a)))
            want[op[1]][2] = np.array(a, dtype=float).reshape(6)
            rec.hit(len(models) > 1)
        elif k == 'edit':
            models[op[1]].coef[op[2]] = op[3]
            want[op[1]][2][op[2]] = op[3]
            rec.hit(len(models) > 1)
        elif k == 'fit':
            xo, yo = c['off'][0] + op[2], c['off'][1]
            ev, cov = models[op[1]].fit_regional_flow(good, xo, yo)
            arrays.append((ev, np.array(ev)))
            want[op[1]] = [xo, yo, np.reshape(np.array(ev), 6).copy()]
            rec.hit(len(models) > 1)
        elif k == 'badfit':
            try:
                models[op[1]].fit_regional_flow(bad, c['off'][0] + op[2], c['off'][1])
            except RangeError:
                pass
            else:
                raise Fail('a level below the base was fitted')
        rec.label(k)
        for i, (mo, w) in enumerate(zip(models, want)):
            require(mo.xo == w[0] and mo.yo == w[1] and np.array_equal(np.reshape(mo.coef, 6), w[2]),
                    'after {} model {} has origin ({}, {}) and coefficients {}, expected {}', op, i, mo.xo, mo.yo, list(np.ravel(mo.coef)), w)
        for a, b in arrays:
            require(np.array_equal(a, b), 'after {} an array of the caller changed from {} to {}', op, b, a)
    fresh = Model(c['base'], c['K'], c['n'], c['H'], ws)
    require(np.array_equal(np.ravel(fresh.coef), np.zeros(6)) and fresh.xo == 0 and fresh.yo == 0,
            'a new model starts with coefficients {}', list(np.ravel(fresh.coef)))


SUBS = [Sub('failed', failing_sets(), failed, 3200, 25600, 'snapshot before and after'),
        Sub('accepted', thin_sets(), accepted, 3200, 25600, 'the levels are above the base'),
        Sub('refused', bad_sets(), refused, 12800, 102400, 'snapshot before and after'),
        Sub('history', histories(), history, 9600, 76800, 'reference copies of every model and array')]
