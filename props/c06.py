import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref
from props.c05 import observations, fit

RULE = ('recovery: a model of the fitted family (wells, origin, coefficients scaled to the aquifer) whose potentials at the places of a '
        'shuffled jittered grid are turned into heads, confined, unconfined or mixed, with unequal standard deviations; relations: '
        'arbitrary observation sets, permuted, re-origined, shifted or re-scaled, fitted by a new model or by the same one again. Non-trivial: scaled condition number below 1e4 and '
        '(recovery) the regional part varies over the sites / (relations) the transformation is not the identity.')
ASSUMPTIONS = ['well-posed observation sets: scaled condition number below 1e4', 'observations at least 0.5 m from every well',
               'recovery within 1e-6 of the potential scale']


@st.composite
def recoveries(draw):
    c = draw(observations('confined'))
    P, L = 0.5 * c['K'] * c['H']**2, c['L']
    rel = gens.slog(0.01, 2.0)
    coef = [draw(rel) * P / L**2, draw(rel) * P / L**2, draw(rel) * P / L**2, draw(rel) * P / L, draw(rel) * P / L, 0.0]
    c['wells'] = [[w[0], w[1], w[2], draw(rel) * P] for w in c['wells']]
    m = dict(coef=coef, wells=c['wells'], xo=c['xo'], yo=c['yo'])
    pots = [ref.potential(m, o[0], o[1])[0] for o in c['obs']]
    coef[5] = draw(gens.logq(0.05, 3.0)) * P - min(pots)
    kind = set()
    for o, p in zip(c['obs'], pots):
        phi = p + coef[5]
        if phi > P:
            h = phi / (c['K'] * c['H']) + 0.5 * c['H']
            kind.add('confined')
        else:
            s = min(o[3], 0.5 * (2 * phi / c['K'])**0.5)
            o[3] = s
            h = (2 * phi / c['K'] - s * s)**0.5
            kind.add('unconfined')
        o[2] = c['base'] + h
    c['coef'] = coef
    c['kind'] = '+'.join(sorted(kind))
    c['test'] = [[c['off'][0] + L * draw(gens.sq(0.9, 0.01)), c['off'][1] + L * draw(gens.sq(0.9, 0.01))] for _ in range(3)]
    c['fitxy'] = draw(st.one_of(st.just([c['xo'], c['yo']]),
                                st.tuples(gens.sq(0.6), gens.sq(0.6)).map(lambda t: [c['off'][0] + L * t[0], c['off'][1] + L * t[1]])))
    return c


def sane(points, ws):
    out = []
    for x, y in points:
        while any(np.hypot(x - w[0], y - w[1]) < 0.5 for w in ws):
            x += 0.77
        out.append((x, y))
    return out


def recover(case, rec):
    c = case
    xo, yo = c['fitxy']
    r = ref.wls(c['base'], c['K'], c['H'], c['wells'], c['obs'], xo, yo)
    rec.hit(r['cond'] < 1e4 and any(c['coef'][:5]))
    rec.label(c['kind'], 'same origin' if [xo, yo] == [c['xo'], c['yo']] else 'other origin')
    if r['cond'] >= 1e4:
        return
    mo, ev, cov = fit(c, xo=xo, yo=yo)
    m = dict(coef=c['coef'], wells=c['wells'], xo=c['xo'], yo=c['yo'])
    require(mo.xo == xo and mo.yo == yo and np.array_equal(np.reshape(mo.coef, 6), ev),
            'the model does not keep the origin and coefficients it reports')
    sites = [(o[0], o[1]) for o in c['obs']] + sane(c['test'], c['wells'])
    scale = max(max(ref.potential(m, x, y)[1] for x, y in sites), 0.5 * c['K'] * c['H']**2, abs(c['base']) * c['K'] * c['H'])
    for x, y in sites:
        want, _ = ref.potential(m, x, y)
        got = mo.compute_potential(x, y)
        require(abs(got - want) <= 1e-6 * scale, 'observations of a model with potential {} at ({}, {}) are fitted by {} there (scale {})',
                want, x, y, got, scale)


@st.composite
def relations(draw):
    c = draw(observations())
    n, L = len(c['obs']), c['L']
    c['rel'] = draw(gens.pick('order', 'origin', 'shift', 'sigma'))
    c['again'] = draw(st.booleans())      # with the same model object
    if c['rel'] == 'order':
        c['perm'] = list(draw(st.permutations(range(n))))
    elif c['rel'] == 'origin':
        c['neworigin'] = [c['off'][0] + L * draw(gens.sq(0.8)), c['off'][1] + L * draw(gens.sq(0.8))]
    elif c['rel'] == 'shift':
        c['shift'] = [draw(gens.sq(100000, 0.25)), draw(gens.sq(100000, 0.25))]
    else:
        c['factor'] = draw(gens.logq(0.1, 10.0))
        if c['mode'] != 'confined':
            for o in c['obs']:
                if o[2] - c['base'] < 1.0005 * c['H']:
                    o[2] = c['base'] + 2.001 * c['H'] - (o[2] - c['base'])
    c['test'] = [[c['off'][0] + L * draw(gens.sq(0.9, 0.01)), c['off'][1] + L * draw(gens.sq(0.9, 0.01))] for _ in range(3)]
    return c


def related(case, rec):
    c = case
    r = ref.wls(c['base'], c['K'], c['H'], c['wells'], c['obs'], c['xo'], c['yo'])
    if r['cond'] >= 1e4:
        rec.label('ill posed')
        return
    mo, ev, cov = fit(c)
    pts = sane(c['test'], c['wells']) + [(o[0], o[1]) for o in c['obs'][:4]]
    before = [mo.compute_potential(x, y) for x, y in pts]
    sx = sy = 0.0
    f2 = 1.0
    same = mo if c.get('again') else None
    if c['rel'] == 'order':
        mo2, ev2, cov2 = fit(c, obs=[c['obs'][i] for i in c['perm']], mo=same)
        rec.hit(c['perm'] != sorted(c['perm']))
    elif c['rel'] == 'origin':
        r2 = ref.wls(c['base'], c['K'], c['H'], c['wells'], c['obs'], *c['neworigin'])
        if r2['cond'] >= 1e4:
            rec.label('ill posed')
            return
        mo2, ev2, cov2 = fit(c, xo=c['neworigin'][0], yo=c['neworigin'][1], mo=same)
        rec.hit(c['neworigin'] != [c['xo'], c['yo']])
        require(mo2.xo == c['neworigin'][0] and mo2.yo == c['neworigin'][1], 'the model does not keep its origin')
    elif c['rel'] == 'shift':
        sx, sy = c['shift']
        mo2, ev2, cov2 = fit(c, obs=[[o[0] + sx, o[1] + sy, o[2], o[3]] for o in c['obs']], xo=c['xo'] + sx, yo=c['yo'] + sy,
                             wells=[[w[0] + sx, w[1] + sy, w[2], w[3]] for w in c['wells']])
        rec.hit(sx != 0 or sy != 0)
    else:
        f2 = c['factor']**2
        mo2, ev2, cov2 = fit(c, obs=[[o[0], o[1], o[2], o[3] * c['factor']] for o in c['obs']], mo=same)
        rec.hit(c['factor'] != 1)
    rec.label(c['rel'], 'the same model again' if c.get('again') and c['rel'] != 'shift' else 'another model')
    scale = float(np.max(np.abs(r['b'] * np.array([ref.observed_potential(c['base'], c['K'], c['H'], o[2], o[3])[1] for o in c['obs']]))))
    scale = max(scale, max(abs(e) * s for e, s in zip(ev, [c['L']**2] * 3 + [c['L']] * 2 + [1.0])), abs(c['base']) * c['K'] * c['H'])
    for (x, y), a in zip(pts, before):
        b = mo2.compute_potential(x + sx, y + sy)
        s = scale + ref.math.fsum(map(abs, ref.well_terms(c, x, y)))
        require(abs(a - b) <= 1e-6 * s, 'relation {}: the fitted potential at ({}, {}) is {} and {}', c['rel'], x, y, a, b)
    if c['rel'] in ('order', 'shift', 'sigma'):
        D = np.sqrt(np.diag(r['cov']))
        d = np.abs(cov2 / f2 - cov) / np.outer(D, D)
        require(np.max(d) <= 1e-6 * max(1.0, r['cond']), 'relation {}: covariances differ by {} standard units', c['rel'], float(np.max(d)))
        d = np.abs(ev2 - ev) / np.array([c['L']**-2] * 3 + [1 / c['L']] * 2 + [1.0])
        require(np.max(d) <= 1e-5 * scale, 'relation {}: coefficients {} and {}', c['rel'], list(ev), list(ev2))


SUBS = [Sub('recover', recoveries(), recover, 9600, 76800, 'the generating model at the sites and at other points'),
        Sub('relations', relations(), related, 12800, 102400, 'metamorphic: order, origin, shift, standard deviations')]
