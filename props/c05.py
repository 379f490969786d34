import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref

RULE = ('observations on a shuffled jittered grid (9-25 places, scale 20-3000 m) with unequal standard deviations and arbitrary, sometimes repeated '
        'levels, heads below and above the aquifer thickness mixed, 0-14 wells of either sign, any origin. Non-trivial: the scaled '
        'regressor matrix has a condition number below 1e4 (well posed) and the standard deviations differ.')
ASSUMPTIONS = ['well-posed observation sets: scaled condition number below 1e4', 'observations at least 0.5 m from every well']


SPREADS = (gens.logq(1e-5, 1e-3), gens.logq(0.02, 5.0), gens.logq(0.02, 5.0), gens.logq(0.001, 0.1), st.just(2.0), gens.logq(0.5, 20.0))


@st.composite
def observations(draw, mode=None):
    """A fit problem: aquifer, wells, observations, origin."""
    off = draw(gens.OFFSETS)
    lay = draw(gens.layout())
    L = lay['L']
    few = draw(gens.ints(0, 9))
    if few == 9:
        # hardly more than there are coefficients
        lay['pts'] = lay['pts'][:draw(gens.ints(6, 8))]
    K, H, base = draw(gens.logq(0.1, 150.0)), draw(gens.logq(2.0, 100.0)), draw(gens.sq(300, 0.5))
    if draw(gens.ints(0, 7)) == 7:
        # other units, other soils
        K, H, base = draw(gens.logq(1e-4, 1e4)), draw(gens.logq(0.2, 2000.0)), draw(gens.sq(5000, 0.5))
    mode = mode or draw(gens.pick('confined', 'unconfined', 'mixed', 'mixed'))
    ws = []
    for _ in range(draw(gens.pick(0, 1, 2, 2, 3, 4, 14))):
        ws.append([off[0] + draw(gens.sq(1.0, 0.001)) * L, off[1] + draw(gens.sq(1.0, 0.001)) * L, 0.25, draw(gens.ANYQ)])
    spread = draw(gens.pick(*SPREADS))
    deep = draw(gens.pick(0, 0, 0, 8.0))
    obs = []
    for px, py in lay['pts']:
        x, y = off[0] + px, off[1] + py
        while any(np.hypot(x - w[0], y - w[1]) < 0.5 for w in ws):
            x += 0.73
        lo, hi = dict(confined=(1.001, 3.0), unconfined=(0.05, 0.999), mixed=(0.1, 2.0))[mode]
        k = draw(gens.q(lo, hi, 0.001))
        if mode == 'confined' and deep:
            k *= deep
        if mode == 'mixed' and draw(gens.ints(0, 9)) == 0:
            k = 1.0
        obs.append([x, y, base + k * H, draw(spread)])
    if draw(gens.ints(0, 5)) == 5:
        # repeated measurements: the same again, or another level at the same place
        for _ in range(draw(gens.ints(1, 3))):
            ob = list(obs[draw(gens.ints(0, len(obs) - 1))])
            if draw(gens.ints(0, 2)) == 2:
                ob[2], ob[3] = ob[2] + 0.01 * H, ob[3] * draw(gens.pick(1.0, 2.0))
            obs.insert(draw(gens.ints(0, len(obs))), ob)
    if draw(gens.ints(0, 7)) == 7 and L > 60:
        # whole numbers, as people write them
        ws = [[round(w[0]), round(w[1]), w[2], round(w[3])] for w in ws]
        obs = [[round(ob[0]), round(ob[1]), ob[2], ob[3]] for ob in obs]
        for ob in obs:
            while any(np.hypot(ob[0] - w[0], ob[1] - w[1]) < 0.5 for w in ws):
                ob[0] += 1
    o = draw(gens.ints(0, 3))
    xo, yo = (off if o == 0 else (off[0] + L * draw(gens.sq(0.6)), off[1] + L * draw(gens.sq(0.6))))
    return dict(K=K, H=H, base=base, n=0.25, wells=ws, obs=obs, xo=xo, yo=yo, off=list(off), L=L, mode=mode)


def fit(c, obs=None, xo=None, yo=None, wells=None, mo=None):
    from oneka.model import Model
    if mo is None:
        mo = Model(c['base'], c['K'], c['n'], c['H'], [tuple(w) for w in (c['wells'] if wells is None else wells)])
    ev, cov = mo.fit_regional_flow([tuple(o) for o in (c['obs'] if obs is None else obs)],
                                   c['xo'] if xo is None else xo, c['yo'] if yo is None else yo)
    return mo, np.reshape(np.array(ev, dtype=float), 6), np.array(cov, dtype=float)


def optimum(case, rec):
    c = case
    r = ref.wls(c['base'], c['K'], c['H'], c['wells'], c['obs'], c['xo'], c['yo'])
    mo, ev, cov = fit(c)
    posed = r['cond'] < 1e4
    rec.hit(posed and len({o[3] for o in c['obs']}) > 1)
    rec.label(c['mode'], 'well posed' if posed else 'ill posed')
    if not posed:
        return
    require(np.all(np.isfinite(ev)) and np.all(np.isfinite(cov)), 'fit is not finite')
    res = r['b'] - r['A'] @ ev
    # Stationarity: the weighted residual is orthogonal to every regressor.
    g = (r['As'].T @ res)
    scale = np.linalg.norm(r['b']) + np.linalg.norm(np.abs(r['A']) @ np.abs(ev))
    require(np.max(np.abs(g)) <= 1e-7 * scale, 'not the optimum: the weighted residual has the component {} along a regressor (scale {})',
            float(np.max(np.abs(g))), float(scale))
    # Covariance: inverse of the normal matrix, both scaled to unit regressors.
    N = r['As'].T @ r['As']
    Cs = cov * np.outer(r['scale'], r['scale'])
    err = np.max(np.abs(N @ Cs - np.eye(6)))
    require(err <= 1e-6 * max(1.0, r['cond']), 'covariance is not the inverse of the weighted normal matrix (error {})', float(err))
    require(np.allclose(Cs, Cs.T, rtol=0, atol=1e-7 * np.max(np.abs(Cs))), 'covariance is not symmetric')
    require(cov.shape == (6, 6), 'covariance has shape {}', cov.shape)
    require(mo.xo == c['xo'] and mo.yo == c['yo'] and np.array_equal(np.reshape(mo.coef, 6), ev),
            'the model does not carry the fit it returned')


SUBS = [Sub('optimum', observations(), optimum, 19200, 153600, 'stationarity of the weighted residual and N C = I, in scaled form')]
