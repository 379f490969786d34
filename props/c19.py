import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, ref, spy

RULE = ('draws: 400 and 4000 realizations of one project; every coefficient vector is standardised with the mean and covariance of an independent fit under the '
        'very parameters of its realization; mean, variance, normality, tails, correlations between coefficients, with the parameters and between realizations; '
        'log: the coefficients and recharge written for each of 1 to 10 realizations. '
        'Non-trivial: the covariance is resolved in double precision (draws), at least two realizations (log).')
ASSUMPTIONS = ['statistical thresholds have a false-alarm probability below 1e-8 per comparison; every random stream is seeded from the case',
               'projects whose coefficient covariance has a condition number above 1e12 are not judged: numpy cannot sample them accurately']


def standardised(p, states):
    """Standard normal vectors, if each realization draws from its own fit."""
    out, worst = [], 0.0
    for s in states:
        f = ref.wls(p['base'], s['K'], s['H'], s['wells'], p['obs'], p['wells'][p['target']][0], p['wells'][p['target']][1])
        R = np.linalg.qr(f['As'], mode='r')
        out.append(R @ ((s['coef'] - f['coef']) * f['scale']))
        worst = max(worst, np.linalg.cond(f['cov']))
    return np.array(out), worst


def marginals(p, states):
    """Each coefficient in standard deviations of its own."""
    for s in states:
        f = ref.wls(p['base'], s['K'], s['H'], s['wells'], p['obs'], p['wells'][p['target']][0], p['wells'][p['target']][1])
        yield (s['coef'] - f['coef']) / np.sqrt(np.diag(f['cov']))


@st.composite
def many(draw):
    p = draw(projects.project(paths=(1,), kinds=('num', 'pair', 'triple'), neighbours=(0, 0, 1, 2)))
    p['duration'] = math.copysign(0.02, p['duration'])
    if draw(gens.ints(0, 2)) == 2:
        # poorly known levels
        more = draw(gens.pick(3.0, 10.0, 30.0))
        for o in p['obs']:
            o[3] *= more
    return dict(p=p, seed=draw(gens.ints(0, 2**31 - 1)))


def draws(n):
    def run(case, rec):
        from scipy import stats
        p = case['p']
        seed_all(case['seed'])
        with spy.States() as seen:
            projects.stochastic(p, n)
        states = seen.seen
        require(len(states) == n, '{} realizations were traced with {} different models', n, len(states))
        xt, yt = p['wells'][p['target']][:2]
        require(all(s['xo'] == xt and s['yo'] == yt for s in states), 'the local origin of a realization is not the target well')
        z, cond = standardised(p, states)
        if cond > 1e12:
            rec.label('not judged: condition')
            return
        rec.hit()
        rec.label('parameters uncertain' if any(len(d['v']) > 1 for d in (p['c'], p['t'])) else 'parameters constant')
        k = 6.0 / math.sqrt(n)
        names = 'ABCDEF'
        # z = R (c - c_mean) mixes coefficients triangularly: the last is F alone, the first involves all.
        for i in range(6):
            v = z[:, i]
            require(abs(np.mean(v)) < k, 'standardised coefficient {} of {} realizations has mean {}', names[i], n, float(np.mean(v)))
            var = float(np.mean(v * v))
            lo, hi = stats.chi2.ppf([1e-9, 1 - 1e-9], n) / n
            require(lo < var < hi, 'standardised coefficient {} of {} realizations has variance {}', names[i], n, var)
            pv = stats.kstest(v, 'norm').pvalue
            require(pv > 1e-9, 'standardised coefficient {} is not normal (p = {})', names[i], pv)
        # the tails, of the standardised and of the coefficients themselves
        g = np.array([[t[i] for i in range(6)] for t in marginals(p, states)])
        for v, kind in ((z, 'standardised '), (g, '')):
            for i in range(6):
                for t in (1.5, 2.0, 2.5, 3.0):
                    for side in (1, -1):
                        q = stats.norm.sf(t)
                        k0 = int(np.sum(side * v[:, i] > t))
                        require(stats.binom.cdf(k0, n, q) > 1e-9 and stats.binom.sf(k0 - 1, n, q) > 1e-9, '{} of {} {}coefficients {} lie {} deviations from the mean, {} are expected', k0, n,
                                kind, names[i], side * t, n * q)
        lo, hi = stats.chi2.ppf([1e-9, 1 - 1e-9], 6 * n) / (6 * n)
        require(lo < float(np.mean(z * z)) < hi, 'the coefficients of {} realizations have {} times the variance of their fits', n, float(np.mean(z * z)))
        for i in range(6):
            for j in range(6):
                if j < i:
                    require(abs(np.mean(z[:, i] * z[:, j])) < k * 1.1, 'standardised coefficients {} and {} are correlated ({})', names[i], names[j], float(np.mean(z[:, i] * z[:, j])))
                for lag in (1, 2):
                    r = float(np.mean(z[lag:, i] * z[:-lag, j]))
                    require(abs(r) < k * 1.2, 'standardised coefficients {} and {} of {} realizations apart are correlated ({})', names[i], names[j], lag, r)
            for name in ('K', 'n', 'H'):
                v = np.array([s[name] for s in states], float)
                if np.ptp(v) > 0:
                    r = float(np.corrcoef(v, z[:, i])[0, 1])
                    require(abs(r) < k * 1.1, 'standardised coefficient {} and {} are correlated ({})', names[i], name, r)
    return run


def anew(case, rec):
    """A second run draws its coefficients anew."""
    p, n = case['p'], case['n']
    both = []
    for k in range(2):
        seed_all(case['seed'] + k)
        with spy.States() as seen:
            projects.stochastic(p, n)
        z, cond = standardised(p, seen.seen)
        if cond > 1e12:
            rec.label('not judged: condition')
            return
        both.append(z)
    rec.hit()
    d = np.max(np.abs(both[0][:, None, :] - both[1][None, :, :]), axis=2)
    require(float(d.min()) > 1e-4, 'two runs of {} realizations share a standardised draw: {}', n, list(both[0][int(np.argmin(d)) // d.shape[1]]))


FLOAT = r'[-+]?\d[\d,]*\.?\d*(?:[eE][-+]?\d+)?'


@st.composite
def few(draw):
    p = draw(projects.project(paths=(1,)))
    p['duration'] = math.copysign(0.02, p['duration'])
    return dict(p=p, n=draw(gens.ints(1, 10)), seed=draw(gens.ints(0, 2**31 - 1)))


def log(case, rec):
    p, n = case['p'], case['n']
    seed_all(case['seed'])
    with spy.States() as seen, spy.Log() as out:
        projects.stochastic(p, n)
    states = seen.seen
    require(len(states) == n, '{} realizations were traced with {} different models', n, len(states))
    rec.hit(n > 1)
    heads = [t for t in out.lines if 'Realization' in t]
    rng = [t for t in out.lines if 'rng' in t]
    ev = [t for t in out.lines if 'coef' in t and 'ev' in t]
    require(len(heads) == n and len(rng) == n and len(ev) == n, 'the log of {} realizations has {} realizations, {} expected and {} random coefficients', n, len(heads),
            len(ev), len(rng))

    def close(text, value, digits, decimals=None):
        v = float(text.replace(',', ''))
        return abs(v - value) <= 0.6 * 10.0**-digits * abs(value) + 1e-300 if decimals is None else abs(v - value) <= 0.51 * 10.0**-decimals
    for i, s in enumerate(states):
        f = ref.wls(p['base'], s['K'], s['H'], s['wells'], p['obs'], s['xo'], s['yo'])
        v = re.findall(FLOAT, heads[i].split(':', 1)[1])
        require(len(v) >= 5, 'unreadable log line {}', heads[i])
        for text, want, name in zip(v[:4], (s['base'], s['K'], s['n'], s['H']), ('base', 'conductivity', 'porosity', 'thickness')):
            require(close(text, want, 0, 2), 'realization {} is logged with {} {}, it used {}', i, name, text, want)
        rech = -2 * (s['coef'][0] + s['coef'][1])
        size = 2 * (abs(s['coef'][0]) + abs(s['coef'][1]))
        require(abs(float(v[4]) - rech) <= 1e-4 * abs(rech) + 1e-12 * size, 'realization {} is logged with recharge {}, its coefficients give {}', i, v[4], rech)
        c = re.findall(FLOAT, rng[i].split('(', 1)[1])
        require(len(c) == 6 and all(close(a, b, 4) for a, b in zip(c, s['coef'])), 'realization {} is logged with coefficients {}, it used {}', i, c, list(s['coef']))
        c = re.findall(FLOAT, ev[i].split('(', 1)[1])
        scale = np.abs(f['coef']) * 1e-4 + np.sqrt(np.diag(f['cov'])) * 1e-5
        require(len(c) == 6 and all(abs(float(a) - b) <= e for a, b, e in zip(c, f['coef'], scale)), 'realization {} is logged with expected coefficients {}, the fit gives {}', i, c,
                list(f['coef']))


SUBS = [Sub('draws', many(), draws(400), 40, 1600, 'standardised with an independent fit of the same realization', cpu=60, shrink=False),
        Sub('long', many(), draws(4000), 8, 400, 'the same over 4000 realizations', cpu=240, shrink=False),
        Sub('anew', few(), anew, 160, 4000, 'standardised coefficients of two runs from different random states', cpu=60),
        Sub('log', few(), log, 320, 8000, 'numbers of the log against the model states during tracing', cpu=60)]
