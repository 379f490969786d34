import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, ref, spy

RULE = ('projects with uncertain parameters, any target, any state of the aquifer, both directions, 1 to 12 realizations; the numbers that the log states for each realization against the model '
        'states in use while tracing and an independent fit under the parameters of that realization. Non-trivial: at least two realizations and one uncertain parameter.')
ASSUMPTIONS = ['numbers are stated with the precision of the log: two decimals for parameters, five digits for coefficients; fits with a scaled condition number above 1e6 are not judged']


@st.composite
def cases(draw):
    p = draw(projects.project(paths=(1,), kinds=('num', 'pair', 'triple', 'triple'), width=0.5))
    p['duration'] = math.copysign(0.02, p['duration'])
    return dict(p=p, n=draw(gens.pick(2, 3, 4, 1, 7, 12)), seed=draw(gens.ints(0, 2**31 - 1)))


def numbers(text, how_many, what):
    v = [float(t) for t in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', text)]
    require(len(v) == how_many, 'the log states {} numbers for {}: {!r}', len(v), what, text)
    return v


def log(case, rec):
    p, n = case['p'], case['n']
    seed_all(case['seed'])
    with spy.States() as seen, spy.Log() as out:
        projects.stochastic(p, n)
    require(len(seen.seen) == n, '{} realizations were traced with {} different models', n, len(seen.seen))
    lines = '\n'.join(out.lines).split('\n')
    heads = [re.match(r'\s*Realization\s*#\s*(\d+)\s*:(.*)$', t) for t in lines]
    means = [m.group(1) for m in (re.match(r'\s*coef ev\s*:(.*)$', t) for t in lines) if m]
    draws = [m.group(1) for m in (re.match(r'\s*coef rng\s*:(.*)$', t) for t in lines) if m]
    heads = [m for m in heads if m]
    require(len(heads) == len(means) == len(draws) == n, 'the log states {} realizations, {} fits and {} draws; there were {} realizations', len(heads), len(means), len(draws), n)
    ids = [int(m.group(1)) for m in heads]
    require(ids == list(range(ids[0], ids[0] + n)) and ids[0] in (0, 1), 'the log numbers the realizations {}', ids)
    rec.hit(n > 1 and (any(len(d['v']) > 1 for d in (p['c'], p['p'], p['t'])) or any(len(w[3]['v']) > 1 for w in p['wells'])))
    rec.label(p['state'], '{} realizations'.format(n))
    xt, yt = p['wells'][p['target']][:2]
    for i, s in enumerate(seen.seen):
        base, K, por, H, rech = numbers(heads[i].group(2), 5, 'realization {}'.format(i))
        for name, v, w in (('base', base, p['base']), ('conductivity', K, s['K']), ('porosity', por, s['n']), ('thickness', H, s['H'])):
            require(abs(v - w) <= 0.00501 + 1e-9 * abs(w), 'the log states {} {} for realization {}, used was {}', name, v, i, w)
        used = -2 * (s['coef'][0] + s['coef'][1])
        size = 2 * (abs(s['coef'][0]) + abs(s['coef'][1]))
        require(abs(rech - used) <= 1e-4 * abs(used) + 1e-12 * size, 'the log states recharge {} for realization {}, the coefficients in use give {}', rech, i, used)
        c = numbers(draws[i], 6, 'the draw of realization {}'.format(i))
        require(all(abs(a - b) <= 1e-4 * abs(b) + 1e-300 for a, b in zip(c, s['coef'])), 'the log states coefficients {} for realization {}, used were {}', c, i, list(s['coef']))
        fit = ref.wls(p['base'], s['K'], s['H'], s['wells'], p['obs'], xt, yt)
        if fit['cond'] > 1e6:
            rec.label('fit not judged: condition')
            continue
        c = numbers(means[i], 6, 'the fit of realization {}'.format(i))
        scale = np.abs(fit['coef']) * 1e-4 + np.sqrt(np.diag(fit['cov'])) * 1e-5
        require(all(abs(a - float(b)) <= e for a, b, e in zip(c, fit['coef'], scale)), 'the log states the fit {} for realization {}, its parameters give {}', c, i, list(fit['coef']))


SUBS = [Sub('log', cases(), log, 1600, 12800, 'numbers of the log against the observed states and independent fits')]
