import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, projects, ref, spy

RULE = ('projects with constants, pairs and triples, as numbers, tuples or lists, any target, any state of the aquifer, both directions; the numbers of the log against the means, an '
        'independent fit, and the model states in use while tracing. Non-trivial: at least one uncertain parameter.')
ASSUMPTIONS = ['numbers are stated with the precision of the log: two decimals for parameters, five digits for coefficients; fits with a scaled condition number above 1e6 are not judged']
FLOAT = r'[-+]?\d[\d,]*\.?\d*(?:[eE][-+]?\d+)?'


@st.composite
def cases(draw):
    p = draw(projects.project(paths=(1,)))
    p['duration'] = math.copysign(0.02, p['duration'])
    return dict(p=p)


def log(case, rec):
    p = case['p']
    with spy.States() as seen, spy.Log() as out:
        projects.deterministic(p)
    require(len(seen.seen) == 1, 'a deterministic zone was traced with {} different models', len(seen.seen))
    s = seen.seen[0]
    rec.hit(any(len(d['v']) > 1 for d in (p['c'], p['p'], p['t'])) or any(len(w[3]['v']) > 1 for w in p['wells']))
    xt, yt = p['wells'][p['target']][:2]
    fit = projects.Problem(p).fit
    require(s['xo'] == xt and s['yo'] == yt, 'the local origin is ({}, {}), the target well is at ({}, {})', s['xo'], s['yo'], xt, yt)

    def stated(name):
        v = [re.search(r'=\s*(' + FLOAT + ')', t) for t in out.lines if re.match(r'\s*' + name + r'\s*=', t)]
        require(len(v) == 1 and v[0], 'the log states {} {} times', name, len(v))
        return float(v[0].group(1).replace(',', ''))
    for name, d in (('conductivity', p['c']), ('porosity', p['p'])):
        require(abs(stated(name) - projects.mean(d)) <= 0.00501 + 1e-9 * projects.mean(d), 'the log states {} {}, the mean of {} is {}', name, stated(name), d['v'], projects.mean(d))
    require(abs(stated('base') - p['base']) <= 0.00501, 'the log states base {}, it is {}', stated('base'), p['base'])
    if fit['cond'] > 1e6:
        rec.label('not judged: condition')
        return
    rec.label(p['state'])
    c = [stated(k) for k in 'ABCDEF']
    scale = np.abs(fit['coef']) * 1e-4 + np.sqrt(np.diag(fit['cov'])) * 1e-5
    require(all(abs(a - b) <= e for a, b, e in zip(c, fit['coef'], scale)), 'the log states coefficients {}, the fit gives {}', c, list(fit['coef']))
    require(all(abs(a - b) <= 1e-4 * abs(b) + 1e-300 for a, b in zip(c, s['coef'])), 'the log states coefficients {}, used were {}', c, list(s['coef']))
    rech = -2 * (s['coef'][0] + s['coef'][1])
    size = 2 * (abs(s['coef'][0]) + abs(s['coef'][1]))
    require(abs(stated('recharge') - rech) <= 1e-4 * abs(rech) + 1e-12 * size, 'the log states recharge {}, the coefficients give {}', stated('recharge'), rech)


SUBS = [Sub('log', cases(), log, 3840, 30720, 'numbers of the log against means, fit and model state')]
