import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, spy

RULE = ('limits: whole stochastic zones of projects with constants, pairs and triples (also of zero width, as lists, one-sided) and 1 to 130 realizations; '
        'laws: 600 and 4000 realizations of one project, Kolmogorov-Smirnov against the stated law, gaps in the values drawn, rank correlations between all parameters and between '
        'successive realizations. Non-trivial: at least two realizations with at least one uncertain parameter (limits), at least three uncertain parameters (laws).')
ASSUMPTIONS = ['statistical thresholds have a false-alarm probability below 1e-8 per comparison; every random stream is seeded from the case']


def twins(draw, p):
    """Now and then wells with equal distributions, or at the same place."""
    for i in range(1, len(p['wells'])):
        if draw(gens.ints(0, 2)) == 0:
            p['wells'][i][3] = dict(k=p['wells'][0][3]['k'], v=list(p['wells'][0][3]['v']))
    if abs(p['duration']) < 0.1 and draw(gens.ints(0, 3)) == 0:
        p['t'] = dict(k=p['c']['k'], v=list(p['c']['v']))


@st.composite
def cases(draw):
    p = draw(projects.project(paths=(1, 2, 3), opposite=False, kinds=('num', 'pair', 'pair', 'triple', 'triple')))
    # zero widths and one-sided distributions
    for d in [p['c'], p['p'], p['t']] + [w[3] for w in p['wells']]:
        if len(d['v']) > 1 and draw(gens.ints(0, 5)) == 0:
            k = draw(gens.pick('zero', 'left', 'right'))
            if k == 'zero':
                d['v'] = [d['v'][0]] * len(d['v'])
            elif len(d['v']) == 3:
                d['v'][1] = d['v'][0] if k == 'left' else d['v'][2]
    n = draw(gens.pick(1, 2, 3, 5, 8, 13, 21, 40, 130))
    p['duration'] *= draw(gens.pick(1.0, 0.2, 0.02))
    if n > 40 or draw(gens.ints(0, 7)) == 0:
        p['duration'] = math.copysign(0.02, p['duration'])
    twins(draw, p)
    if n > 40 and draw(st.booleans()):
        for name in 'cpt':
            p[name] = projects.constant(p[name])
    p['maxstep'] = p['spacing'] * 0.5
    p['tol'] = p['spacing'] * 0.01
    return dict(p=p, n=n, seed=draw(gens.ints(0, 2**31 - 1)))


def columns(p, states):
    """Name, distribution and drawn values of each parameter."""
    out = [('conductivity', p['c'], [s['K'] for s in states]), ('porosity', p['p'], [s['n'] for s in states]), ('thickness', p['t'], [s['H'] for s in states])]
    for i, w in enumerate(p['wells']):
        out.append(('discharge of well {}'.format(i), w[3], [s['wells'][i][3] for s in states]))
    return out


def limits(case, rec):
    p, n = case['p'], case['n']
    seed_all(case['seed'])
    with spy.States() as seen:
        pf = projects.stochastic(p, n)
    states = seen.seen
    require(len(states) == n, '{} realizations were traced with {} different models', n, len(states))
    for s in states:
        require(s['base'] == p['base'] and len(s['wells']) == len(p['wells']), 'a realization has base {} and {} wells', s['base'], len(s['wells']))
        for a, b in zip(s['wells'], p['wells']):
            require(list(a[:3]) == b[:3], 'a realization has a well at {}, the project at {}', a[:3], b[:3])
    uncertain = 0
    for name, d, v in columns(p, states):
        lo, hi = projects.support(d)
        require(all(lo <= x <= hi for x in v), '{} {} is outside its limits {}', name, [x for x in v if not lo <= x <= hi][:1], d['v'])
        if lo < hi:
            uncertain += 1
            require(len(set(v)) == n, '{} of {} realizations has only {} different values', name, n, len(set(v)))
    cols = [(name, d, v) for name, d, v in columns(p, states) if d['v'][0] < d['v'][-1]]
    for i in range(len(cols)):
        for j in range(i):
            (na, da, va), (nb, db, vb) = cols[i], cols[j]
            for a, b in zip(va, vb):
                ra, rb = (a - da['v'][0]) / (da['v'][-1] - da['v'][0]), (b - db['v'][0]) / (db['v'][-1] - db['v'][0])
                require(abs(ra - rb) > 1e-12 and abs(ra + rb - 1) > 1e-12, '{} and {} have the same place {} in their ranges: not drawn independently', na, nb, ra)
    require(abs(pf.total_weight - n * (pf.total_weight / n)) < 1e-9 and pf.total_weight > 0, 'total weight {}', pf.total_weight)
    pr = pf.pgrid / pf.total_weight * n
    require(np.all(np.abs(pr - np.round(pr)) < 1e-9) and pr.min() >= 0 and pr.max() <= n * (1 + 1e-12),
            'a probability of {} is not a multiple of 1/{}', float(pr.flat[int(np.argmax(np.abs(pr - np.round(pr))))]) / n, n)
    rec.hit(n > 1 and uncertain > 0)
    rec.label('{} uncertain'.format(min(uncertain, 4)), '1' if n == 1 else '2 to 8' if n < 9 else 'over 8')
    rec.label(*['zero width' for _, d, _ in columns(p, states) if len(d['v']) > 1 and d['v'][0] == d['v'][-1]][:1])


@st.composite
def many(draw):
    p = draw(projects.project(paths=(1,), kinds=('pair', 'triple', 'triple'), neighbours=(0, 1, 2), noise=True))
    p['duration'] = math.copysign(0.02, p['duration'])
    for d in [p['c'], p['p'], p['t']] + [w[3] for w in p['wells']]:
        if len(d['v']) > 1:
            a, m, b = d['v'][0], projects.mean(d), d['v'][-1]
            w = draw(gens.q(0.05, 0.3, 0.01)) * max(abs(m), 1.0) * (0.1 if d in (p['p'],) else 1.0)
            if b - a < w:
                a, b = a - w / 2, b + w / 2
                d['v'] = [a, b] if len(d['v']) == 2 else [a, min(max(d['v'][1], a), b), b]
    twins(draw, p)
    for name in 'cpt':
        d = p[name]
        if d['v'][0] <= 0:
            d['v'] = [0.5 * projects.mean(d) + 1e-3] + d['v'][1:]
            d['v'].sort()
    return dict(p=p, seed=draw(gens.ints(0, 2**31 - 1)))


def anew(case, rec):
    """A second run draws anew."""
    p, n = case['p'], case['n']
    both = []
    for k in range(2):
        seed_all(case['seed'] + k)
        with spy.States() as seen:
            projects.stochastic(p, n)
        both.append(columns(p, seen.seen))
    uncertain = [(a, b) for a, b in zip(*both) if a[1]['v'][0] < a[1]['v'][-1]]
    rec.hit(bool(uncertain))
    for (name, d, va), (_, _, vb) in uncertain:
        again = sorted(set(va) & set(vb))
        require(not again, 'two runs of {} realizations share {} of their values of the {} {}, e.g. {}', n, len(again), name, d['v'], again[:1])


def law(d):
    from scipy import stats
    v = d['v']
    if len(v) == 2:
        return stats.uniform(v[0], v[1] - v[0]).cdf
    return stats.triang((v[1] - v[0]) / (v[2] - v[0]), v[0], v[2] - v[0]).cdf


def laws(n):
    def run(case, rec):
        from scipy import stats
        p = case['p']
        seed_all(case['seed'])
        with spy.States() as seen:
            projects.stochastic(p, n)
        states = seen.seen
        require(len(states) == n, '{} realizations were traced with {} different models', n, len(states))
        cols = [(name, d, np.array(v, float)) for name, d, v in columns(p, states) if d['v'][0] < d['v'][-1]]
        rec.hit(len(cols) >= 3)
        ranks = []
        for name, d, v in cols:
            pv = stats.kstest(v, law(d)).pvalue
            require(pv > 1e-9, '{} realizations of the {} with distribution {} do not follow its law (p = {})', n, name, d['v'], pv)
            # the ends of the range and every part of it are reached, and not too often
            u = np.sort(law(d)(v))
            gap = np.diff(np.concatenate([[0.0], u, [1.0]]))
            require(float(gap.max()) < (21.0 + math.log(n)) / n, 'no value of {} realizations of the {} lies in the part from {} to {} of its distribution {}', n, name,
                    float(np.concatenate([[0.0], u])[int(gap.argmax())]), float(np.concatenate([u, [1.0]])[int(gap.argmax())]), d['v'])
            require(len(set(v.tolist())) > n * 0.999, '{} realizations of the {} {} have only {} different values', n, name, d['v'], len(set(v.tolist())))
            ranks.append(np.argsort(np.argsort(v)) / (n - 1.0) - 0.5)
        z = 6.0 / math.sqrt(n)
        for i in range(len(cols)):
            for j in range(i + 1):
                if j < i:
                    r = 12 * float(np.mean(ranks[i] * ranks[j]))
                    require(abs(r) < z, '{} and {} have rank correlation {} over {} realizations', cols[i][0], cols[j][0], r, n)
                for lag in (1, 2):
                    r = 12 * float(np.mean(ranks[i][lag:] * ranks[j][:-lag]))
                    require(abs(r) < z * 1.1, '{} and {} of the realization {} before have rank correlation {}', cols[i][0], cols[j][0], lag, r)
    return run


SUBS = [Sub('limits', cases(), limits, 480, 12000, 'model states during tracing against the distributions', cpu=60),
        Sub('anew', cases(), anew, 160, 4000, 'values of two runs from different random states', cpu=60),
        Sub('laws', many(), laws(600), 24, 800, 'goodness of fit and independence over 600 realizations', cpu=60, shrink=False),
        Sub('long', many(), laws(4000), 8, 400, 'the same over 4000 realizations', cpu=240, shrink=False)]
