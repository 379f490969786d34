import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Fail, require, seed_all
from vlib import gens

RULE = ('check: numbers, tuples and lists of 0 to 6 entries in and out of order and bounds, at the bounds, of zero width, mixed int and float, and values of other types, '
        'with random bounds; laws: valid distributions, 400 samples each, Kolmogorov-Smirnov and range. '
        'Non-trivial: the value is a pair or triple (check); the distribution has positive width (laws).')
ASSUMPTIONS = ['numbers are finite Python ints and floats (not-a-number is tested as invalid)', 'statistical thresholds have a false-alarm probability below 1e-9']

NUM = st.one_of(gens.ints(-5, 50), gens.sq(20, 0.25), gens.logq(1e-6, 1e6), gens.logq(1e-6, 1e6).map(lambda v: -v))


def build(c):
    t, v = c['t'], c['v']
    return dict(num=lambda: v, tuple=lambda: tuple(v), list=lambda: list(v), str=lambda: str(v), none=lambda: None, dict=lambda: {'a': 1, 'b': 2}, set=lambda: {1, 2},
                nan=lambda: float('nan'), complex=lambda: 1 + 2j, nanpair=lambda: tuple(v[:-1] + [float('nan')]) if v else (float('nan'), 1.0))[t]()


@st.composite
def values(draw):
    k = draw(gens.pick('num', 'seq', 'seq', 'seq', 'sorted', 'sorted', 'sorted', 'flat', 'other'))
    seq = draw(gens.pick('tuple', 'list'))
    if k == 'num':
        return dict(t='num', v=draw(NUM))
    if k == 'other':
        return dict(t=draw(gens.pick('str', 'none', 'dict', 'set', 'nan', 'complex', 'nanpair')), v=[draw(NUM) for _ in range(draw(gens.ints(1, 3)))])
    n = draw(gens.pick(0, 1, 2, 2, 2, 3, 3, 3, 4, 6)) if k == 'seq' else draw(gens.pick(2, 3))
    v = [draw(NUM) for _ in range(n)]
    if k == 'flat':
        v = [v[0]] * n
    elif k == 'sorted' or draw(st.booleans()):
        v.sort()
    if n == 3 and draw(gens.ints(0, 3)) == 0:
        v[1] = draw(gens.pick(v[0], v[2]))
    return dict(t=seq, v=v)


@st.composite
def bounded(draw):
    c = draw(values())
    v = c['v'] if isinstance(c['v'], list) else [c['v']]
    k = draw(gens.pick('wide', 'wide', 'wide', 'at', 'below', 'above', 'any', 'standard', 'infinite'))
    lo, hi = (min(v), max(v)) if v else (0, 1)
    if k == 'wide':
        lo, hi = lo - 1, hi + 1
    elif k == 'below':
        hi = lo + (hi - lo) * 0.5 if hi > lo else hi - 1
    elif k == 'above':
        lo = lo + (hi - lo) * 0.5 if hi > lo else lo + 1
    elif k == 'any':
        lo, hi = draw(NUM), draw(NUM)
    elif k == 'standard':
        lo, hi = 0, draw(gens.pick(1, 'inf'))
    elif k == 'infinite':
        lo, hi = '-inf', 'inf'
    return dict(c, lo=lo, hi=hi)


def valid(c, lo, hi):
    if c['t'] == 'num':
        return lo <= c['v'] <= hi
    if c['t'] in ('tuple', 'list'):
        v = c['v']
        return len(v) in (2, 3) and all(lo <= x <= hi for x in v) and all(v[i] <= v[i + 1] for i in range(len(v) - 1))
    return False


def check(case, rec):
    from oneka.stochastic import DistributionError, isdistribution, generate_random_variate, compute_variate_mean
    lo, hi = float(case['lo']) if isinstance(case['lo'], str) else case['lo'], float(case['hi']) if isinstance(case['hi'], str) else case['hi']
    arg = build(case)
    want = valid(case, lo, hi)
    rec.hit(case['t'] in ('tuple', 'list') and len(case['v']) in (2, 3))
    rec.label('valid' if want else 'invalid', case['t'])
    try:
        got = isdistribution(arg, lo, hi)
    except TypeError:
        if case['t'] in ('num', 'tuple', 'list'):
            raise
        got = False
    require(bool(got) == want, 'isdistribution({!r}, {}, {}) is {}', arg, lo, hi, got)
    seed_all(1)
    if want:
        v = case['v'] if isinstance(case['v'], list) else [case['v']]
        keep = repr(arg)
        m = compute_variate_mean(arg)
        size = max(abs(x) for x in v)
        require(abs(m - math.fsum(v) / len(v)) <= 1e-14 * size, 'the mean of {!r} is given as {}', arg, m)
        for _ in range(5):
            x = generate_random_variate(arg)
            require(v[0] <= x <= v[-1], '{!r} was sampled as {}', arg, x)
            if case['t'] == 'num':
                require(x == arg, 'the constant {!r} was sampled as {}', arg, x)
        require(repr(arg) == keep, 'sampling changed the distribution from {} to {!r}', keep, arg)
    elif case['t'] in ('tuple', 'list') and len(case['v']) not in (2, 3):
        for f in (generate_random_variate, compute_variate_mean):
            try:
                x = f(arg)
            except DistributionError:
                continue
            raise Fail('{}({!r}) returned {}'.format(f.__name__, arg, x))


@st.composite
def laws(draw):
    n = draw(gens.pick(2, 3))
    a = draw(st.one_of(gens.sq(100, 0.5), gens.logq(1e-4, 1e4)))
    w = draw(gens.logq(1e-3, 1e4))
    v = [a, a + w]
    if n == 3:
        v.insert(1, a + w * draw(gens.q(0, 1, 0.05)))
        v[1] = min(max(v[1], v[0]), v[2])
    if draw(gens.ints(0, 15)) == 0:
        v = [a] * n
    if draw(gens.ints(0, 5)) == 5:
        # whole numbers, as people write them
        v = [math.floor(v[0])] + [round(t) for t in v[1:-1]] + [math.ceil(v[-1])]
    return dict(t=draw(gens.pick('tuple', 'list')), v=v, seed=draw(gens.ints(0, 2**31 - 1)))


def law(case, rec):
    from scipy import stats
    from oneka.stochastic import generate_random_variate
    v = case['v']
    arg = build(case)
    seed_all(case['seed'])
    n = 400
    x = np.array([generate_random_variate(arg) for _ in range(n)])
    require(np.all((x >= v[0]) & (x <= v[-1])), '{!r} was sampled as {}', arg, [float(t) for t in x if not v[0] <= t <= v[-1]][:1])
    rec.label('pair' if len(v) == 2 else 'triple', case['t'])
    if v[0] == v[-1]:
        rec.label('zero width')
        return
    rec.hit()
    if v[-1] - v[0] > 1e-6 * max(abs(v[0]), abs(v[-1])):
        k = n - len(set(x.tolist()))
        require(k <= 3, '{} of {} samples of the continuous {!r} are repetitions', k, n, arg)
    cdf = stats.uniform(v[0], v[1] - v[0]).cdf if len(v) == 2 else stats.triang((v[1] - v[0]) / (v[2] - v[0]), v[0], v[2] - v[0]).cdf
    pv = stats.kstest(x, cdf).pvalue
    require(pv > 1e-10, '{} samples of {!r} do not follow its law (p = {})', n, arg, pv)
    u = cdf(x) - 0.5
    for lag in (1, 2, 3):
        r = 12 * float(np.mean(u[lag:] * u[:-lag]))
        require(abs(r) < 6.6 / math.sqrt(n), 'samples of {!r} {} apart are correlated ({})', arg, lag, r)


SUBS = [Sub('check', bounded(), check, 48000, 384000, 'reference predicate'),
        Sub('laws', laws(), law, 3200, 25600, 'Kolmogorov-Smirnov against the stated law')]
