import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, ref, spy

RULE = ('projects with uncertain parameters and noisy observations, 1 to 6 (sometimes 25) realizations, 1 to 4 (sometimes 10) paths, confined, unconfined and mixed aquifers, both directions; the model '
        'states in use while tracing are observed, and the zone of each is computed independently. '
        'Non-trivial: every realization is comparable and some node has a probability strictly between 0 and 1, or there is one realization with at least 5 captured nodes.')
ASSUMPTIONS = ['nodes within 5% of a cell of an umbra edge, or whose membership changes with the integration error, count as in doubt for that realization; '
               'projects in which a realization runs dry or into a well are not judged']


@st.composite
def cases(draw):
    p = draw(projects.project(opposite=False, paths=(1, 2, 3, 4, 4, 10), kinds=('num', 'pair', 'triple', 'triple'), width=0.6))
    n = draw(gens.pick(*[2, 2, 3, 4, 6, 1] * 3, 25))
    if n > 6:
        p['npaths'] = 1
    return dict(p=p, n=n, seed=draw(gens.ints(0, 2**31 - 1)))


def fraction(case, rec):
    p, n = case['p'], case['n']
    seed_all(case['seed'])
    with spy.States() as seen:
        pf = projects.stochastic(p, n)
    require(len(seen.seen) == n, '{} realizations were traced with {} different models', n, len(seen.seen))
    rec.label(p['state'], 'forward' if p['duration'] < 0 else 'backward', '{} realizations'.format(n))
    X, Y = ref.nodes(pf)
    lo, hi = np.zeros(X.shape), np.zeros(X.shape)
    try:
        for s in seen.seen:
            inside, sure = projects.Problem(p, s).zone_at(X, Y)
            lo += inside & sure
            hi += inside | ~sure
    except (projects.Unfit, ValueError, ArithmeticError) as e:
        rec.label('not judged: ' + (str(e) if isinstance(e, projects.Unfit) else type(e).__name__))
        return
    count = pf.pgrid / pf.total_weight * n
    rec.hit(bool(np.any((lo > 0) & (hi < n))) if n > 1 else np.sum(lo) >= 5)
    bad = (count < lo - 1e-6) | (count > hi + 1e-6)
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        require(False, '{} nodes differ, for example node ({}, {}) has probability {}, but {} of the {} realizations capture it for certain and {} may', int(np.sum(bad)), X[i, j], Y[i, j],
                count[i, j] / n, int(lo[i, j]), n, int(hi[i, j]))


SUBS = [Sub('fraction', cases(), fraction, 640, 8000, 'independent zones of the observed realizations', cpu=40)]
