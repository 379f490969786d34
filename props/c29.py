import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, ref
from props.c28 import compare, members

RULE = ('projects whose distributions are constants, zero-width pairs or zero-width triples, and whose observations have standard deviations of 1e-9 of the head; 1 to 6 '
        'realizations, confined, unconfined and mixed aquifers, 1 to 4 wells, any target, both directions. Non-trivial: at least 8 captured and 8 free nodes.')
ASSUMPTIONS = ['a node may differ if it leaves or enters the zone when the umbra changes by 5% of a cell, or if its membership in the exact zone depends on the integration error']


@st.composite
def cases(draw):
    p = draw(projects.project(kinds=('num',), opposite=False))

    def flat(d):
        k = draw(gens.pick('num', 'num', 'pair', 'triple'))
        v = d['v'][0]
        return dict(k='num', v=[v]) if k == 'num' else dict(k=draw(gens.pick('tuple', 'list')), v=[v] * (2 if k == 'pair' else 3))
    p.update(c=flat(p['c']), p=flat(p['p']), t=flat(p['t']))
    for w in p['wells']:
        w[3] = flat(w[3])
    for o in p['obs']:
        o[3] = 1e-9 * (o[2] - p['base'])
    return dict(p=p, n=draw(gens.ints(1, 6)), seed=draw(gens.ints(0, 2**31 - 1)))


def same(case, rec):
    p, n = case['p'], case['n']
    rec.label(p['state'], '{} realizations'.format(n))
    e = 0.05 * p['spacing']
    outs = []
    for u in (p['umbra'] - e, p['umbra'] + e):
        kx, ky, off = members(projects.deterministic(p, umbra=u), p)
        outs.append(set(zip(kx.tolist(), ky.tolist())))
    seed_all(case['seed'])
    pf = projects.stochastic(p, n)
    pr = pf.pgrid / pf.total_weight
    kx, ky, off2 = members(pf, p)
    require(max(off, off2) < 1e-3, 'the nodes do not lie at whole cells from the target')
    zone = set(zip(kx.tolist(), ky.tolist()))
    rec.hit(len(zone) >= 8 and pr.size - len(zone) >= 8)
    bad = compare(p, outs[0], zone, outs[1], rec.label)
    require(not bad, 'without uncertainty, {} nodes differ between {} realizations and the deterministic zone, for example that {} cells from the target', len(bad), n,
            bad[0] if bad else '')
    # intermediate probabilities only where membership is in doubt
    i, j = np.nonzero((pr > 1e-9) & (pr < 1 - 1e-9))
    if i.size:
        X, Y = ref.nodes(pf)
        xt, yt = p['wells'][p['target']][:2]
        mid = {(int(round((X[a, b] - xt) / p['spacing'])), int(round((Y[a, b] - yt) / p['spacing']))) for a, b in zip(i, j)}
        doubt = outs[1] - outs[0]
        bad = compare(p, set(), mid - doubt, set(), rec.label)
        require(not bad, 'without uncertainty, probabilities such as {} occur, for example {} cells from the target', float(pr[i[0], j[0]]), bad[0] if bad else '')


SUBS = [Sub('same', cases(), same, 840, 10000, 'the stochastic field against the deterministic one', cpu=40)]
