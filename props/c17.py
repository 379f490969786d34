import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, ref, projects

RULE = ('projects with 1 to 4 wells, any target, constant, uniform and triangular parameters as tuples or lists, 9 to 20 noisy observations, confined, '
        'unconfined and mixed aquifers, backward from pumping and forward from injecting wells, 1 to 8 paths, spacings R/5 to R/10; also 30 to 130 short paths. '
        'Non-trivial: comparable at all, and at least 5 nodes are certainly inside and 5 certainly outside.')
ASSUMPTIONS = ['nodes within 5% of a cell of the umbra edge, or whose membership changes with the integration error, are not judged; '
               'traces that run dry or into a well are not judged here (C10)']


def zone(case, rec):
    judge(case, rec, lambda: projects.deterministic(case))


def judge(p, rec, make):
    """The field that make() returns is that of the project."""
    problem = projects.Problem(p)
    rec.label(p['state'], 'forward' if p['duration'] < 0 else 'backward', '{} wells'.format(len(p['wells'])))
    try:
        for k in range(p['npaths']):
            problem.trace(k)
    except projects.Unfit as e:
        rec.label('not judged: ' + str(e))
        return
    pf = make()
    require(pf.total_weight > 0, 'total weight {}', pf.total_weight)
    pr = pf.pgrid / pf.total_weight
    require(np.all((pr == 0) | (np.abs(pr - 1) < 1e-12)), 'a deterministic capture zone has probabilities {}', sorted(set(pr.ravel()))[:5])
    require(abs(pf.deltax - p['spacing']) == 0 and abs(pf.deltay - p['spacing']) == 0, 'spacing {}, {} instead of {}', pf.deltax, pf.deltay, p['spacing'])
    try:
        inside, sure = problem.zone(pf)
    except projects.Unfit as e:
        rec.label('not judged: ' + str(e))
        return
    got = pr > 0.5
    rec.hit(np.sum(inside & sure) >= 5 and np.sum(~inside & sure) >= 5)
    bad = sure & (got != inside)
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        require(False, '{} of {} nodes differ, for example node ({}, {}) is {} the capture zone but {} the umbra of the exact traces', int(np.sum(bad)), int(np.sum(sure)),
                pf.xmin + j * pf.deltax, pf.ymin + i * pf.deltay, 'in' if got[i, j] else 'not in', 'within' if inside[i, j] else 'outside')
    # Nothing of the zone lies beyond the grid.
    for k in range(p['npaths']):
        P, _ = problem.trace(k)
        u = p['umbra'] - 0.05 * p['spacing']
        require(P[0].min() - u > pf.xmin - pf.deltax and P[0].max() + u < pf.xmax + pf.deltax and P[1].min() - u > pf.ymin - pf.deltay and P[1].max() + u < pf.ymax + pf.deltay,
                'trace {} reaches beyond the grid', k)


@st.composite
def stars(draw):
    """As many paths as real projects have, short ones that can be told apart."""
    p = draw(projects.project(paths=(30, 60, 90, 110, 130), neighbours=(0, 0, 1), opposite=False))
    well = p['wells'][p['target']]
    well[2] = draw(gens.pick(0.25, 1.0, 2.5))
    r = well[2] + 1
    gap = 2 * math.pi * r / p['npaths']
    p['umbra'] = gap * draw(gens.q(0.25, 0.4, 0.01))
    p['spacing'] = p['umbra'] * draw(gens.q(0.7, 1.0, 0.01))
    depth = projects.mean(p['t']) if p['confined'] else min(projects.mean(p['t']), 0.5 * projects.mean(p['t']))
    speed = abs(projects.mean(well[3])) / (2 * math.pi * r * depth * projects.mean(p['p']))
    p['duration'] = math.copysign(draw(gens.q(0.5, 4.0, 0.1)) * p['spacing'] / speed, p['duration'])
    p['tol'], p['maxstep'] = 1e-4 * p['spacing'], p['spacing']
    return p


SUBS = [Sub('zone', projects.project(), zone, 800, 16000, 'independent fit, DOP853 traces and rasteriser', cpu=60),
        Sub('stars', stars(), zone, 64, 1600, 'the same, for 30 to 130 short paths that can be told apart', cpu=60)]
