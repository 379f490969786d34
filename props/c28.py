import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, projects, ref

RULE = ('a project and its image under: a shift of all coordinates, quarter turns and mirrors about the target (with path counts that map starting points to starting '
        'points), a permutation of the wells, of the observations, a split of a well into two or three co-located parts, an added well of zero discharge, and combinations. '
        'Non-trivial: the capture zone has at least 8 nodes and the grid at least 8 others.')
ASSUMPTIONS = ['a node may differ if it leaves or enters the zone when the umbra changes by 5% of a cell, or if its membership in the exact zone depends on the integration error']


@st.composite
def cases(draw):
    kind = draw(gens.pick('shift', 'turn', 'turn', 'mirror', 'wells', 'observations', 'split', 'zero', 'all'))
    far = kind == 'shift' and draw(st.booleans())
    where = dict(off=draw(gens.pick((322579.0, 5093431.0), (5093431.0, -91141.0), (-7e6, 340.25))), R=draw(gens.logq(5.0, 50.0))) if far else {}
    p = draw(projects.project(**where, opposite=False, paths=(4, 8) if kind in ('turn', 'all') else (1, 2, 3, 4, 5, 6), neighbours=(1, 2, 3) if kind == 'wells' else (0, 1, 1, 2, 3),
                              aquifer=('confined', 'confined', 'general', 'unconfined', 'mixed')))
    n, m = len(p['wells']), len(p['obs'])
    shift = [draw(gens.sq(5000, 0.25)), draw(gens.sq(5000, 0.25))]
    if far:
        # from map coordinates to local ones
        shift = [s - round(v) for s, v in zip(shift, p['wells'][0][:2])]
    return dict(p=p, kind=kind, shift=shift, turn=draw(gens.ints(1, 3)), mirror=draw(gens.pick('x', 'y')),
                wells=list(draw(st.permutations(range(n)))), obs=list(draw(st.permutations(range(m)))),
                split=[draw(gens.ints(0, n - 1)), draw(gens.q(-0.5, 1.5, 0.01)), draw(st.booleans())],
                zero=[draw(gens.ANGLES), draw(gens.q(0.5, 6.0, 0.01)), draw(gens.ints(0, n))])


def image(case):
    """The transformed project and the map of relative node indices."""
    p, kind = dict(case['p']), case['kind']
    xt, yt = p['wells'][p['target']][:2]
    turn = case['turn'] if kind in ('turn', 'all') else 0
    mirror = case['mirror'] if kind in ('mirror', 'all') else None
    if mirror == 'y' and p['npaths'] % 2:
        mirror = 'x'
    sx, sy = case['shift'] if kind in ('shift', 'all') else (0.0, 0.0)

    def rel(dx, dy):
        if mirror == 'x':
            dy = -dy
        elif mirror == 'y':
            dx = -dx
        for _ in range(turn):
            dx, dy = -dy, dx
        return dx, dy

    def place(x, y):
        if not turn and mirror is None:
            return x + sx, y + sy
        dx, dy = rel(x - xt, y - yt)
        return xt + dx + sx, yt + dy + sy
    wells = [[*place(w[0], w[1]), w[2], w[3]] for w in p['wells']]
    obs = [[*place(o[0], o[1]), o[2], o[3]] for o in p['obs']]
    target = p['target']
    if kind in ('split', 'all'):
        i, f, three = case['split']
        w = wells[i]
        parts = [f, 1 - f] if not three else [f, 0.25, 0.75 - f]
        wells[i:i + 1] = [[w[0], w[1], w[2], dict(k='num', v=[projects.mean(w[3]) * part])] for part in parts]
        target = target + (len(parts) - 1 if target > i else 0)
    if kind in ('zero', 'all'):
        a, r, at = case['zero']
        wells.insert(at, [xt + sx + r * p['R'] * math.cos(a), yt + sy + r * p['R'] * math.sin(a), 0.5, dict(k='num', v=[0.0])])
        target += at <= target
    if kind == 'wells':
        wells = [wells[k] for k in case['wells']]
        target = case['wells'].index(target)
    if kind in ('observations', 'all'):
        obs = [obs[k] for k in case['obs']]
    p.update(wells=wells, obs=obs, target=target)
    return p, rel


def members(pf, p):
    """Captured nodes, as whole numbers of cells from the target."""
    xt, yt = p['wells'][p['target']][:2]
    X, Y = ref.nodes(pf)
    i, j = np.nonzero(pf.pgrid > 0.5 * pf.total_weight)
    kx, ky = (X[i, j] - xt) / p['spacing'], (Y[i, j] - yt) / p['spacing']
    return np.rint(kx).astype(int), np.rint(ky).astype(int), max(np.abs(kx - np.rint(kx)).max(initial=0), np.abs(ky - np.rint(ky)).max(initial=0))


def compare(p, inner, zone, outer, label):
    """Nodes at which the two zones differ although the exact traces leave no doubt about them (so that one of the two is wrong)."""
    miss, extra = inner - zone, zone - outer
    if not miss and not extra:
        return []
    problem = projects.Problem(p)
    try:
        for k in range(p['npaths']):
            problem.trace(k)
        xt, yt = p['wells'][p['target']][:2]
        nodes = sorted(miss | extra)
        X = np.array([[xt + a * p['spacing'] for a, _ in nodes]])
        Y = np.array([[yt + b * p['spacing'] for _, b in nodes]])
        _, sure = problem.zone_at(X, Y)
    except projects.Unfit:
        label('not judged: differences where the exact trace is singular')
        return []
    return [(n, n in zone) for n, s in zip(nodes, sure[0]) if s]


def relation(case, rec):
    p = case['p']
    q, rel = image(case)
    rec.label(case['kind'], p['state'])
    e = 0.05 * p['spacing']
    outs = []
    for u in (p['umbra'] - e, p['umbra'] + e):
        pf = projects.deterministic(p, umbra=u)
        kx, ky, off = members(pf, p)
        require(off < 1e-3, 'the nodes do not lie at whole cells from the target ({})', off)
        kx, ky = rel(kx, ky)
        outs.append(set(zip(kx.tolist(), ky.tolist())))
    pf = projects.deterministic(q)
    kx, ky, off = members(pf, q)
    require(off < 1e-3, 'the nodes of the image do not lie at whole cells from its target ({})', off)
    zone = set(zip(kx.tolist(), ky.tolist()))
    rec.hit(len(zone) >= 8 and pf.pgrid.size - len(zone) >= 8)
    bad = compare(q, outs[0], zone, outs[1], rec.label)
    if bad:
        (a, b), isin = bad[0]
        require(False, 'after {}, {} nodes differ, for example that {} by {} cells from the target is {} the zone of the image but {} the image of the zone', case['kind'], len(bad),
                a, b, 'in' if isin else 'not in', 'not in' if isin else 'in')


SUBS = [Sub('relation', cases(), relation, 1200, 12000, 'the zone of the image against the image of the zone', cpu=40)]
