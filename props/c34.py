import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require, seed_all
from vlib import gens, projects, ref, spy
from props.c28 import compare, members

RULE = ('a project and the same with a longer duration (1.02 to 3 times), a wider umbra (1.01 to 2 times) or a multiple of the paths; stochastic: the same realizations with a wider '
        'umbra. Non-trivial: both zones have at least 5 nodes and the larger has at least one more.')
ASSUMPTIONS = ['for a longer duration or more paths, a node may leave the zone if it belongs to it within 5% of a cell, or if its membership in the exact zone depends on the integration error']


@st.composite
def cases(draw):
    p = draw(projects.project(opposite=False, paths=(1, 2, 3, 4)))
    kind = draw(gens.pick('duration', 'duration', 'umbra', 'paths'))
    return dict(p=p, kind=kind, f=draw(gens.logq(1.02, 3.0)) if kind == 'duration' else draw(gens.logq(1.01, 2.0)) if kind == 'umbra' else draw(gens.ints(2, 4)))


def grow(case, rec):
    p, kind, f = case['p'], case['kind'], case['f']
    e = 0.05 * p['spacing']
    if kind == 'duration':
        # (the trace of the shorter duration must not be clipped by a step that the longer one does not have)
        small, big = dict(p), dict(p, duration=p['duration'] * f)
    elif kind == 'umbra':
        small, big = dict(p), dict(p, umbra=p['umbra'] * f)
        e = 0.0
    else:
        small, big = dict(p), dict(p, npaths=p['npaths'] * f)
    zones = []
    for q in (small, dict(big, umbra=big['umbra'] + e)):
        pf = projects.deterministic(q)
        kx, ky, off = members(pf, q)
        require(off < 1e-3, 'the nodes do not lie at whole cells from the target ({})', off)
        zones.append(set(zip(kx.tolist(), ky.tolist())))
    rec.label(kind, p['state'])
    rec.hit(len(zones[0]) >= 5 and len(zones[1]) > len(zones[0]))
    lost = zones[0] - zones[1]
    if lost and kind != 'umbra':
        bad = compare(small, set(), zones[0], zones[1], rec.label)
        lost = {b[0] for b in bad}
    require(not lost, 'with {} times the {}, {} of {} nodes leave the zone, for example that {} cells from the target', f, kind, len(lost), len(zones[0]), sorted(lost)[:1])


@st.composite
def random_cases(draw):
    p = draw(projects.project(opposite=False, paths=(1, 2, 3), kinds=('num', 'pair', 'triple'), width=0.6))
    return dict(p=p, n=draw(gens.ints(2, 5)), f=draw(gens.logq(1.01, 2.0)), seed=draw(gens.ints(0, 2**31 - 1)))


def random(case, rec):
    p, n = case['p'], case['n']
    out = []
    for u in (p['umbra'], p['umbra'] * case['f']):
        seed_all(case['seed'])
        with spy.States() as seen:
            pf = projects.stochastic(p, n, umbra=u)
        X, Y = ref.nodes(pf)
        xt, yt = p['wells'][p['target']][:2]
        kx, ky = np.rint((X - xt) / p['spacing']).astype(int), np.rint((Y - yt) / p['spacing']).astype(int)
        out.append(({(a, b): v for a, b, v in zip(kx.ravel().tolist(), ky.ravel().tolist(), (pf.pgrid / pf.total_weight).ravel().tolist()) if v > 0},
                    [(s['K'], s['n'], s['H'], list(s['coef'])) for s in seen.seen]))
    if out[0][1] != out[1][1]:
        rec.label('not judged: other realizations')
        return
    small, big = out[0][0], out[1][0]
    rec.label(p['state'])
    rec.hit(len(small) >= 5 and sum(big.values()) > sum(small.values()))
    for k, v in small.items():
        require(big.get(k, 0.0) >= v - 1e-9, 'with {} times the umbra the probability {} cells from the target falls from {} to {}', case['f'], k, v, big.get(k, 0.0))


SUBS = [Sub('grow', cases(), grow, 1280, 12000, 'the smaller zone against the larger', cpu=40),
        Sub('random', random_cases(), random, 480, 5000, 'probabilities of the same realizations under two umbras', cpu=40)]
