import copy
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens

RULE = ('merge: 1 to 12 (sometimes to 150) places with 1 to 5 observations each (at exactly the same coordinates, or within 0.4 m), interleaved in any order, plus wells that remove some of '
        'them; the same list also permuted; chains: observations 0.2 to 2.5 m, or exactly 1 m, apart in arbitrary arrangements, where who merges with whom is open. '
        'Non-trivial: a place has at least two observations that are not adjacent in the list.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    off = draw(gens.OFFSETS)
    n = draw(gens.ints(1, 12))
    places = [[off[0] + 10.0 * (i % 4) + draw(gens.sq(3, 0.25)), off[1] + 10.0 * (i // 4) + draw(gens.sq(3, 0.25))] for i in range(n)]
    obs = []
    for i, p in enumerate(places):
        for _ in range(draw(gens.pick(1, 1, 2, 2, 3, 5))):
            jit = draw(gens.pick(0.0, 0.0, 0.4))
            a = draw(gens.ANGLES)
            s = draw(gens.pick(1.0, 0.5, None)) or draw(gens.logq(1e-5, 1000.0))
            obs.append([p[0] + jit * math.cos(a), p[1] + jit * math.sin(a), draw(gens.sq(300, 0.01)), s, i])
    if draw(gens.ints(0, 15)) == 15:
        # as many as in real projects, and places with many observations
        r = random.Random(draw(gens.ints(0, 10**6)))
        for i in range(len(places), r.randint(20, 150)):
            places.append([off[0] + 10.0 * (i % 4), off[1] + 10.0 * (i // 4)])
            for _ in range(r.choice([1, 1, 1, 2, 3, 12])):
                obs.append([places[i][0], places[i][1], 0.01 * r.randint(-30000, 30000), r.choice([0.1, 1.62, 2.0, 30.0]), i])
        r.shuffle(obs)
        perm = list(range(len(obs)))
        r.shuffle(perm)
        wells = [[p[0], p[1] + 1.0, 0.25, 10.0] for p in places if r.random() < 0.1]
        return dict(obs=obs, perm=perm, wells=wells)
    obs = [obs[k] for k in draw(st.permutations(range(len(obs))))]
    perm = draw(st.permutations(range(len(obs))))
    wells = [[p[0], p[1] + 1.0, 0.25, 10.0] for p in places if draw(gens.ints(0, 7)) == 0]
    return dict(obs=obs, perm=list(perm), wells=wells)


def average(group):
    w = [1 / (Fraction(o[3])**2) for o in group]
    return float(sum(a * Fraction(o[2]) for a, o in zip(w, group)) / sum(w)), math.sqrt(float(1 / sum(w)))


def compare(out, groups, what):
    require(len(out) == len(groups), '{}: {} observations were retained of {} places', what, len(out), len(groups))
    left = dict(groups)
    for o in out:
        require(len(o) == 4, '{}: {} has not four values', what, o)
        hit = [i for i, g in left.items() if math.hypot(o[0] - g[0][0], o[1] - g[0][1]) < 2.0]
        require(len(hit) == 1, '{}: observation {} is at no input place, or a second one there', what, o)
        g = left.pop(hit[0])
        z, s = average(g)
        size = max(abs(a[2]) for a in g)
        require(abs(o[2] - z) <= 1e-11 * size + 1e-300 and abs(o[3] - s) <= 1e-11 * s, '{}: {} are merged to {}, the minimum-variance mean is ({}, {})', what,
                [a[:4] for a in g], tuple(o), z, s)
        if len(g) == 1:
            require(tuple(o) == tuple(g[0][:4]), '{}: the single observation {} became {}', what, g[0][:4], o)
        require(any(o[0] == a[0] and o[1] == a[1] for a in g) or len({(a[0], a[1]) for a in g}) > 1, '{}: the merged observation is at ({}, {}), the place is {}', what, o[0], o[1],
                g[0][:2])
        require(all(math.hypot(o[0] - a[0], o[1] - a[1]) < 1.0 for a in g), '{}: the merged observation is away from its place', what)


def merge(case, rec):
    from oneka.utilities import filter_obs
    wells = [tuple(w) for w in case['wells']]
    gone = [any(math.hypot(o[0] - w[0], o[1] - w[1]) <= 3.0 for w in wells) for o in case['obs']]
    groups = {}
    for k, o in enumerate(case['obs']):
        if not gone[k]:
            groups.setdefault(o[4], []).append(o)
    where = {}
    for k, o in enumerate(case['obs']):
        where.setdefault(o[4], []).append(k)
    rec.hit(any(i in groups and len(w) > 1 and w[-1] - w[0] >= len(w) for i, w in where.items()))
    rec.label('up to {} at a place'.format(max([len(g) for g in groups.values()], default=0)))
    obs = [tuple(o[:4]) for o in case['obs']]
    saved = copy.deepcopy(obs)
    out = filter_obs(obs, wells, 3.0)
    require(obs == saved, 'the input was modified')
    compare(out, groups, 'as given')
    p = case['perm']
    out2 = filter_obs([obs[k] for k in p], wells, 3.0)
    regroup = {}
    for k in p:
        o = case['obs'][k]
        if not gone[k]:
            regroup.setdefault(o[4], []).append(o)
    compare(out2, regroup, 'permuted')
    # singles keep their order
    singles = [tuple(g[0][:4]) for i, g in groups.items() if len(g) == 1]
    order = [o for o, g in zip(obs, gone) if not g and o in set(singles)]
    got = [tuple(o) for o in out if tuple(o) in set(singles)]
    require(got == order, 'the order of the observations without duplicates changed')


@st.composite
def chains(draw):
    off = draw(gens.OFFSETS)
    n = draw(gens.ints(2, 14))
    x, y = off
    obs = []
    if draw(gens.ints(0, 4)) == 4:
        # places exactly a metre apart
        for _ in range(n):
            dx, dy = draw(gens.pick((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1)))
            x, y = x + dx, y + dy
            obs.append([x, y, draw(gens.sq(300, 0.01)), draw(gens.logq(0.05, 20.0))])
        obs = [obs[k] for k in draw(st.permutations(range(n)))]
        return dict(obs=obs, exact=True)
    for _ in range(n):
        a, d = draw(gens.ANGLES), draw(gens.pick(0.0, 0.2, 0.6, 0.9, 1.02, 1.1, 1.5, 2.5, 6.0))
        x, y = x + d * math.cos(a), y + d * math.sin(a)
        obs.append([x, y, draw(gens.sq(300, 0.01)), draw(gens.logq(0.05, 20.0))])
    obs = [obs[k] for k in draw(st.permutations(range(n)))]
    return dict(obs=obs)


def conserve(case, rec):
    from oneka.utilities import filter_obs
    obs = [tuple(o) for o in case['obs']]
    out = filter_obs(obs, [], 50.0)
    for i in range(len(out)):
        for j in range(i):
            d = math.hypot(out[i][0] - out[j][0], out[i][1] - out[j][1])
            require(d >= 1.0 - 1e-9, 'two retained observations are {} m apart: {} and {}', d, out[i], out[j])
    for i, o in enumerate(obs):
        apart = 1.0 if case.get('exact') else 1.0 + 1e-6
        if all(math.hypot(o[0] - u[0], o[1] - u[1]) >= apart for k, u in enumerate(obs) if k != i):
            require(o in [tuple(u) for u in out], 'the observation {} is a metre or more away from all others, but was not retained as it is', o)
            rec.label('single')
    w0, w1 = math.fsum(1 / o[3]**2 for o in obs), math.fsum(1 / o[3]**2 for o in out)
    require(abs(w0 - w1) <= 1e-9 * w0, 'total inverse variance {} became {}', w0, w1)
    m0, m1 = math.fsum(o[2] / o[3]**2 for o in obs), math.fsum(o[2] / o[3]**2 for o in out)
    require(abs(m0 - m1) <= 1e-9 * math.fsum(abs(o[2]) / o[3]**2 for o in obs), 'total weighted level {} became {}', m0, m1)
    rec.hit(1 < len(out) < len(obs))
    rec.label('merged' if len(out) < len(obs) else 'nothing merged')


SUBS = [Sub('merge', cases(), merge, 15000, 120000, 'exact inverse-variance means per place'),
        Sub('chains', chains(), conserve, 11240, 89920, 'conservation, separation, and singles as they are')]
