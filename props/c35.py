import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, projects
from props.c28 import compare, members

RULE = ('a project and its image under: another datum (base and levels raised by up to 2000 m), another time unit (conductivity and discharges times a factor 0.01 to 100, duration '
        'divided by it), porosity and duration multiplied by the same factor, all standard deviations multiplied (confined levels only), and combinations. '
        'Non-trivial: the capture zone has at least 8 nodes and the grid at least 8 others.')
ASSUMPTIONS = ['a node may differ if it leaves or enters the zone when the umbra changes by 5% of a cell, or if its membership in the exact zone depends on the integration error']


@st.composite
def cases(draw):
    kind = draw(gens.pick('datum', 'time', 'porosity', 'deviations', 'datum and time'))
    p = draw(projects.project(opposite=False, aquifer=('confined',) if kind == 'deviations' else ('confined', 'general', 'unconfined', 'mixed')))
    return dict(p=p, kind=kind, datum=draw(gens.sq(2000, 0.5)), f=draw(gens.logq(0.01, 100.0)), g=draw(gens.logq(0.3, 2.4)))


def times(d, f):
    v = [x * f for x in d['v']]
    return dict(d, v=v)


def image(case):
    p, kind = case['p'], case['kind']
    q = dict(p)
    if 'datum' in kind:
        b = case['datum']
        q['base'] = p['base'] + b
        q['obs'] = [[o[0], o[1], o[2] + b, o[3]] for o in p['obs']]
    if 'time' in kind:
        f = case['f']
        q['c'] = times(p['c'], f)
        q['wells'] = [[w[0], w[1], w[2], times(w[3], f)] for w in p['wells']]
        q['duration'] = p['duration'] / f
    if kind == 'porosity':
        g = min(case['g'], 0.98 / max(p['p']['v']))
        q['p'] = times(p['p'], g)
        q['duration'] = p['duration'] * g
    if kind == 'deviations':
        q['obs'] = [[o[0], o[1], o[2], o[3] * case['f']] for o in p['obs']]
    return q


def relation(case, rec):
    p = case['p']
    q = image(case)
    rec.label(case['kind'], p['state'])
    if case['kind'] == 'deviations' and any(o[2] - p['base'] < projects.mean(p['t']) for o in p['obs']):
        rec.label('not judged: unconfined levels')
        return
    e = 0.05 * p['spacing']
    outs = []
    for u in (p['umbra'] - e, p['umbra'] + e):
        kx, ky, off = members(projects.deterministic(p, umbra=u), p)
        require(off < 1e-3, 'the nodes do not lie at whole cells from the target ({})', off)
        outs.append(set(zip(kx.tolist(), ky.tolist())))
    pf = projects.deterministic(q)
    kx, ky, off = members(pf, q)
    require(off < 1e-3, 'the nodes of the image do not lie at whole cells from its target ({})', off)
    zone = set(zip(kx.tolist(), ky.tolist()))
    rec.hit(len(zone) >= 8 and pf.pgrid.size - len(zone) >= 8)
    bad = compare(q, outs[0], zone, outs[1], rec.label)
    if bad:
        (a, b), isin = bad[0]
        require(False, 'after a change of {}, {} nodes differ, for example that {} by {} cells from the target is {} the zone', case['kind'], len(bad), a, b,
                'now in' if isin else 'no more in')


SUBS = [Sub('relation', cases(), relation, 1760, 14080, 'the zone of the image against the zone', cpu=40)]
