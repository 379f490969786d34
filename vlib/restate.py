"""Models that are restated between evaluations: every answer must be about the model as it is when asked."""
import math

from hypothesis import strategies as st

from vlib import gens, ref

ATTR = dict(base='base', K='conductivity', n='porosity', H='thickness', xo='xo', yo='yo', wells='wells', coef='coef')


@st.composite
def cases(draw):
    m = draw(gens.model(0, 3))
    pts = [draw(gens.point_for(m)) for _ in range(2)]
    other = draw(gens.model(0, 3))
    changes = []
    for _ in range(draw(gens.ints(1, 4))):
        what = draw(gens.pick('coef', 'coef', 'item', 'item', 'wells', 'H', 'K', 'n', 'base', 'xo', 'yo'))
        if what == 'item':
            v = [draw(gens.ints(0, 5)), draw(gens.slog(1e-3, 100.0))]
        elif what == 'coef':
            v = draw(gens.model(0, 0))['coef']
        elif what == 'wells':
            v = draw(gens.wells(m['off'], 0, 3))
        elif what in 'xoyo':
            v = m[what] + draw(gens.sq(500, 0.5))
        else:
            v = draw(gens.model(0, 0))[what]
        changes.append([what, v])
    # the last one puts things back
    return dict(m=m, pts=pts, changes=changes, back=draw(st.booleans()), shift=[draw(gens.slog(1e-4, 0.04)), draw(gens.slog(1e-4, 0.04))],
                dry=draw(gens.pick(0.0, 0.0, 1e5, 1e6)))


def states(case):
    """The model object with its description, after each restatement; then the places: the same ones and some very near to them."""
    m = dict(case['m'], coef=list(case['m']['coef']))
    m['coef'][5] += case['dry']
    mo = ref.make_model(m)
    first = dict(m, coef=list(m['coef']))
    yield mo, m, places(case, m)
    changes = list(case['changes'])
    if case['back']:
        changes += [[k, first[k]] for k in sorted({'coef' if w == 'item' else w for w, _ in changes})]
    for what, v in changes:
        m = dict(m, coef=list(m['coef']))
        if what == 'item':
            m['coef'][v[0]] += v[1]
            mo.coef[v[0]] = m['coef'][v[0]]
        elif what == 'wells':
            m['wells'] = v
            mo.wells = [tuple(w) for w in v]
        else:
            m[what] = list(v) if what == 'coef' else v
            setattr(mo, ATTR[what], m[what])
        yield mo, m, places(case, m)


def places(case, m):
    out = []
    for x, y in case['pts']:
        for p in ([x, y], [x + case['shift'][0], y + case['shift'][1]], [x, y]):
            if all(math.hypot(p[0] - w[0], p[1] - w[1]) >= 1e-3 for w in m['wells']):
                out.append(p)
    return out
