import copy
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens

RULE = ('0 to 25 (sometimes to 275) observations (tuples or lists) more than 2 m apart, 0 to 6 (46) wells (of any or no discharge), buffers 0.5 to 500 m; observations at, just inside, just outside and exactly at the '
        'buffer (Pythagorean offsets) of the first, last or any well, inside several buffers, and at the well itself. '
        'Non-trivial: at least one observation is retained and one removed.')
ASSUMPTIONS = ['observations whose distance equals the buffer up to rounding, but not exactly, are not judged']

TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1), (7, 24, 25), (20, 21, 29)]


@st.composite
def cases(draw):
    off = draw(gens.pick((0.0, 0.0), (1000.0, -2000.0), (322579.0, 5093431.0)))
    tri = draw(gens.pick(*TRIPLES))
    m = draw(gens.pick(0.5, 1.0, 2.0, 4.0, 10.0, 20.0))
    buffer = tri[2] * m if draw(gens.ints(0, 2)) else draw(gens.logq(0.5, 500.0))
    if buffer == int(buffer) and draw(st.booleans()):
        buffer = int(buffer)
    wells = [[off[0] + draw(gens.ints(-400, 400)), off[1] + draw(gens.ints(-400, 400)), 0.25, 100.0] for _ in range(draw(gens.pick(0, 1, 2, 3, 6)))]
    obs = []
    for _ in range(draw(gens.ints(0, 25))):
        k = draw(gens.pick('any', 'any', 'exact', 'near', 'near', 'at', 'inside'))
        if k == 'any' or not wells:
            x, y = off[0] + draw(gens.sq(900, 0.5)), off[1] + draw(gens.sq(900, 0.5))
        else:
            w = wells[draw(gens.pick(0, -1, 1)) % len(wells)]
            a = draw(gens.ANGLES)
            if k == 'exact':
                i, j = (tri[0], tri[1]) if draw(st.booleans()) else (tri[1], tri[0])
                x, y = w[0] + i * m * draw(gens.pick(1, -1)), w[1] + j * m * draw(gens.pick(1, -1))
            else:
                r = dict(near=buffer * draw(gens.pick(0.99, 0.999999, 1.000001, 1.01, 1.1)), at=0.0, inside=buffer * draw(gens.q(0, 1)))[k]
                x, y = w[0] + r * math.cos(a), w[1] + r * math.sin(a)
        if all(math.hypot(x - o[0], y - o[1]) > 2.0 for o in obs):
            obs.append([x, y, draw(gens.sq(300, 0.01)), draw(gens.logq(0.01, 10.0)) if draw(gens.ints(0, 5)) else draw(gens.logq(1e-5, 1000.0))])
    if draw(gens.ints(0, 15)) == 15:
        # as many as in real projects
        r = random.Random(draw(gens.ints(0, 10**6)))
        wells += [[off[0] + r.randint(-3000, 3000), off[1] + r.randint(-3000, 3000), 0.25, 100.0] for _ in range(r.randint(5, 40))]
        for _ in range(r.randint(30, 250)):
            x, y = off[0] + 0.5 * r.randint(-8000, 8000), off[1] + 0.5 * r.randint(-8000, 8000)
            if r.random() < 0.3:
                w, a = r.choice(wells), r.uniform(0.0, 6.283)
                t = buffer * r.choice([0.5, 0.99, 1.01, 1.2])
                x, y = w[0] + t * math.cos(a), w[1] + t * math.sin(a)
            if all(math.hypot(x - o[0], y - o[1]) > 2.0 for o in obs):
                obs.append([x, y, 0.01 * r.randint(-30000, 30000), r.choice([0.5, 1.62, 2.0])])
    form = draw(gens.pick('number', 'number', 'zero', 'inject', 'pair', 'triple', 'none', 'mixed', 'mixed'))
    return dict(buffer=buffer, wells=wells, obs=obs, form=form, kind=draw(gens.pick('tuple', 'tuple', 'list')))


def judge(o, w, buffer):
    """True: removed by this well, False: not, None: rounding."""
    dx, dy = o[0] - w[0], o[1] - w[1]
    d2, b2 = Fraction(dx)**2 + Fraction(dy)**2, Fraction(buffer)**2
    if d2 == b2:
        return True
    if abs(d2 - b2) < b2 * Fraction(1, 10**12):
        return None
    return d2 < b2


# what follows the coordinates of a well
FORMS = dict(number=[0.25, 100.0], zero=[0.25, 0], pair=[3.0, (-50.0, 0.0)], triple=[0.1, [0.0, 0.0, 7.0]], inject=[0.25, -1150.5], none=[],
             down=[1.5, [-900.0, -20.0]])


def form_of(form, i):
    return FORMS[form] if form != 'mixed' else FORMS[sorted(FORMS)[i % len(FORMS)]]


def keep(case, rec):
    from oneka.utilities import filter_obs
    make = tuple if case['kind'] == 'tuple' else list
    obs, wells, buffer = [make(o) for o in case['obs']], [make(w[:2] + form_of(case['form'], i + len(case['obs']))) for i, w in enumerate(case['wells'])], case['buffer']
    saved = copy.deepcopy((obs, wells))
    out = filter_obs(obs, wells, buffer)
    require((obs, wells) == saved, 'the input was modified')
    verdict = []
    for o in case['obs']:
        v = [judge(o, w, buffer) for w in case['wells']]
        verdict.append(True if True in v else None if None in v else False)
    must = [tuple(o) for o, v in zip(case['obs'], verdict) if v is False]
    may = {tuple(o) for o, v in zip(case['obs'], verdict) if v is not True}
    got = [tuple(o) for o in out]
    require(all(len(o) == 4 for o in got), 'a retained observation has not four values')
    for o in got:
        require(o in may, 'observation {} was retained: {}', o, 'it is within the buffer {} of a well'.format(buffer) if list(o) in case['obs'] else 'it is not among the input')
    for o in must:
        require(o in got, 'observation {} was removed, its distances to the wells are {} and the buffer is {}', o, [math.hypot(o[0] - w[0], o[1] - w[1]) for w in case['wells']], buffer)
    require(len(got) == len(set(got)) and len(got) <= len(may), '{} observations were retained of {}', len(got), len(may))
    order = [tuple(o) for o in case['obs'] if tuple(o) in set(got)]
    require(got == order, 'the order of the retained observations changed')
    rec.hit(bool(must) and True in verdict)
    rec.label('no wells' if not wells else 'wells', *['exactly at the buffer' for o in case['obs'] for w in case['wells'] if Fraction(o[0] - w[0])**2 + Fraction(o[1] - w[1])**2 == Fraction(buffer)**2][:1])


SUBS = [Sub('keep', cases(), keep, 19200, 153600, 'exact rational distances')]
