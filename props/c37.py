import re

from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens, spy
from props.c22 import cases as places, average
import math

RULE = ('1 to 12 places with 1 to 5 observations each, interleaved, with wells whose buffers of 3 m remove some places (also several wells at one place); observations and wells as '
        'tuples or lists. Non-trivial: some observation is removed and some are merged.')
ASSUMPTIONS = ['observations are stated as Python writes them', 'an observation that is stated twice among the input is accounted for twice']


@st.composite
def cases(draw):
    c = draw(places())
    more = []
    for w in c['wells']:
        if draw(st.booleans()):
            more.append([w[0] + 0.5, w[1], 0.25, 20.0])
    c['wells'] = more + c['wells'] if draw(st.booleans()) else c['wells'] + more
    c['wells'].append([c['obs'][0][0] + 500.0, c['obs'][0][1], 0.25, 5.0])
    c['form'] = draw(gens.pick('tuple', 'tuple', 'list'))
    return c


def account(case, rec):
    from oneka.utilities import filter_obs
    form = dict(tuple=tuple, list=list)[case['form']]
    wells = [form(w) for w in case['wells']]
    obs = [form(o[:4]) for o in case['obs']]
    with spy.Log() as out:
        kept = filter_obs(obs, wells, 3.0)
    lines = out.lines
    gone = [o for o in obs if any(math.hypot(o[0] - w[0], o[1] - w[1]) <= 3.0 for w in wells)]
    stay = [o for o in obs if not any(math.hypot(o[0] - w[0], o[1] - w[1]) <= 3.0 for w in wells)]
    ids = [o[4] for o, q in zip(case['obs'], obs) if not any(math.hypot(q[0] - w[0], q[1] - w[1]) <= 3.0 for w in wells)]
    merged = [o for o, i in zip(stay, ids) if ids.count(i) > 1]
    groups = {}
    for o, i in zip(stay, ids):
        groups.setdefault(i, []).append(o)
    rec.hit(bool(gone) and bool(merged))
    rec.label('removed' if gone else 'none removed', 'merged' if merged else 'none merged')
    # removed
    removed = [t for t in lines if 'removed' in t and 'close' in t]
    left = [str(o) for o in gone]
    for t in removed:
        hit = [s for s in left if s in t]
        require(hit, 'the log says {!r}, which is not an observation within the buffer of a well', t)
        o = [o for o in gone if str(o) == hit[0]][0]
        near = [w for w in wells if math.hypot(o[0] - w[0], o[1] - w[1]) <= 3.0]
        rest = t.replace(hit[0], '', 1)
        require(any(str(w) in rest for w in near), 'the log says {!r}, but the wells within the buffer are {}', t, near)
        left.remove(hit[0])
    require(not left, 'observations were removed without a word in the log: {}', left[:2])
    # merged
    left = sorted(str(o) for o in merged)
    said = []
    for t in lines:
        if 'duplicate observation' in t:
            said.append(t.split(':', 1)[1].strip())
    require(sorted(said) == left, 'the log names the duplicates {}, they are {}', sorted(said)[:3], left[:3])
    created = [t.split(':', 1)[1].strip() for t in lines if 'averaged observation' in t]
    means = [tuple(o) for o in kept if not any(tuple(o) == tuple(s) for s in stay) or len([g for g in groups.values() if len(g) > 1 and tuple(o) in map(tuple, g)])]
    require(len(created) == len([g for g in groups.values() if len(g) > 1]), 'the log has {} averages, there are {} places with duplicates', len(created),
            len([g for g in groups.values() if len(g) > 1]))
    for t in created:
        require(any(t == str(o) for o in kept), 'the log says that {} was created, retained are {}', t, means[:3])
    # retained
    m = [t for t in lines if 'active observations' in t]
    require(len(m) == 1 and re.findall(r'\d+', m[0].split(':', 1)[1]) == [str(len(kept))], 'the log says {}, retained are {}', m, len(kept))
    listed = [re.match(r'\s*\[(\d+)\]\s*(.*)$', t) for t in lines]
    listed = [(int(t.group(1)), t.group(2).strip()) for t in listed if t]
    require(listed == [(i, str(o)) for i, o in enumerate(kept)], 'the log lists {}, retained are {}', listed[:3], kept[:3])


SUBS = [Sub('account', cases(), account, 12800, 102400, 'lines of the log against the input and the result')]
