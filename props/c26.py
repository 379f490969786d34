import ast
import contextlib
import copy
import glob
import io
import math
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import plots
from vlib.core import Sub, Fail, require, seed_all
from vlib import build, gens, projects, spy
from props.c27 import judge_probability

RULE = ('refuse: a valid project with one argument of wrong type or out of its documented range (every argument, every field of every well and observation, too few '
        'observations before or after the buffer and the merging of duplicates); accept: valid projects in all accepted forms (integers, tuples, lists, omitted options), 1 to 5 realizations. '
        'Non-trivial: every refusal; accepted runs in which the buffer removes an observation, or an option is omitted.')
ASSUMPTIONS = ['numbers are finite; booleans in place of numbers, and the exact ends of the ranges of the aquifer parameters, are not claimed']

KEYS = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'observations',
        'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')
DEFAULTS = dict(buffer=100, spacing=10, umbra=10, smooth=0, confined=True, tol=1, maxstep=10)
OPTIONS = KEYS[12:]

NUMBERISH = ("'10'", 'None', '[3.0]', '1j')
DISTS = ("'x'", 'None', '()', '[]', '(1.0,)', '(4.0, 3.0)', '(1.0, 5.0, 2.0)', '(5.0, 4.0, 6.0)', '(1.0, 2.0, 3.0, 4.0)', "('a', 'b')", '(None, 1.0)', '{}', '[2.0, 1.0]',
         "(1.0, 'b', 3.0)")
BAD = {
    'projectname': ('5', 'None', "['x']", '1.5'),
    'runtime': ('5', 'None', "['x']", '1.5'),
    'target': ('-1', 'N', '40', '0.5', '0.0', "'0'", 'None', '-2'),
    'npaths': ('0', '-1', '-10', '2.5', '4.0', "'3'", 'None'),
    'duration': ('0', '0.0') + NUMBERISH,
    'nrealizations': ('0', '-1', '-30', '2.0', "'3'", 'None', '1.5'),
    'base': NUMBERISH,
    'c_dist': DISTS + ('-1.0', '-1', '(-1.0, 2.0)', '[-1.0, 2.0, 3.0]', '(-3, -2)'),
    'p_dist': DISTS + ('-0.1', '1.5', '2', '(0.2, 1.2)', '(-0.2, 0.2)', '[0.1, 0.2, 1.3]'),
    't_dist': DISTS + ('-1.0', '-1', '(-1.0, 2.0)', '[-1.0, 2.0, 3.0]'),
    'stochastic_wells': ('[]', 'None', "'wells'", '{}', '5'),
    'observations': ('[]', 'None', "'obs'", '{}', '5'),
    'buffer': ('0', '0.0', '-1', '-100.0') + NUMBERISH,
    'spacing': ('0', '0.0', '-1', '-10.0') + NUMBERISH,
    'umbra': ('0', '0.0', '-1', '-10.0') + NUMBERISH,
    'smooth': ('-1', '-0.5') + NUMBERISH,
    'confined': ('1', '0', "'True'", 'None', '1.0'),
    'tol': ('0', '0.0', '-1', '-0.1') + NUMBERISH,
    'maxstep': ('0', '0.0', '-1', '-0.1') + NUMBERISH,
}
WELL = {0: ("'1'", 'None'), 1: ("'1'", 'None'), 2: ('0', '0.0', '-0.25', "'1'", 'None'),
        3: ("'x'", 'None', '()', '(1.0,)', '(4.0, 3.0)', '(-1.0, -2.0)', '(1.0, 5.0, 2.0)', '(1.0, 2.0, 3.0, 4.0)', '[2.0, 1.0]')}
OBS = {0: ("'1'", 'None'), 1: ("'1'", 'None'), 2: ("'1'", 'None'), 3: ('0', '0.0', '-1.0', "'1'", 'None')}


def arguments(p, nreal, buffer, smooth, wellform=tuple, obsform=tuple):
    return dict(projectname='Project', runtime='Sat Jul 25 12:00:00 2020', target=p['target'], npaths=p['npaths'], duration=p['duration'], nrealizations=nreal,
                base=p['base'], c_dist=projects.value(p['c']), p_dist=projects.value(p['p']), t_dist=projects.value(p['t']),
                stochastic_wells=[wellform(w) for w in projects.wells_of(p)], observations=[obsform(o) for o in p['obs']],
                buffer=buffer, spacing=p['spacing'], umbra=p['umbra'], smooth=smooth, confined=p['confined'], tol=p['tol'], maxstep=p['maxstep'])


def call(args, omit=(), positional=False):
    from oneka.oneka import oneka
    if positional:
        return oneka(*[args[k] for k in KEYS])
    return oneka(*[args[k] for k in KEYS[:12]], **{k: args[k] for k in OPTIONS if k not in omit})


@contextlib.contextmanager
def scratch():
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(home)
        shutil.rmtree(d)


@st.composite
def more_bad(draw, arg):
    """Numbers, pairs and triples out of range or order."""
    down = -draw(gens.logq(1e-6, 1e6))
    if arg in ('buffer', 'spacing', 'umbra', 'smooth', 'tol', 'maxstep', 'z_std'):
        return [repr(down)]
    if not arg.endswith('_dist'):
        return []
    top = dict(p_dist=0.9).get(arg, 500.0)
    a, b, c = sorted(draw(gens.q(0.001, 1.0, 0.001)) * top * f for f in (0.3, 0.6, 1.0))
    seq = draw(gens.pick(tuple, list))
    out = [(b, a), (a, c, b), (b, a, c), (c, b, a), (c, a, b), (b, c, a)]
    out = [o for o in out if list(o) != sorted(o)]
    if arg != 'q_dist':
        out += [(down, a), (down, a, b), (down, down / 2), (down, down / 2, down / 3)]
    if arg == 'p_dist':
        up = 1.0 + draw(gens.logq(1e-6, 1e3))
        out += [(a, up), (a, b, up), (up, 2 * up), (a, up, 2 * up), (up, 2 * up, 3 * up)]
        return [repr(seq(o)) for o in out] + [repr(up), repr(down)]
    return [repr(seq(o)) for o in out] + ([] if arg == 'q_dist' else [repr(down)])


@st.composite
def refuse_cases(draw):
    p = draw(projects.project(paths=(1, 2)))
    kind = draw(gens.pick('arg', 'arg', 'arg', 'arg', 'well', 'obs', 'wellshape', 'obsshape', 'few', 'filtered', 'filtered', 'merged'))
    c = dict(p=p, kind=kind, n=draw(gens.pick(1, 3)))
    if kind == 'arg':
        c['arg'] = draw(gens.pick(*KEYS))
        c['bad'] = list(BAD[c['arg']]) + draw(more_bad(c['arg']))
    elif kind in ('well', 'obs'):
        c['at'] = draw(gens.ints(0, len(p['wells' if kind == 'well' else 'obs']) - 1))
        c['field'] = draw(gens.ints(0, 3))
        c['bad'] = list((WELL if kind == 'well' else OBS)[c['field']])
        if c['field'] == 3:
            c['bad'] += draw(more_bad('q_dist' if kind == 'well' else 'z_std'))
    elif kind in ('wellshape', 'obsshape'):
        c['at'] = draw(gens.ints(0, len(p['wells' if kind == 'wellshape' else 'obs']) - 1))
        c['long'] = draw(st.booleans())
    elif kind == 'few':
        c['keep'] = draw(gens.ints(0, 6))
    elif kind == 'merged':
        c['keep'] = draw(gens.pick(1, 5, 6, 6))
        c['more'] = draw(gens.ints(7, 9))
    else:
        c['keep'] = draw(gens.pick(0, 1, 2, 3, 4, 5, 6, 6, 6, 6))
    return c


def refuse(case, rec):
    rec.hit()
    rec.label(case.get('arg', case['kind']))
    for bad in case.get('bad', [None]):
        refuse_one(dict(case, bad=bad))


def refuse_one(case):
    p = case['p']
    a = arguments(p, case['n'], 1e-3, 0)
    kind = case['kind']
    what = kind
    if kind == 'arg':
        bad = len(p['wells']) if case['bad'] == 'N' else ast.literal_eval(case['bad'])
        a[case['arg']] = bad
        what = '{} = {!r}'.format(case['arg'], bad)
    elif kind in ('well', 'obs'):
        rows = a['stochastic_wells' if kind == 'well' else 'observations']
        row = list(rows[case['at']])
        row[case['field']] = ast.literal_eval(case['bad'])
        rows[case['at']] = tuple(row)
        what = '{} {} = {!r}'.format(kind, case['at'], rows[case['at']])
    elif kind in ('wellshape', 'obsshape'):
        rows = a['stochastic_wells' if kind == 'wellshape' else 'observations']
        row = tuple(rows[case['at']])
        rows[case['at']] = row + (1.0,) if case['long'] else row[:-1]
        what = '{} {!r}'.format(kind, rows[case['at']])
    elif kind == 'few':
        a['observations'] = a['observations'][:case['keep']]
        what = '{} observations'.format(case['keep'])
    elif kind == 'merged':
        some = a['observations'][:case['keep']]
        while len(some) < case['more']:
            some.append((some[len(some) // 2][0] + 0.01, *some[len(some) // 2][1:]))
        a['observations'] = some
        what = '{} observations at at most {} places'.format(len(some), case['keep'])
    else:
        d = sorted(min(math.hypot(o[0] - w[0], o[1] - w[1]) for w in p['wells']) for o in a['observations'])
        a['buffer'] = d[len(d) - case['keep'] - 1] * (1 + 1e-9)
        what = 'at most {} observations beyond the buffer'.format(case['keep'])
    # the random state shows whether sampling began
    seed_all(7)
    before = str(np.random.get_state())
    with scratch() as d, spy.States() as seen, plots.Drawn():
        try:
            call(a)
        except KeyboardInterrupt:
            raise
        except Exception as e:
            error = e
        else:
            raise Fail('a run with {} was accepted'.format(what))
        files = [f for _, _, fs in os.walk(d) for f in fs]
        figures = len(plots.Drawn.axes())
    require(not files, 'the run refused for {} wrote {}', what, files)
    require(not seen.seen and not figures and str(np.random.get_state()) == before, 'the run refused for {} ({!r}) had begun to compute', what, error)
    if kind in ('filtered', 'merged') or (kind == 'arg' and case['bad'] not in NUMBERISH and case['arg'] not in ('target', 'stochastic_wells', 'observations') and case['bad'] not in DISTS):
        require(isinstance(error, AssertionError), 'the run with {} was refused by {!r}, not an assertion', what, error)


@st.composite
def accept_cases(draw):
    p = draw(projects.project(paths=(1, 2, 3), opposite=False))
    omit = [k for k in OPTIONS if draw(gens.ints(0, 3)) == 0]
    # any relation between the settings
    for k in ('tol', 'maxstep', 'umbra'):
        if draw(gens.ints(0, 5)) == 0:
            p[k] = p['spacing'] * draw(gens.pick(0.1, 0.9, 2.0, 5.0))
    if draw(gens.ints(0, 4)) == 4:
        # coarse traces
        p['tol'], p['maxstep'] = p['spacing'] * draw(gens.pick(1.0, 10.0, 100.0)), p['spacing'] * draw(gens.pick(3.0, 12.0, 40.0))
    return dict(p=p, n=draw(gens.pick(1, 1, 2, 3, 5)), buffer=draw(gens.pick(0.2, 0.6, 1.0, 1.5, 2.0)), omit=omit, smooth=draw(gens.pick(0, 0.0, 1, 1.5)),
                ints=draw(st.booleans()), wellform=draw(gens.pick('tuple', 'list')), obsform=draw(gens.pick('tuple', 'list')), positional=draw(st.booleans()),
                seed=draw(gens.ints(0, 10**6)))


FORMS = dict(tuple=tuple, list=list)


def accept(case, rec):
    from oneka.archive import load_oneka
    p, omit = dict(case['p']), set(case['omit'])
    if p['R'] > 150:
        omit -= {'spacing'}
    buffer = case['buffer'] * p['R']
    if case['ints']:
        p['duration'], p['base'] = int(p['duration']), int(p['base'])
        p['umbra'], p['maxstep'] = max(1, int(p['umbra'])), max(1, int(p['maxstep']))
        p['wells'] = [[int(w[0]), int(w[1])] + w[2:] for w in p['wells']]
        buffer = max(1, int(buffer))
        rec.label('integers')
    a = arguments(p, case['n'], buffer, case['smooth'], FORMS[case['wellform']], FORMS[case['obsform']])
    for k in omit:
        a[k] = DEFAULTS[k]
    p.update(spacing=a['spacing'], umbra=a['umbra'], confined=a['confined'], tol=a['tol'], maxstep=a['maxstep'])
    far, unsure = [], False
    for o in p['obs']:
        d = min(math.hypot(o[0] - w[0], o[1] - w[1]) for w in p['wells'])
        unsure |= abs(d - a['buffer']) <= 1e-9 * a['buffer']
        if d > a['buffer']:
            far.append(o)
    if unsure or any(math.hypot(u[0] - v[0], u[1] - v[1]) < 1.5 for i, u in enumerate(far) for v in far[:i]):
        rec.label('not judged: observations at the buffer or too close')
        return
    positional = case['positional'] and not omit
    saved = copy.deepcopy(a)
    if len(far) <= 6:
        rec.label('refused: too few observations')
        return
    try:
        seed_all(case['seed'])
        want = projects.deterministic(p, obs=far) if case['n'] == 1 else projects.stochastic(p, case['n'], obs=far)
    except Exception as e:
        rec.label('not judged: the pipeline raises ' + type(e).__name__)
        return
    if (want.pgrid > 0).sum() > 2500:
        rec.label('not judged: large')
        return
    rec.hit(len(far) < len(p['obs']) or bool(omit))
    rec.label('{} realizations'.format(case['n']), *['default ' + k for k in omit])
    with scratch() as d, spy.Log() as log, plots.Drawn() as drawn:
        seed_all(case['seed'])
        pf = call(a, omit, positional)
        marks = [plots.markers(plots.Drawn.axes(), m) for m in 'o*P']
        filled = drawn.filled
        names = [os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs]
        require(len(names) == 1 and names[0].endswith('.bz2') and os.path.dirname(names[0]) == os.path.join(d, 'logs'), 'the run wrote {}', names)
        back = load_oneka(names[0])
    require(a == saved, 'the run modified its arguments')
    require(pf is not None and hasattr(pf, 'pgrid'), 'the run returned {!r}', pf)
    require(build.state(pf) == build.state(want), 'the returned field is not that of the {} pipeline for the {} retained of {} observations', 'stochastic' if case['n'] > 1 else
            'deterministic', len(far), len(p['obs']))
    for k in KEYS:
        require(back.get(k) == saved[k] and type(back[k]) is type(saved[k]), 'the archive holds {} = {!r}, the run had {!r}', k, back.get(k), saved[k])
    require(build.state(back['pfield']) == build.state(pf), 'the archived field is not the returned one')
    # what was drawn and reported
    wells = sorted((w[0], w[1]) for w in p['wells'])
    t = p['wells'][p['target']]
    require(sorted(marks[0]) == wells and marks[1] == [(t[0], t[1])] and sorted(marks[2]) == sorted((o[0], o[1]) for o in far), 'the map marks wells {}, target {} and observations {}',
            *marks)
    cell = a['spacing']**2
    pr = pf.pgrid / pf.total_weight
    text = '\n'.join(log.lines)
    if case['n'] == 1:
        m = re.search(r'Capture Zone Area:\s*\n\s*([\d.,]+)\s*\[m\^2\]\s*\n\s*([\d.,]+)\s*\[acres\]', text)
        require(m, 'no capture zone area in the log')
        v = [float(s.replace(',', '')) for s in m.groups()]
        area = (pr > 0).sum() * cell
        require(abs(v[0] - area) <= 0.51 + 1e-6 * area and abs(v[1] - area / 4046.86) <= 0.0051 + 1e-6 * area / 4046.86, 'area {} m2 = {} acres in the log, the field has {} m2', *v, area)
    else:
        judge_probability(pf, p['wells'][0][:2], a['smooth'], filled)
        rows = re.findall(r'^\s*([01]\.\d{3})\s+([\d.,]+)\s+([\d.,]+)\s*$', text, re.M)
        require(len(rows) == 19, 'the decile table of the log has {} rows', len(rows))
        for q, row in zip(np.linspace(0.05, 0.95, 19), rows):
            r, area, acres = (float(s.replace(',', '')) for s in row)
            ok = []
            for v in {max(pr[pr <= q + e].ravel()) for e in (1e-12, -1e-12)}:
                more, atleast = (pr > v + 1e-12).sum() * cell, (pr >= v - 1e-12).sum() * cell
                ok.append(abs(r - v) <= 6e-4 and more * (1 - 1e-9) - 0.51 <= area <= atleast * (1 + 1e-9) + 0.51)
            require(any(ok), 'the decile table gives {} with {} m2 for {}', r, area, q)
            require(abs(acres - area / 4046.86) <= 0.0051 + 0.51 / 4046.86, 'the decile table gives {} m2 as {} acres', area, acres)


SUBS = [Sub('refuse', refuse_cases(), refuse, 3840, 30720, 'exception, files, tracing and random state'),
        Sub('accept', accept_cases(), accept, 560, 5000, 'the pipelines themselves, the archive, the log and the drawn map', cpu=40)]
