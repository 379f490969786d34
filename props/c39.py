import contextlib
import glob
import importlib
import math
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import plots
from vlib.core import REPO, Sub, require, seed_all
from vlib import gens, projects, ref
from props import c17, c33

RULE = ('the projects shipped in the data folder, with any of their wells that pump or inject as the target, 1 to 4 paths, 2% to 100% of ten years, any third of the observations left '
        'out, up to six of them measured again anywhere in the list, confined as stated or not, resolved by about 5 to 9 cells; stands: the settings as they are but for paths, '
        'realizations and target. '
        'Non-trivial: zone: comparable, and at least 5 nodes certainly inside and 5 certainly outside; fraction: a node with a probability between 0 and 1; stands: every run.')
ASSUMPTIONS = ['as in C17 and C33 for nodes in doubt, dry places and traces into wells; wells that neither pump nor inject are no targets']


def shipped():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(REPO, 'data', '*.py')) if not f.endswith('__init__.py'))


def module(n):
    names = shipped()
    return importlib.import_module('data.' + names[n % len(names)])


@st.composite
def cases(draw, most=4):
    return dict(module=draw(gens.ints(0, 10**4)), target=draw(gens.ints(0, 10**4)), npaths=draw(gens.ints(1, most)), share=draw(gens.logq(0.02, 1.0)),
                drop=draw(gens.ints(0, 10**6)), keep=draw(gens.pick(1.0, 1.0, 0.9, 0.67)),
                again=[[draw(gens.ints(0, 10**4)), draw(gens.ints(0, 10**4)), draw(gens.sq(3, 0.1)), draw(gens.pick(0.5, 1.0, 1.62, 5.0))] for _ in range(draw(gens.pick(0, 0, 1, 2, 6)))],
                cells=draw(gens.q(5.0, 9.0, 0.1)), umbra=draw(gens.q(0.6, 1.8, 0.01)), fine=draw(gens.q(0.5, 1.0, 0.01)), stated=draw(gens.pick(True, True, False)),
                buffer=draw(gens.pick(1, 1, 0.5, 2)), n=draw(gens.ints(1, 3)), seed=draw(gens.ints(0, 2**31 - 1)))


def dist(v):
    return dict(k='tuple' if isinstance(v, tuple) else 'list', v=list(v)) if isinstance(v, (tuple, list)) else dict(k='num', v=[v])


def merged(obs, wells, buffer):
    """The retained observations, from the documentation; None where the edge of the buffer or of a merger is in doubt."""
    groups = []
    for o in obs:
        d = min(math.hypot(o[0] - w[0], o[1] - w[1]) for w in wells)
        if abs(d - buffer) < 1e-6:
            return None
        if d < buffer:
            continue
        for g in groups:
            if (o[0], o[1]) == (g[0][0], g[0][1]):
                g.append(o)
                break
        else:
            groups.append([o])
    out = []
    for g in groups:
        if len(g) == 1:
            out.append(list(g[0]))
            continue
        weight = math.fsum(1 / o[3]**2 for o in g)
        out.append([g[0][0], g[0][1], math.fsum(o[2] / o[3]**2 for o in g) / weight, math.sqrt(1 / weight)])
    for i, u in enumerate(out):
        if any(math.hypot(u[0] - v[0], u[1] - v[1]) < 1.001 for v in out[:i]):
            return None
    return out


def project(case):
    """(the project as in C17, observations as supplied, buffer), or None."""
    m = module(case['module'])
    wells = [[w[0], w[1], w[2], dist(w[3])] for w in m.WELLS]
    able = [i for i, w in enumerate(wells) if projects.mean(w[3])]
    target = able[case['target'] % len(able)]
    q = projects.mean(wells[target][3])
    supplied = [o for i, o in enumerate(m.OBSERVATIONS) if (i * 7919 + case['drop']) % 997 < 997 * case['keep']]
    for i, j, dz, s in case['again']:
        o = supplied[i % len(supplied)]
        supplied.insert(j % (len(supplied) + 1), (o[0], o[1], o[2] + dz, s))
    buffer = m.BUFFER * case['buffer']
    obs = merged(supplied, wells, buffer)
    if obs is None or len(obs) < 7:
        return None
    c, p, t = dist(m.C_DIST), dist(m.P_DIST), dist(m.T_DIST)
    confined = m.CONFINED if case['stated'] else False
    T = case['share'] * 3652.5
    R = math.sqrt(abs(q) * T / (math.pi * projects.mean(p) * projects.mean(t)))
    spacing = R / case['cells']
    return dict(target=target, npaths=case['npaths'], duration=math.copysign(T, q), base=m.BASE, c=c, p=p, t=t, wells=wells, obs=obs, spacing=spacing,
                umbra=spacing * case['umbra'], confined=confined, tol=1e-4 * spacing, maxstep=0.3 * spacing * case['fine'], R=R,
                state='{} {}'.format(m.__name__, 'confined' if confined else 'general')), supplied, buffer


@contextlib.contextmanager
def scratch():
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        with plots.Drawn():
            yield d
    finally:
        os.chdir(home)
        shutil.rmtree(d)


def zone(case, rec):
    from oneka.oneka import oneka
    made = project(case)
    if made is None:
        rec.label('not judged: an observation at an edge')
        return
    p, supplied, buffer = made

    def run():
        with scratch():
            return oneka('p', 'r', p['target'], p['npaths'], p['duration'], 1, p['base'], projects.value(p['c']), projects.value(p['p']), projects.value(p['t']), projects.wells_of(p),
                         list(supplied), buffer, p['spacing'], p['umbra'], 0, p['confined'], p['tol'], p['maxstep'])
    c17.judge(p, rec, run)


def fraction(case, rec):
    made = project(case)
    if made is None:
        rec.label('not judged: an observation at an edge')
        return
    c33.fraction(dict(p=made[0], n=case['n'], seed=case['seed']), rec)


def stands(case, rec):
    from oneka.oneka import oneka
    from oneka.archive import load_oneka
    m = module(case['module'])
    target = case['target'] % len(m.WELLS)
    n = case['n'] + (case['n'] > 1)
    seed_all(case['seed'])
    with scratch() as d:
        try:
            pf = oneka(m.PROJECTNAME, 'now', target, case['npaths'], m.DURATION * case['share'] * (1.0 if n == 1 else 0.02), n, m.BASE, m.C_DIST, m.P_DIST, m.T_DIST, m.WELLS, m.OBSERVATIONS,
                       m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH, m.CONFINED, m.TOL, m.MAXSTEP)
        except MemoryError:
            rec.label('not judged: needs more memory than a check may use')
            return
        files = glob.glob(os.path.join(d, 'logs', '*.bz2'))
        require(len(files) == 1, 'the run wrote {} archives', len(files))
        held = load_oneka(files[0])
    rec.hit()
    rec.label(m.__name__, '{} realizations'.format(n))
    for k, v in dict(stochastic_wells=m.WELLS, observations=m.OBSERVATIONS, c_dist=m.C_DIST, p_dist=m.P_DIST, t_dist=m.T_DIST, target=target, nrealizations=n).items():
        require(held[k] == v, 'the archive holds another {}', k)
    require(abs(pf.total_weight - n * (pf.total_weight / n)) < 1e-9 and pf.total_weight > 0, 'the total weight is {}', pf.total_weight)
    pr = pf.pgrid / pf.total_weight * n
    require(abs(pr - pr.round()).max() < 1e-9 and 0 <= pr.min() and pr.max() <= n + 1e-9, 'a probability is not a multiple of 1/{}', n)
    # the particles start one metre beyond the radius of the well: the node at the well is within the umbra of each start
    x, y, r = m.WELLS[target][:3]
    X, Y = ref.nodes(pf)
    i = ((X - x)**2 + (Y - y)**2).argmin()
    if math.hypot(X.flat[i] - x, Y.flat[i] - y) + r + 1 < 0.99 * m.UMBRA:
        require(pr.flat[i] > n - 1e-6, 'the node at the target well has probability {}', pr.flat[i] / n)


SUBS = [Sub('zone', cases(), zone, 96, 2000, 'independent preparation of the observations, fit, traces and rasteriser, through oneka()', cpu=120),
        Sub('fraction', cases(2), fraction, 64, 1200, 'independent zones of the observed realizations', cpu=120),
        Sub('stands', cases(2), stands, 40, 640, 'settings against the archive; probabilities', cpu=240)]
