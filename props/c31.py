import ast
import contextlib
import importlib
import io
import itertools
import logging
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import plots, rival
from vlib.core import REPO, Sub, Fail, require, seed_all
from vlib import build, gens, projects
from props.c24 import snapshot

RULE = ('sequences of 1 to 4 runs, in one process and within the same seconds, of generated project modules (top-level or in a package; deterministic and stochastic; numbers, '
        'tuples and lists), of modules that the run refuses, and of unknown module names, with or without a logs folder, whatever the level of the logger before, while other runs make files of the same names at the worst moment; '
        'script: 1 to 3 processes of runme.py at once in one folder. '
        'Non-trivial: a valid module together with at least one other run.')
ASSUMPTIONS = ['a module that was imported before is not read again, as usual in Python: every generated module has a new name',
               'numbers are stated in the log with two decimals']
counter = itertools.count()

SETTINGS = dict(PROJECTNAME='projectname', TARGET='target', NPATHS='npaths', DURATION='duration', NREALIZATIONS='nrealizations', BASE='base', C_DIST='c_dist', P_DIST='p_dist',
                T_DIST='t_dist', WELLS='stochastic_wells', OBSERVATIONS='observations', BUFFER='buffer', SPACING='spacing', UMBRA='umbra', SMOOTH='smooth', CONFINED='confined',
                TOL='tol', MAXSTEP='maxstep')


@st.composite
def module(draw):
    p = draw(projects.project(paths=(1, 2, 3), opposite=False, neighbours=(0, 1, 2)))
    for k in ('maxstep', 'tol'):
        # any relation between the settings
        p[k] *= draw(gens.pick(1, 1, 1, 100))
    if draw(gens.ints(0, 3)) == 3:
        p['tol'], p['maxstep'] = p['spacing'] * draw(gens.pick(1.0, 10.0, 100.0)), p['spacing'] * draw(gens.pick(3.0, 12.0, 40.0))
    if draw(gens.ints(0, 3)) == 3:
        p['umbra'] = p['spacing'] * draw(gens.pick(0.2, 3.5, 6.0))
    return dict(p=p, n=draw(gens.pick(1, 1, 2, 3)), name=draw(st.text('abc XYZ-_.=()0123\'"', min_size=1, max_size=12)), buffer=draw(gens.q(0.05, 0.3, 0.01)),
                smooth=draw(gens.pick(0, 1, 2.5)), package=draw(st.booleans()), order=draw(gens.ints(0, 10**6)), listy=draw(st.booleans()))


@st.composite
def cases(draw):
    runs = []
    for _ in range(draw(gens.ints(1, 4))):
        kind = draw(gens.pick('good', 'good', 'good', 'refused', 'unknown'))
        run = dict(kind=kind, rival=draw(gens.pick(0, 0, 0, 1, 2)))
        if kind == 'unknown':
            run['name'] = draw(gens.pick('no_such_project', 'data.no_such_project', 'nowhere.project'))
        else:
            run['m'] = draw(module())
            if kind == 'refused':
                run['bad'] = draw(gens.pick('TARGET = 99', 'NPATHS = 0', 'WELLS = []', 'OBSERVATIONS = OBSERVATIONS[:5]', 'BUFFER = 1e9', 'TOL = -1', 'P_DIST = 2.0'))
        runs.append(run)
    return dict(runs=runs, logs=draw(st.booleans()), listener=draw(st.booleans()), level=draw(gens.pick(0, 0, 10, 20, 30, 50)), seed=draw(gens.ints(0, 10**6)))


def settings(m):
    p = m['p']
    form = list if m['listy'] else tuple
    return dict(PROJECTNAME=m['name'], TARGET=p['target'], NPATHS=p['npaths'], DURATION=p['duration'], NREALIZATIONS=m['n'], BASE=p['base'], C_DIST=projects.value(p['c']),
                P_DIST=projects.value(p['p']), T_DIST=projects.value(p['t']), WELLS=[form(w) for w in projects.wells_of(p)], OBSERVATIONS=[form(o) for o in p['obs']],
                BUFFER=m['buffer'] * p['R'], SPACING=p['spacing'], UMBRA=p['umbra'], SMOOTH=m['smooth'], CONFINED=p['confined'], TOL=p['tol'], MAXSTEP=p['maxstep'])


def write(root, m, extra=''):
    s = settings(m)
    keys = sorted(s, key=lambda k: (hash((m['order'], SETTINGS[k].__len__())), k))
    name = 'prj{}_{}'.format(os.getpid(), next(counter))
    text = ''.join('{} = {!r}\n'.format(k, s[k]) for k in keys) + extra + '\n'
    d = root
    if m['package']:
        d = os.path.join(root, 'pk' + name)
        os.makedirs(d)
        open(os.path.join(d, '__init__.py'), 'w').close()
    with open(os.path.join(d, name + '.py'), 'w') as fp:
        fp.write(text)
    return ('pk' + name + '.' if m['package'] else '') + name


def stated(text, s):
    """The log states every setting."""
    rows = {}
    for line in text.split('\n'):
        g = re.match(r'^\s*([a-z_ ]+?)\s*=\s?(.*)$', line)
        if g:
            rows.setdefault(g.group(1), []).append(g.group(2))
    require(len(rows.get('project name', [])) == 1, 'the log states {} project names', len(rows.get('project name', [])))
    require(rows['project name'][0] == s['PROJECTNAME'], 'the log states the project name {!r}, it is {!r}', rows['project name'][0], s['PROJECTNAME'])
    for k in ('TARGET', 'NPATHS', 'DURATION', 'NREALIZATIONS', 'BASE', 'BUFFER', 'SPACING', 'UMBRA', 'SMOOTH', 'TOL', 'MAXSTEP'):
        v = rows.get(SETTINGS[k], [])
        require(v, 'the log does not state {}', SETTINGS[k])
        g = float(v[0].split()[0].replace(',', ''))
        require(abs(g - s[k]) <= 0.00501 + 1e-12 * abs(s[k]), 'the log states {} = {}, the module has {!r}', SETTINGS[k], v[0], s[k])
    for k in ('C_DIST', 'P_DIST', 'T_DIST', 'CONFINED'):
        v = rows.get(SETTINGS[k], [])
        require(v and ast.literal_eval(v[0]) == s[k], 'the log states {} = {}, the module has {!r}', SETTINGS[k], v, s[k])
    require(('STOCHASTIC' in rows['nrealizations'][0]) == (s['NREALIZATIONS'] > 1), 'the log states {} for {} realizations', rows['nrealizations'][0], s['NREALIZATIONS'])
    things = []
    for line in text.split('\n'):
        t = line.strip()
        if t[:1] in ('(', '['):
            try:
                things.append(ast.literal_eval(t))
            except (ValueError, SyntaxError):
                pass
    for k in ('WELLS', 'OBSERVATIONS'):
        n = len(s[k])
        require(any(things[i:i + n] == s[k] for i in range(len(things) - n + 1)), 'the log does not list the {} of the module', SETTINGS[k])


def drive(case, rec):
    import runme
    from oneka.archive import load_oneka
    home = os.getcwd()
    root = tempfile.mkdtemp(dir=home)
    mods, work = os.path.join(root, 'modules'), os.path.join(root, 'work')
    os.makedirs(mods)
    os.makedirs(os.path.join(work, 'logs') if case['logs'] else work)
    logger, own = logging.getLogger('Oneka'), logging.StreamHandler(io.StringIO())
    if case['listener']:
        logger.addHandler(own)      # somebody listens already
    handlers, level = list(logger.handlers), logger.level
    logger.setLevel(case['level'])      # as somebody has left it
    sys.path.insert(0, mods)
    os.chdir(work)
    kinds = [r['kind'] for r in case['runs']]
    rec.hit('good' in kinds and len(kinds) > 1)
    rec.label(*kinds)
    try:
        for n, run in enumerate(case['runs']):
            before = snapshot(work)
            out, err = io.StringIO(), None
            name = run['name'] if run['kind'] == 'unknown' else write(mods, run['m'], run.get('bad', ''))
            importlib.invalidate_caches()
            seed_all(case['seed'] + n)
            others = [rival.Rival('logs', end, run['rival']) for end in ('.log', '.bz2')]
            with plots.Drawn(), contextlib.redirect_stdout(out), others[0], others[1]:
                try:
                    runme.main(name)
                except Exception as e:
                    err = e
            for other in others:
                require(other.intact() is None, 'run {} ({}) changed {}, which another run had just made', n, run['kind'], other.intact())
                before.update({os.path.relpath(f, work): text for f, text in other.made.items()})
            after = snapshot(work)
            for f in before:
                require(after.get(f) == before[f], 'run {} ({}) changed the file {} of an earlier run', n, run['kind'], f)
            new = sorted(set(after) - set(before))
            if run['kind'] == 'unknown':
                require(err is None, 'the unknown module name raised {!r}', err)
                require(not new and (case['logs'] or before or not os.path.exists('logs')), 'the unknown module name wrote {}', new or 'a logs folder')
                require(name in out.getvalue(), 'the unknown module name {} is not reported: {!r}', name, out.getvalue())
                continue
            if run['kind'] == 'refused':
                require(err is not None, 'the refused project was run')
                require(not any(f.endswith('.bz2') for f in new), 'the refused project was archived')
                continue
            if err is not None and not isinstance(err, (NameError, AttributeError, TypeError)):
                try:
                    args(run['m'])
                except Exception as e:
                    rec.label('not judged: the pipeline raises ' + type(e).__name__)
                    continue
            require(err is None, 'run {} raised {!r}', n, err)
            s = settings(run['m'])
            m = sys.modules[name]
            for k in s:
                require(getattr(m, k) == s[k], 'the run modified {} of the module', k)
            logs, bz2 = [f for f in new if f.endswith('.log')], [f for f in new if f.endswith('.bz2')]
            require(len(new) == 2 and len(logs) == 1 and len(bz2) == 1 and all(os.path.dirname(f) == 'logs' for f in new), 'run {} wrote {}', n, new)
            require(s['PROJECTNAME'] in out.getvalue(), 'the driver does not name the project on the screen: {!r}', out.getvalue())
            stated(after[logs[0]].decode(), s)
            got = load_oneka(bz2[0])
            for k, v in s.items():
                w = got.get(SETTINGS[k])
                require(w == v and type(w) is type(v), 'the archive holds {} = {!r}, the module has {!r}', SETTINGS[k], w, v)
            require(isinstance(got['runtime'], str), 'the archive holds the run time {!r}', got['runtime'])
            seed_all(case['seed'] + n)
            want = args(run['m'])
            require(want is None or build.state(got['pfield']) == build.state(want), 'the archived field is not that of the settings')
        require(logging.getLogger('Oneka').handlers == handlers, 'the runs left a log handler behind')
    finally:
        os.chdir(home)
        sys.path.remove(mods)
        logger.removeHandler(own)
        logger.setLevel(level)
        for h in list(logging.getLogger('Oneka').handlers):
            if h not in handlers:
                logging.getLogger('Oneka').removeHandler(h)
        for k in [k for k in sys.modules if k.startswith(('prj', 'pkprj'))]:
            del sys.modules[k]
        shutil.rmtree(root)


def args(m):
    """The field of the settings, by the pipeline; None if observations would have to be averaged."""
    p, b = m['p'], m['buffer'] * m['p']['R']
    far = []
    for o in p['obs']:
        d = min(math.hypot(o[0] - w[0], o[1] - w[1]) for w in p['wells'])
        if abs(d - b) < 1e-9 * b:
            return None
        if d > b:
            far.append(o)
    if any(math.hypot(u[0] - v[0], u[1] - v[1]) < 1.5 for i, u in enumerate(far) for v in far[:i]):
        return None
    if len(far) <= 6:
        raise ValueError('too few observations')
    return projects.deterministic(p, obs=far) if m['n'] == 1 else projects.stochastic(p, m['n'], obs=far)


@st.composite
def script_cases(draw):
    runs = []
    for _ in range(draw(gens.ints(1, 3))):
        kind = draw(gens.pick('good', 'good', 'good', 'refused', 'unknown'))
        run = dict(kind=kind, end=draw(gens.pick('\n', '\n', '')))
        if kind == 'unknown':
            run['name'] = draw(gens.pick('no_such_project', 'data.no_such_project'))
        else:
            run['m'] = draw(module())
            if kind == 'refused':
                run['bad'] = draw(gens.pick('TARGET = 99', 'NPATHS = 0', 'WELLS = []', 'TOL = -1'))
        runs.append(run)
    return dict(runs=runs, logs=draw(st.booleans()))


def script(case, rec):
    """Python runs runme.py, several at once in one folder, and reads the module name."""
    from oneka.archive import load_oneka
    home = os.getcwd()
    root = tempfile.mkdtemp(dir=home)
    mods, work = os.path.join(root, 'modules'), os.path.join(root, 'work')
    os.makedirs(mods)
    os.makedirs(os.path.join(work, 'logs') if case['logs'] else work)
    env = dict(os.environ, PYTHONPATH=mods, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(root, 'cache'), PYTHONWARNINGS='ignore')
    try:
        todo = []
        for n, run in enumerate(case['runs']):
            if run['kind'] != 'unknown':
                run['m']['name'] = '{} {}'.format(run['m']['name'].strip(), n)
            todo.append((run, run['name'] if run['kind'] == 'unknown' else write(mods, run['m'], run.get('bad', ''))))
        procs = [subprocess.Popen([sys.executable, os.path.join(REPO, 'runme.py')], cwd=work, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                 for _ in todo]
        try:
            for (run, name), proc in zip(todo, procs):
                proc.stdin.write(name + run['end'])
                proc.stdin.flush()
            outs = [proc.communicate() for proc in procs]
        finally:
            for proc in procs:
                proc.kill()
                proc.wait()
        after = snapshot(work)
        logs = {f: text.decode() for f, text in after.items() if f.endswith('.log')}
        bz2 = {f: load_oneka(os.path.join(work, f)) for f in after if f.endswith('.bz2')}
        good = 0
        for (run, name), proc, (out, err) in zip(todo, procs, outs):
            if run['kind'] == 'unknown':
                require(proc.returncode == 0 and name in out, 'the unknown module name {} is not reported: {!r} {!r}', name, out, err[-300:])
                continue
            s = settings(run['m'])
            mine = [f for f in bz2 if bz2[f]['projectname'] == s['PROJECTNAME']]
            if run['kind'] == 'refused':
                require(proc.returncode != 0 and not mine, 'the refused project was run')
                continue
            if proc.returncode:
                try:
                    args(run['m'])
                except Exception as e:
                    rec.label('not judged: the pipeline raises ' + type(e).__name__)
                    continue
            require(proc.returncode == 0, 'the run of {} ended with code {}: {}', name, proc.returncode, err[-400:])
            good += 1
            require(len(mine) == 1, '{} archives for one run', len(mine))
            held = [f for f in logs if re.search(r'(?m)^\s*project name\s*= ?{}$'.format(re.escape(s['PROJECTNAME'])), logs[f])]
            require(len(held) == 1, 'the project name stands in {} logs', len(held))
            stated(logs[held[0]], s)
            got = bz2[mine[0]]
            for k, v in s.items():
                w = got.get(SETTINGS[k])
                require(w == v and type(w) is type(v), 'the archive holds {} = {!r}, the module has {!r}', SETTINGS[k], w, v)
            if run['m']['n'] == 1:
                want = args(run['m'])
                require(want is None or build.state(got['pfield']) == build.state(want), 'the archived field is not that of the settings')
        kinds = [r['kind'] for r in case['runs']]
        require(len(bz2) <= kinds.count('good') and len(logs) <= len(kinds) - kinds.count('unknown'), '{} archives and {} logs for {}', len(bz2), len(logs), kinds)
        require(set(after) <= set(logs) | set(bz2) and all(os.path.dirname(f) == 'logs' for f in after), 'the runs wrote {}', sorted(after))
        rec.hit(good > 0 and len(kinds) > 1)
        rec.label(*kinds)
    finally:
        shutil.rmtree(root)


SUBS = [Sub('drive', cases(), drive, 400, 3200, 'files, log and archive of every run against the module', cpu=40),
        Sub('script', script_cases(), script, 32, 320, 'files and screens of runme.py processes at work at once in one folder', cpu=60)]
