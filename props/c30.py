import copy
import math
import os
import pickle
import signal

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, Fail, HarnessError, require, seed_all
from vlib import build, gens, projects, ref

RULE = ('histories of 4 to 10 operations in one process (fits, refused fits, traces, fields, deterministic and stochastic capture zones, interrupted ones, filters and '
        'summaries, on two projects and on the same caller objects, each under another random state); every deterministic operation is also run alone in a fresh process. '
        'Non-trivial: a deterministic operation is repeated, or follows one on the other project.')
ASSUMPTIONS = ['a fresh process is a fork in which no function of the code was called before']


@st.composite
def cases(draw):
    ps = [draw(projects.project(paths=(1, 2), opposite=False, neighbours=(0, 1, 2))) for _ in range(2)]
    if draw(gens.ints(0, 2)) == 0:
        # the second one differs from the first in one respect only
        ps[1] = copy.deepcopy(ps[0])
        k = draw(gens.pick('p', 't', 'c', 'umbra', 'spacing', 'npaths', 'duration', 'q', 'base'))
        if k in ('p', 't', 'c'):
            ps[1][k]['v'] = [v * 0.9 for v in ps[1][k]['v']]
        elif k in ('umbra', 'duration', 'spacing'):
            ps[1][k] *= 0.8
        elif k == 'npaths':
            ps[1][k] += 1
        elif k == 'q':
            ps[1]['wells'][-1][3]['v'] = [v * 0.9 for v in ps[1]['wells'][-1][3]['v']]
        else:
            ps[1]['base'] -= 1.0
    ops = []
    for _ in range(draw(gens.ints(4, 10))):
        if ops and draw(gens.ints(0, 2)) == 0:
            ops.append(list(draw(gens.pick(*range(12)).map(lambda k: ops[k % len(ops)]))))
            continue
        kind = draw(gens.pick('det', 'det', 'sto', 'fit', 'badfit', 'trace', 'field', 'filter', 'summary', 'interrupt'))
        ops.append([kind, draw(gens.ints(0, 1)), draw(gens.ints(0, 60))])
    return dict(ps=ps, ops=ops, h=[draw(build.history(nmax=2)) for _ in range(2)], seed=draw(gens.ints(0, 10**6)))


PURE = ('det', 'fit', 'trace', 'field', 'filter', 'summary')


class World:
    """The caller's objects, shared by all operations of a process."""

    def __init__(self, case):
        self.case = case
        self.args = []
        for p in case['ps']:
            self.args.append(dict(wells=projects.wells_of(p), obs=projects.obs_of(p), c=projects.value(p['c']), p=projects.value(p['p']), t=projects.value(p['t'])))
        self.kept = copy.deepcopy(self.args)
        self.h = copy.deepcopy(case['h'])
        self.fields = []

    def det(self, i):
        from oneka.deterministic import create_deterministic_capturezone
        p, a = self.case['ps'][i], self.args[i]
        return create_deterministic_capturezone(p['target'], p['npaths'], p['duration'], p['base'], a['c'], a['p'], a['t'], a['wells'], a['obs'],
                                                p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])

    def run(self, op):
        kind, i, n = op
        p, a = self.case['ps'][i], self.args[i]
        from oneka.model import Model, RangeError
        if kind == 'det':
            pf = self.det(i)
            out = build.state(pf)
            self.fields.append((pf, out))
            return out
        if kind == 'sto':
            from oneka.stochastic import create_stochastic_capturezone
            pf = create_stochastic_capturezone(p['target'], p['npaths'], p['duration'], 1 + n % 3, p['base'], a['c'], a['p'], a['t'], a['wells'], a['obs'],
                                               p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'])
            self.fields.append((pf, build.state(pf)))
            return None
        if kind in ('fit', 'badfit', 'trace'):
            wells = [(w[0], w[1], w[2], projects.mean(v[3])) for w, v in zip(a['wells'], p['wells'])]
            x, y = p['wells'][p['target']][:2]
            mo = Model(p['base'], projects.mean(p['c']), projects.mean(p['p']), projects.mean(p['t']), wells)
            if kind == 'badfit':
                o = a['obs'][-1]
                try:
                    mo.fit_regional_flow(a['obs'][:-1] + [(o[0], o[1], p['base'] - 1.0, 1.0)], x, y)
                except RangeError:
                    return None
                raise Fail('a level below the base was fitted')
            ev, cov = mo.fit_regional_flow(a['obs'], x, y)
            if kind == 'fit':
                return np.ravel(ev).tolist(), np.array(cov).tolist(), np.ravel(mo.coef).tolist(), mo.compute_potential(x + 3.0, y + 4.0)
            from oneka.capturezone import compute_backtrace

            def feval(xy):
                v = mo.compute_velocity_confined(xy[0], xy[1])
                return -np.array([v[0], v[1]])
            t = compute_backtrace(x + p['R'] * 0.1, y, p['duration'], p['tol'] * 10, p['maxstep'], feval)
            return [(float(v[0]), float(v[1])) for v in t]
        if kind == 'field':
            pf = build.field(self.h[i])
            out = build.state(pf)
            self.fields.append((pf, out))
            return out
        if kind == 'filter':
            from oneka.utilities import filter_obs
            return repr([tuple(float(v) for v in o) for o in filter_obs(a['obs'], a['wells'], p['R'] * (0.5 + i))])
        if kind == 'summary':
            from oneka.utilities import summary_statistics
            return summary_statistics(a['obs'], ['X', 'Y', 'Z', 'S'], ['12.2f'] * 4, 'T').getvalue()
        if kind == 'interrupt':
            saved = {k: getattr(Model, k) for k in ('compute_velocity', 'compute_velocity_confined')}
            count = [n * 3]

            def wrap(f):
                def g(mo, x, y):
                    count[0] -= 1
                    if count[0] < 0:
                        raise KeyboardInterrupt
                    return f(mo, x, y)
                return g
            try:
                for k, f in saved.items():
                    setattr(Model, k, wrap(f))
                self.det(i)
            except KeyboardInterrupt:
                pass
            finally:
                for k, f in saved.items():
                    setattr(Model, k, f)
            return None
        raise HarnessError(kind)

    def unmodified(self, op):
        require(self.args == self.kept and all(type(x[k]) is type(y[k]) for x, y in zip(self.args, self.kept) for k in x),
                '{} modified the caller\'s data', op)
        for n, (pf, out) in enumerate(self.fields):
            require(build.state(pf) == out, '{} changed a field returned earlier (number {})', op, n)


def apart(f):
    """f() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(240)
            try:
                out = ('ok', f())
            except Fail as e:
                out = ('fail', str(e))
            except BaseException as e:
                out = ('raise', repr(e))
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(out, fp)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Fail('the process that ran the operations ended with status {}'.format(status))
    return pickle.loads(data)


def repeat(case, rec):
    ops = [tuple(o) for o in case['ops']]

    def key(o):
        return o[:2]
    seen = set()
    for o in ops:
        if o[0] in PURE:
            rec.hit(key(o) in seen or any(k[1] != o[1] for k in seen))
        seen.add(key(o))
    rec.label(*[o[0] for o in ops])

    def alone(o):
        def f():
            seed_all(case['seed'] + 991)
            world = World(case)
            out = world.run(o)
            world.unmodified(o)
            return out
        return apart(f)

    def all_of_them():
        world = World(case)
        outs = []
        for n, o in enumerate(ops):
            seed_all(case['seed'] + n)
            try:
                outs.append(('ok', world.run(o)))
            except (ArithmeticError, ValueError, LookupError, AttributeError, TypeError) as e:
                outs.append(('raise', repr(e)))
            world.unmodified(o)
        for pf, _ in world.fields[:1]:
            pf.pgrid[...] = -7.0
            pf.rgrid[...] = True
            for n, (other, out) in enumerate(world.fields[1:]):
                require(build.state(other) == out, 'two fields of separate runs share their content')
        return outs
    status, outs = apart(all_of_them)
    if status == 'fail':
        raise Fail(outs)
    if status == 'raise':
        raise Fail('the history raised ' + outs)
    base = {}
    for n, (o, out) in enumerate(zip(ops, outs)):
        if o[0] not in PURE:
            continue
        if key(o) not in base:
            base[key(o)] = alone(o)
            if base[key(o)][0] == 'fail':
                raise Fail(base[key(o)][1])
        require(out == base[key(o)], 'operation {} ({}) gives another result after {} than in a fresh process', n, o, ops[:n])


SUBS = [Sub('repeat', cases(), repeat, 1280, 10240, 'the same operation alone in a fresh process, bit by bit', cpu=240)]
