"""
The engine of the property checks.

A property module (props/cNN.py) defines SUBS, a list of Sub objects. Each Sub is one executable
statement about the code: a Hypothesis strategy that builds a JSON-able case, and a function that runs the
code under test on the case and raises Fail if the statement does not hold.

The engine runs the subs in a fixed number of forked shards, every one a pure function of the code and
VERIF_SEED, shrinks failures, writes them as replay files that run without Hypothesis, and writes the evidence.
"""
import argparse
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('ONEKA_REPO', '/repo'))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SHARDS = 8
CPU_LIMIT = 60.0            # CPU seconds for a single case that normally takes milliseconds.
ENGINE_SHARE = 0.25         # share of the cases that come from Hypothesis's own engine
SHRINK_EVALS = 400          # further cases after a failure
SHRINK_CPU = 45.0           # further CPU seconds after a failure
SUB_CPU = {'quick': 240.0, 'thorough': 500.0}        # CPU seconds per sub and shard, far above what is needed.

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


class Fail(Exception):
    """The property does not hold. 'key' identifies the call site or input class of a known finding."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Stopped(BaseException):
    """Another shard has found a violation."""


class HarnessError(Exception):
    """Something is wrong with the check or the sandbox; not a statement about the code."""


class Rec:
    """What the check says about one case."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, flag=True):
        if flag:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule='', cpu=CPU_LIMIT, shrink=True):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule, self.cpu, self.shrink = quick, thorough, rule, cpu, shrink


def require(cond, message, *args, key=None):
    if not cond:
        raise Fail(message.format(*args) if args else message, key=key)


# ---------------------------------------------------------------- environment
def setup_imports():
    """numpy, scipy and matplotlib from the code's own interpreter, Hypothesis from the tool venv (behind it)."""
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401


_rng = {'base': 0, 'n': 0}


def seed_all(n):
    """Every source of randomness the code may use becomes a function of n."""
    import numpy as np
    np.random.seed(n % (2**32))
    random.seed(n)
    _rng['base'], _rng['n'] = n, 0


def setup_code(scratch):
    """Import the code under test from REPO's working tree, whatever bytecode lies around."""
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')

    original = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            _rng['n'] += 1
            seed = [abs(_rng['base']), _rng['n']]
        return original(seed)
    np.random.default_rng = default_rng

    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pycache')
    sys.path.insert(0, REPO)

    logging.getLogger().addHandler(logging.NullHandler())

    import oneka
    where = os.path.dirname(os.path.abspath(oneka.__file__))
    if os.path.dirname(where) != REPO:
        raise HarnessError('oneka was imported from ' + where)


def in_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    out = []
    for f in frames[-6:]:
        name = f.filename
        if name.startswith(REPO + os.sep):
            name = name[len(REPO) + 1:]
        out.append('{}:{} {}'.format(os.path.basename(name) if name.startswith('/') else name, f.lineno, f.name))
    return ' < '.join(reversed(out))


# ---------------------------------------------------------------- one case
_DATA_ERRORS = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError,
                StopIteration, RecursionError)


def run_case(sub, case, rec):
    """Run one case: returns normally, raises Fail, or raises HarnessError."""
    try:
        sub.fn(json.loads(json.dumps(case)), rec)
    except (Fail, HarnessError):
        raise
    except Exception as e:
        if in_repo(e):
            raise Fail('unexpected {}: {} [{}]'.format(type(e).__name__, e, where(e))) from e
        if isinstance(e, _DATA_ERRORS):
            # The code returned something the statement cannot even be evaluated on.
            raise Fail('unusable result, {}: {} [{}]'.format(type(e).__name__, e, where(e))) from e
        raise HarnessError('{}: {} [{}]'.format(type(e).__name__, e, where(e))) from e


def key_of(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def load_known():
    """Lines 'known: property=C32 key=... : text' of known_findings.txt ('fixed:' lines suppress nothing)."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                head, text = line[len('known:'):].split(' : ', 1)
                fields = dict(f.split('=', 1) for f in head.split())
                out[(fields['property'], fields['key'])] = text.strip()
    return out


# ---------------------------------------------------------------- one shard
def shrink(sub, st, state, body, draw, choices, ConjectureData, ConjectureRunner, StopTest, config):
    """Reduce a failing case with Hypothesis's shrinker; st['fail'] becomes the smallest failing case."""
    from hypothesis.internal.escalation import InterestingOrigin

    def test(data):
        try:
            body(draw(data))
        except Fail as e:
            data.mark_interesting(InterestingOrigin.from_exception(e))
    runner = ConjectureRunner(test, settings=config, random=random.Random(0))
    try:
        runner.cached_test_function(choices)
        runner.shrink_interesting_test_cases()
    except BaseException as e:      # RunIsComplete and the like: what has been found so far counts
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        st['labels']['shrinking ended: ' + type(e).__name__] = 1
    try:
        best = min(runner.interesting_test_cases.values(), key=lambda r: len(r.choices))
        case = draw(ConjectureData.for_choices(best.choices))
        message = state['failing'].get(key_of(case))
        if message is not None:
            st['fail'] = (case, message)
    except Exception as e:          # the failing case found last stays
        st['labels']['shrinking failed: ' + type(e).__name__] = 1


def run_shard(prop, subs, tier, seed, shard, nshards, scale, known, outfile, first=False):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    results = []
    current = {'sub': None, 'case': None}
    flag = os.path.join(os.path.dirname(outfile), 'failed')     # a shard has found a violation: the others stop

    def failed():
        open(flag, 'w').close()

    def dump():
        with open(outfile + '.tmp', 'wb') as fp:
            pickle.dump(results, fp)
        os.replace(outfile + '.tmp', outfile)

    def on_alarm(signum, frame):
        failed()
        st = results[-1]
        st['fail'] = (current['case'], 'did not finish within {:.0f} s of CPU time (such cases take milliseconds to '
                                       'seconds): it hangs'.format(current['sub'].cpu))
        dump()
        os._exit(0)

    signal.signal(signal.SIGPROF, on_alarm)
    soft = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))

    def make_body(sub, st, state):
        def body(case):
            k = key_of(case)
            if state['t_fail'] is not None:
                state['after'] += 1
                over = (first or state['after'] > SHRINK_EVALS or time.process_time() - state['t_fail'] > SHRINK_CPU
                        or not sub.shrink)
                if over and k not in state['failing']:
                    return
            elif os.path.exists(flag):
                raise Stopped()
            elif time.process_time() - state['t0'] > SUB_CPU[tier]:
                st['skipped'] += 1
                return
            rec = Rec()
            current['sub'], current['case'] = sub, case
            t_case = time.process_time()
            signal.setitimer(signal.ITIMER_PROF, sub.cpu)
            try:
                run_case(sub, case, rec)
            except Fail as e:
                if e.key is not None and (prop, e.key) in known:
                    st['known'][e.key] = st['known'].get(e.key, 0) + 1
                else:
                    if state['t_fail'] is None:
                        state['t_fail'] = time.process_time()
                        failed()
                    state['failing'][k] = str(e)
                    st['fail'] = (case, str(e))
                    raise
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            st['slowest'] = max(st['slowest'], time.process_time() - t_case)
            if state['t_fail'] is None:
                st['evals'] += 1
                st['seen'].add(k)
                for lab in rec.labels:
                    st['labels'][lab] = st['labels'].get(lab, 0) + 1
                if rec.nontrivial and k not in st['nontrivial']:
                    st['nontrivial'].add(k)
                    if len(st['samples']) < 2 and len(st['nontrivial']) % 7 == 3:
                        st['samples'].append(case)
        return body

    for sub in subs:
        total = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, int(-(-total * scale // nshards)))
        st = dict(sub=sub.name, evals=0, seen=set(), nontrivial=set(), labels={}, samples=[], fail=None,
                  known={}, error=None, cpu=0.0, rule=sub.rule, skipped=0, slowest=0.0)
        results.append(st)
        state = dict(after=0, t_fail=None, failing={}, t0=time.process_time())

        body = make_body(sub, st, state)

        def number(*parts):
            return int.from_bytes(hashlib.blake2b('/'.join(str(a) for a in (seed, prop, sub.name, shard) + parts).encode(), digest_size=8).digest(), 'big')

        def draw(data):
            with BuildContext(data, is_final=False, wrapped_test=body):
                return data.draw(sub.strategy)

        # Independent random cases. (Hypothesis's own engine varies earlier cases, which clusters them.)
        config = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
        t0 = time.process_time()
        alone = n - int(n * ENGINE_SHARE)
        for i in range(alone):
            data = ConjectureData(random=random.Random(number(i)))
            try:
                case = draw(data)
            except StopTest:
                continue
            try:
                body(case)
            except Stopped:
                dump()
                return
            except HarnessError as e:
                st['error'] = str(e)
                break
            except Fail:
                if sub.shrink and not first:
                    shrink(sub, st, state, body, draw, data.choices, ConjectureData, ConjectureRunner, StopTest, config)
                break
        st['cpu'] = time.process_time() - t0
        if st['fail'] or st['error'] or n == alone:
            dump()
            continue

        test = given(sub.strategy)(body)
        test = settings(config, max_examples=n - alone)(test)
        test = hseed(number())(test)
        t0 = time.process_time()
        try:
            test()
        except Stopped:
            dump()
            return
        except HarnessError as e:
            st['error'] = str(e)
        except Exception as e:
            if st['fail'] is None:
                st['error'] = '{}: {} [{}]'.format(type(e).__name__, e, where(e))
        st['cpu'] += time.process_time() - t0
        dump()
    dump()


# ---------------------------------------------------------------- the run
def write_replay(prop, sub, case, message, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}.json'.format(prop, sub))
    with open(path, 'w') as fp:
        json.dump(dict(property=prop, sub=sub, seed=seed, message=message, case=case), fp, indent=1)
    return path


def copy_mplconfig(scratch):
    conf = os.path.join(scratch, 'mpl')
    try:
        shutil.copytree('/opt/vp/mplconfig', conf)
    except OSError:
        os.makedirs(conf, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = conf


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--first', action='store_true', help='do not shrink')
    args = ap.parse_args(argv)
    if args.replay:
        args.replay = os.path.abspath(args.replay)

    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = args.property
    scratch = tempfile.mkdtemp(prefix='oneka-check-')
    code = EXIT_ERROR
    try:
        code = execute(args, prop, seed, scratch)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = EXIT_ERROR
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def execute(args, prop, seed, scratch):
    t0 = time.time()
    copy_mplconfig(scratch)
    os.chdir(scratch)
    setup_imports()
    setup_code(scratch)
    module = importlib.import_module('props.' + prop.lower())
    subs = [s for s in module.SUBS if args.sub in (None, s.name)]
    known = load_known()

    if args.replay:
        rep = json.load(open(args.replay))
        sub = [s for s in module.SUBS if s.name == rep['sub']][0]

        def hang(signum, frame):
            print('did not finish within {:.0f} s of CPU time'.format(sub.cpu))
            print('VIOLATION property={} replay={}'.format(prop, args.replay))
            sys.stdout.flush()
            os._exit(EXIT_VIOLATION)
        signal.signal(signal.SIGPROF, hang)
        signal.setitimer(signal.ITIMER_PROF, sub.cpu)
        try:
            run_case(sub, rep['case'], Rec())
        except Fail as e:
            if e.key is not None and (prop, e.key) in known:
                print('KNOWN-FINDING: property={} {}'.format(prop, known[(prop, e.key)]))
                return EXIT_OK
            print(e)
            print('VIOLATION property={} replay={}'.format(prop, args.replay))
            return EXIT_VIOLATION
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        print('the property holds on this case')
        return EXIT_OK

    nshards = SHARDS
    files = [os.path.join(scratch, 'shard{}.pickle'.format(i)) for i in range(nshards)]
    pids = {}
    sys.stdout.flush()
    for i in range(nshards):
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                own = os.path.join(scratch, 'work{}'.format(i))
                os.makedirs(own)
                os.chdir(own)
                run_shard(prop, subs, args.tier, seed, i, nshards, args.scale, known, files[i], args.first)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[pid] = i
    broken = []
    for _ in range(nshards):
        pid, status = os.wait()
        if status != 0:
            broken.append('shard {} ended with status {}'.format(pids[pid], status))

    merged = {}
    for path in files:
        if not os.path.exists(path):
            continue
        for st in pickle.load(open(path, 'rb')):
            m = merged.setdefault(st['sub'], dict(evals=0, seen=set(), nontrivial=set(), labels={}, samples=[],
                                                  fails=[], known={}, errors=[], cpu=0.0, rule=st['rule'], skipped=0, slowest=0.0))
            m['evals'] += st['evals']
            m['seen'] |= st['seen']
            m['nontrivial'] |= st['nontrivial']
            m['cpu'] += st['cpu']
            m['slowest'] = max(m['slowest'], st['slowest'])
            m['skipped'] += st['skipped']
            m['samples'] += st['samples']
            for k, v in st['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
            for k, v in st['known'].items():
                m['known'][k] = m['known'].get(k, 0) + v
            if st['fail']:
                m['fails'].append(st['fail'])
            if st['error']:
                m['errors'].append(st['error'])

    violations = 0
    code = EXIT_OK
    for name, m in merged.items():
        if m['fails']:
            violations += 1
            case, message = min(m['fails'], key=lambda f: len(json.dumps(f[0])))
            path = write_replay(prop, name, case, message, seed)
            print('{}: {}'.format(name, message))
            print('VIOLATION property={} replay={}'.format(prop, path))
            code = EXIT_VIOLATION
    errors = broken + [e for m in merged.values() for e in m['errors']]
    for e in errors[:5]:
        print('ERROR: ' + e, file=sys.stderr)
    if errors and code == EXIT_OK:
        code = EXIT_ERROR
    for key in sorted({k for m in merged.values() for k in m['known']}):
        print('KNOWN-FINDING: property={} {}'.format(prop, known[(prop, key)]))

    evals = sum(m['evals'] for m in merged.values())
    nontrivial = sum(len(m['nontrivial']) for m in merged.values())
    if code == EXIT_OK and not args.sub and args.scale >= 1:
        for name, m in merged.items():
            if len(m['nontrivial']) * 10 < len(m['seen']) or not m['nontrivial']:
                print('ERROR: {}: only {} of {} distinct cases are non-trivial'
                      .format(name, len(m['nontrivial']), len(m['seen'])), file=sys.stderr)
                code = EXIT_ERROR
    samples = []
    for name, m in merged.items():
        for case in m['samples'][:2]:
            samples.append(dict(sub=name, case=case))
    evidence = dict(
        property=prop, tier=args.tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evals, distinct_nontrivial=nontrivial,
            rule=module.RULE,
            samples=samples,
            parts={name: dict(evaluations=m['evals'], distinct=len(m['seen']), distinct_nontrivial=len(m['nontrivial']),
                              labels=dict(sorted(m['labels'].items())), cpu_s=round(m['cpu'], 2), slowest_case_s=round(m['slowest'], 3), rule=m['rule'],
                             skipped_for_time=m['skipped'],
                              known_findings_met=m['known'])
                   for name, m in merged.items()},
            shards=nshards),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 3), violations=violations)
    if not args.no_evidence and not args.sub:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as fp:
            json.dump(evidence, fp, indent=1)
        os.replace(path + '.tmp', path)
    if args.verbose:
        for name, m in merged.items():
            print('  {:28s} evals {:7d} distinct {:7d} nontrivial {:7d} cpu {:7.1f} slowest {:6.2f} {}'.format(
                name, m['evals'], len(m['seen']), len(m['nontrivial']), m['cpu'], m['slowest'], dict(sorted(m['labels'].items()))))
    print('{} {} seed={}: {} cases, {} distinct non-trivial, {} violations, {:.1f} s'.format(
        prop, args.tier, seed, evals, nontrivial, violations, time.time() - t0))
    return code
