import copy
import os

from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import build, gens, rival

RULE = ('histories of 1 to 6 archivings in quick succession in 1 to 3 working directories (folder missing, present, or holding files of other names), of generated '
        'arguments (numbers, tuples, lists, strings of any characters) and fields with marks and content, which are changed after being archived; another run may make up to three '
        'files of the names that the code has chosen, at the moment at which it opens them. '
        'Non-trivial: at least two archives in one directory and a field with content.')
ASSUMPTIONS = ['another run is simulated, at the worst moment, by an audit hook that makes the file just before the code opens it']

NAMES = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'observations',
         'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')

anyq = st.one_of(gens.sq(1e6, 0.01), gens.ints(-1000, 100000), gens.logq(1e-6, 1e9))


@st.composite
def dist(draw):
    n = draw(gens.pick(0, 2, 3))
    if n == 0:
        return dict(k='num', v=[draw(anyq)])
    return dict(k=draw(gens.pick('tuple', 'list')), v=sorted(draw(anyq) for _ in range(n)))


@st.composite
def args(draw):
    return dict(projectname=draw(st.text(max_size=12)), runtime=draw(gens.pick('Sat Jul 25 12:00:00 2020', '', 'x')), target=draw(gens.ints(0, 3)),
                npaths=draw(gens.ints(1, 400)), duration=draw(anyq), nrealizations=draw(gens.ints(1, 500)), base=draw(anyq),
                dists=[draw(dist()) for _ in range(3)],
                wells=[[draw(anyq), draw(anyq), draw(gens.pick(0.25, 1, 0.5)), draw(dist())] for _ in range(draw(gens.ints(1, 4)))],
                obs=[[draw(anyq), draw(anyq), draw(anyq), draw(gens.pick(0.5, 1.0, 2))] for _ in range(draw(gens.ints(0, 9)))],
                rest=[draw(anyq) for _ in range(4)], confined=draw(st.booleans()), last=[draw(anyq), draw(anyq)])


def values(a):
    from vlib.projects import value
    return [a['projectname'], a['runtime'], a['target'], a['npaths'], a['duration'], a['nrealizations'], a['base']] + [value(d) for d in a['dists']] + [
        [(w[0], w[1], w[2], value(w[3])) for w in a['wells']], [tuple(o) for o in a['obs']]] + list(a['rest']) + [a['confined']] + list(a['last'])


@st.composite
def cases(draw):
    ops = []
    for i in range(draw(gens.ints(1, 6))):
        ops.append(dict(dir=draw(gens.pick(0, 0, 0, 1, 2)), args=draw(args()), field=draw(build.history(nmax=3)), marked=draw(st.booleans()),
                        rival=draw(gens.pick(0, 0, 1, 1, 2, 3))))
    return dict(ops=ops, pre=[draw(gens.pick('none', 'empty', 'files')) for _ in range(3)])


def snapshot(folder):
    out = {}
    for base, _, files in os.walk(folder):
        for f in files:
            name = os.path.join(base, f)
            with open(name, 'rb') as fp:
                out[os.path.relpath(name, folder)] = fp.read()
    return out


def archive(case, rec):
    from oneka.archive import dump_oneka, load_oneka
    import tempfile
    home = os.getcwd()
    root = tempfile.mkdtemp(dir=home)
    made = []
    try:
        for i, pre in enumerate(case['pre']):
            d = os.path.join(root, 'work{}'.format(i))
            os.makedirs(os.path.join(d, 'logs') if pre != 'none' else d)
            if pre == 'files':
                for name in ('Oneka20200725T120000.bz2', 'Oneka20200725T120000.log', 'notes.txt'):
                    with open(os.path.join(d, 'logs', name), 'w') as fp:
                        fp.write('older ' + name)
        for op in case['ops']:
            d = os.path.join(root, 'work{}'.format(op['dir']))
            os.chdir(d)
            pf = build.field(op['field'])
            if op['marked']:
                build.mark(pf, op['field'])
            v = values(op['args'])
            saved, shown = copy.deepcopy(v), build.state(pf)
            before = snapshot(root)
            with rival.Rival('logs', '.bz2', op['rival']) as other:
                dump_oneka(*v, pf)
            require(other.intact() is None, 'archiving changed {}, which another run had just made', other.intact())
            before.update({os.path.relpath(k, root): text for k, text in other.made.items()})
            after = snapshot(root)
            require(v == saved and build.state(pf) == shown, 'archiving modified its arguments')
            new = sorted(set(after) - set(before))
            require(len(new) == 1 and os.path.dirname(new[0]) == os.path.join('work{}'.format(op['dir']), 'logs'), 'archiving created {}, not one file in the logs folder', new)
            for name in before:
                require(after.get(name) == before[name], 'archiving changed {}', name)
            made.append((os.path.join(root, new[0]), op, saved, shown, pf))
        os.chdir(root)
        for name, op, saved, shown, pf in made:
            got = load_oneka(name)
            require(set(got) == set(NAMES) | {'pfield'}, 'the archive holds {}', sorted(got))
            for n, v in zip(NAMES, saved):
                require(got[n] == v and type(got[n]) is type(v), '{} was archived as {!r}, the argument was {!r}', n, got[n], v)
            back = got['pfield']
            require(build.state(back) == shown, 'the restored field differs:\n{}\nfrom\n{}', build.state(back), shown)
            # it continues to work like the original
            for f in (pf, back):
                build.mark(f, op['field'])
                f.register(2.0)
                f.reset()
            require(build.state(back) == build.state(pf), 'the restored field behaves differently from the original')
            again = load_oneka(name)['pfield']
            require(build.state(again) == shown, 'the archive changed with the restored field')
    finally:
        os.chdir(home)
        import shutil
        shutil.rmtree(root)
    dirs = [op['dir'] for op in case['ops']]
    rec.hit(len(dirs) > len(set(dirs)))
    rec.label('another run at the same moment' if any(op['rival'] for op in case['ops']) else 'alone')
    rec.label('{} archives'.format(len(dirs)))


SUBS = [Sub('archive', cases(), archive, 2800, 22400, 'files and restored values against what was archived')]
