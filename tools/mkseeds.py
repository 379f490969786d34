"""
Plants, confirms and tries the seeded bugs: python3 tools/mkseeds.py [--try] [ID...]

Every bug of tools/seeds.py is applied to a scratch copy of /repo; it is kept in /verif/seeded/<id>/ if the stable tests pass with it and its
demonstration passes without and fails with it. With --try the check of its property is run against the scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    from seeds import SEEDS
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    known = set(s['id'] for s in SEEDS)
    assert len(known) == len(SEEDS)
    for s in SEEDS:
        if args and s['id'] not in args and s['property'] not in args:
            continue
        top = tempfile.mkdtemp(prefix='seed')
        repo = os.path.join(top, 'repo')
        try:
            shutil.copytree('/repo', repo)
            sh(['git', 'checkout', '-q', '--', '.'], repo)
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                text = open(p).read()
                assert text.count(old) == 1, (s['id'], f, text.count(old), old)
                open(p, 'w').write(text.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
            assert diff.strip(), s['id']
            d = os.path.join(VERIF, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# Run in /repo: exit 0 if the property holds in the demonstrated case.\n'
                                                        'export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg\n'
                                                        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            open(os.path.join(d, 'demo.py'), 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip('\n') + '\n')
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            tests = sh([PY, '-m', 'pytest', '-q', 'tests'], repo)
            clean = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
            broken = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            t = tests.stdout.strip().split('\n')[-1]
            ok = 'failed' not in t and 'error' not in t and clean.returncode == 0 and broken.returncode != 0
            print(s['id'], s['property'], 'CONFIRMED' if ok else 'NOT A BUG', '| tests:', t, '| clean', clean.returncode, '| with', broken.returncode,
                  broken.stdout.strip().split('\n')[-1][:100], flush=True)
            if not ok:
                print(clean.stdout[-500:], tests.stdout[-600:])
            if '--try' in sys.argv:
                out = sh(['bash', os.path.join(VERIF, 'run'), s['property'], '--no-evidence'], VERIF, env=dict(os.environ, ONEKA_REPO=repo))
                caught = 'VIOLATION property=' + s['property'] in out.stdout and out.returncode == 1
                print('    ', 'caught' if caught else 'MISSED ({})'.format(out.returncode), '|', out.stdout.strip().split('\n')[0][:230], '|',
                      out.stdout.strip().split('\n')[-1].split(',')[-1], flush=True)
                path = os.path.join(HERE, 'design', 'seeds.json')
                res = json.load(open(path)) if os.path.exists(path) else {}
                res[s['id']] = ('caught by ' if caught else 'missed by ') + s['property']
                json.dump(res, open(path, 'w'), indent=0, sort_keys=True)
        finally:
            shutil.rmtree(top)


main()
