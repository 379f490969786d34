"""Writes DESIGN.md from tools/design/*.md and the rules that the checks themselves state."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(1, '/repo')
sys.dont_write_bytecode = True

WHY = {
    'C01': 'Sign and factor slips show only off the axes, away from the origin or with several wells; the tests use one model.',
    'C02': 'The net outflow round boxes is an integral statement that no list of point values implies.',
    'C03': 'The transition potential itself, tiny potentials and the dry side are single points of a continuum; the generator aims at them.',
    'C04': 'The fast and the general velocity must agree just above, and differ just below, the transition.',
    'C05': 'Optimality is checked by its first-order conditions, so no second implementation of the fit has to be trusted; mixed confined/unconfined '
           'observations with unequal deviations are what tests leave out.',
    'C06': 'Metamorphic relations need no expected numbers; reuse of the same model object covers state left by the previous fit.',
    'C07': 'State and aliasing defects need histories over several models.',
    'C08': 'Closed-form fields let every vertex and the end be compared for any duration, direction, tolerance and step.',
    'C09': 'A clock component makes the time of each vertex readable, so the local error is known step by step.',
    'C10': 'The fault is injected at every possible evaluation (stage and step) of a trace, which no test schedules; the trace without it is the reference.',
    'C11': 'Independent of tracing details: the area enclosed by the ends obeys a closed water balance.',
    'C12': 'Every node of the lattice round the track is decided by brute force, including those outside of the grid before.',
    'C13': 'Histories with content: every node is followed by its coordinates.',
    'C14': 'The sum of weights over histories, compared with brute-force membership per realization, in two orders.',
    'C15': 'Exact rationals leave no tolerance to hide in.',
    'C16': 'Starting points are observed where the velocity is evaluated; the union is brute force over traces made one by one.',
    'C17': 'The whole deterministic pipeline against an independent one; disputable nodes are excluded by computing the zone with the umbra 5 % narrower and wider and '
           'at another tolerance.',
    'C18': 'Distributional statements need hundreds to thousands of realizations and thresholds that account for the number of comparisons.',
    'C19': 'Whitening with the mean and covariance of an independent fit under the parameters of that realization detects a stale or '
           'wrong covariance, a shared draw and a draw from the wrong fit.',
    'C20': 'Types, order, bounds and lengths are enumerated by the generator against a reference predicate.',
    'C21': 'Exact Pythagorean offsets put observations exactly on the buffer; every well is the one nearest in some case.',
    'C22': 'Interleaving and permutation of duplicates are combinatorial.',
    'C23': 'Ties, missing values and unsorted columns against the statistics in exact rationals.',
    'C24': 'Histories within one second and in several folders, with every file compared byte by byte afterwards; an audit hook makes the file that the code is about to make, as another process could.',
    'C25': 'Ties and cell boxes are compared on fields that are generated, not computed.',
    'C26': 'One corruption per argument and per field of every well and observation; accepted runs are compared with the pipelines they should call.',
    'C27': 'The arrays handed to matplotlib are compared with the model at independently computed places, on windows that are not square.',
    'C28': 'Metamorphic: wrong mixing of x and y, of indices and of wells breaks a symmetry.',
    'C29': 'Ties the stochastic pipeline to the deterministic one.',
    'C30': 'Each operation of a history is repeated alone in a fresh process and compared bit by bit.',
    'C31': 'Files, log and archive of generated modules, several runs within one second in one process, and several processes at once.',
    'C32': 'Any call fails today (known finding): the check would notice a repair as well as another failure.',
    'C33': 'The model states that each realization used are recorded, the zone of each is recomputed independently, and the fraction counted.',
    'C34': 'Metamorphic: inclusion needs no reference zone.',
    'C35': 'Metamorphic: a change of datum or units that is mixed up anywhere changes the zone.',
    'C36': 'Stream function, head and travel time are checked along traces of real models, beyond the closed-form fields of C08.',
    'C37': 'The log is parsed and balanced against the input.',
    'C38': 'The numbers of the log are compared with those of an independent fit and with those in use while tracing.',
    'C40': 'Each realization is followed from its log lines to the model state in use, and its fit is made again independently.',
    'C39': 'Real wells, observations and coordinates, varied; the whole way from the supplied observations to the returned field is recomputed independently.',
}


def main():
    props = {}
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        d = json.loads(line)
        props[d['id']] = d
    out = [open(os.path.join(HERE, 'design', 'head.md')).read().rstrip(), '']
    for pid, d in props.items():
        m = importlib.import_module('props.' + pid.lower())
        out.append('### {}: {}'.format(pid, d['title']))
        out.append('')
        out.append('* Generated: ' + m.RULE)
        for s in m.SUBS:
            out.append('* `{}` ({} cases quick, {} thorough; at most {:.0f} CPU s each): oracle: {}.'.format(s.name, s.quick, s.thorough, s.cpu, s.rule))
        if m.ASSUMPTIONS:
            out.append('* Bounds and assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.')
        out.append('* Reach: ' + WHY[pid])
        out.append('')
    out.append(open(os.path.join(HERE, 'design', 'tail.md')).read().rstrip())
    out.append('')
    out.append('## 6. Planted bugs')
    out.append('')
    out.append('Each is a patch in `seeded/<id>/` that passes the stable tests and has a demonstration; the last column says which check caught it when it was last tried '
               '(`tools/mkseeds.py --try`; results in `tools/design/seeds.json`).')
    out.append('')
    out.append('| bug | property | needs | check |')
    out.append('|---|---|---|---|')
    path = os.path.join(HERE, 'design', 'seeds.json')
    results = json.load(open(path)) if os.path.exists(path) else {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        meta = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        out.append('| {} | {} | {} | {} |'.format(i, meta['property'], meta['needs'].replace('|', '/'), results.get(i, 'not tried yet')))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
