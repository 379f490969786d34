"""Generates /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': ('property-based testing: finite differences of the potential and closed formula', 'Discharge compared with Richardson-extrapolated differences of the potential and with an independent formula.'),
    'C02': ('property-based testing: reference formula and flux balance over closed curves', 'Closed formula at points, and quadrature of the normal flux round generated boxes.'),
    'C03': ('property-based testing: round trip head - potential, monotonicity, dry errors', 'Inverse relation on both branches, at and near the transition and the dry limit.'),
    'C04': ('property-based testing: discharge identity and differential of the two velocities', 'The identity n b v = Q on generated models and points in every state of the aquifer.'),
    'C05': ('property-based testing: optimality conditions against an exact reference fit', 'Normal equations and inverse covariance, scaled, against an independent weighted least-squares solution.'),
    'C06': ('property-based testing: recovery and metamorphic relations of the fit', 'Exact recovery and invariance under permutation, origin, shift and scaling of deviations.'),
    'C07': ('property-based testing: histories over several models against reference copies', 'Snapshots of every model and caller array after every operation, refused fits included.'),
    'C08': ('property-based testing: traces against analytic and DOP853 trajectories', 'Exact solutions, reversal and concatenation on generated fields and tolerances.'),
    'C09': ('property-based testing: step and local-error invariants over all vertices', 'Step length and single-step error of every step of generated traces.'),
    'C10': ('fault injection at generated evaluations, prefix oracle', 'Exceptions, NaN, infinities and interrupts at generated evaluations, against the fault-free trace.'),
    'C11': ('property-based testing: closed-form water balance of capture zones', 'Pore volume of the swept region against the pumped volume with and without recharge.'),
    'C12': ('property-based testing: brute-force rasteriser', 'Every node of the lattice against brute-force distances to the track.'),
    'C13': ('model-based testing of growth histories', 'Lattice-keyed reference model after every growth request.'),
    'C14': ('model-based testing of realization histories', 'Lattice-keyed reference model of weights, and order independence.'),
    'C15': ('property-based testing: exact rational reference and symmetries', 'Rational minimisation over the segment.'),
    'C16': ('property-based testing: union of independently traced and rasterised paths', 'Starting points observed at the velocity callback, nodes against analytic trajectories.'),
    'C17': ('differential testing against an independent pipeline', 'Independent fit, DOP853 trajectories and brute-force umbra for whole projects; nodes at the umbra edge are not judged.'),
    'C18': ('property-based and statistical testing of sampled parameters', 'Model states observed during tracing: supports, Kolmogorov-Smirnov and correlation tests with false-alarm probability below 1e-8 each, seeded.'),
    'C19': ('property-based and statistical testing of whitened coefficients', 'Coefficients observed during tracing, whitened with an independent fit of the same realization; seeded statistics and log parsing.'),
    'C20': ('property-based testing: reference predicate, laws and moments', 'Independent predicate of validity; exact distribution functions.'),
    'C21': ('property-based testing: partition predicate', 'Independent partition by exact distances, with ties at the buffer.'),
    'C22': ('property-based testing: exact rational averages and conservation laws', 'Rational inverse-variance means per place, conservation for chains, permutations.'),
    'C23': ('property-based testing: parse back against exact statistics', 'The table is parsed and compared with rational statistics.'),
    'C24': ('model-based testing of archiving histories, round trip', 'Round trip of every argument and field; byte equality of all earlier files, also ones made at the moment of writing.'),
    'C25': ('property-based testing: node counts against table, curve and filled cells', 'Reports compared with counts over the nodes; drawn artists are inspected.'),
    'C26': ('property-based testing of the entry point: accept/reject table, differential with pipelines', 'Single corruptions must be refused without effects; accepted runs equal the pipelines, archive and logs.'),
    'C27': ('property-based testing: data handed to matplotlib against model and field', 'Contour data intercepted at the axes and compared with values at independently computed places.'),
    'C28': ('metamorphic testing of whole capture zones', 'Image of the zone against zone of the image within a 5% cell sandwich; differences confirmed by exact traces.'),
    'C29': ('differential testing: stochastic against deterministic', 'Degenerate projects; differences confirmed by exact traces.'),
    'C30': ('stateful testing: histories against fresh processes', 'Bitwise equality of deterministic operations after generated histories, snapshots of all caller data.'),
    'C31': ('property-based testing of the driver with generated project modules', 'Logs, archives, screen output and earlier files after every run of a generated sequence, and of processes at work at once.'),
    'C32': ('property-based testing of the drawn rays', 'Currently reports the recorded finding on every case; any other failure is a violation.'),
    'C33': ('differential testing: probability against independent zones of the observed realizations', 'Model states observed during tracing; the zone of each from DOP853 trajectories and a brute-force umbra, between certain and possible membership.'),
    'C34': ('metamorphic testing: monotone growth of zones', 'Nested pairs of runs; lost nodes are confirmed by exact traces.'),
    'C35': ('metamorphic testing: invariance under change of datum, units and weights', 'Pairs of runs within a 5% cell sandwich; differences confirmed by exact traces.'),
    'C36': ('property-based testing: stream function, head and travel time along traces', 'Stream function to integration tolerance, monotone head, travel time by quadrature to 1%.'),
    'C37': ('property-based testing: parse the log and account for every input', 'Log records matched against an independent classification of the observations.'),
    'C38': ('property-based testing: parse the log against means, fit and observed state', 'Numbers stated compared with the means, an independent fit and the model state in use.'),
    'C40': ('property-based testing: parse the log against the observed realizations and independent fits', 'Numbers stated for each realization compared with the model state in use and a fit under its parameters.'),
    'C39': ('differential testing: variations of the shipped projects against an independent pipeline', 'Zones of the shipped projects, from supplied observations to returned field, against independent preparation, fit, traces and rasteriser.'),
}
checks = [dict(property=k, quick_cmd='bash run {}'.format(k), thorough_cmd='bash run {} --tier thorough'.format(k), evidence_file='evidence/{}.json'.format(k),
               technique=t, level='exploration', level_note=n + ' Generated-input search: no proof of absence beyond the cases explored.') for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, matplotlib"', checks=checks, not_applicable=[],
         notes='All checks run from /verif against the working tree of /repo (pure Python: nothing is built). See DESIGN.md and known_findings.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
ids = [json.loads(t)['id'] for t in open(os.path.join(HERE, 'properties.jsonl'))]
assert ids == sorted(T), set(ids) ^ set(T)
