"""The planted bugs (never committed in /repo; no check reads them)."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


M, CZ, PF, ST, DT, UT, VZ, ON, AR, RM = ('oneka/model.py', 'oneka/capturezone.py', 'oneka/probabilityfield.py', 'oneka/stochastic.py', 'oneka/deterministic.py',
                                         'oneka/utilities.py', 'oneka/visualize.py', 'oneka/oneka.py', 'oneka/archive.py', 'runme.py')

PROJECT = '''
import math
import numpy as np
from oneka.deterministic import create_deterministic_capturezone
from oneka.stochastic import create_stochastic_capturezone
OBS = [(x, y, 100.0 + 0.01*x - 0.005*y + 1e-6*x*y + (0.05 if (x + y) % 400 else -0.05), 0.5) for x in (-900, -450, 0.5, 450, 900) for y in (-900, -450, 150, 450, 900)]


def det(wells, target=0, npaths=6, duration=1500.0, base=0.0, c=10.0, p=0.2, t=20.0, obs=OBS, spacing=10, umbra=12, confined=True, tol=0.1, maxstep=5):
    return create_deterministic_capturezone(target, npaths, duration, base, c, p, t, wells, obs, spacing, umbra, confined, tol, maxstep)


def sto(wells, n, target=0, npaths=3, duration=700.0, base=0.0, c=10.0, p=0.2, t=20.0, obs=OBS, spacing=10, umbra=12, confined=True, tol=0.1, maxstep=5):
    return create_stochastic_capturezone(target, npaths, duration, n, base, c, p, t, wells, obs, spacing, umbra, confined, tol, maxstep)


def nodes(pf, x0, y0):
    i, j = np.nonzero(pf.pgrid > 0.5*pf.total_weight)
    return {(round(pf.xmin + b*pf.deltax - x0, 3), round(pf.ymin + a*pf.deltay - y0, 3)) for a, b in zip(i, j)}
'''

seed('m-discharge-inside-radius', 'C01', [(M, '''            r2 = dx*dx + dy*dy

            Qx +=''', '''            r2 = max(dx*dx + dy*dy, well[2]**2)

            Qx +=''')],
     'a point closer to a well than the radius of that well', 'the discharge inside of a well is no longer minus the gradient of the potential', '''
from oneka.model import Model
mo = Model(0, 1, 0.2, 10, [(0.0, 0.0, 1.0, 100.0)], 0, 0, [0, 0, 0, 0, 0, 50])
h = 1e-5
num = -(mo.compute_potential(0.3 + h, 0.2) - mo.compute_potential(0.3 - h, 0.2))/(2*h)
assert abs(mo.compute_discharge(0.3, 0.2)[0] - num) < 1e-3*abs(num), 'inside'
''')

seed('m-potential-drops-tiny-wells', 'C02', [(M, '''        potential = 0.0
        for well in self.wells:
''', '''        potential = 0.0
        for well in {(w[0], w[1]): w for w in self.wells}.values():
''')],
     'two wells at the same place', 'only the last of several co-located wells contributes to the potential', '''
from oneka.model import Model
a = Model(0, 1, 0.2, 10, [(0.0, 0.0, 1.0, 100.0), (0.0, 0.0, 1.0, 50.0)])
b = Model(0, 1, 0.2, 10, [(0.0, 0.0, 1.0, 150.0)])
assert abs(a.compute_potential(30, 20) - b.compute_potential(30, 20)) < 1e-9
''')

seed('m-zero-potential-not-dry', 'C03', [(M, 'if potential <= 0:', 'if potential < 0:')],
     'a potential of exactly zero', 'the head at zero potential is returned as 0 instead of the dry-aquifer error', '''
from oneka.model import Model, AquiferError
mo = Model(0, 1, 0.2, 10, [], 0, 0, [0, 0, 0, 1, 0, 0])
try:
    h = mo.compute_head(0.0, 5.0)
except AquiferError:
    sys.exit(0)
sys.exit('head {}'.format(h))
''')

seed('m-velocity-thickness-of-elevation', 'C04', [(M, 'elif head > self.thickness:\n            Vx', 'elif head + self.base > self.thickness:\n            Vx')],
     'an unconfined aquifer whose base is above the datum', 'the velocity uses the full thickness where the water level, not the head above base, exceeds the thickness', '''
from oneka.model import Model
mo = Model(7.0, 2.0, 0.2, 10.0, [], 0, 0, [0, 0, 0, 1, 0, 2.0*5.0**2/2])
v = mo.compute_velocity(0.0, 0.0)
assert abs(v[0]*0.2*5.0 + 1.0) < 1e-9, v
''')

seed('m-fit-tie-at-the-top', 'C05', [(M, 'if head >= self.thickness:\n                pot_ev', 'if head > self.thickness:\n                pot_ev')],
     'an observation whose level is exactly at the top of the aquifer', 'such an observation is converted as unconfined, with a variance term in its mean', '''
import numpy as np
from oneka.model import Model
obs = [(x, y, 20.0 if (x, y) == (0, 0) else 25.0 + 0.01*x, 2.0) for x in (-100, 0, 100) for y in (-100, 0, 100)]
mo = Model(0.0, 10.0, 0.2, 20.0, [])
WA, Wb = mo.construct_fit(obs, 0.0, 0.0)
i = obs.index((0, 0, 20.0, 2.0))
assert abs(float(Wb[i]) - 10.0*20.0*10.0/(10*20*2.0)) < 1e-9, float(Wb[i])
''')

seed('m-fit-truncates', 'C06', [(M, 'np.linalg.lstsq(WA, Wb, rcond=-1)', 'np.linalg.lstsq(WA, Wb, rcond=1e-6)')],
     'observations spread over more than about two kilometres, so that the columns of the fit differ by six orders of magnitude',
     'the small singular values, and with them the constant term, are dropped from the fit', '''
import numpy as np
from oneka.model import Model
truth = Model(0.0, 1.0, 0.2, 10.0, [], 0, 0, [1e-6, -2e-6, 1e-6, 1e-3, 2e-3, 5000.0])
obs = [(x, y, truth.compute_head(x, y), 1.0) for x in (-4000, -2000, 0, 2000, 4000) for y in (-4000, -1000, 0, 2000, 4000)]
mo = Model(0.0, 1.0, 0.2, 10.0, [])
mo.fit_regional_flow(obs, 0.0, 0.0)
assert abs(mo.compute_potential(10, 10) - truth.compute_potential(10, 10)) < 1e-3, mo.compute_potential(10, 10)
''')

seed('m-refused-fit-moves-origin', 'C07', [(M, '''        WA, Wb = self.construct_fit(obs, xo, yo)
''', '''        self.xo = xo
        self.yo = yo
        WA, Wb = self.construct_fit(obs, xo, yo)
'''), (M, '''        self.xo = xo
        self.yo = yo
        self.coef = coef_ev
''', '''        self.coef = coef_ev
''')],
     'a fit refused because of a level below the base, on a model that is used afterwards', 'the refused fit has already moved the origin of the model', '''
from oneka.model import Model, RangeError
mo = Model(0.0, 1.0, 0.2, 10.0, [], 5.0, 6.0, [1, 2, 3, 4, 5, 6])
before = mo.compute_potential(1.0, 2.0)
try:
    mo.fit_regional_flow([(0, 0, 5.0, 1.0), (1, 0, -5.0, 1.0)], 100.0, 200.0)
except RangeError:
    pass
assert mo.compute_potential(1.0, 2.0) == before
''')

seed('cz-overshoot-forward', 'C08', [(CZ, 'if (abs(t + dt) > abs(duration)):', 'if (t + dt > abs(duration)):')],
     'a negative duration (forward tracing)', 'the last step of a forward trace runs beyond the duration', '''
import math
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, -10.0, 1.0, 100.0, lambda xy: np.array([1.0, 0.5]))
assert abs(v[-1][0] + 10.0) < 1e-6, v[-1]
''')

seed('cz-error-of-the-better-component', 'C09', [(CZ, 'e[4]*k5 + e[5]*k6), np.inf)', 'e[4]*k5 + e[5]*k6), -np.inf)')],
     'flow along an axis, so that the error is all in one component', 'the smaller instead of the larger error component is compared with the tolerance', '''
import math
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(1.0, 0.0, 2.0, 1e-6, 1e6, lambda xy: np.array([-3*math.sin(3*xy[0]) - 4, 0.0]))
n = len(v)
w = compute_backtrace(1.0, 0.0, 2.0, 1e-12, 1e6, lambda xy: np.array([-3*math.sin(3*xy[0]) - 4, 0.0]))
assert abs(v[-1][0] - w[-1][0]) < 1e-3, (v[-1], w[-1])
''')

seed('cz-too-long', 'C10', [(CZ, '''            dt = 0.9 * min(''', '''            if len(vertices) > 10000:
                raise FloatingPointError('the trace is too long.')
            dt = 0.9 * min('''), ],
     'a trace of more than ten thousand steps', 'the trace ends early although no velocity failed', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 12000.0, 1.0, 1.0, lambda xy: np.array([1.0, 0.0]))
assert abs(v[-1][0] - 12000.0) < 1e-6, v[-1]
''')

seed('pf-standing-track-skipped', 'C12', [(PF, '''        for i in range(len(x)-1):
            self.insert''', '''        for i in range(len(x)-1):
            if x[i] == x[i+1] and y[i] == y[i+1]:
                continue
            self.insert''')],
     'a track all of whose vertices coincide (a particle in still water)', 'nothing is marked for a track that does not move', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.2, 0.2], [0.1, 0.1], 2.0)
assert pf.rgrid.sum() >= 9, pf.rgrid.sum()
''')

seed('pf-box-on-the-edge', 'C13', [(PF, 'while xmax >= self.xmax:', 'while xmax > self.xmax:')],
     'a box whose right edge is exactly on the last grid column', 'the box is on the edge of the grid instead of strictly inside', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(-0.5, 3.0, -0.5, 0.5)
pf.expand(-0.5, float(pf.xmax), -0.5, 0.5)
x = pf.xmax
pf.expand(0.0, x, 0.0, 0.0)
assert pf.xmax > x, pf.xmax
''')

seed('pf-marks-lost-growing-up', 'C14', [(PF, '''                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
''', '''                if rshift > 0 or cshift > 0:
                    rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
''')],
     'a realization with several tracks of which a later one makes the grid grow to the right or up only', 'the marks of the earlier tracks of the realization are lost', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 1.0], [0.0, 0.0], 1.5)
n = int(pf.rgrid.sum())
pf.rasterize([8.0, 9.0], [0.0, 0.0], 1.5)
pf.register(1.0)
assert (pf.pgrid > 0).sum() > n, (pf.pgrid > 0).sum()
''')

seed('pf-empty-realization-uncounted', 'C14', [(PF, '''        self.total_weight += weight
''', '''        if self.rgrid.any():
            self.total_weight += weight
''')],
     'a registered realization that marked no node (its traces ended at once in a dry aquifer)', 'the realization does not count in the total weight, so probabilities are too high', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 1.0], [0.0, 0.0], 1.5)
pf.register(1.0)
pf.register(1.0)
assert pf.total_weight == 2.0, pf.total_weight
''')

seed('pf-distance-rounded-end', 'C15', [(PF, 'elif(beta2 > length2):', 'elif(dot > length2 + 1e-3*math.sqrt(length2)):')],
     'a point just beyond the end of a segment, within a millimetre per metre', 'the point is taken as beside the segment', '''
from oneka.probabilityfield import ProbabilityField
d = ProbabilityField.distancesquared(0.0, 0.0, 1e-3, 0.0, 1.8e-3, 0.0)
assert abs(d - 0.64e-6) < 1e-12, d
''')

seed('cz-arange-starts', 'C16', [(CZ, 'for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:', 'for theta in np.arange(0, 2*np.pi, 2*np.pi/npaths):')],
     'a number of paths such as 49 for which 2 pi divided by (2 pi/npaths) rounds above it', 'an extra trace is started at (almost) the first starting point', '''
import math
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField
for n in range(1, 400):
    starts = []

    def feval(xy):
        starts.append((xy[0], xy[1]))
        raise ArithmeticError
    import logging
    logging.disable(logging.CRITICAL)
    compute_capturezone(0.0, 0.0, 1.0, n, 10.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 1.0, 1.0, 1.0, 1.0, feval)
    assert len(starts) == n, (n, len(starts))
''')

seed('dt-colocated-wells', 'C17', [(DT, '''        wells.append([xw, yw, rw, qw])
''', '''        if not any(v[0] == xw and v[1] == yw for v in wells):
            wells.append([xw, yw, rw, qw])
''')],
     'two wells at the same place (as in data/long_prairie.py)', 'all but the first of several co-located wells are ignored', PROJECT + '''
a = det([(0.0, 0.0, 0.25, 500.0), (0.0, 0.0, 0.25, 900.0)])
b = det([(0.0, 0.0, 0.25, 1400.0)])
assert len(nodes(a, 0, 0) ^ nodes(b, 0, 0)) <= 3, len(nodes(a, 0, 0) ^ nodes(b, 0, 0))
''')

seed('st-equal-wells-share', 'C18', [(ST, '''            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
''', '''            same = [v[3] for v, u in zip(wells, stochastic_wells) if u[3] == w[3]]
            qw = same[0] if same else generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
''')],
     'two wells with equal discharge distributions', 'their discharges are always equal instead of independent', PROJECT + '''
from oneka.model import Model
seen = []
f = Model.compute_velocity_confined


def g(mo, x, y):
    seen.append((mo.wells[0][3], mo.wells[1][3]))
    return f(mo, x, y)


Model.compute_velocity_confined = g
sto([(0.0, 0.0, 0.25, (500.0, 900.0)), (300.0, 0.0, 0.25, (500.0, 900.0))], 4, duration=1.0)
assert any(a != b for a, b in seen)
''')

seed('st-one-porosity', 'C18', [(ST, '''    for i in range(nrealizations):
''', '''    porosity = generate_random_variate(p_dist)
    for i in range(nrealizations):
'''), (ST, '''        porosity = generate_random_variate(p_dist)
        thickness''', '''        thickness''')],
     'an uncertain porosity and more than one realization', 'all realizations use the porosity drawn once', PROJECT + '''
from oneka.model import Model
seen = set()
f = Model.compute_velocity_confined


def g(mo, x, y):
    seen.add(mo.porosity)
    return f(mo, x, y)


Model.compute_velocity_confined = g
sto([(0.0, 0.0, 0.25, 500.0)], 4, p=(0.1, 0.3), duration=1.0)
assert len(seen) == 4, seen
''')

seed('st-fixed-stream', 'C19', [(ST, 'np.random.default_rng().multivariate_normal', 'np.random.default_rng(i).multivariate_normal')],
     'two runs of the same project', 'the coefficients of realization i are the same standard normal draws in every run', PROJECT + '''
from oneka.model import Model
seen = []
f = Model.compute_velocity_confined


def g(mo, x, y):
    seen.append(tuple(mo.coef))
    return f(mo, x, y)


Model.compute_velocity_confined = g
sto([(0.0, 0.0, 0.25, 500.0)], 2, duration=1.0)
first = set(seen)
seen.clear()
sto([(0.0, 0.0, 0.25, 500.0)], 2, duration=1.0)
assert not first & set(seen)
''')

seed('st-uncorrelated-coefficients', 'C19', [(ST, 'multivariate_normal(coef_ev, coef_cov)', 'multivariate_normal(coef_ev, np.diag(np.diag(coef_cov)))')],
     'correlated coefficients, which only show over many realizations', 'the correlations between the coefficients of the fit are ignored', PROJECT + '''
from oneka.model import Model
seen = {}
f = Model.compute_velocity_confined


def g(mo, x, y):
    seen[tuple(mo.coef)] = 1
    return f(mo, x, y)


Model.compute_velocity_confined = g
sto([(0.0, 0.0, 0.25, 500.0)], 400, npaths=1, duration=0.01)
c = np.array(list(seen))
r = np.corrcoef(c.T)
mo = Model(0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 500.0)])
_, cov = mo.fit_regional_flow(OBS, 0.0, 0.0)
s = np.sqrt(np.diag(cov))
assert np.abs(r - cov/np.outer(s, s)).max() < 0.3, np.abs(r - cov/np.outer(s, s)).max()
''')

seed('st-zero-width-pair', 'C20', [(ST, 'return lb <= arg[0] <= arg[1] <= ub\n', 'return lb <= arg[0] < arg[1] <= ub\n')],
     'a pair of equal limits', 'a uniform distribution of zero width is refused', '''
from oneka.stochastic import isdistribution
assert isdistribution((2.0, 2.0), 0.0, 10.0)
''')

seed('ut-first-well-only', 'C21', [(UT, '''                flag = False
                break
''', '''                flag = False
            elif not flag and we is wellfield[-1]:
                flag = len(wellfield) > 3
''')],
     'four or more wells, and an observation near one that is not the last', 'observations near a well other than the last are retained', '''
from oneka.utilities import filter_obs
wells = [(0, 0, 0.25, 1), (1000, 0, 0.25, 1), (2000, 0, 0.25, 1), (3000, 0, 0.25, 1)]
assert filter_obs([(10.0, 0.0, 5.0, 1.0), (500.0, 0.0, 6.0, 1.0)], wells, 100.0) == [(500.0, 0.0, 6.0, 1.0)]
''')

seed('ut-three-duplicates', 'C22', [(UT, 'for k in range(i, j):', 'for k in sorted({i, j-1}):')],
     'three or more observations at one place', 'only the first and the last of them enter the average', '''
from oneka.utilities import filter_obs
out = filter_obs([(0.0, 0.0, 1.0, 1.0), (0.0, 0.0, 2.0, 1.0), (0.0, 0.0, 6.0, 1.0)], [], 10.0)
assert len(out) == 1 and abs(out[0][2] - 3.0) < 1e-12, out
''')

seed('ut-upper-median', 'C23', [(UT, 'vmed[j] = np.median(x)', 'vmed[j] = np.sort(x)[len(x)//2]')],
     'an even number of values', 'the median shown is the upper of the two middle values', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(1.0,), (2.0,), (3.0,), (10.0,)], ['A'], ['10.3f'], 'T').getvalue()
assert [w for w in t.split('\\n') if w.startswith('med')][0].split()[1] == '2.500', t
''')

seed('ar-forgets-marks', 'C24', [(AR, '''    # Create a dictionary.
''', '''    # Create a dictionary.
    pfield.reset()
''')],
     'a field with marks that are not registered yet', 'archiving discards the marks of the current realization', '''
import tempfile
import shutil
home = os.getcwd()
d = tempfile.mkdtemp()
os.chdir(d)
try:
    os.mkdir('logs')
    from oneka.archive import dump_oneka, load_oneka
    from oneka.probabilityfield import ProbabilityField
    pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
    pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
    n = int(pf.rgrid.sum())
    dump_oneka(*range(19), pf)
    assert int(pf.rgrid.sum()) == n > 0
finally:
    os.chdir(home)
    shutil.rmtree(d)
''')

seed('vz-area-of-squares', 'C25', [(VZ, '    dy = Y[1] - Y[0]\n    cell_area', '    dy = dx\n    cell_area')],
     'a field with different spacings in x and y', 'area and cells of the deterministic plot are those of squares', '''
import matplotlib
matplotlib.use('Agg')
from oneka.probabilityfield import ProbabilityField
from oneka.visualize import create_deterministic_plot
pf = ProbabilityField(1.0, 2.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 2.5)
pf.register(1.0)
a = create_deterministic_plot(0, [(0.0, 0.0, 0.25, 5.0)], [], pf)
assert abs(a - 2.0*(pf.pgrid > 0).sum()) < 1e-6, a
''')

seed('on-unfiltered-deterministic', 'C26', [(ON, '''            target, npaths, duration,
            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
''', '''            target, npaths, duration,
            base, c_dist, p_dist, t_dist,
            stochastic_wells, observations,
''')],
     'a deterministic run with an observation within the buffer of a well', 'the deterministic run uses the observations that the buffer should remove', PROJECT + '''
import tempfile
import shutil
import matplotlib
matplotlib.use('Agg')
home = os.getcwd()
d = tempfile.mkdtemp()
os.chdir(d)
try:
    os.mkdir('logs')
    from oneka.oneka import oneka
    wells = [(0.0, 0.0, 0.25, 900.0)]
    obs = OBS + [(20.0, 20.0, 60.0, 0.1)]
    pf = oneka('P', 'now', 0, 6, 1500.0, 1, 0.0, 10.0, 0.2, 20.0, wells, obs, 50, 10, 12, 0, True, 0.1, 5)
    want = det(wells)
    assert nodes(pf, 0, 0) == nodes(want, 0, 0)
finally:
    os.chdir(home)
    shutil.rmtree(d)
''')

seed('vz-smoothing-reflects', 'C27', [(VZ, "mode='constant', cval=0.0", "mode='reflect'")],
     'smoothing a field whose zone is close to the edge of the grid', 'the smoothed probability near the edge is too high', '''
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oneka.probabilityfield import ProbabilityField
from oneka.visualize import create_probability_plot
got = []
f = plt.contourf


def g(*a, **k):
    got.append(a[2])
    return f(*a, **k)


plt.contourf = g
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(1.0)
create_probability_plot(0, [(0.0, 0.0, 0.25, 5.0)], [], pf, 2)
assert got[0].sum() < 0.98*pf.pgrid.sum(), (got[0].sum(), pf.pgrid.sum())
''')

seed('dt-first-well-is-origin', 'C28', [(DT, 'coef_ev = np.reshape(coef_ev, [6, ])\n', "coef_ev = np.reshape(coef_ev, [6, ])\n    mo.wells = sorted(wells[:1] + wells[1:], key=lambda v: v[3])[-4:]\n")],
     'five or more wells', 'only the four strongest wells drive the traces', PROJECT + '''
W = [(0.0, 0.0, 0.25, 900.0)]
N = [(60.0*k, 80.0, 0.25, 300.0) for k in (-2, -1, 1, 2)]
a = det(W + N)
b = det([N[0], N[1], W[0], N[2], N[3]], target=2)
c = det(W + [(n[0], -n[1], n[2], n[3]) for n in N], obs=[(o[0], -o[1], o[2], o[3]) for o in OBS])
m = {(x, -y) for x, y in nodes(c, 0, 0)}
s = det(W + [(n[0], n[1], n[2], n[3]/2) for n in N] + [(n[0], n[1], n[2], n[3]/2) for n in N])
assert len(nodes(a, 0, 0) ^ nodes(s, 0, 0)) <= 3, len(nodes(a, 0, 0) ^ nodes(s, 0, 0))
''')

seed('st-general-branch-confined', 'C29', [(ST, 'Vx, Vy = mo.compute_velocity(xy[0], xy[1])', 'Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])')],
     'a stochastic run in an aquifer that is not assumed confined, where it is unconfined', 'the traces of the realizations use the full thickness', PROJECT + '''
obs = [(o[0], o[1], 8.0 + 0.001*o[0], 1e-7) for o in OBS]
w = [(0.0, 0.0, 0.25, 200.0)]
a = nodes(det(w, obs=obs, confined=False, c=50.0), 0, 0)
b = nodes(sto(w, 2, npaths=6, duration=1500.0, obs=obs, confined=False, c=50.0), 0, 0)
assert len(a ^ b) <= 0.02*len(a) + 3, (len(a), len(b), len(a ^ b))
''')

seed('m-cached-observations', 'C30', [(M, '''        WA, Wb = self.construct_fit(obs, xo, yo)
''', '''        key = (tuple(map(tuple, obs)), xo, yo, self.base, self.conductivity, len(self.wells))
        if key not in self._fits:
            self._fits[key] = self.construct_fit(obs, xo, yo)
        WA, Wb = self._fits[key]
'''), (M, '''    @property
    def coef(self):
''', '''    _fits = {}

    @property
    def coef(self):
''')],
     'two fits of the same observations in one process with other discharges or another thickness', 'the second fit uses the equations of the first', '''
from oneka.model import Model
obs = [(x, y, 40.0 + 0.01*x, 1.0) for x in (-100, 10, 100) for y in (-100, 20, 100)]
a = Model(0.0, 10.0, 0.2, 20.0, [(5.0, 5.0, 0.25, 100.0)])
a.fit_regional_flow(obs, 0.0, 0.0)
b = Model(0.0, 10.0, 0.2, 20.0, [(5.0, 5.0, 0.25, 900.0)])
b.fit_regional_flow(obs, 0.0, 0.0)
assert abs(a.coef[5] - b.coef[5]) > 1e-6
''')

seed('on-log-states-spacing', 'C31', [(ON, "log.info('umbra         = {0:.2f}'.format(umbra))", "log.info('umbra         = {0:.2f}'.format(max(umbra, spacing)))")],
     'an umbra smaller than the grid spacing', 'the log states an umbra that was not used', '''
import logging
from oneka import oneka as mod
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
from oneka.oneka import log_the_run
log_the_run('P', 'now', 0, 3, 100.0, 1, 0.0, 1.0, 0.2, 10.0, [(0, 0, 0.25, 5.0)], [], 100, 10.0, 4.0, 0, True, 1, 10)
assert any(t.split() == ['umbra', '=', '4.00'] for t in lines), lines
''')

seed('dt-dry-is-still', 'C10', [(DT, '''        def feval(xy):
            Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            return''', '''        def feval(xy):
            try:
                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            except Exception:
                Vx, Vy = 0.0, 0.0
            return''')],
     'a deterministic trace that reaches a dry part of the aquifer', 'the trace ends there without any warning', PROJECT + '''
import logging
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger('oneka.capturezone').addHandler(H())
obs = [(o[0], o[1], 8.0 - 0.02*o[0], 0.1) for o in OBS if o[0] < 300]
det([(0.0, 0.0, 0.25, 20.0)], obs=obs, confined=False, c=5.0, duration=-2e5, npaths=2, maxstep=20, tol=1)
assert any('premature' in t for t in lines), lines
''')

# ---------------------------------------------------------------- second batch
seed('m-confined-thin-shortcut', 'C04', [(M, '''        elif head > self.thickness:
            Vx''', '''        elif head > 0.95*self.thickness:
            Vx''')],
     'an unconfined place where the water stands within five per cent of the top of the aquifer', 'the velocity there uses the full thickness', '''
from oneka.model import Model
mo = Model(0.0, 2.0, 0.2, 10.0, [], 0, 0, [0, 0, 0, 1, 0, 2.0*9.7**2/2])
v = mo.compute_velocity(0.0, 0.0)
assert abs(v[0]*0.2*9.7 + 1.0) < 1e-9, v
''')

seed('m-far-field-cutoff', 'C11', [(M, '''            r2 = dx*dx + dy*dy

            Qx +=''', '''            r2 = dx*dx + dy*dy
            if r2 > 250000.0:
                continue

            Qx +=''')],
     'a capture zone that reaches more than 500 m from its well', 'beyond 500 m the well no longer draws water, so the zone stops growing', '''
import math
import numpy as np
from oneka.model import Model
from oneka.capturezone import compute_backtrace
mo = Model(0.0, 10.0, 0.2, 10.0, [(0.0, 0.0, 0.25, 1000.0)], 0, 0, [0, 0, 0, 0, 0, 1e5])
T = math.pi*800.0**2*10.0*0.2/1000.0
v = compute_backtrace(1.25, 0.0, T, 0.01, 20.0, lambda xy: -np.array(mo.compute_velocity_confined(xy[0], xy[1])))
assert abs(v[-1][0] - 800.0) < 8.0, v[-1]
''')

seed('m-origin-kept', 'C06', [(M, '''        self.xo = xo
        self.yo = yo
        self.coef = coef_ev
''', '''        if not np.any(self.coef):
            self.xo = xo
            self.yo = yo
        self.coef = coef_ev
''')],
     'a model that is fitted a second time, about another origin', 'the new coefficients are used with the old origin', '''
from oneka.model import Model
obs = [(x, y, 40.0 + 0.01*x + 1e-5*y*y, 1.0) for x in (-100, 10, 100) for y in (-100, 20, 100)]
a = Model(0.0, 10.0, 0.2, 20.0, [])
a.fit_regional_flow(obs, 0.0, 0.0)
p = a.compute_potential(30.0, 40.0)
a.fit_regional_flow(obs, 50.0, -70.0)
assert abs(a.compute_potential(30.0, 40.0) - p) < 1e-6*abs(p), (a.compute_potential(30.0, 40.0), p)
''')

seed('m-covariance-of-residuals', 'C05', [(M, '''        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))
''', '''        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))
        dof = WA.shape[0] - WA.shape[1]
        if dof > 20:
            coef_cov = coef_cov*np.sum((np.matmul(WA, coef_ev) - Wb)**2)/dof
''')],
     'more than 26 observations', 'the covariance is scaled by the residual variance although the standard deviations are known', '''
import numpy as np
from oneka.model import Model
obs = [(x, y, 40.0 + 0.01*x, 1.0) for x in range(-300, 301, 100) for y in range(-300, 301, 100)]
mo = Model(0.0, 10.0, 0.2, 20.0, [])
WA, Wb = mo.construct_fit(obs, 0.0, 0.0)
ev, cov = mo.compute_fit(WA, Wb)
assert np.allclose(cov @ (WA.T @ WA), np.eye(6), atol=1e-6)
''')

seed('m-level-at-base-accepted', 'C07', [(M, '''            elif head > 0:
                pot_ev''', '''            elif head >= 0:
                pot_std = None
                pot_ev'''), (M, '''                pot_std = self.conductivity * head * z_std
''', '''                pot_std = self.conductivity * max(head, 0.01*z_std) * z_std
''')],
     'an observed level exactly at the aquifer base', 'the fit accepts it instead of raising the range error', '''
from oneka.model import Model, RangeError
obs = [(x, y, 15.0 + 0.01*x, 1.0) for x in (-100, 10, 100) for y in (-100, 20, 100)]
obs[4] = (obs[4][0], obs[4][1], 0.0, 1.0)
try:
    Model(0.0, 10.0, 0.2, 20.0, []).fit_regional_flow(obs, 0.0, 0.0)
except RangeError:
    sys.exit(0)
sys.exit('accepted')
''')

seed('cz-stale-slope', 'C08', [(CZ, '''                t = t + dt
                k1 = k2
                xy = xyt
''', '''                t = t + dt
                xy = xyt
'''), (CZ, '''            dt = 0.9 * min(''', '''            k1 = k2
            dt = 0.9 * min(''')],
     'a trace in which a trial step is rejected', 'the retried step starts with the slope of the rejected end', '''
import math
import numpy as np
from oneka.capturezone import compute_backtrace


def f(xy):
    return np.array([1.0, 200.0*math.exp(-((xy[0] - 50.0)/2.0)**2)])


a = compute_backtrace(0.0, 0.0, 100.0, 1e-3, 30.0, f)
want = 200.0*2.0*math.sqrt(math.pi)
assert abs(a[-1][1] - want) < 0.05, (a[-1], want)
''')

seed('cz-step-of-the-larger-component', 'C09', [(CZ, 'ds = np.linalg.norm(xyt - xy)\n', 'ds = np.linalg.norm(xyt - xy, np.inf)\n')],
     'flow that is not along an axis', 'oblique steps are longer than the maximum space step', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 100.0, 1.0, 10.0, lambda xy: np.array([1.0, 1.0]))
assert max(np.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(v, v[1:])) <= 10.0
''')

seed('cz-least-time-step', 'C35', [(CZ, '''            dt = 0.9 * min(''', '''            dt = np.sign(duration) * 1e-2 if abs(dt) < 1e-2 else dt
            dt = 0.9 * min(''')],
     'fast flow in the unit of time (years instead of days)', 'the time step does not shrink below a hundredth of the time unit on rejection, so traces stall or jump', '''
import numpy as np
from oneka.capturezone import compute_backtrace
import signal
signal.alarm(30)
v = compute_backtrace(0.0, 0.0, 0.4, 1.0, 10.0, lambda xy: np.array([1.0e5, 0.0]))
assert abs(v[-1][0] - 4e4) < 1.0, v[-1]
''')

seed('cz-trial-past-dry', 'C10', [(CZ, '''        log.warning(' trace terminated''', '''        vertices = vertices[:-1] or vertices
        log.warning(' trace terminated''')],
     'a trace that reaches a dry place after at least one step', 'the last accepted vertex is thrown away', '''
import logging
import numpy as np
from oneka.capturezone import compute_backtrace
logging.disable(logging.CRITICAL)


def f(xy):
    if xy[0] > 55.0:
        raise ArithmeticError
    return np.array([1.0, 0.0])


v = compute_backtrace(0.0, 0.0, 100.0, 1.0, 5.0, f)
w = compute_backtrace(0.0, 0.0, 100.0, 1.0, 5.0, lambda xy: np.array([1.0, 0.0]))
n = max(i for i, p in enumerate(w) if p[0] <= 55.0)
assert len(v) >= n, (len(v), n)
assert v[-1][0] + 5.0 > 55.0 - 5.0 and len(v) == sum(1 for p in w if p[0] <= 55.0), (v[-1], len(v))
''')

seed('pf-rows-by-deltax', 'C12', [(PF, '''(max(ay, by) + umbra - self.ymin)/self.deltay) + 1)''', '''(max(ay, by) + umbra - self.ymin)/max(self.deltax, self.deltay)) + 1)''')],
     'cells wider than high', 'nodes in the upper rows about a track are not marked', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(2.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 0.0], [0.0, 9.0], 1.5)
j, i = round((0.0 - pf.xmin)/2.0), round((8.0 - pf.ymin)/1.0)
assert pf.rgrid[i, j]
''')

seed('pf-bulk-growth', 'C13', [(PF, '''            while ymax >= self.ymax:
                self.ymax += self.deltay
                nrows += 1
''', '''            if ymax >= self.ymax:
                more = math.ceil((ymax - self.ymax)/self.deltay)
                self.ymax += more*self.deltay
                nrows += more
''')],
     'a box whose upper edge is exactly on a grid row beyond the grid', 'the box is on the edge of the grid instead of strictly inside', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.expand(0.0, 0.0, 0.0, 4.0)
assert pf.ymax > 4.0, pf.ymax
''')

seed('pf-clears-last-window', 'C14', [(PF, '''        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
''', '''        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        self._window = (max(0, int((min(y)-umbra - self.ymin)/self.deltay)), max(0, int((min(x)-umbra - self.xmin)/self.deltax)))
'''), (PF, '''        self.pgrid[self.rgrid] += weight
        self.rgrid[:] = False
''', '''        self.pgrid[self.rgrid] += weight
        i, j = getattr(self, '_window', (0, 0))
        self.rgrid[i:, j:] = False
''')],
     'a realization whose last track lies right of or above an earlier one, followed by another realization', 'marks below and left of the last track stay and count again in the next realization', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 1.0], [0.0, 0.0], 1.2)
pf.rasterize([8.0, 9.0], [5.0, 5.0], 1.2)
pf.register(1.0)
pf.rasterize([8.0, 9.0], [5.0, 5.0], 1.2)
pf.register(1.0)
i, j = round(-pf.ymin), round(-pf.xmin)
assert pf.pgrid[i, j] == 1.0, pf.pgrid[i, j]
''')

seed('pf-short-segments-are-points', 'C15', [(PF, '        length2 = bax*bax + bay*bay\n', '        length2 = bax*bax + bay*bay if max(abs(bax), abs(bay)) > 0.01 else 0\n')],
     'a segment shorter than a centimetre', 'the distance is that to its first end', '''
from oneka.probabilityfield import ProbabilityField
d = ProbabilityField.distancesquared(0.0, 0.0, 0.008, 0.0, 0.008, 0.001)
assert abs(d - 1e-6) < 1e-9, d
''')

seed('cz-short-trace-skipped', 'C16', [(CZ, '        pfield.rasterize(x, y, umbra)\n', '        if len(vertices) > 2:\n            pfield.rasterize(x, y, umbra)\n')],
     'a duration so short, or a flow so slow, that a trace has a single step', 'the nodes about the start of such a trace are not marked', '''
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
compute_capturezone(0.0, 0.0, 0.25, 4, 0.05, pf, 1.5, 1.0, 1.0, 10.0, lambda xy: np.array([0.01, 0.0]))
assert (pf.pgrid > 0).sum() >= 9, (pf.pgrid > 0).sum()
''')

seed('cz-odd-start', 'C34', [(CZ, 'for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:', 'for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1] + (np.pi/npaths if npaths > 7 else 0.0):')],
     'more than seven paths', 'the paths are turned by half a step, so the zone of twice the paths does not contain that of the paths', '''
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField


def zone(n):
    starts = []

    def f(xy):
        starts.append((round(float(xy[0]), 6), round(float(xy[1]), 6)))
        raise ArithmeticError
    import logging
    logging.disable(logging.CRITICAL)
    compute_capturezone(0.0, 0.0, 1.0, n, 10.0, ProbabilityField(1.0, 1.0, 0.0, 0.0), 1.0, 1.0, 1.0, 1.0, f)
    return set(starts)


assert zone(5) <= zone(10) and zone(3) <= zone(9)
''')

seed('cz-single-precision-tracks', 'C28', [(CZ, '''        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]
''', '''        x, y = np.array(vertices, dtype=np.float32).T
''')],
     'coordinates of the size of real map coordinates (millions of metres)', 'tracks are rounded to half a metre, so the zone changes when the problem is shifted', '''
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.probabilityfield import ProbabilityField


def zone(x0, y0):
    pf = ProbabilityField(0.5, 0.5, x0, y0)
    compute_capturezone(x0, y0, 0.25, 5, 10.0, pf, 0.7, 1.0, 1e-3, 0.5, lambda xy: np.array([xy[0] - x0, 0.5*(xy[1] - y0) + 0.3])*0.2)
    i, j = np.nonzero(pf.pgrid)
    return {(round(pf.xmin + b*0.5 - x0, 3), round(pf.ymin + a*0.5 - y0, 3)) for a, b in zip(i, j)}


assert zone(0.0, 0.0) == zone(0.0, 8388608.0)
''')

seed('dt-mode-of-triple', 'C17', [(DT, '''        qw = compute_variate_mean(w[3])
''', '''        qw = w[3][len(w[3])//2] if isinstance(w[3], tuple) and len(w[3]) == 3 else compute_variate_mean(w[3])
''')],
     'a skewed triangular discharge', 'the deterministic zone uses its mode instead of its mean', PROJECT + '''
a = det([(0.0, 0.0, 0.25, (500.0, 500.0, 2000.0))])
b = det([(0.0, 0.0, 0.25, 1000.0)])
assert nodes(a, 0, 0) == nodes(b, 0, 0)
''')

seed('dt-full-when-deep', 'C17', [(DT, '    if confined:\n', '    if confined or base + thickness < min(ob[2] for ob in observations) + 0.1*thickness:\n')],
     'an aquifer not assumed confined whose observed levels are all near or above its top, while it is unconfined near the pumping well',
     'the capture zone ignores the draw-down below the top of the aquifer', PROJECT + '''
from oneka.model import Model
n = [0]
f = Model.compute_velocity


def g(mo, x, y):
    n[0] += 1
    return f(mo, x, y)


Model.compute_velocity = g
obs = [(o[0], o[1], 20.5 + 0.0001*o[0], 0.5) for o in OBS]
det([(0.0, 0.0, 0.25, 500.0)], obs=obs, confined=False, duration=100.0)
assert n[0] > 0
''')

seed('st-triangle-ends', 'C18', [(ST, '''        value = np.random.uniform(arg[0], arg[1])
''', '''        value = np.random.uniform(arg[0], arg[1])
    elif len(arg) == 3 and arg[0] < arg[2] and arg[1] in (arg[0], arg[2]):
        value = np.random.uniform(arg[0], arg[2])
''')],
     'a triangular distribution whose mode is one of its limits', 'it is sampled as a uniform distribution', '''
import numpy as np
from oneka.stochastic import generate_random_variate
np.random.seed(3)
v = [generate_random_variate((0.0, 0.0, 3.0)) for _ in range(4000)]
assert abs(np.mean(v) - 1.0) < 0.1, np.mean(v)
''')

seed('st-pert-mean', 'C20', [(ST, 'value = (arg[0] + arg[1] + arg[2])/3.0', 'value = (arg[0] + 4*arg[1] + arg[2])/6.0')],
     'a skewed triangular distribution', 'the mean is that of a beta-PERT distribution', '''
from oneka.stochastic import compute_variate_mean
assert abs(compute_variate_mean((0.0, 0.0, 3.0)) - 1.0) < 1e-12
''')

seed('st-stale-covariance', 'C19', [(ST, '''        coef_ev = np.reshape(coef_ev, [6, ])
''', '''        coef_ev = np.reshape(coef_ev, [6, ])
        if i == 0:
            coef_cov0 = coef_cov
        coef_cov = coef_cov0
''')],
     'an uncertain conductivity or thickness, so that the covariance differs between realizations', 'all realizations use the covariance of the first fit', PROJECT + '''
seen = []


class R:
    def multivariate_normal(self, ev, cov):
        seen.append(float(cov[5, 5]))
        return np.array(ev)


np.random.default_rng = lambda *a: R()
sto([(0.0, 0.0, 0.25, 500.0)], 3, c=(5.0, 50.0), duration=1.0)
assert len(set(seen)) == 3, seen
''')

seed('st-covariance-jitter', 'C29', [(ST, 'multivariate_normal(coef_ev, coef_cov)', 'multivariate_normal(coef_ev, coef_cov + 1e-9*np.eye(6))')],
     'nearly error-free observations, for which the quadratic coefficients are determined much better than to 3e-5', 'the realizations scatter although there is no uncertainty', PROJECT + '''
obs = [(o[0], o[1], o[2], 1e-5) for o in OBS]
w = [(0.0, 0.0, 0.25, 500.0)]
a, b = det(w, obs=obs, npaths=4), sto(w, 8, obs=obs, npaths=4, duration=1500.0)
assert len(nodes(a, 0, 0) ^ nodes(b, 0, 0)) <= 2 and set(np.unique(b.pgrid)) <= {0.0, 8.0}, np.unique(b.pgrid)
''')

seed('st-negative-recharge-skipped', 'C33', [(ST, '''        compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                            pfield, umbra, 1.0, tol, maxstep, feval)
''', '''        if recharge >= 0 or i == 0:
            compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                                pfield, umbra, 1.0, tol, maxstep, feval)
''')],
     'a realization whose recharge is negative', 'it is left out of the field, so probabilities are fractions of the other realizations', PROJECT + '''
for seed in range(4):
    np.random.seed(seed)
    noisy = [(x, y, z, 5.0) for x, y, z, s in OBS]
    pf = sto([(0.0, 0.0, 0.25, 500.0)], 12, duration=20.0, obs=noisy)
    assert pf.total_weight == 12, pf.total_weight
''')

seed('st-weight-by-conductivity', 'C33', [(ST, '''                            pfield, umbra, 1.0, tol, maxstep, feval)
''', '''                            pfield, umbra, min(1.0, conductivity/(porosity*thickness)), tol, maxstep, feval)
''')],
     'a low-conductivity aquifer (conductivity below porosity times thickness)', 'realizations count with unequal weights', PROJECT + '''
np.random.seed(1)
pf = sto([(0.0, 0.0, 0.25, 50.0)], 4, c=(1.0, 3.0), duration=20.0)
assert abs(pf.total_weight - round(pf.total_weight)) < 1e-12 and pf.pgrid.max() in (1, 2, 3, 4), pf.total_weight
''')

seed('ut-square-buffer', 'C21', [(UT, 'if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:', 'if max(abs(ob[0]-we[0]), abs(ob[1]-we[1])) <= buffer:')],
     'an observation near the corner of the square about the buffer circle', 'it is removed although it is beyond the buffer', '''
from oneka.utilities import filter_obs
assert len(filter_obs([(8.0, 8.0, 1.0, 1.0)], [(0.0, 0.0, 0.25, 1.0)], 10.0)) == 1
''')

seed('ut-chained-duplicates', 'C22', [(UT, '(np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE)', '(np.hypot(obs[j-1][0]-obs[j][0], obs[j-1][1]-obs[j][1]) < TOO_CLOSE + 0.5)')],
     'two observations between 1 and 1.5 m apart that stand next to each other', 'they are merged although they are at different places', '''
from oneka.utilities import filter_obs
assert len(filter_obs([(0.0, 0.0, 1.0, 1.0), (1.3, 0.0, 3.0, 1.0), (50.0, 0.0, 3.0, 1.0)], [(500.0, 0.0, 0.25, 1.0)], 10.0)) == 3
''')

seed('ut-nan-rows', 'C23', [(UT, '''        x = np.array([v[j] for v in values])
        x = x[~np.isnan(x)]
''', '''        x = np.array([v[j] for v in values if not any(np.isnan(v[0:j+1]))])
''')],
     'a missing value in an earlier column of a row', 'the row is ignored in the later columns as well', '''
from oneka.utilities import summary_statistics
t = summary_statistics([(float('nan'), 5.0), (1.0, 7.0), (2.0, 9.0)], ['a', 'b'], ['10.2f', '10.2f'], 'T').getvalue()
row = [r for r in t.split('\\n') if r.startswith('min')][0].split()
assert row[2] == '5.00', row
''')

seed('ut-log-wrong-well', 'C37', [(UT, '''                flag = False
                break
''', '''                flag = False
'''), ],
     'an observation near a well that is not the last of the list', 'the log names the last well as the one too close', '''
import logging
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
from oneka.utilities import filter_obs
filter_obs([(1.0, 1.0, 5.0, 1.0), (900.0, 1.0, 5.0, 1.0)], [(0.0, 0.0, 0.25, 1.0), (5000.0, 0.0, 0.25, 1.0)], 10.0)
assert any('removed' in t and '(0.0, 0.0, 0.25, 1.0)' in t for t in lines), lines
''')

seed('ut-log-counts-before-merging', 'C37', [(UT, "log.info('active observations: {0}'.format(len(retained_obs)))", "log.info('active observations: {0}'.format(len(obs)))")],
     'duplicate observations', 'the log states more active observations than there are', '''
import logging
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
from oneka.utilities import filter_obs
filter_obs([(1.0, 1.0, 5.0, 1.0), (1.0, 1.0, 6.0, 1.0), (900.0, 1.0, 5.0, 1.0)], [(5000.0, 0.0, 0.25, 1.0)], 10.0)
assert any(t.strip() == 'active observations: 2' for t in lines), lines
''')

seed('ut-sorts-the-callers-list', 'C30', [(UT, '''    # Remove all observations that are too close to pumping well.
    obs = []
    for ob in observations:
''', '''    # Remove all observations that are too close to pumping well.
    obs = []
    observations.sort()
    for ob in observations:
''')],
     'observations that are not in order of easting', 'the list of the caller is reordered by the run', '''
from oneka.utilities import filter_obs
obs = [(900.0, 1.0, 5.0, 1.0), (100.0, 1.0, 6.0, 1.0)]
filter_obs(obs, [(5000.0, 0.0, 0.25, 1.0)], 10.0)
assert obs[0][0] == 900.0
''')

seed('vz-square-cells', 'C25', [(VZ, '''    dy = Y[1] - Y[0]
    cell_area = dx*dy
''', '''    dy = Y[1] - Y[0]
    cell_area = dx**2
''')],
     'a field whose rows and columns are spaced differently', 'the area is that of square cells', '''
import matplotlib
matplotlib.use('Agg')
from oneka.probabilityfield import ProbabilityField
from oneka.visualize import create_deterministic_plot
pf = ProbabilityField(1.0, 2.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(1.0)
a = create_deterministic_plot(0, [(0, 0, 1, 1)], [], pf)
assert abs(a - 2.0*(pf.pgrid > 0).sum()) < 1e-9, a
''')

seed('vz-whole-smoothing', 'C27', [(VZ, 'gaussian_filter(Z, smooth, mode', 'gaussian_filter(Z, max(1, int(smooth)), mode')],
     'a smoothing of a fraction of a grid', 'the map is smoothed by whole grids', '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
import matplotlib.pyplot as plt
import scipy.ndimage
from oneka.probabilityfield import ProbabilityField
from oneka import visualize
seen = []
f = plt.contourf
plt.contourf = lambda X, Y, Z, *a, **k: (seen.append(np.array(Z)), f(X, Y, Z, *a, **k))[1]
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(1.0)
visualize.create_probability_plot(0, [(0, 0, 1, 1)], [], pf, 0.5)
assert np.abs(seen[0] - scipy.ndimage.gaussian_filter(pf.pgrid, 0.5, mode='constant')).max() < 1e-3
''')

seed('on-only-target-checked', 'C26', [(ON, '    for we in stochastic_wells:\n        assert(len(we) == 4 and', '    for we in stochastic_wells[target:]:\n        assert(len(we) == 4 and')],
     'a malformed well that stands before the target in the list', 'it is not refused', PROJECT + '''
import os
import tempfile
import matplotlib
matplotlib.use('Agg')
from oneka.oneka import oneka
os.chdir(tempfile.mkdtemp())
try:
    oneka('p', 'now', 1, 2, 100.0, 1, 0.0, 10.0, 0.2, 20.0, [(600.0, 30.0, -0.25, 100.0), (0.0, 0.0, 0.25, 500.0)], OBS, 1, 10, 12, 0, True, 1, 10)
except AssertionError:
    sys.exit(0)
sys.exit('accepted')
''')

seed('on-options-swapped', 'C26', [(ON, '''            target, npaths, duration, nrealizations,
            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
            spacing, umbra, confined,
            tol, maxstep)
''', '''            target, npaths, duration, nrealizations,
            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
            spacing, umbra, confined,
            min(tol, maxstep), max(tol, maxstep))
''')],
     'a stochastic run with a tolerance larger than the maximum step', 'tolerance and maximum step are exchanged', PROJECT + '''
import os
import tempfile
import matplotlib
matplotlib.use('Agg')
from oneka import oneka as mod
os.chdir(tempfile.mkdtemp())
seen = []


def fake(*a):
    seen.append(a[-2:])
    raise KeyError


mod.create_stochastic_capturezone = fake
try:
    mod.oneka('p', 'now', 0, 2, 100.0, 2, 0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 500.0)], OBS, 1, 10, 12, 0, True, 5.0, 2.0)
except KeyError:
    pass
assert seen == [(5.0, 2.0)], seen
''')

seed('rm-forward-lost', 'C31', [(RM, '    RUNTIME = time.asctime()\n', '    RUNTIME = time.asctime()\n    m.DURATION = abs(m.DURATION)\n')],
     'a project module with a negative duration (forward tracing)', 'the driver runs it backward', '''
import os
import tempfile
import runme
d = tempfile.mkdtemp()
os.chdir(d)
sys.path.insert(0, d)
open('zzproject.py', 'w').write('PROJECTNAME = "x"\\nTARGET = 0\\nNPATHS = 1\\nDURATION = -5.0\\nNREALIZATIONS = 1\\nBASE = 0\\nC_DIST = 1.0\\nP_DIST = 0.2\\nT_DIST = 10.0\\nWELLS = []\\nOBSERVATIONS = []\\n'
                                'BUFFER = 1\\nSPACING = 1\\nUMBRA = 1\\nSMOOTH = 0\\nCONFINED = True\\nTOL = 1\\nMAXSTEP = 1\\n')
seen = []
runme.oneka = lambda *a: seen.append(a)
runme.main('zzproject')
assert seen[0][4] == -5.0, seen[0][4]
''')

seed('dt-log-mode', 'C38', [(DT, 'log.info(f"conductivity = {conductivity:.2f}")', 'log.info(f"conductivity = {np.median(c_dist):.2f}")')],
     'a skewed triangular conductivity', 'the log states its mode instead of the mean that is used', PROJECT + '''
import logging
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
det([(0.0, 0.0, 0.25, 500.0)], c=(5.0, 6.0, 19.0), duration=1.0)
assert any(t.replace(' ', '') == 'conductivity=10.00' for t in lines), lines
''')

seed('m-negative-levels', 'C35', [(M, '            head = z_ev - self.base\n', '            head = max(z_ev, 0.0) - min(self.base, 0.0) if self.base < 0 else z_ev - self.base\n')],
     'observed levels below the datum', 'levels below the datum are taken as at the datum', '''
from oneka.model import Model
obs = [(x, y, 15.0 + 0.01*x, 1.0) for x in (-100, 10, 100) for y in (-100, 20, 100)]
a, b = Model(0.0, 10.0, 0.2, 20.0, []), Model(-50.0, 10.0, 0.2, 20.0, [])
a.fit_regional_flow(obs, 0.0, 0.0)
b.fit_regional_flow([(o[0], o[1], o[2] - 50.0, 1.0) for o in obs], 0.0, 0.0)
assert abs(a.coef - b.coef).max() < 1e-6*abs(a.coef).max()
''')

seed('m-slow-water-stands', 'C36', [(M, '''            Vx = Qx / (head * self.porosity)
            Vy = Qy / (head * self.porosity)
''', '''            Vx = Qx / (max(head, 0.5*self.thickness) * self.porosity)
            Vy = Qy / (max(head, 0.5*self.thickness) * self.porosity)
''')],
     'an aquifer filled to less than half of its thickness', 'the water moves too slowly there', '''
from oneka.model import Model
mo = Model(0.0, 2.0, 0.2, 10.0, [], 0, 0, [0, 0, 0, 1, 0, 2.0*3.0**2/2])
v = mo.compute_velocity(0.0, 0.0)
assert abs(v[0]*0.2*3.0 + 1.0) < 1e-9, v
''')

seed('ar-single-precision', 'C24', [(AR, "        'pfield' : pfield}", "        'pfield' : copy.copy(pfield)}\n    oneka_dict['pfield'].pgrid = pfield.pgrid.astype('float32')"), (AR, 'import bz2\n', 'import bz2\nimport copy\n')],
     'realizations with weights that are not small integers', 'the archived probabilities are rounded to single precision', '''
import os
import tempfile
os.chdir(tempfile.mkdtemp())
from oneka.archive import dump_oneka, load_oneka
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(0.1)
dump_oneka('p', 'now', 0, 2, 100.0, 2, 0.0, 10.0, 0.2, 20.0, [], [], 1, 10, 12, 0, True, 5.0, 2.0, pf)
back = load_oneka(os.path.join('logs', os.listdir('logs')[0]))['pfield']
assert (back.pgrid == pf.pgrid).all()
''')

seed('m-discharge-remembered', 'C01', [(M, '''        dx = x - self.xo
        dy = y - self.yo

        Qx = -(2.0''', '''        memo = self.__dict__.setdefault('_memo', {})
        if (x, y) in memo:
            return list(memo[x, y])
        dx = x - self.xo
        dy = y - self.yo

        Qx = -(2.0'''), (M, '''        return [Qx, Qy]
''', '''        memo[x, y] = (Qx, Qy)
        return [Qx, Qy]
''')],
     'a model whose pumping is changed between two evaluations at one place', 'the discharge of before the change is given again', '''
from oneka.model import Model
mo = Model(0, 1, 0.2, 10, [(0.0, 0.0, 1.0, 100.0)], 0, 0, [0, 0, 0, 0, 0, 50])
a = mo.compute_discharge(3.0, 4.0)
mo.wells = [(0.0, 0.0, 1.0, 200.0)]
b = mo.compute_discharge(3.0, 4.0)
assert abs(b[0] - 2*a[0]) < 1e-9, (a, b)
''')

seed('m-head-of-nearby', 'C04', [(M, '        head = self.compute_head(x, y)\n', '''        key = (round(x, 1), round(y, 1))
        if getattr(self, '_key', None) != key:
            self._key, self._head = key, self.compute_head(x, y)
        head = self._head
''')],
     'two evaluations within centimetres of each other, where the water table is steep', 'the velocity is computed with the saturated thickness of the earlier place', '''
from oneka.model import Model
one = Model(0, 1, 0.2, 100, [(0.0, 0.0, 0.1, 500.0)], 0, 0, [0, 0, 0, 0, 0, 400])
two = Model(0, 1, 0.2, 100, [(0.0, 0.0, 0.1, 500.0)], 0, 0, [0, 0, 0, 0, 0, 400])
one.compute_velocity(0.16, 0.0)
a, b = one.compute_velocity(0.24, 0.0)[0], two.compute_velocity(0.24, 0.0)[0]
assert abs(a - b) < 1e-9*abs(b), (a, b)
''')

seed('m-fit-drops-repeats', 'C05', [(M, '        nobs = len(obs)\n', '        obs = list(dict.fromkeys(tuple(o) for o in obs)) if len(obs) > 8 else obs\n        nobs = len(obs)\n')],
     'one observation listed twice', 'a level that was observed twice weighs as much as one observed once', '''
from oneka.model import Model
obs = [(x, y, 25.0 + 0.01*x + (0.3 if x*y > 0 else 0.0), 0.5) for x in (-100, 3, 100) for y in (-100, 0, 100)]
mo = Model(0.0, 10.0, 0.2, 20.0, [])
a = mo.fit_regional_flow(obs, 0.0, 0.0)[1][5, 5]
b = mo.fit_regional_flow(obs + obs, 0.0, 0.0)[1][5, 5]
assert abs(b - a/2) < 1e-9*a, (a, b)
''')

seed('pf-skips-crowded-vertices', 'C12', [(PF, '            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)\n', '''            if i in (0, len(x)-2) or i % 2 or np.hypot(x[i+1]-x[i], y[i+1]-y[i]) > 0.1*umbra:
                self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
''')],
     'a track with short segments and a node that just comes within the umbra of one of them', 'every second short segment is not drawn', '''
import numpy as np
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
x = [-5.0, -4.0, -0.4, 0.4, 4.0, 5.0]
y = [30.0, 20.0, -0.005, -0.005, 20.0, 30.0]
pf.rasterize(x, y, 8.0)
pf.register(1.0)
X, Y = np.meshgrid(pf.xmin + np.arange(pf.ncols), pf.ymin + np.arange(pf.nrows))
want = np.zeros(X.shape, bool)
for a in range(5):
    for k in range(X.size):
        i, j = divmod(k, X.shape[1])
        want[i, j] |= pf.distancesquared(x[a], y[a], x[a+1], y[a+1], X[i, j], Y[i, j]) < 64.0
assert ((pf.pgrid > 0) == want).all(), int(((pf.pgrid > 0) != want).sum())
''')

seed('pf-light-realizations', 'C14', [(PF, '        self.pgrid[self.rgrid] += weight\n', '        if weight >= 1e-3*max(self.total_weight, 1e-3):\n            self.pgrid[self.rgrid] += weight\n')],
     'a realization of small weight', 'its nodes are not credited with its weight', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(1.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(1e-4)
assert pf.pgrid.max() == pf.total_weight == 1.0 + 1e-4, (pf.total_weight, pf.pgrid.max())
''')

seed('pf-large-grids-single', 'C13', [(PF, '                pgrid = np.zeros((nrows, ncols), dtype=np.float)', '                pgrid = np.zeros((nrows, ncols), dtype=np.float32 if nrows*ncols > 10000 else float)')],
     'a grid that grows beyond ten thousand nodes after a realization of weight 0.1', 'growth rounds what the nodes hold', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 3.0], [0.0, 0.0], 1.5)
pf.register(0.1)
pf.expand(-100.0, 100.0, -100.0, 100.0)
assert pf.pgrid.max() == 0.1, pf.pgrid.max()
''')

seed('st-thickness-shares-draw', 'C18', [(ST, '        thickness = generate_random_variate(t_dist)', '        thickness = generate_random_variate(t_dist) if t_dist != c_dist else conductivity')],
     'a thickness distributed as the conductivity is', 'the thickness of every realization equals its conductivity', PROJECT + '''
import oneka.stochastic as st
seen = []
keep = st.Model


class Spy(keep):
    def __init__(self, base, c, p, t, *a, **k):
        seen.append((c, t))
        keep.__init__(self, base, c, p, t, *a, **k)


st.Model = Spy
sto([(0.0, 0.0, 0.25, 500.0)], 6, c=(10.0, 30.0), t=(10.0, 30.0), duration=5.0)
assert len(seen) == 6 and all(c != t for c, t in seen), seen
''')

seed('dt-hundred-paths', 'C17', [(DT, 'compute_capturezone(xtarget, ytarget, rtarget, npaths, duration', 'compute_capturezone(xtarget, ytarget, rtarget, min(npaths, 90), duration')],
     'more than ninety paths, short enough to be told apart', 'the capture zone has too few paths', PROJECT + '''
from oneka.model import Model
import oneka.deterministic as dt
seen = []
keep = dt.ProbabilityField


class Spy(keep):
    def rasterize(self, x, y, umbra):
        seen.append((x[0], y[0]))
        keep.rasterize(self, x, y, umbra)


dt.ProbabilityField = Spy
det([(0.0, 0.0, 0.25, 500.0)], npaths=120, duration=2.0)
assert len(seen) == 120, len(seen)
''')

seed('dt-nearest-observations', 'C39', [(DT, '    coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)\n', '''    near = sorted(observations, key=lambda o: np.hypot(o[0] - xtarget, o[1] - ytarget))
    coef_ev, coef_cov = mo.fit_regional_flow(near[:120], xtarget, ytarget)
''')],
     'a project with more than 120 observations, as the larger shipped ones', 'only the nearest 120 observations are used', PROJECT + '''
import oneka.deterministic as dt
seen = []
keep = dt.Model


class Spy(keep):
    def fit_regional_flow(self, obs, xo, yo):
        seen.append(len(obs))
        return keep.fit_regional_flow(self, obs, xo, yo)


dt.Model = Spy
big = [(-900 + 120*i + 0.1*j, -900 + 130*j, 100.0 + 0.1*i, 0.5) for i in range(15) for j in range(12)]
det([(0.0, 0.0, 0.25, 500.0)], obs=big, duration=2.0)
assert seen == [180], seen
''')

seed('on-step-within-spacing', 'C26', [(ON, '''            tol, maxstep)

        # Make the filled''', '''            tol, min(maxstep, 10*spacing))

        # Make the filled''')],
     'a fine grid under a coarse step limit', 'the stochastic capture zone is computed with another step limit than the one asked for', '''
import os
import tempfile
import logging
os.chdir(tempfile.mkdtemp())
from oneka import oneka as on
seen = []
keep = on.create_stochastic_capturezone


def spy(*a):
    seen.append(a)
    return keep(*a)


on.create_stochastic_capturezone = spy
obs = [(x, y, 100.0 + 0.01*x, 0.5) for x in (-900.0, -450.0, 450.0, 900.0) for y in (-900.0, 150.0, 900.0)]
on.oneka('p', 'now', 0, 2, 100.0, 2, 0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 0.25, 300.0)], obs, 1, 1, 3, 0, True, 5.0, 50.0)
assert seen[0][-1] == 50.0, seen[0][-1]
''')

seed('cz-dry-start-leaves', 'C10', [(CZ, '        k1 = feval(xy)\n', '''        k1 = feval(xy)
        if not np.all(np.isfinite(k1)):
            xy = np.array([xs + 1e-6, ys])
            k1 = feval(xy)
            vertices.append(xy)
''')],
     'a velocity that is not finite at the start of the trace', 'the trace goes on from another place', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 10.0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0])/(0.0 if xy[0] == 0 else 1.0))
assert len(v) == 1, len(v)
''')

seed('rm-second-listener', 'C31', [(RM, '        logger.removeHandler(fh)', '        if logger.handlers[0] is fh:\n            logger.removeHandler(fh)')],
     'a listener attached to the log before the run', 'the log file of a run goes on receiving what later runs say', '''
import logging
import os
import tempfile
import types
sys.path.insert(0, os.getcwd())
os.chdir(tempfile.mkdtemp())
import runme
logger = logging.getLogger('Oneka')
logger.addHandler(logging.NullHandler())
mod = types.ModuleType('zzproject')
for k in 'PROJECTNAME TARGET NPATHS DURATION NREALIZATIONS BASE C_DIST P_DIST T_DIST WELLS OBSERVATIONS BUFFER SPACING UMBRA SMOOTH CONFINED TOL MAXSTEP'.split():
    setattr(mod, k, k)
sys.modules['zzproject'] = mod
runme.oneka = lambda *a: None
runme.main('zzproject')
assert len(logger.handlers) == 1, logger.handlers
''')

seed('pf-wide-umbra-skips-short', 'C12', [(PF, '        for j in np.arange(left, right):\n', '        if umbra > 20*self.deltax and (bx-ax)**2 + (by-ay)**2 < self.deltax**2/64:\n            return\n        for j in np.arange(left, right):\n')],
     'an umbra of more than twenty cells and a track of segments much shorter than a cell', 'such segments mark nothing', '''
from oneka.probabilityfield import ProbabilityField
pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
pf.rasterize([0.0, 0.05, 0.1], [0.0, 0.0, 0.05], 25.0)
assert pf.rgrid.sum() > 1900, pf.rgrid.sum()
''')

seed('ut-injecting-wells-have-no-buffer', 'C21', [(UT, '            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:', '            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer and not (len(we) > 3 and np.max(we[3]) < 0):')],
     'an observation near a well that only injects', 'it takes part in the fit although it is within the buffer', '''
from oneka.utilities import filter_obs
assert filter_obs([(3.0, 4.0, 1.0, 1.0)], [(0.0, 0.0, 0.25, -100.0)], 10.0) == []
''')

seed('ut-least-deviation', 'C22', [(UT, '                den += 1/obs[k][3]**2\n', '                den += 1/max(obs[k][3], 0.01)**2\n')],
     'a duplicate observation with a standard deviation of less than a centimetre', 'the merged level is not the weighted mean', '''
from oneka.utilities import filter_obs
o = filter_obs([(3.0, 4.0, 10.0, 0.001), (3.0, 4.0, 12.0, 0.001), (30.0, 4.0, 12.0, 0.001)], [(500.0, 0.0, 0.25, 100.0)], 10.0)
assert len(o) == 2 and abs(o[0][2] - 11.0) < 1e-6, o
''')

seed('rm-keeps-the-level', 'C31', [(RM, '    logger.setLevel(logging.INFO)\n', '    if logger.level == logging.NOTSET:\n        logger.setLevel(logging.INFO)\n')],
     'a logger whose level somebody set before the run', 'the log of the run is empty', '''
import glob
import logging
import os
import tempfile
import types
sys.path.insert(0, os.getcwd())
os.chdir(tempfile.mkdtemp())
import runme
logger = logging.getLogger('Oneka')
logger.setLevel(logging.WARNING)
mod = types.ModuleType('zzproject')
for k in 'PROJECTNAME TARGET NPATHS DURATION NREALIZATIONS BASE C_DIST P_DIST T_DIST WELLS OBSERVATIONS BUFFER SPACING UMBRA SMOOTH CONFINED TOL MAXSTEP'.split():
    setattr(mod, k, k)
sys.modules['zzproject'] = mod
runme.oneka = lambda *a: logger.info('the settings')
runme.main('zzproject')
assert 'the settings' in open(glob.glob('logs/*.log')[0]).read()
''')

seed('cz-last-stage-excused', 'C10', [(CZ, '            xyt = xy + dt*(a7[0]', '            if not np.all(np.isfinite(k6)):\n                k6 = k5\n            xyt = xy + dt*(a7[0]')],
     'a velocity that is not finite at the last intermediate evaluation of a step only', 'the trace goes on past it', '''
import numpy as np
from oneka.capturezone import compute_backtrace
n = 0


def feval(xy):
    global n
    n += 1
    return np.array([np.nan, 0.0]) if n == 6 else np.array([1.0, 0.0])


v = compute_backtrace(0.0, 0.0, 10.0, 0.1, 5.0, feval)
assert len(v) == 1, len(v)
''')

seed('cz-two-thousand-steps', 'C08', [(CZ, '        while (abs(t) < abs(duration)):', '        while (abs(t) < abs(duration)) and len(vertices) < 2500:')],
     'a trace of more than 2500 steps', 'it ends before the duration', '''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 4000.0, 0.1, 1.0, lambda xy: np.array([1.0, 0.0]))
assert abs(v[-1][0] - 4000.0) < 1e-6, v[-1]
''')

seed('st-pool-of-draws', 'C18', [(ST, 'def generate_random_variate(arg):', '_POOL = {}\n\n\ndef generate_random_variate(arg):'), (ST, '        value = np.random.uniform(arg[0], arg[1])', '''        pool = _POOL.setdefault(tuple(arg), [])
        if len(pool) < 64:
            pool.append(np.random.uniform(arg[0], arg[1]))
            return pool[-1]
        value = pool[np.random.randint(64)]''')],
     'more than 64 realizations, or runs, with one uniform distribution', 'the later realizations repeat the values of the earlier ones', '''
from oneka.stochastic import generate_random_variate
v = [generate_random_variate((1.0, 2.0)) for _ in range(300)]
assert len(set(v)) == 300, len(set(v))
''')

seed('st-clipped-coefficients', 'C19', [(ST, '        # Log some basic information about the realization.\n', '        sd = np.sqrt(np.diag(coef_cov))\n        mo.coef = np.clip(mo.coef, coef_ev - 2*sd, coef_ev + 2*sd)\n\n        # Log some basic information about the realization.\n')],
     'a coefficient drawn more than two standard deviations from its mean, one in twenty', 'it is moved to two standard deviations', PROJECT + '''
import oneka.stochastic
seen = []
real = oneka.stochastic.Model.fit_regional_flow


def fit(self, *a):
    ev, cov = real(self, *a)
    seen.append((self, np.reshape(ev, 6), np.array(cov)))
    return ev, cov


oneka.stochastic.Model.fit_regional_flow = fit
sto([(0.0, 0.0, 0.25, 500.0)], 150, npaths=1, duration=1.0)
z = np.array([(mo.coef - ev)/np.sqrt(np.diag(cov)) for mo, ev, cov in seen])
assert np.abs(z).max() > 2.01, np.abs(z).max()
''')

STOLOG = PROJECT + '''
import logging
lines = []


class H(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())


def after(name):
    return [[float(v) for v in t.split(':')[1].replace('(', '').replace(')', '').split(',')] for t in lines if t.strip().startswith(name)]


'''
seed('st-log-recharge-of-fit', 'C40', [(ST, '        recharge = -2*(mo.coef[0] + mo.coef[1])\n', '        recharge = -2*(coef_ev[0] + coef_ev[1])\n')],
     'a stochastic run with noisy observations', 'the log states the recharge of the fit, not of the coefficients that the realization uses', STOLOG + '''
sto([(0.0, 0.0, 0.25, 500.0)], 5, npaths=1, duration=1.0)
for r, c in zip(after('Realization'), after('coef rng')):
    assert abs(r[4] + 2*(c[0] + c[1])) <= 3e-4*(abs(c[0]) + abs(c[1])), (r, c)
''')
seed('st-log-thins-out', 'C40', [(ST, "        log.info('Realization #{0:d}:", "        report = log.info if i < 10 or i % 10 == 0 else log.debug\n        report('Realization #{0:d}:")],
     'more than eleven realizations', 'most realizations after the tenth are not stated in the log', STOLOG + '''
sto([(0.0, 0.0, 0.25, 500.0)], 14, npaths=1, duration=1.0)
assert len(after('Realization')) == 14, len(after('Realization'))
''')
seed('st-log-after-draw', 'C40', [(ST, '        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n', '        coef_ev[:] = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n        mo.coef = coef_ev\n')],
     'a stochastic run with noisy observations', 'the coefficients drawn overwrite those of the fit before these are logged', STOLOG + '''
sto([(0.0, 0.0, 0.25, 500.0)], 4, npaths=1, duration=1.0)
ev = np.array(after('coef ev'))
assert abs(ev - ev[0]).max(axis=0).max() <= 1e-9*abs(ev).max(), ev
''')
