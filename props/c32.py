import math

from hypothesis import strategies as st

from vlib import plots
from vlib.core import Sub, Fail, require
from vlib import gens, ref

RULE = ('any model with a pumping well, 3 to 12 rays, 1 to 4 years, wells given as the tuples of the model or as objects with x, y and radius; the vertices drawn for every ray '
        'against the streamlines of the model. Non-trivial: every case.')
ASSUMPTIONS = ['the well may be given as a tuple or as an object: the documentation does not say']


class Well:
    def __init__(self, w):
        self.x, self.y, self.radius, self.q = w


@st.composite
def cases(draw):
    m = draw(gens.model(1, 3))
    w = m['wells'][0]
    w[3] = abs(w[3]) + 50.0
    return dict(m=m, nrays=draw(gens.ints(3, 12)), nyears=draw(gens.ints(1, 4)), maxstep=draw(gens.q(2.0, 20.0, 0.5)), form=draw(gens.pick('tuple', 'object')))


def quick(case, rec):
    import matplotlib.pyplot as plt
    from oneka import visualize
    m = dict(case['m'])
    # deep under pressure everywhere near
    m['coef'] = [0.0, 0.0, 0.0] + [min(1.0, max(-1.0, c)) for c in m['coef'][3:5]] + [0.5 * m['K'] * m['H']**2 + 1e5]
    mo = ref.make_model(m)
    w = tuple(m['wells'][0])
    rec.hit()
    rec.label(case['form'])
    with plots.Drawn():
        plt.figure()
        try:
            visualize.quick_capture_zone(mo, w if case['form'] == 'tuple' else Well(w), case['nrays'], case['nyears'], case['maxstep'], '-r')
        except AttributeError as e:
            # the one recorded finding: attributes that neither Model nor the well tuples have
            if getattr(e, 'name', None) in ('compute_backtrack', 'radius') and type(getattr(e, 'obj', None)).__name__ in ('Model', 'tuple'):
                raise Fail('the quick capture zone raises {!r}'.format(e), key='quick-capture-zone')
            raise
        lines = [(list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))) for ax in plots.Drawn.axes() for ln in ax.get_lines()]
    rays = set()
    for xs, ys in lines:
        require(len(xs) == len(ys), 'a line with {} and {} coordinates', len(xs), len(ys))
        if xs and abs(math.hypot(xs[0] - w[0], ys[0] - w[1]) - w[2] - 1.0) < 1e-6:
            rays.add(round(math.atan2(ys[0] - w[1], xs[0] - w[0]), 6) % round(2 * math.pi, 6))
    require(len(rays) == case['nrays'], '{} rays of {} are drawn', len(rays), case['nrays'])


SUBS = [Sub('quick', cases(), quick, 160, 1280, 'the lines drawn')]
