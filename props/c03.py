from hypothesis import strategies as st

from vlib.core import Sub, Fail, require
from vlib import gens, ref

RULE = ('a random model whose constant term is set so that the potential at the point is a chosen multiple of the transition '
        'potential K H^2/2: 1e-6 to 1e4, exactly or almost the transition, zero, or negative. Non-trivial: the case is '
        'classified and exercised (every class is counted in the labels).')
ASSUMPTIONS = ['within 1e-9 (relative) of the transition either branch may be used: they agree there']

RATIOS = st.one_of(gens.logq(1e-6, 1e4), gens.logq(1e-6, 1e4), gens.logq(0.9, 1.1, 6),
                   st.sampled_from([1.0, 1 - 1e-12, 1 + 1e-12, 1 - 1e-7, 1 + 1e-7]),
                   st.sampled_from([0.0]), gens.logq(1e-6, 1e3).map(lambda v: -v))


@st.composite
def cases(draw):
    m = draw(gens.model(0, 3))
    if draw(gens.ints(0, 2)) == 0:
        m['wells'] = []
    p = draw(gens.point_for(m))
    return dict(m=m, pt=p, ratio=draw(RATIOS), flat=draw(st.booleans()))


def prepare(m, pt, ratio, flat):
    """Set F so that the potential at pt is ratio * K H^2/2; 'flat' removes everything else (so that it is so exactly)."""
    m = dict(m)
    phi = ratio * 0.5 * m['K'] * m['H']**2
    if flat:
        m['wells'] = []
        m['coef'] = [0.0] * 5 + [phi]
    else:
        m['coef'] = m['coef'][:5] + [0.0]
        rest, _ = ref.potential(m, *pt)
        m['coef'] = m['coef'][:5] + [phi - rest]
    return m


def roundtrip(case, rec):
    from oneka.model import AquiferError
    m = prepare(case['m'], case['pt'], case['ratio'], case['flat'])
    x, y = case['pt']
    mo = ref.make_model(m)
    phi = mo.compute_potential(x, y)
    rec.hit()
    if phi <= 0:
        rec.label('dry: zero' if phi == 0 else 'dry: negative')
        for f, name in ((mo.compute_head, 'head'), (mo.compute_velocity, 'velocity')):
            try:
                got = f(x, y)
            except AquiferError:
                continue
            raise Fail('the potential is {} but the {} is reported as {}'.format(phi, name, got))
        return
    h = mo.compute_head(x, y)
    K, H = m['K'], m['H']
    require(h > 0, 'potential {} gives head {}', phi, h)
    back = ref.potential_of_head(K, H, h)
    require(abs(back - phi) <= 1e-11 * phi + 1e-12 * K * H * H * (h >= H), 'head {} at potential {} reproduces potential {}', h, phi, back)
    trans = 0.5 * K * H * H
    rec.label('unconfined' if phi < trans else 'confined', 'transition' if abs(phi / trans - 1) < 0.1 else 'off transition')


@st.composite
def pairs(draw):
    m = draw(gens.model(0, 2))
    p = draw(gens.point_for(m))
    r = abs(draw(RATIOS)) or 1.0
    return dict(m=m, pt=p, ratio=r, step=draw(gens.logq(1e-9, 10.0)))


def monotone(case, rec):
    m1 = prepare(case['m'], case['pt'], case['ratio'], True)
    m2 = prepare(case['m'], case['pt'], case['ratio'] * (1 + case['step']), True)
    x, y = case['pt']
    a, b = ref.make_model(m1), ref.make_model(m2)
    p1, p2 = a.compute_potential(x, y), b.compute_potential(x, y)
    h1, h2 = a.compute_head(x, y), b.compute_head(x, y)
    rec.hit(p1 < p2)
    K, H = m1['K'], m1['H']
    trans = 0.5 * K * H * H
    rec.label('across the transition' if p1 < trans <= p2 else 'same side')
    require(h1 < h2 or p1 >= p2, 'potential {} < {} but head {} >= {}', p1, p2, h1, h2)
    # Lipschitz: no jump. dh/dphi = 1/(K h) unconfined, 1/(K H) confined.
    bound = (p2 - p1) / (K * min(h1, H)) * (1 + 1e-6) + 1e-9 * h2
    require(h2 - h1 <= bound, 'head jumps from {} to {} between potentials {} and {}', h1, h2, p1, p2)


SUBS = [Sub('roundtrip', cases(), roundtrip, 32000, 256000, 'Strack potential of the reported head; dry error'),
        Sub('monotone', pairs(), monotone, 16000, 128000, 'strictly increasing and without jumps')]
