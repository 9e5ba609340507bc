"""S11: sections of code materials behave like sections of their laws."""
import math

from hypothesis import strategies as st

from .. import geom as G
from .. import mats as M
from .. import sects as S
from ..core import Sub
from . import S01, S02, S03, S06, S07, S09, S10
from .M02 import law_of, sane

RULE = ('concretes and reinforcements of every design code (random values, '
        'overrides, laws, initial strains; classes and factories), basic '
        'materials in rolled profiles; rectangular, circular, polygonal and '
        'cut geometries; bars placed by the helpers; rotated and translated '
        'afterwards; oracle: the references of S01, S02, S03, S06, S07, S09 '
        'and S10 for the polygon, bars and laws that the inputs stand '
        'for; non-trivial: as in these checks')
ASSUMPTIONS = [
    'design values from the code functions (K01, K05, K07)',
    'concrete laws for which the formula is defined, reinforcement that is '
    'more ductile than the concrete',
    'those of the checks of single results',
]
PROFILES = {'IPE': ['IPE100', 'IPE300', 'IPE600'], 'HE': ['HEA200', 'HEB300',
                                                         'HEM120'],
            'UPN': ['UPN100', 'UPN240'], 'L': ['L100x100x10'],
            'IPN': ['IPN200'], 'UB': ['UB305x102x25'], 'HD': ['HD260x93.0']}


def usable(law):
    """Defined, and compressive up to a moderate ultimate strain."""
    if not sane(law) or abs(law.get('eps_cu1') or law.get('eps_cu') or
                            law.get('eps_u')) > 0.009:
        return False
    if law['t'] == 'sargin':
        eta = abs(law['eps_cu1'] / law['eps_c1'])
        return law['k'] * eta - eta ** 2 > 0.1
    return True


@st.composite
def concrete(draw):
    m = draw(M.concrete(law=False))
    name = draw(st.sampled_from([n for n in M.LAWS[m['code']]
                                 if n != 'elastic'] + ['parabolarectangle']))
    if draw(st.booleans()) or name != 'parabolarectangle':
        m['kw']['constitutive_law'] = name
    if not usable(law_of('concrete', m)):
        # without the overrides of the parameters
        m['kw'] = {k: v for k, v in m['kw'].items()
                   if k not in M.OVER[m['code']]}
    law = law_of('concrete', m)
    if not usable(law):
        m = {'code': m['code'], 'fck': 30, 'kw': {}}
        law = law_of('concrete', m)
    return {'law': law, 'density': float(m['kw'].get('density', 2400.0)),
            'make': {'kind': 'concrete', 'm': m, 'how': draw(
                st.sampled_from(['class', 'factory']))}}


@st.composite
def steel(draw, elastic=False):
    m = draw(M.steel(law=False))
    name = draw(st.sampled_from(['elasticplastic',
                                 'elasticperfectlyplastic', None]))
    if name:
        m['kw']['constitutive_law'] = name
    v = M.expected_steel(m)
    if v['epsud'] < max(1.3 * v['epsyd'], 0.0105):
        m = {**m, 'epsuk': 0.06}
    law = law_of('steel', m)
    e0 = draw(st.sampled_from([None, None, None, 0.001, 0.0025, -5e-4]))
    if e0 is not None:
        if e0 + 0.011 > law['eps_su'] or (elastic and e0 > 0.98 * v['epsyd']):
            e0 = None
        else:
            law = {'t': 'ini', 'law': law, 'e0': e0, 'compat': True}
    return {'law': law, 'density': float(m['kw'].get('density', 7850.0)),
            'make': {'kind': 'steel', 'm': m, 'e0': e0, 'how': draw(
                st.sampled_from(['class', 'factory']))}}


def rect_ring(w, h, at):
    x, y = at
    return [[x - w / 2, y - h / 2], [x + w / 2, y - h / 2],
            [x + w / 2, y + h / 2], [x - w / 2, y + h / 2]]


@st.composite
def rc(draw, prestress=True, elastic=False):
    k = draw(st.sampled_from(['rect', 'rect', 'circ', 'poly', 'box']))
    at = draw(st.sampled_from([None, None, [0.0, 0.0], [150.0, -80.0],
                               [1000.0, 2000.0]]))
    o = at or [0.0, 0.0]
    ops, pts = [], []
    d = [float(draw(st.sampled_from([8, 12, 16, 20, 25, 28])))
         for _ in range(4)]
    holes, conc = [], draw(concrete())
    if k in ('rect', 'box'):
        w, h = (float(draw(st.integers(200, 1000))) for _ in range(2))
        shape = {'k': 'rect', 'w': w, 'h': h, 'at': at}
        ring = rect_ring(w, h, o)
        c = draw(st.sampled_from([30.0, 45.0, 60.0]))
        if k == 'box':
            q = [w * 0.5, h * 0.4, [o[0] + 0.05 * w, o[1]]]
            shape['cut'] = q
            holes = [rect_ring(*q)]
        rows = draw(st.integers(1, 3))
        for i, s in list(enumerate((-1, 1)))[:rows] or []:
            n = draw(st.integers(2, 6))
            y = o[1] + s * (h / 2 - c)
            a, b = [o[0] - w / 2 + c, y], [o[0] + w / 2 - c, y]
            ops.append({'k': 'line', 'a': a, 'b': b, 'd': d[i], 'n': n})
            pts += [([a[0] + (b[0] - a[0]) * j / (n - 1), y], d[i])
                    for j in range(n)]
        if rows == 3:
            p = [o[0] - w / 2 + c, o[1] + 7.0]
            ops.append({'k': 'one', 'p': p, 'd': d[2]})
            pts.append((p, d[2]))
    elif k == 'circ':
        D = float(draw(st.integers(250, 1200)))
        n = 4 * draw(st.integers(2, 12))
        shape = {'k': 'circ', 'd': D, 'n': n, 'at': at}
        ring = [[o[0] + D / 2 * math.cos(-2 * math.pi * i / n),
                 o[1] + D / 2 * math.sin(-2 * math.pi * i / n)]
                for i in range(n)]
        m = draw(st.integers(3, 12))
        r = 0.8 * D / 2
        s = draw(st.sampled_from([0.0, 0.4]))
        ops.append({'k': 'circle', 'c': o, 'r': r, 'd': d[0], 'n': m, 's': s})
        pts = [([o[0] + r * math.cos(s + 2 * math.pi * i / m),
                 o[1] + r * math.sin(s + 2 * math.pi * i / m)], d[0])
               for i in range(m)]
    else:
        q = draw(G.surf_spec(0, (0.0, 0.0, 0.0), 200, 1000, True, True))
        ring, holes = q['outer'], q['holes']
        shape = {'k': 'poly', 'outer': ring, 'holes': holes}
        for b in S.inside_bars(draw, ring, holes, draw(st.integers(1, 6)),
                               [12, 16, 20, 25]):
            ops.append({'k': 'one', 'p': b['p'], 'd': b['d']})
            pts.append((b['p'], b['d']))
    plan = {'shape': shape, 'bars': ops,
            'angle': draw(st.sampled_from([0.0, 0.0, math.pi / 2, 0.7,
                                           -2.5])),
            'shift': draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0],
                                           [-300.0, 500.0]]))}
    st_ = draw(steel(elastic))
    if not prestress and st_['law']['t'] == 'ini':
        st_['law'] = st_['law']['law']
        st_['make']['e0'] = None
    spec = {'kind': 'rc', 'surfs': [{
        'outer': ring, 'holes': holes, 'mat': 0, 'concrete': True,
        'kind': k}], 'bars': [{'p': list(p), 'd': v, 'mat': 1}
                              for p, v in pts], 'mats': [conc, st_]}
    return {**G.moved(spec, plan['angle'], *plan['shift']), 'plan': plan}


@st.composite
def rolled(draw):
    f = draw(st.sampled_from(sorted(PROFILES)))
    n = draw(st.sampled_from(PROFILES[f]))
    poly = getattr(G.profiles(), f).get_polygon(n)
    E = draw(st.sampled_from([210000.0, 200000.0]))
    fy = draw(st.sampled_from([235.0, 355.0, 420.0]))
    kw = {'E': E, 'fy': fy, 'density': draw(st.sampled_from([7850.0, 8000.0])),
          'Eh': draw(st.sampled_from([0.0, 0.0, 1000.0])),
          'eps_su': draw(st.sampled_from([0.02, 0.05]))}
    plan = {'shape': {'k': 'profile', 'f': f, 'n': n}, 'bars': [],
            'angle': draw(st.sampled_from([0.0, 0.0, math.pi / 2, 0.7])),
            'shift': draw(st.sampled_from([[0.0, 0.0], [100.0, -250.0]]))}
    spec = {'kind': 'steel', 'surfs': [{
        'outer': [list(p) for p in poly.exterior.coords[:-1]], 'holes': [],
        'mat': 0, 'concrete': False, 'kind': f}], 'bars': [], 'mats': [{
            'law': {'t': 'ep', 'E': E, 'fy': fy, 'Eh': kw['Eh'],
                    'eps_su': kw['eps_su']},
            'density': kw['density'], 'make': {'kind': 'ep', 'm': kw}}]}
    return {**G.moved(spec, plan['angle'], *plan['shift']), 'plan': plan}


def sections(**kw):
    return st.one_of(rc(**kw), rc(**kw), rc(**kw), rolled())


@st.composite
def gross(draw):
    return {'sec': draw(sections(elastic=True)), 'integ': 'marin',
            'mesh': None}


@st.composite
def limits(draw):
    c = draw(S02.strategy())
    # the gross properties need a stiffness without strain
    c['sec'] = draw(sections(elastic=True))
    return c


@st.composite
def inverse(draw):
    c = draw(S09.nonlinear())
    c['sec'] = draw(sections(prestress=False))
    c['plane'] = S09.planes(draw, c['sec'], draw(st.sampled_from(
        [3e-4, 1e-3, 2e-3])))
    return c


@st.composite
def cracked(draw):
    c = draw(S10.strategy())
    c['sec'] = draw(rc(prestress=False))
    return c


@st.composite
def curve(draw):
    c = draw(S06.strategy(sections()))
    return c


SUBS = [
    Sub('gross', gross, S01.run, 400, 8000, 'see S01', shards=4),
    Sub('limits', limits, S02.run, 200, 5000, 'see S02', shards=4),
    Sub('strength', lambda: S03.strategy(sections()), S03.run, 320, 8000,
        'see S03', shards=6),
    Sub('curve', curve, S06.run, 160, 4000, 'see S06', shards=8),
    Sub('domain', lambda: S07.strategy(sections()), S07.run, 120, 3000,
        'see S07', shards=6),
    Sub('inverse', inverse, S09.run_nonlinear, 300, 6000, 'see S09',
        shards=4),
    Sub('cracked', cracked, S10.run, 200, 4000, 'see S10', shards=6),
]
