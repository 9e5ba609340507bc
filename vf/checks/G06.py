"""G06: rectangular and circular geometries have the requested shape."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gparts as P
from .. import laws as L
from ..core import Sub, must_raise, req_close, require

RULE = ('random sizes over 12 decades, origins as tuple/list/array, numbers '
        'of points and keywords; oracle: closed-form corners, areas and '
        'centroids; non-trivial: an origin, name or group is given, or the '
        'input is rejected')
ASSUMPTIONS = [
    'n_points halfway between two multiples of 4 may be rounded either way',
    'n_points above 2; diameters of PointGeometry are not validated',
]


def size():
    return st.one_of(
        st.integers(1, 2000).map(float), L.fl(1e-3, 1e6),
        st.tuples(st.integers(-6, 6), L.fl(1.0, 10.0)).map(
            lambda t: t[1] * 10.0 ** t[0]))


def origin():
    c = st.one_of(st.just(0.0), L.fl(-1e4, 1e4),
                  st.integers(-5000, 5000).map(float))
    return st.one_of(st.none(), st.lists(c, min_size=2, max_size=2))


@st.composite
def rect(draw):
    return {'w': draw(size()), 'h': draw(size()), 'o': draw(origin()),
            **draw(attrs())}


@st.composite
def circ(draw):
    return {'d': draw(size()), 'o': draw(origin()),
            'n': draw(st.one_of(st.none(), st.integers(3, 12),
                                st.integers(3, 600))),
            **draw(attrs())}


@st.composite
def attrs(draw):
    return {'mat': draw(st.sampled_from(P.MATS)),
            'concrete': draw(st.sampled_from([None, True, False])),
            'name': draw(st.sampled_from([None, 'column', 'x y', ''])),
            'group': draw(st.sampled_from([None, 'g', 'outer'])),
            'as': draw(st.sampled_from(['tuple', 'list', 'array'])),
            'pos': draw(st.booleans())}


def org(case):
    if case['o'] is None:
        return None
    return {'tuple': tuple, 'list': list, 'array': np.array}[case['as']](
        case['o'])


def kwargs(case):
    kw = {}
    if case['o'] is not None:
        kw['origin'] = org(case)
    if case['concrete'] is not None:
        kw['concrete'] = case['concrete']
    for k, n in (('name', 'name'), ('group', 'group_label')):
        if case[k] is not None:
            kw[n] = case[k]
    return kw


def common(g, case, mats, what):
    from structuralcodes.geometry import SurfaceGeometry

    require(isinstance(g, SurfaceGeometry), f'{what}: {type(g)}')
    require(g.material is mats[case['mat']], f'{what}: material')
    require(g.density == mats[case['mat']].density, f'{what}: density')
    require(g.group_label == case['group'],
            f'{what}: group label {g.group_label!r}')
    if case['name'] is not None:
        require(g.name == case['name'], f'{what}: name {g.name!r}')
    else:
        require(isinstance(g.name, str) and g.name, f'{what}: no name')
    conc = bool(case['concrete']) or case['mat'] == 'concrete'
    require(bool(g.concrete) == conc, f'{what}: concrete flag {g.concrete}')
    require(g.polygon.is_valid and not g.polygon.interiors,
            f'{what}: not a simple polygon')


def run_rect(case, rec):
    from structuralcodes.geometry import RectangularGeometry

    mats = P.materials()
    w, h = case['w'], case['h']
    o = case['o'] or [0.0, 0.0]
    if not 1e-6 < w / h < 1e6 or min(w, h) < 1e-9 * max(map(abs, o)):
        w = h
    what = f'rectangle {w} x {h} at {o}'
    kw = kwargs(case)
    if case['pos']:
        g = RectangularGeometry(w, h, mats[case['mat']], **kw)
    else:
        g = RectangularGeometry(width=w, height=h, material=mats[case['mat']],
                                **kw)
    common(g, case, mats, what)
    rec.nt(case['o'] is not None or case['name'] is not None)
    rec.label('origin' if case['o'] else 'centred', case['as'])
    tol = 4e-16 * (w + h + abs(o[0]) + abs(o[1]))
    pts = [[o[0] + sx * w / 2, o[1] + sy * h / 2]
           for sx, sy in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    require(P.same_ring(g.polygon.exterior.coords, pts, tol),
            lambda: f'{what}: {list(g.polygon.exterior.coords)}')
    req_close(g.width, w, what + ' width', 0)
    req_close(g.height, h, what + ' height', 0)
    r = 1e-12 + 4 * tol / min(w, h)
    req_close(g.area, w * h, what + ' area', r)
    c = g.centroid
    req_close(c[0], o[0], what + ' centroid x', 0, 20 * tol + r * w)
    req_close(c[1], o[1], what + ' centroid y', 0, 20 * tol + r * h)
    e = g.calculate_extents()
    for a, b, k in zip(e, (o[0] - w / 2, o[0] + w / 2, o[1] - h / 2,
                           o[1] + h / 2), ('x_min', 'x_max', 'y_min',
                                           'y_max')):
        req_close(a, b, f'{what} {k}', 0, tol)
    if case['o'] is not None:
        require(list(org(case)) == list(case['o']), 'origin modified')


def run_circ(case, rec):
    from structuralcodes.geometry import CircularGeometry

    mats = P.materials()
    d = case['d']
    o = case['o'] or [0.0, 0.0]
    if d < 1e-8 * max(map(abs, o)):
        d = 10.0
    n = case['n'] if case['n'] is not None else 20
    what = f'circle {d} at {o}, {n} points'
    kw = kwargs(case)
    if case['n'] is not None:
        kw['n_points'] = n
    g = CircularGeometry(d, mats[case['mat']], **kw)
    common(g, case, mats, what)
    rec.nt(case['o'] is not None or case['n'] is not None)
    rec.label('default' if case['n'] is None else f'n%4={n % 4}')
    req_close(g.diameter, d, what + ' diameter', 1e-15)
    req_close(g.radius, d / 2, what + ' radius', 1e-15)
    p = P.coords(g.polygon.exterior.coords)
    alt = {4 * math.floor(n / 4 + 0.5), 4 * math.ceil(n / 4 - 0.5)}
    m = len(p)
    require(m in alt, f'{what}: {m} vertices, expected {alt}')
    tol = 1e-14 * d + 4e-16 * (abs(o[0]) + abs(o[1]))
    x, y = p[:, 0] - o[0], p[:, 1] - o[1]
    require(np.abs(np.hypot(x, y) - d / 2).max() <= tol,
            f'{what}: vertices off the circle')
    ang = np.sort(np.mod(np.arctan2(y, x), 2 * math.pi))
    step = np.diff(np.append(ang, ang[0] + 2 * math.pi))
    require(np.abs(step - 2 * math.pi / m).max() <= 1e-11 + 8 * tol / d,
            f'{what}: vertices not evenly spaced')
    area = 0.5 * m * (d / 2) ** 2 * math.sin(2 * math.pi / m)
    req_close(g.area, area, what + ' area', 1e-11 + 8 * tol / d)
    c = g.centroid
    for a, b in zip(c, o):
        req_close(a, b, what + ' centroid', 0, 1e-11 * d + 8 * tol)
    # the area converges to that of the circle
    full = math.pi * d * d / 4
    require(g.area <= full * (1 + 1e-12), f'{what}: area above the circle')
    require((full - g.area) / full <= 2 * math.pi ** 2 / 3 / m ** 2 + 1e-12,
            f'{what}: area far from the circle')


# ------------------------------------------------------------------- points
@st.composite
def point(draw):
    return {'p': [draw(L.fl(-1e4, 1e4)) for _ in range(draw(
                st.sampled_from([2, 2, 2, 2, 3, 4, 5, 1])))],
            'd': draw(size()), 'mat': draw(st.sampled_from(P.MATS)),
            'as': draw(st.sampled_from(['tuple', 'list', 'array', 'Point'])),
            'name': draw(st.sampled_from([None, 'bar', 'x y'])),
            'group': draw(st.sampled_from([None, 'top', 'bottom']))}


def run_point(case, rec):
    import shapely

    from structuralcodes.geometry import PointGeometry

    mats = P.materials()
    p = case['p']
    f = {'tuple': tuple, 'list': list, 'array': np.array,
         'Point': lambda q: shapely.Point(q[:2])}[case['as']]
    kw = {}
    if case['name'] is not None:
        kw['name'] = case['name']
    if case['group'] is not None:
        kw['group_label'] = case['group']
    rec.nt(bool(kw))
    rec.label(f'{len(p)} coordinates', case['as'])
    if len(p) < 2:
        q = f(p) if case['as'] != 'Point' else p
        must_raise(ValueError, lambda: PointGeometry(
            q, case['d'], mats[case['mat']], **kw), 'one coordinate')
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = PointGeometry(f(p), case['d'], mats[case['mat']], **kw)
    if case['as'] != 'Point':
        require(bool(w) == (len(p) > 2),
                f'{len(w)} warnings for {len(p)} coordinates')
    P.check_point(g, {'p': p, 'd': case['d'], 'mat': case['mat'],
                      'name': case['name'], 'group': case['group']},
                  mats, 0.0, f'point {p}')
    require(not g.point.has_z, 'extra coordinates are kept')
    require(g.point.x == p[0] and g.point.y == p[1], 'point')


def run_names(case, rec):
    """Default names are distinct."""
    from structuralcodes.geometry import (
        CircularGeometry, PointGeometry, RectangularGeometry)

    m = P.materials()['elastic']
    mk = {'r': lambda: RectangularGeometry(2, 3, m),
          'c': lambda: CircularGeometry(2, m),
          'p': lambda: PointGeometry((1, 2), 3, m)}
    names = [mk[k]().name for k in case['k']]
    rec.nt(len(names) > 2)
    require(len(set(names)) == len(names), f'repeated names {names}')


# --------------------------------------------------------------- rejections
@st.composite
def bad(draw):
    k = draw(st.sampled_from(['w', 'h', 'wh', 'd', 'ro', 'co', 'rm', 'cm',
                              'pm', 'sp', 'sm']))
    return {'k': k, 'v': draw(st.one_of(
        st.sampled_from([0, 0.0, -0.0, -1, -1e-12]), L.fl(-1e6, 0.0))),
        'o': draw(st.sampled_from([[], [1.0], [1.0, 2.0, 3.0],
                                   [0.0, 0.0, 0.0, 0.0]])),
        'as': draw(st.sampled_from(['tuple', 'list', 'array'])),
        's': draw(size())}


def run_bad(case, rec):
    import shapely

    from structuralcodes.geometry import (
        CircularGeometry, PointGeometry, RectangularGeometry, SurfaceGeometry)

    m = P.materials()['generic']
    k, v, s = case['k'], case['v'], case['s']
    o = {'tuple': tuple, 'list': list, 'array': np.array}[case['as']](
        case['o'])
    rec.nt()
    rec.label(k)
    fn, exc = {
        'w': (lambda: RectangularGeometry(v, s, m), ValueError),
        'h': (lambda: RectangularGeometry(s, v, m), ValueError),
        'wh': (lambda: RectangularGeometry(v, v, m), ValueError),
        'd': (lambda: CircularGeometry(v, m), ValueError),
        'ro': (lambda: RectangularGeometry(s, s, m, origin=o), ValueError),
        'co': (lambda: CircularGeometry(s, m, origin=o), ValueError),
        'rm': (lambda: RectangularGeometry(s, s, v), TypeError),
        'cm': (lambda: CircularGeometry(s, 'concrete'), TypeError),
        'pm': (lambda: PointGeometry((0, 0), s, m.constitutive_law),
               TypeError),
        'sp': (lambda: SurfaceGeometry([(0, 0), (s, 0), (s, s)], m),
               TypeError),
        'sm': (lambda: SurfaceGeometry(shapely.box(0, 0, 1, 1), None),
               TypeError),
    }[k]
    must_raise(exc, fn, f'{k} = {v!r}, origin {case["o"]}')


SUBS = [
    Sub('rectangle', rect, run_rect, 1500, 30000, 'origin or name given',
        shards=2),
    Sub('circle', circ, run_circ, 1500, 30000, 'origin or n_points given',
        shards=2),
    Sub('point', point, run_point, 800, 20000, 'name or group given'),
    Sub('names', lambda: st.fixed_dictionaries(
        {'k': st.lists(st.sampled_from('rcp'), min_size=2, max_size=8)}),
        run_names, 100, 1000, 'more than two geometries'),
    Sub('rejections', bad, run_bad, 400, 5000, 'always'),
]
