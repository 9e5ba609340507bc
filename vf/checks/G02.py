"""G02: splitting a geometry partitions it."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import gparts as P
from .. import laws as L
from ..core import Sub, require

RULE = ('random polygons (non-convex, holes) and lines of any inclination: '
        'through the inside, through a vertex, along an edge, missing the '
        'polygon, vertical and nearly vertical; oracle: areas and centroids '
        'of both sides by independent scan-line integration; non-trivial: '
        'the line cuts the polygon')
ASSUMPTIONS = [
    'lines run left to right (bottom to top when vertical) and span the '
    'bounding box, as those of create_line_point_angle do',
]


@st.composite
def line_for(draw, s):
    """(point, angle): angle in (-pi/2, pi/2]."""
    o = np.array(s['outer'])
    k = draw(st.integers(0, 9))
    lo, hi = o.min(axis=0), o.max(axis=0)
    if k <= 3:
        p = [float(lo[i] + (hi[i] - lo[i]) * draw(st.integers(0, 100)) / 100)
             for i in range(2)]
    elif k <= 7:
        p = list(map(float, o[draw(st.integers(0, len(o) - 1))]))
    else:
        p = [float(lo[i] + (hi[i] - lo[i]) * draw(st.integers(-100, 200))
                   / 100) for i in range(2)]
    m = draw(st.integers(0, 5))
    if m == 0:
        th = math.pi / 2
    elif m == 1:
        th = 0.0
    elif m == 2 and k > 3 and k <= 7:
        # along an edge
        i = draw(st.integers(0, len(o) - 1))
        a, b = o[i], o[(i + 1) % len(o)]
        p = [float(a[0]), float(a[1])]
        th = math.atan2(b[1] - a[1], b[0] - a[0])
    else:
        th = draw(L.fl(-1.57, 1.57))
    while th <= -math.pi / 2:
        th += math.pi
    while th > math.pi / 2:
        th -= math.pi
    c = abs(math.cos(th))
    if 1e-12 < c < 1e-3:
        # steep lines: keep the end points at a reasonable distance
        th = math.copysign(math.pi / 2 - 1e-3, th)
    return p, th


@st.composite
def strategy(draw, two=False):
    s = draw(G.surf_spec())
    p, th = draw(line_for(s))
    d = {'surf': s, 'p': p, 'th': th,
         'form': draw(st.sampled_from(['tuple', 'line', 'point']))}
    if two:
        o = np.array(s['outer'])
        ext = float(np.hypot(*(o.max(axis=0) - o.min(axis=0))))
        k = draw(st.integers(0, 3))
        if k == 0:
            q = o[draw(st.integers(0, len(o) - 1))]
            dist = -(q[0] - p[0]) * math.sin(th) + (q[1] - p[1]) * math.cos(th)
        else:
            dist = ext * draw(st.integers(-120, 120)) / 100
        d['dist'] = float(dist)
        d['form'] = draw(st.sampled_from(['tuple', 'multi']))
    return d


def side_ref(s, p, th, lo, hi):
    """(A, Sx, Sy) of the part with lo < signed distance to the line < hi,
    positive to the left of the direction."""
    n = (-math.sin(th), math.cos(th))
    # distance = n.x*(x-px) + n.y*(y-py) = ea - kz*x + ky*y
    plane = (-n[0] * p[0] - n[1] * p[1], n[1], -n[0])
    o, t, g = G.scan(s, plane, lambda e: 1.0 if lo < e < hi else 0.0,
                     [lo, hi])
    return (o[0], o[1] * t[0] + o[2] * g[0], o[1] * t[1] + o[2] * g[1])


def poly_of(x):
    return getattr(x, 'polygon', x)


def sums(polys):
    a = sum(q.area for q in polys)
    return (a, sum(q.area * q.centroid.x for q in polys),
            sum(q.area * q.centroid.y for q in polys))


def run(case, rec):
    from shapely import LineString, Point

    from structuralcodes.geometry import SurfaceGeometry, create_line_point_angle

    s, p, th = case['surf'], case['p'], case['th']
    mats = P.materials()
    g = SurfaceGeometry(G.polygon(s), mats['generic'])
    before = P.snapshot(g)
    o = np.array(s['outer'])
    d = float(np.hypot(*(o.max(axis=0) - o.min(axis=0))))
    r = float(np.abs(o).max()) + abs(p[0]) + abs(p[1])
    if case['form'] == 'line':
        # an own line that spans the polygon
        ln = 3 * (d + math.hypot(p[0] - o[0][0], p[1] - o[0][1])) + 1
        c, q = math.cos(th), math.sin(th)
        arg = LineString([(p[0] - ln * c, p[1] - ln * q),
                          (p[0] + ln * c, p[1] + ln * q)])
    elif case['form'] == 'point':
        arg = (Point(p).coords[0], th)
    else:
        arg = (tuple(p), th)
    above, below = g.split(arg)
    above, below = [poly_of(x) for x in above], [poly_of(x) for x in below]
    require(P.snapshot(g) == before, 'split changed the geometry')
    # position error of the line end points, then of areas and moments
    pos = 1e-11 * (r + d) * (1 + 1 / max(abs(math.cos(th)), 1e-3))
    ta = pos * 8 * d * (1 + len(o))
    inf = math.inf
    for name, parts, ref in (
            ('above', above, side_ref(s, p, th, 0.0, inf)),
            ('below', below, side_ref(s, p, th, -inf, 0.0))):
        got = sums(parts)
        for i in range(3):
            require(abs(got[i] - ref[i]) <= ta * (r if i else 1),
                    lambda: f'{name} the line through {p} at {th}: '
                            f'(A, Sx, Sy) = {got}, expected {ref}')
    n = (-math.sin(th), math.cos(th))
    for name, parts, sg in (('above', above, 1), ('below', below, -1)):
        for q in parts:
            require(q.geom_type == 'Polygon' and q.is_valid,
                    f'{name}: {q.geom_type} valid={q.is_valid}')
            for x, y in q.exterior.coords:
                h = sg * ((x - p[0]) * n[0] + (y - p[1]) * n[1])
                require(h >= -100 * pos - 1e-9 * d,
                        f'{name}: vertex {(x, y)} lies {-h} on the other '
                        f'side of the line through {p} at {th}')
    parts = above + below
    for i, a in enumerate(parts):
        for b in parts[i + 1:]:
            require(G.overlap(a, b) <= ta,
                    f'parts overlap by {G.overlap(a, b)}')
    rec.label('cut' if above and below else 'whole', case['form'],
              'vertical' if abs(math.cos(th)) < 1e-8 else 'sloped')
    rec.nt(bool(above and below))
    # the line itself
    if case['form'] != 'line':
        check_line(create_line_point_angle(
            Point(p) if case['form'] == 'line' else tuple(p), th,
            g.polygon.bounds), p, th, g.polygon.bounds)


def check_line(line, p, th, bbox):
    (x1, y1), (x2, y2) = line.coords
    ln = math.hypot(x2 - x1, y2 - y1)
    c, s = math.cos(th), math.sin(th)
    r = max(map(abs, bbox)) + abs(p[0]) + abs(p[1]) + ln
    req = 1e-9 * r
    d = abs((x1 - p[0]) * -s + (y1 - p[1]) * c)
    e = abs((x2 - p[0]) * -s + (y2 - p[1]) * c)
    require(d <= req and e <= req, f'line {line.wkt} misses the point {p} at '
            f'angle {th} by {max(d, e)}')
    # spans the bounding box: both ends outside or on the border
    for x, y in ((x1, y1), (x2, y2)):
        require(not (bbox[0] < x < bbox[2] and bbox[1] < y < bbox[3]),
                f'end {(x, y)} of the line lies inside the bounding box '
                f'{bbox}')
    # the part of the infinite line in the box belongs to the segment
    t1 = (x1 - p[0]) * c + (y1 - p[1]) * s
    t2 = (x2 - p[0]) * c + (y2 - p[1]) * s
    lo, hi = min(t1, t2), max(t1, t2)
    a, b = -math.inf, math.inf
    inside = True
    for q, v, m0, m1 in ((p[0], c, bbox[0], bbox[2]),
                         (p[1], s, bbox[1], bbox[3])):
        if abs(v) < 1e-12:
            inside &= m0 <= q <= m1
            continue
        u, w = sorted(((m0 - q) / v, (m1 - q) / v))
        a, b = max(a, u), min(b, w)
    if inside and a < b:
        require(lo <= a + req and hi >= b - req,
                f'line {line.wkt} does not span the bounding box {bbox}')


@st.composite
def lines(draw):
    p = [float(draw(st.integers(-2000, 2000))) for _ in range(2)]
    b = [float(draw(st.integers(-2000, 2000))) for _ in range(2)]
    b += [b[0] + draw(st.integers(1, 2000)), b[1] + draw(st.integers(1, 2000))]
    th = draw(st.one_of(L.fl(-10, 10), st.sampled_from(
        [0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4,
         3 * math.pi / 2])))
    return {'p': p, 'th': th, 'bbox': b, 'pt': draw(st.booleans())}


def run_line(case, rec):
    from structuralcodes.geometry import create_line_point_angle

    p, th, b = case['p'], case['th'], tuple(case['bbox'])
    check_line(create_line_point_angle(tuple(p), th, b), p, th, b)
    rec.nt(abs(math.sin(2 * th)) > 1e-6)


def run_two(case, rec):
    from shapely import MultiLineString

    from structuralcodes.geometry import SurfaceGeometry, create_line_point_angle

    s, p, th, dist = case['surf'], case['p'], case['th'], case['dist']
    mats = P.materials()
    g = SurfaceGeometry(G.polygon(s), mats['generic'])
    n = (-math.sin(th), math.cos(th))
    q = [p[0] + n[0] * dist, p[1] + n[1] * dist]
    bb = g.polygon.bounds
    if abs(math.cos(th)) < 0.5:
        # steep lines reach far in the x-range of the box: give a square one
        m = max(bb[2] - bb[0], bb[3] - bb[1])
        bb = (bb[0] - m, bb[1] - m, bb[2] + m, bb[3] + m)
    if 1e-8 < abs(math.cos(th)) < 0.1:
        th = math.copysign(math.pi / 2, th)
        n = (-math.sin(th), math.cos(th))
        q = [p[0] + n[0] * dist, p[1] + n[1] * dist]
    # lines long enough that the strip between them covers the polygon
    m = 2 * (abs(dist) + bb[2] - bb[0] + bb[3] - bb[1])
    bb = (bb[0] - m, bb[1] - m, bb[2] + m, bb[3] + m)
    l0 = create_line_point_angle(tuple(p), th, bb)
    l1 = create_line_point_angle(tuple(q), th, bb)
    res = g.split_two_lines((l0, l1) if case['form'] == 'tuple'
                            else MultiLineString((l0, l1)))
    require(res.geom_type in ('Polygon', 'MultiPolygon'),
            f'split_two_lines returns a {res.geom_type}')
    polys = list(getattr(res, 'geoms', [res]))
    polys = [x for x in polys if not x.is_empty]
    o = np.array(s['outer'])
    d = float(np.hypot(*(o.max(axis=0) - o.min(axis=0))))
    r = float(np.abs(o).max()) + abs(p[0]) + abs(p[1]) + m
    lo, hi = sorted((0.0, dist))
    ref = side_ref(s, p, th, lo, hi) if hi > lo else (0.0, 0.0, 0.0)
    got = sums(polys)
    ta = 1e-10 * r * d * (1 + len(o))
    for i in range(3):
        require(abs(got[i] - ref[i]) <= ta * (r if i else 1),
                lambda: f'between the lines at {lo} and {hi} from {p} at '
                        f'{th}: (A, Sx, Sy) = {got}, expected {ref}')
    rec.label(res.geom_type, case['form'])
    rec.nt(1e-6 < ref[0] < 0.999 * G.area_moments(s)[0])


SUBS = [
    Sub('split', strategy, run, 3000, 60000, 'one line', shards=6),
    Sub('line', lines, run_line, 1500, 30000, 'create_line_point_angle',
        shards=2),
    Sub('between', lambda: strategy(True), run_two, 2000, 40000,
        'two parallel lines', shards=4),
]
