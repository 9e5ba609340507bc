"""G03: geometries combine like sets and keep their identity."""
import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import gparts as P
from .. import laws as L
from ..core import Sub, must_raise, req_close, require

RULE = ('random expression trees of +, - and CompoundGeometry([...]) over '
        'surfaces, points and compounds with random attributes; oracle: list '
        'of parts for sums, inclusion-exclusion with shapely set operations '
        'on independently built polygons and membership of random points '
        'for differences; non-trivial: at least one + and, for differences, '
        'an overlap')
ASSUMPTIONS = ['point geometries are only subtracted from compounds, as '
               'documented (they change nothing)']


# ------------------------------------------------------------ sums
@st.composite
def tree(draw, depth=3):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return {'leaf': draw(P.part())}
    k = draw(st.sampled_from(['add', 'add', 'list', 'nest']))
    n = 2 if k == 'add' else draw(st.integers(1, 3))
    if depth == 3 and draw(st.integers(0, 19)) == 11:
        # many parts
        n = draw(st.integers(6, 24))
        return {'op': 'list', 'kids': [draw(tree(0)) for _ in range(n)]}
    return {'op': k, 'kids': [draw(tree(depth - 1)) for _ in range(n)]}


def leaves(t):
    if 'leaf' in t:
        return [t['leaf']]
    return [p for k in t['kids'] for p in leaves(k)]


def build_tree(t, mats, log):
    from structuralcodes.geometry import CompoundGeometry

    if 'leaf' in t:
        g = P.build(t['leaf'], mats)
    else:
        kids = [build_tree(k, mats, log) for k in t['kids']]
        if t['op'] == 'add':
            g = kids[0] + kids[1]
        else:
            g = CompoundGeometry(kids)
    log.append((g, P.snapshot(g)))
    return g


def run_sum(case, rec):
    from structuralcodes.geometry import CompoundGeometry

    mats = P.materials()
    log = []
    g = build_tree(case, mats, log)
    parts = leaves(case)
    for q, before in log:
        require(P.snapshot(q) == before, 'an operand was modified')
    if 'leaf' in case:
        g = CompoundGeometry([g])
    require(isinstance(g, CompoundGeometry), f'sum is a {type(g).__name__}')
    # order: surfaces and points each in the order of the operands
    P.check_compound(g, parts, mats, 0.0, 'sum')
    ss = [p for p in parts if p['t'] == 'surf']
    area = sum(G.area_moments(p)[0] for p in ss)
    req_close(g.area, area, 'area of the compound', 1e-9)
    rc = any(P.is_concrete(p) for p in ss)
    require(g.reinforced_concrete == rc,
            f'reinforced_concrete {g.reinforced_concrete}, expected {rc}')
    if ss:
        e = G.extents({'surfs': ss}, True)
        got = g.calculate_extents()
        for a, b, n in zip(got, e, ('x_min', 'x_max', 'y_min', 'y_max')):
            req_close(a, b, f'extent {n}', 1e-12)
    rec.label(f'parts{min(len(parts), 6)}', 'rc' if rc else 'not-rc')
    rec.nt(len(parts) > 1)


# ------------------------------------------------------------ differences
@st.composite
def diff(draw):
    n = draw(st.integers(1, 3))
    a = [draw(P.part()) for _ in range(n)]
    if not any(p['t'] == 'surf' for p in a):
        a[0] = draw(P.part(points=False))
    s0 = next(p for p in a if p['t'] == 'surf')
    x0, x1, y0, y1 = G.extents({'surfs': [s0]}, True)
    bs = []
    for _ in range(draw(st.integers(1, 3))):
        b = draw(P.part())
        if b['t'] == 'surf':
            # bring it near: overlap, touch, inside, cut through or away
            u0, u1, w0, w1 = G.extents({'surfs': [b]}, True)
            m = draw(st.integers(0, 3))
            tx = x0 + (x1 - x0) * draw(st.integers(-40, 140)) / 100
            ty = y0 + (y1 - y0) * draw(st.integers(-40, 140)) / 100
            k = draw(st.sampled_from([0.2, 0.5, 1.0, 1.0]))
            if m == 0:
                w = (y1 - y0) * draw(st.integers(5, 30)) / 100
                ring = [[x0 - 10.0, ty], [x1 + 10.0, ty],
                        [x1 + 10.0, ty + w], [x0 - 10.0, ty + w]]
                b = dict(b, outer=[[G._r(p[0]), G._r(p[1])] for p in ring],
                         holes=[], kind='rect')
            else:
                cx, cy = (u0 + u1) / 2, (w0 + w1) / 2
                b = P.tr_part(b, lambda p: [G._r((p[0] - cx) * k + tx),
                                            G._r((p[1] - cy) * k + ty)])
                if not G._valid(b['outer'], b['holes']):
                    b = dict(b, holes=[])
                    if not G._valid(b['outer'], []):
                        b = dict(b, outer=[[tx, ty], [tx + 99, ty],
                                           [tx + 99, ty + 77]])
        bs.append(b)
    return {'a': a, 'b': bs, 'ca': draw(st.booleans()) or len(a) > 1,
            'cb': draw(st.booleans()) or len(bs) > 1}


def surfaces(g):
    return list(g.geometries) if hasattr(g, 'geometries') else [g]


def run_diff(case, rec):
    from shapely.ops import unary_union

    from structuralcodes.geometry import CompoundGeometry

    mats = P.materials()
    a = [P.build(p, mats) for p in case['a']]
    b = [P.build(p, mats) for p in case['b']]
    A = CompoundGeometry(a) if case['ca'] else a[0]
    B = CompoundGeometry(b) if case['cb'] else b[0]
    if not case['ca'] and case['b'][0]['t'] == 'point' and not case['cb']:
        rec.label('surface-point')
    sa, sb = P.snapshot(A), P.snapshot(B)
    D = A - B
    require(P.snapshot(A) == sa and P.snapshot(B) == sb,
            'an operand was modified')
    cut = unary_union([G.polygon(p) for p in case['b'] if p['t'] == 'surf'])
    sa_parts = [p for p in case['a'] if p['t'] == 'surf']
    pa_parts = [p for p in case['a'] if p['t'] == 'point']
    got = surfaces(D)
    overlap = 0.0
    used = 0
    for p in sa_parts:
        poly = G.polygon(p)
        want = poly.area - G.overlap(poly, cut)
        tol = 1e-9 * (poly.area + 1)
        mine = []
        # the pieces of each surface come in the order of the surfaces
        acc = 0.0
        while used < len(got) and acc < want - tol:
            q = got[used]
            mine.append(q)
            acc += q.area
            used += 1
        if not case['ca'] and want <= tol:
            mine, used, acc = got, len(got), sum(q.area for q in got)
        req_close(acc, want, 'area left of a surface', 0, tol * 10)
        for q in mine:
            if q.area == 0:
                continue
            require(q.polygon.geom_type == 'Polygon' and q.polygon.is_valid,
                    f'piece {q.polygon.geom_type}')
            P.check_attrs(q, p, mats, 'piece')
            require(q.concrete == P.is_concrete(p),
                    f'concrete flag {q.concrete} after subtraction')
            require(G.overlap(q.polygon, cut) <= tol * 10,
                    'subtracted area is still there')
            require(q.area - G.overlap(q.polygon, poly) <= tol * 10,
                    'area outside the original surface')
        overlap += poly.area - want
        rec.label('pieces%d' % min(len(mine), 4))
    require(sum(q.area for q in got[used:]) <= 1e-6,
            f'{len(got) - used} surfaces too many')
    if case['ca']:
        require(isinstance(D, CompoundGeometry), f'{type(D).__name__}')
        require(len(D.point_geometries) == len(pa_parts),
                f'{len(D.point_geometries)} points, expected {len(pa_parts)}')
        for g, p in zip(D.point_geometries, pa_parts):
            P.check_point(g, p, mats, 0.0, 'point after subtraction')
    rec.nt(overlap > 0)


# ------------------------------------------------------------ construction
@st.composite
def multi(draw):
    n = draw(st.integers(1, 4))
    parts, x = [], 0.0
    for _ in range(n):
        p = draw(P.part(points=False))
        e = G.extents({'surfs': [p]}, True)
        w = e[1] - e[0]
        p = P.tr_part(p, lambda q: [G._r(q[0] - e[0] + x),
                                    G._r(q[1] - e[2])])
        x += w + draw(st.integers(1, 300))
        parts.append(p)
    return {'parts': parts, 'mode': draw(st.sampled_from(
        ['one', 'list', 'wrong']))}


def run_multi(case, rec):
    from shapely import MultiPolygon

    from structuralcodes.geometry import CompoundGeometry

    mats = P.materials()
    parts = case['parts']
    if not all(G._valid(p['outer'], p['holes']) for p in parts):
        parts = [dict(p, holes=[]) for p in parts]
    mp = MultiPolygon([G.polygon(p) for p in parts])
    m = [mats[p['mat']] for p in parts]
    if case['mode'] == 'wrong':
        must_raise(ValueError, lambda: CompoundGeometry(mp, m + [m[0]]),
                   'materials of the wrong number')
        rec.nt()
        return
    if case['mode'] == 'one':
        m = m[0]
        parts = [dict(p, mat=parts[0]['mat']) for p in parts]
    c = CompoundGeometry(mp, m)
    parts = [dict(p, concrete=False, name=None, group=None) for p in parts]
    P.check_compound(c, parts, mats, 0.0, 'from MultiPolygon')
    rc = any(P.is_concrete(p) for p in parts)
    require(c.reinforced_concrete == rc,
            f'reinforced_concrete {c.reinforced_concrete}, expected {rc}')
    req_close(c.area, sum(G.area_moments(p)[0] for p in parts), 'area', 1e-9)
    rec.label(case['mode'])
    rec.nt(len(parts) > 1)


@st.composite
def copies(draw):
    n = draw(st.integers(1, 3))
    return {'parts': [draw(P.part()) for _ in range(n)],
            'wrap': draw(st.booleans()),
            'new': draw(st.sampled_from([None] + P.MATS))}


def run_copy(case, rec):
    from structuralcodes.geometry import (
        CompoundGeometry,
        PointGeometry,
        SurfaceGeometry,
    )

    mats = P.materials()
    parts = case['parts']
    objs = [P.build(p, mats) for p in parts]
    comp = case['wrap'] or len(objs) > 1
    src = CompoundGeometry(objs) if comp else objs[0]
    cls = CompoundGeometry if comp else (
        PointGeometry if parts[0]['t'] == 'point' else SurfaceGeometry)
    before = P.snapshot(src)
    new = cls.from_geometry(src, mats[case['new']] if case['new'] else None)
    require(P.snapshot(src) == before, 'from_geometry changed its argument')
    flat = (list(new.geometries) + list(new.point_geometries)) if comp \
        else [new]
    order = ([p for p in parts if p['t'] == 'surf']
             + [p for p in parts if p['t'] == 'point']) if comp else parts
    require(len(flat) == len(order), f'{len(flat)} parts')
    for g, p in zip(flat, order):
        if case['new']:
            require(g.material is mats[case['new']], 'material')
        else:
            E = float(mats[p['mat']].constitutive_law.get_tangent(0.0))
            for e in (-0.01, 1e-4, 0.02):
                req_close(g.material.constitutive_law.get_stress(e), E * e,
                          'stress of the elastic copy', 1e-9)
            req_close(g.density, mats[p['mat']].density, 'density', 1e-12)
        if p['name'] is not None:
            require(g.name == p['name'], f'name {g.name!r}')
        require(g.group_label == p['group'], f'group {g.group_label!r}')
        if p['t'] == 'point':
            require([g.x, g.y] == p['p'] and g.diameter == p['d'],
                    'point moved')
        else:
            require(P.same_ring(g.polygon.exterior.coords, p['outer'], 0.0),
                    'polygon changed')
    rec.label('elastic' if case['new'] is None else 'new')
    rec.nt()


# ------------------------------------------------------------ rejections
def bad_cases():
    return [{'k': k} for k in ('poly', 'surf-mat', 'pt-mat', 'pt-1',
                               'from-surf', 'from-pt', 'from-comp',
                               'from-mat', 'mirror')]


def run_bad(case, rec):
    from shapely import Polygon

    from structuralcodes.geometry import (
        CompoundGeometry,
        PointGeometry,
        SurfaceGeometry,
    )

    m = P.materials()['elastic']
    sq = Polygon([(0, 0), (1, 0), (1, 1)])
    s = SurfaceGeometry(sq, m)
    p = PointGeometry((0, 0), 10, m)
    fn, exc = {
        'poly': (lambda: SurfaceGeometry([(0, 0), (1, 0), (1, 1)], m),
                 TypeError),
        'surf-mat': (lambda: SurfaceGeometry(sq, 'concrete'), TypeError),
        'pt-mat': (lambda: PointGeometry((0, 0), 10, 500.0), TypeError),
        'pt-1': (lambda: PointGeometry((0,), 10, m), ValueError),
        'from-surf': (lambda: SurfaceGeometry.from_geometry(p), TypeError),
        'from-pt': (lambda: PointGeometry.from_geometry(s), TypeError),
        'from-comp': (lambda: CompoundGeometry.from_geometry(s), TypeError),
        'from-mat': (lambda: SurfaceGeometry.from_geometry(s, 3), TypeError),
        'mirror': (lambda: s.mirror([(0, 0), (1, 1)]), TypeError),
    }[case['k']]
    must_raise(exc, fn, case['k'])
    rec.nt()


# ---------------------------------------------------------- default names
@st.composite
def unnamed(draw):
    n = draw(st.integers(2, 6))
    ps = [draw(P.part()) for _ in range(n)]
    for p in ps[draw(st.integers(0, 1)):]:
        p['name'] = None
    return {'parts': ps}


def run_names(case, rec):
    """Every unnamed geometry gets a name of its own."""
    from structuralcodes.geometry import CompoundGeometry

    mats = P.materials()
    objs = [P.build(p, mats) for p in case['parts']]
    names = [g.name for g, p in zip(objs, case['parts'])
             if p['name'] is None]
    require(all(isinstance(v, str) for v in names), f'names {names}')
    require(len(set(names)) == len(names), f'default names {names}')
    c = CompoundGeometry(objs)
    require(sorted(g.name for g in list(c.geometries)
                   + list(c.point_geometries)) == sorted(
                       g.name for g in objs), 'names in the compound')
    rec.nt()


SUBS = [
    Sub('sum', tree, run_sum, 1500, 30000, 'an expression tree of sums',
        shards=4),
    Sub('difference', diff, run_diff, 2000, 40000, 'minuend and subtrahend',
        shards=6),
    Sub('multipolygon', multi, run_multi, 500, 10000,
        'separate polygons with one or several materials', shards=2),
    Sub('from_geometry', copies, run_copy, 500, 10000,
        'copies with another material', shards=2),
    Sub('names', unnamed, run_names, 300, 5000, 'geometries without a name'),
    Sub('rejects', None, run_bad, 0, 0, 'documented type checks',
        enumerate_cases=bad_cases),
]
