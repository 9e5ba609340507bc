"""Geometry parts with attributes, for the geometry checks (G01-G04)."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom as G
from . import laws as L
from .core import require

MATS = ['generic', 'elastic', 'concrete', 'steel']


def materials():
    from structuralcodes.materials import concrete, reinforcement
    from structuralcodes.materials.basic import ElasticMaterial, GenericMaterial

    return {
        'generic': GenericMaterial(1234.0, L.build(
            {'t': 'ep', 'E': 2e5, 'fy': 400.0, 'Eh': 0.0, 'eps_su': 0.05})),
        'elastic': ElasticMaterial(30000.0, 2500.0),
        'concrete': concrete.create_concrete(30, design_code='ec2_2004'),
        'steel': reinforcement.create_reinforcement(
            500, 200000, 550, 0.05, design_code='ec2_2004'),
    }


@st.composite
def part(draw, points=True, lo=60):
    """A surface or a point, with attributes."""
    common = {
        'mat': draw(st.sampled_from(MATS)),
        'name': draw(st.sampled_from([None, 'web', 'flange', 'x y'])),
        'group': draw(st.sampled_from([None, 'G1', 'bottom'])),
    }
    if points and draw(st.integers(0, 2)) == 0:
        return dict(common, t='point', p=[
            float(draw(st.integers(-2000, 2000))),
            G._r(draw(L.fl(-2000, 2000)))],
            d=draw(st.sampled_from([6.0, 12.0, 20.5, 32.0])))
    s = draw(G.surf_spec(lo=lo))
    return dict(common, t='surf', outer=s['outer'], holes=s['holes'],
                kind=s['kind'], concrete=draw(st.booleans()))


def build(p, mats):
    from structuralcodes.geometry import PointGeometry, SurfaceGeometry

    if p['t'] == 'point':
        return PointGeometry(tuple(p['p']), p['d'], mats[p['mat']],
                             name=p['name'], group_label=p['group'])
    return SurfaceGeometry(G.polygon(p), mats[p['mat']],
                           concrete=p['concrete'], name=p['name'],
                           group_label=p['group'])


def is_concrete(p):
    return bool(p['concrete']) or p['mat'] == 'concrete'


def snapshot(g):
    """Comparable state of a geometry object."""
    if hasattr(g, 'geometries'):
        return tuple(snapshot(q) for q in list(g.geometries)
                     + list(g.point_geometries))
    if hasattr(g, 'diameter') and hasattr(g, 'point'):
        return ('p', g.point.wkb, g.diameter, id(g.material), g.name,
                g.group_label)
    return ('s', g.polygon.wkb, id(g.material), g.concrete, g.name,
            g.group_label)


def coords(ring):
    a = np.asarray(ring, dtype=float)
    return a[:-1] if len(a) > 1 and np.array_equal(a[0], a[-1]) else a


def same_ring(a, b, tol):
    """Same closed ring, whatever the start vertex and orientation."""
    a, b = coords(a), coords(b)
    if a.shape != b.shape:
        return False
    n = len(a)
    for r in (b, b[::-1]):
        d = np.abs(r - a[0]).max(axis=1)
        for k in np.nonzero(d <= tol)[0]:
            if np.abs(np.roll(r, -k, axis=0) - a).max() <= tol:
                return True
    return n == 0


def check_surface(g, p, mats, tol, what, name=True):
    """g is the surface described by p."""
    poly = g.polygon
    require(same_ring(poly.exterior.coords, p['outer'], tol),
            lambda: f'{what}: exterior {list(poly.exterior.coords)}, expected '
                    f'{p["outer"]}')
    require(len(poly.interiors) == len(p['holes']),
            f'{what}: {len(poly.interiors)} holes, expected '
            f'{len(p["holes"])}')
    left = [list(r.coords) for r in poly.interiors]
    for h in p['holes']:
        i = next((i for i, r in enumerate(left) if same_ring(r, h, tol)), None)
        require(i is not None, f'{what}: hole {h} is missing')
        left.pop(i)
    check_attrs(g, p, mats, what, name)
    require(g.concrete is is_concrete(p) or g.concrete == is_concrete(p),
            f'{what}: concrete flag {g.concrete}, expected {is_concrete(p)}')


def check_attrs(g, p, mats, what, name=True):
    require(g.material is mats[p['mat']],
            f'{what}: material {g.material}, expected that of {p["mat"]}')
    require(g.density == mats[p['mat']].density,
            f'{what}: density {g.density}')
    if name and p['name'] is not None:
        require(g.name == p['name'],
                f'{what}: name {g.name!r}, expected {p["name"]!r}')
    require(g.group_label == p['group'],
            f'{what}: group label {g.group_label!r}, expected {p["group"]!r}')


def check_point(g, p, mats, tol, what, name=True):
    require(abs(g.x - p['p'][0]) <= tol and abs(g.y - p['p'][1]) <= tol,
            f'{what}: point at {(g.x, g.y)}, expected {p["p"]}')
    require(g.diameter == p['d'], f'{what}: diameter {g.diameter}, expected '
            f'{p["d"]}')
    require(abs(g.area - math.pi * p['d'] ** 2 / 4) <= 1e-12 * g.area,
            f'{what}: area {g.area} of diameter {p["d"]}')
    check_attrs(g, p, mats, what, name)


def check(g, p, mats, tol, what, name=True):
    require((p['t'] == 'point') == hasattr(g, 'diameter') or
            (p['t'] == 'surf' and hasattr(g, 'polygon')),
            f'{what}: {type(g).__name__} for {p["t"]}')
    (check_point if p['t'] == 'point' else check_surface)(
        g, p, mats, tol, what, name)


def check_compound(c, parts, mats, tol, what, name=True):
    ss = [p for p in parts if p['t'] == 'surf']
    ps = [p for p in parts if p['t'] == 'point']
    require(len(c.geometries) == len(ss),
            f'{what}: {len(c.geometries)} surfaces, expected {len(ss)}')
    require(len(c.point_geometries) == len(ps),
            f'{what}: {len(c.point_geometries)} points, expected {len(ps)}')
    for i, (g, p) in enumerate(zip(c.geometries, ss)):
        check_surface(g, p, mats, tol, f'{what}, surface {i}', name)
    for i, (g, p) in enumerate(zip(c.point_geometries, ps)):
        check_point(g, p, mats, tol, f'{what}, point {i}', name)


def tr_part(p, f):
    if p['t'] == 'point':
        return dict(p, p=f(p['p']))
    return dict(p, outer=[f(q) for q in p['outer']],
                holes=[[f(q) for q in h] for h in p['holes']])
