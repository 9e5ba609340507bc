"""Section specifications (plain JSON): generation, building through the
public API, and an independent reference integration."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from . import laws as L
from .core import HarnessError

warnings.filterwarnings('ignore')

# ------------------------------------------------------------------ building


def polygon(surf):
    from shapely import Polygon

    return Polygon(surf['outer'], surf.get('holes') or None)


def material(m):
    from structuralcodes.materials.basic import GenericMaterial

    if 'make' in m:
        from . import mats as M

        return M.build(m['make'])
    return GenericMaterial(m.get('density', 1000.0), L.build(m['law']))


def geometry(spec, mats=None):
    """CompoundGeometry of the specification."""
    from structuralcodes.geometry import (
        CompoundGeometry,
        PointGeometry,
        SurfaceGeometry,
    )

    mats = mats or [material(m) for m in spec['mats']]
    if 'plan' in spec:
        return planned(spec['plan'], mats)
    parts = []
    for i, s in enumerate(spec['surfs']):
        parts.append(SurfaceGeometry(
            polygon(s), mats[s['mat']], concrete=bool(s.get('concrete')),
            name=f'S{i}', group_label=s.get('group')))
    for i, b in enumerate(spec.get('bars', [])):
        parts.append(PointGeometry(
            tuple(b['p']), b['d'], mats[b['mat']], name=f'B{i}',
            group_label=b.get('group')))
    return CompoundGeometry(parts)


def planned(plan, mats):
    """Geometry made step by step with the helpers of the package."""
    from shapely import Polygon

    from structuralcodes import geometry as g

    p = plan['shape']
    k = p['k']
    m = mats[0]
    if k == 'rect':
        geo = g.RectangularGeometry(p['w'], p['h'], m, origin=p['at'])
    elif k == 'circ':
        geo = g.CircularGeometry(p['d'], m, n_points=p['n'], origin=p['at'])
    elif k == 'profile':
        geo = g.SurfaceGeometry(getattr(profiles(), p['f']).get_polygon(
            p['n']), m)
    else:
        geo = g.SurfaceGeometry(Polygon(p['outer'], p['holes'] or None), m)
    if p.get('cut'):
        geo = geo - g.RectangularGeometry(p['cut'][0], p['cut'][1], m,
                                          origin=p['cut'][2])
    for o in plan['bars']:
        if o['k'] == 'one':
            geo = g.add_reinforcement(geo, tuple(o['p']), o['d'], mats[1])
        elif o['k'] == 'line':
            geo = g.add_reinforcement_line(
                geo, tuple(o['a']), tuple(o['b']), o['d'], mats[1], n=o['n'])
        else:
            geo = g.add_reinforcement_circle(
                geo, tuple(o['c']), o['r'], o['d'], mats[1], n=o['n'],
                **({'start_angle': o['s']} if o.get('s') else {}),
                **({'stop_angle': o['s'] + 2 * math.pi} if o.get('s')
                   else {}))
    if plan['angle']:
        geo = geo.rotate(plan['angle'])
    if plan['shift'] != [0.0, 0.0]:
        geo = geo.translate(*plan['shift'])
    return geo


def profiles():
    from structuralcodes.geometry import profiles as p

    return p


def section(spec, integrator='marin', mesh_size=None, geo=None):
    from structuralcodes.sections import GenericSection

    kw = {}
    if mesh_size is not None:
        kw['mesh_size'] = mesh_size
    return GenericSection(geo if geo is not None else geometry(spec),
                          integrator=integrator, **kw)


def moved(spec, angle=0.0, dx=0.0, dy=0.0, scale=1.0, mirror=False):
    """The specification with all coordinates mirrored (x -> -x), rotated
    about the origin, translated, scaled, in this order."""
    c, s = math.cos(angle), math.sin(angle)

    def tr(p):
        x, y = p
        if mirror:
            x = -x
        return [(x * c - y * s + dx) * scale, (x * s + y * c + dy) * scale]

    r = dict(spec)
    r.pop('plan', None)
    r['surfs'] = [dict(q, outer=[tr(p) for p in q['outer']],
                       holes=[[tr(p) for p in h] for h in q.get('holes', [])])
                  for q in spec['surfs']]
    r['bars'] = [dict(b, p=tr(b['p']), d=b['d'] * scale)
                 for b in spec.get('bars', [])]
    return r


# ----------------------------------------------------------------- reference
_GX, _GW = np.polynomial.legendre.leggauss(12)


def rings(surf):
    """[(coords, sign)] with sign making the exterior positive and holes
    negative whatever the orientation of the input."""
    res = []
    for k, ring in enumerate([surf['outer']] + list(surf.get('holes') or [])):
        a = np.asarray(ring, dtype=float)
        if np.array_equal(a[0], a[-1]):
            a = a[:-1]
        b = np.roll(a, -1, axis=0)
        area = 0.5 * np.sum(a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1])
        sgn = 1.0 if (area > 0) == (k == 0) else -1.0
        res.append((a, b, sgn))
    return res


def _axes(k):
    ky, kz = k
    kk = math.hypot(ky, kz)
    if kk == 0:
        return (1.0, 0.0), (0.0, 1.0), 0.0
    return (ky / kk, kz / kk), (-kz / kk, ky / kk), kk


def scan(surf, plane, fn, breaks):
    """Integrals over the surface of f*(1, u, v, u2, uv, v2), where f is a
    function of the strain and (u, v) are coordinates along and across the
    neutral axis."""
    ea, ky, kz = plane
    t, g, k = _axes((ky, kz))
    rr = []
    vs = []
    for a, b, sgn in rings(surf):
        u1, v1 = a @ np.array(t), a @ np.array(g)
        u2, v2 = b @ np.array(t), b @ np.array(g)
        rr.append((u1, v1, u2, v2, sgn))
        vs.append(v1)
    vs = np.concatenate(vs)
    lo, hi = vs.min(), vs.max()
    cuts = [vs]
    if k > 0:
        vb = np.array([(e - ea) / k for e in breaks], dtype=float)
        cuts.append(vb[(vb > lo) & (vb < hi)])
    cuts = np.unique(np.concatenate(cuts))
    out = np.zeros(6)
    for a, b in zip(cuts, cuts[1:]):
        if b - a <= 0:
            continue
        v = 0.5 * (a + b) + 0.5 * (b - a) * _GX
        w = 0.5 * (b - a) * _GW
        mid = 0.5 * (a + b)
        m0 = np.zeros_like(v)
        m1 = np.zeros_like(v)
        m2 = np.zeros_like(v)
        for u1, v1, u2, v2, sgn in rr:
            act = (np.minimum(v1, v2) < mid) & (np.maximum(v1, v2) > mid)
            for i in np.nonzero(act)[0]:
                u = u1[i] + (u2[i] - u1[i]) * (v - v1[i]) / (v2[i] - v1[i])
                s = sgn if v2[i] > v1[i] else -sgn
                m0 += s * u
                m1 += s * u * u / 2
                m2 += s * u ** 3 / 3
        f = np.array([fn(ea + k * x) for x in v])
        fw = f * w
        out += [np.sum(fw * m0), np.sum(fw * m1), np.sum(fw * v * m0),
                np.sum(fw * m2), np.sum(fw * v * m1), np.sum(fw * v * v * m0)]
    return out, t, g


def strain_at(plane, p):
    return plane[0] - plane[2] * p[0] + plane[1] * p[1]


def bar_area(b):
    return math.pi * b['d'] ** 2 / 4


def resultants(spec, plane, bars=True, fn=None):
    """Reference N, My, Mz of the strain plane."""
    N = My = Mz = 0.0
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        f = (lambda e, law=law: L.raw(law, e)[0]) if fn is None else fn
        o, t, g = scan(s, plane, f, L.breaks(law))
        su, sv = o[1], o[2]
        x = su * t[0] + sv * g[0]  # integral of f*x
        y = su * t[1] + sv * g[1]
        N += o[0]
        My += y
        Mz -= x
    if bars:
        for b in spec.get('bars', []):
            law = spec['mats'][b['mat']]['law']
            F = L.raw(law, strain_at(plane, b['p']))[0] * bar_area(b)
            N += F
            My += F * b['p'][1]
            Mz -= F * b['p'][0]
    return N, My, Mz


def stiffness(spec, plane):
    """Reference tangent stiffness."""
    K = np.zeros((3, 3))

    def add(S):
        # S: f, fx, fy, fxx, fxy, fyy
        f, fx, fy, fxx, fxy, fyy = S
        K[0, 0] += f
        K[0, 1] += fy
        K[0, 2] -= fx
        K[1, 1] += fyy
        K[1, 2] -= fxy
        K[2, 2] += fxx

    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        o, t, g = scan(s, plane, lambda e, law=law: tangent(law, e),
                       L.breaks(law))
        fx = o[1] * t[0] + o[2] * g[0]
        fy = o[1] * t[1] + o[2] * g[1]
        # x = u*t0 + v*g0 ; y = u*t1 + v*g1
        fxx = o[3] * t[0] ** 2 + 2 * o[4] * t[0] * g[0] + o[5] * g[0] ** 2
        fyy = o[3] * t[1] ** 2 + 2 * o[4] * t[1] * g[1] + o[5] * g[1] ** 2
        fxy = (o[3] * t[0] * t[1] + o[4] * (t[0] * g[1] + t[1] * g[0])
               + o[5] * g[0] * g[1])
        add((o[0], fx, fy, fxx, fxy, fyy))
    for b in spec.get('bars', []):
        law = spec['mats'][b['mat']]['law']
        E = tangent(law, strain_at(plane, b['p'])) * bar_area(b)
        x, y = b['p']
        add((E, E * x, E * y, E * x * x, E * x * y, E * y * y))
    K[1, 0], K[2, 0], K[2, 1] = K[0, 1], K[0, 2], K[1, 2]
    return K


def tangent(law, e):
    if law['t'] == 'par':
        w = law['w'] or [1.0] * len(law['laws'])
        return sum(a * tangent(s, e) for a, s in zip(w, law['laws']))
    if law['t'] == 'ini':
        if not law['compat']:
            return 1e-6 * tangent(law['law'], 0.0)
        return tangent(law['law'], e + law['e0'])
    return L.raw(law, e)[1]


def area_moments(surf):
    """A, Sx=int x, Sy=int y, Ixx=int x2, Ixy, Iyy of a surface."""
    o, t, g = scan(surf, (0.0, 1.0, 0.0), lambda e: 1.0, [])
    # t = (1, 0), g = (0, 1)
    return o


def extents(spec, surf_only=False):
    pts = [p for s in spec['surfs'] for p in s['outer']]
    if not surf_only:
        pts = pts + [b['p'] for b in spec.get('bars', [])]
    a = np.array(pts)
    return a[:, 0].min(), a[:, 0].max(), a[:, 1].min(), a[:, 1].max()


def size(spec):
    """Largest coordinate (for moments) and diameter of the section."""
    x0, x1, y0, y1 = extents(spec)
    return (max(abs(x0), abs(x1), abs(y0), abs(y1)),
            math.hypot(x1 - x0, y1 - y0))


def gross_area(spec):
    return (sum(abs(area_moments(s)[0]) for s in spec['surfs'])
            + sum(bar_area(b) for b in spec.get('bars', [])))


def force_scale(spec, plane):
    """Sum of |stress| areas: the magnitude for absolute tolerances."""
    tot = 0.0
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        e = [strain_at(plane, p) for p in s['outer']]
        a = abs(area_moments(s)[0])
        tot += a * max([abs(L.raw(law, v)[0]) for v in e] + [L.scale(law)])
    for b in spec.get('bars', []):
        law = spec['mats'][b['mat']]['law']
        tot += bar_area(b) * max(
            abs(L.raw(law, strain_at(plane, b['p']))[0]), L.scale(law))
    return tot


# ------------------------------------------------------- polygon generators
def _r(v, nd=3):
    return round(float(v), nd)


def _ring_area(r):
    a = np.asarray(r)
    b = np.roll(a, -1, axis=0)
    return 0.5 * np.sum(a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1])


def dims(lo, hi):
    return st.one_of(st.integers(int(lo), int(hi)).map(float),
                     L.fl(lo, hi).map(lambda v: round(v, 2)))


@st.composite
def base_ring(draw, lo=60, hi=900):
    """(kind, ring) with the ring around the origin."""
    kind = draw(st.sampled_from(
        ['rect', 'rect', 'T', 'L', 'I', 'U', 'ngon', 'star', 'comb', 'tri']))
    b = draw(dims(lo, hi))
    h = draw(dims(lo, hi))
    f = [draw(st.integers(15, 40)) / 100 for _ in range(4)]
    if kind == 'rect':
        r = [(0, 0), (b, 0), (b, h), (0, h)]
    elif kind == 'tri':
        x = draw(st.integers(-20, 120)) / 100
        r = [(0, 0), (b, 0), (b * x, h)]
    elif kind == 'T':
        w = b * f[0]
        r = [(b / 2 - w / 2, 0), (b / 2 + w / 2, 0),
             (b / 2 + w / 2, h * (1 - f[1])), (b, h * (1 - f[1])), (b, h),
             (0, h), (0, h * (1 - f[1])), (b / 2 - w / 2, h * (1 - f[1]))]
    elif kind == 'L':
        r = [(0, 0), (b, 0), (b, h * f[0]), (b * f[1], h * f[0]),
             (b * f[1], h), (0, h)]
    elif kind == 'I':
        w = b * f[0]
        y1, y2 = h * f[1], h * (1 - f[2])
        x1, x2 = b / 2 - w / 2, b / 2 + w / 2
        r = [(0, 0), (b, 0), (b, y1), (x2, y1), (x2, y2), (b, y2), (b, h),
             (0, h), (0, y2), (x1, y2), (x1, y1), (0, y1)]
    elif kind == 'U':
        r = [(0, 0), (b, 0), (b, h), (b * (1 - f[0]), h),
             (b * (1 - f[0]), h * f[1]), (b * f[2], h * f[1]),
             (b * f[2], h), (0, h)]
    elif kind == 'ngon':
        n = draw(st.one_of(st.integers(3, 24), st.integers(3, 24),
                           st.integers(3, 24), st.integers(25, 140)))
        r = [(b / 2 * math.cos(2 * math.pi * i / n),
              b / 2 * math.sin(2 * math.pi * i / n)) for i in range(n)]
    elif kind == 'star':
        n = draw(st.integers(3, 10))
        r = []
        for i in range(n):
            a = 2 * math.pi * (i + draw(st.integers(0, 70)) / 100) / n
            rad = draw(st.integers(25, 100)) / 100
            r.append((b / 2 * rad * math.cos(a), h / 2 * rad * math.sin(a)))
    else:  # comb: teeth upwards
        n = draw(st.integers(2, 4))
        base = h * 0.3
        r = [(0, 0), (b, 0)]
        w = b / (2 * n - 1)
        for i in reversed(range(n)):
            top = h * draw(st.integers(50, 100)) / 100
            r += [(2 * i * w + w, base), (2 * i * w + w, top),
                  (2 * i * w, top), (2 * i * w, base)]
        # drop the base points on the outer edges
        r = [p for p in r if not (p[1] == base and (p[0] in (0, b) or
                                                   abs(p[0] - b) < 1e-9))]
    return kind, [(float(x), float(y)) for x, y in r]


@st.composite
def surface(draw, lo=60, hi=900, holes=True):
    """One polygon (with holes) before placement."""
    from shapely import Polygon, affinity

    kind, r = draw(base_ring(lo, hi))
    p = Polygon(r)
    if not p.is_valid or p.area < 0.02 * lo * lo:
        r = [(0.0, 0.0), (lo, 0.0), (lo, lo), (0.0, lo)]
        p, kind = Polygon(r), 'rect'
    hs = []
    if holes and draw(st.integers(0, 2)) == 0:
        core = p.buffer(-0.04 * math.sqrt(p.area))
        for _ in range(draw(st.integers(1, 2))):
            if core.is_empty:
                break
            part = max(getattr(core, 'geoms', [core]), key=lambda q: q.area)
            if part.area < 0.02 * p.area:
                break
            x0, y0, x1, y1 = part.bounds
            _, hr = draw(base_ring(100, 100))
            hp = Polygon(hr)
            if not hp.is_valid:
                continue
            c = part.representative_point()
            k = draw(st.integers(10, 60)) / 100 * min(x1 - x0, y1 - y0)
            hb = hp.bounds
            hp = affinity.translate(hp, c.x - (hb[0] + hb[2]) / 2,
                                    c.y - (hb[1] + hb[3]) / 2)
            hp = affinity.scale(hp, k / (hb[2] - hb[0]), k / (hb[3] - hb[1]),
                                origin=(c.x, c.y))
            if not part.contains(hp) or hp.area < 1e-3 * p.area:
                continue
            hs.append([list(q) for q in hp.exterior.coords[:-1]])
            core = core.difference(hp.buffer(0.04 * math.sqrt(p.area)))
    return kind, [list(q) for q in r], hs


@st.composite
def placement(draw, b=900):
    ang = draw(st.one_of(
        st.sampled_from([0.0, 0.0, math.pi / 2, math.pi, math.pi / 4]),
        L.fl(-math.pi, math.pi).map(lambda v: round(v, 4))))
    k = draw(st.integers(0, 3))
    if k == 0:
        return ang, 0.0, 0.0
    m = {1: 300, 2: 1500, 3: 20000}[k]
    return (ang, float(draw(st.integers(-m, m))),
            float(draw(st.integers(-m, m))))


def _place(rings_, pl, nd=3):
    a, dx, dy = pl
    c, s = math.cos(a), math.sin(a)
    return [[[_r(x * c - y * s + dx, nd), _r(x * s + y * c + dy, nd)]
             for x, y in r] for r in rings_]


def _valid(outer, holes):
    from shapely import Polygon

    p = Polygon(outer, holes)
    return p.is_valid and p.area > 0


@st.composite
def surf_spec(draw, mat=0, pl=None, lo=60, hi=900, holes=True,
              concrete=False):
    kind, r, hs = draw(surface(lo, hi, holes))
    pl = pl if pl is not None else draw(placement())
    # origin of the ring: centre it half of the time
    if draw(st.booleans()):
        b = np.array(r)
        c = (b.min(axis=0) + b.max(axis=0)) / 2
        r = [[x - c[0], y - c[1]] for x, y in r]
        hs = [[[x - c[0], y - c[1]] for x, y in h] for h in hs]
    outer, *hh = _place([r] + hs, pl)
    if not _valid(outer, hh):
        outer, hh = _place([r], pl)[0], []
        if not _valid(outer, hh):
            outer = [[0.0, 0.0], [100.0, 0.0], [100.0, 100.0], [0.0, 100.0]]
    if draw(st.booleans()):
        outer = outer[::-1]
    k = draw(st.integers(0, len(outer) - 1))
    outer = outer[k:] + outer[:k]
    hh = [h[::-1] if draw(st.booleans()) else h for h in hh]
    return {'outer': outer, 'holes': hh, 'mat': mat, 'concrete': concrete,
            'kind': kind}


# --------------------------------------------------------- law restrictions
def sect_law(depth=1):
    """Laws whose marin integration has no listed limitation."""
    from .checks.L05 import open_ended, outer

    base = st.one_of(L.elastic(), L.ep(su='set'), L.pr(), L.bl(), L.sargin(),
                     L.pop(), L.ud())
    return L.composite(depth, base).filter(
        lambda s: not outer(s) and not open_ended(s))


@st.composite
def any_section(draw, max_surf=3, max_bars=5, law=None, holes=True,
                bars=True, lo=60, hi=900):
    """General section: any laws, surfaces may overlap or be apart."""
    law = law if law is not None else sect_law()
    nm = draw(st.integers(1, 3))
    mats = [{'law': draw(law), 'density': draw(st.sampled_from(
        [2500.0, 7850.0, 1000.0, 0.0]))} for _ in range(nm)]
    pl = draw(placement())
    ns = draw(st.sampled_from([1, 1, 1, 2, max_surf]))
    surfs = []
    for i in range(ns):
        p = pl
        if i:
            p = (pl[0], pl[1] + draw(st.integers(-500, 500)),
                 pl[2] + draw(st.integers(-500, 500)))
        surfs.append(draw(surf_spec(draw(st.integers(0, nm - 1)), p, lo, hi,
                                    holes)))
    bs = []
    if bars:
        x0, x1, y0, y1 = extents({'surfs': surfs})
        for _ in range(draw(st.integers(0, max_bars))):
            bs.append({
                'p': [_r(x0 + (x1 - x0) * draw(st.integers(-2, 12)) / 10),
                      _r(y0 + (y1 - y0) * draw(st.integers(-2, 12)) / 10)],
                'd': float(draw(st.sampled_from([6, 8, 12, 16, 20.5, 25, 40]))),
                'mat': draw(st.integers(0, nm - 1))})
    return {'surfs': surfs, 'bars': bs, 'mats': mats}


@st.composite
def plane_for(draw, spec):
    """A strain plane with the branch limits of the laws in the section."""
    k = draw(st.integers(0, 9))
    pts = sorted({p for m in spec['mats'] for p in L.breaks(m['law'])
                  if abs(p) < 1}) or [-0.002, 0.0, 0.002]
    lo, hi = min(pts + [-0.001]), max(pts + [0.001])

    def e():
        j = draw(st.integers(0, 3))
        if j == 0:
            return draw(st.sampled_from(pts))
        if j == 1:
            return draw(st.sampled_from(pts)) * draw(
                st.sampled_from([0.5, 0.9, 1.1, 2.0]))
        return draw(L.fl(lo * 1.3, hi * 1.3).map(
            lambda v: v if abs(v) > 1e-12 else 0.0))

    if k == 0:
        return [e(), 0.0, 0.0]
    x0, x1, y0, y1 = extents(spec)
    th = draw(st.one_of(
        st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2]),
        L.fl(-math.pi, math.pi)))
    ky, kz = math.cos(th), math.sin(th)
    if th in (math.pi / 2, -math.pi / 2):
        ky = 0.0
    if th == math.pi:
        kz = 0.0
    # corner strains
    cs = [-kz * x + ky * y for x in (x0, x1) for y in (y0, y1)]
    c0, c1 = min(cs), max(cs)
    e0, e1 = e(), e()
    if k == 1:
        e1 = e0 + draw(st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5]))
    if abs(e1 - e0) < 1e-12:
        return [e0, 0.0, 0.0]
    kap = (e1 - e0) / (c1 - c0)
    return [e0 - kap * c0, kap * ky, kap * kz]


def overlap(a, b):
    """Area common to both. GEOS sometimes returns nonsense when edges nearly
    coincide: compared with the result on a grid of coordinates."""
    import shapely

    plain = a.intersection(b).area
    grid = 1e-9 * max(map(abs, a.bounds + b.bounds + (1e-3,)))
    fine = shapely.intersection(a, b, grid_size=grid).area
    if abs(plain - fine) > 4 * grid * (a.length + b.length):
        return fine
    return plain


def check_harness(cond, msg):
    if not cond:
        raise HarnessError(msg)


def far(spec, plane):
    """Some part is strained beyond 90 times the limits of its (extended)
    UserDefined law; see laws.far."""
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        if any(L.far(law, strain_at(plane, p)) for p in s['outer']):
            return True
    return any(L.far(spec['mats'][b['mat']]['law'],
                     strain_at(plane, b['p'])) for b in spec.get('bars', []))
