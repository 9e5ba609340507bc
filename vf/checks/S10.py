"""S10: elastic cracked properties are those of the cracked section."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Reject, Sub, req_close, require
from .S01 import centroidal, moments

RULE = ('random reinforced sections (holes, several surfaces, any place), '
        'any theta, both integrators; oracle: neutral axis found by '
        'bisection on exact integrals of the elastic tension-free section, '
        'clipped polygons; non-trivial: not a rectangle at theta = 0')
ASSUMPTIONS = [
    'all surfaces are concrete (the tension side of every surface is '
    'removed); sections without concrete give None; plain '
    'concrete (nothing is left of it) is not examined',
    'fibre integrator: the neutral axis is found on the mesh; the properties '
    'are compared with those for the reported neutral axis and the axis with '
    'the exact one within the quadrature error of the mesh',
]


def angle():
    return st.one_of(st.sampled_from([0.0, 0, math.pi / 2, math.pi,
                                      -math.pi / 2, 2 * math.pi]),
                     L.fl(-2 * math.pi, 2 * math.pi).map(
                         lambda v: round(v, 4)))


@st.composite
def strategy(draw, integ='marin', mesh=(None,)):
    if integ == 'fiber' or draw(st.integers(0, 2)):
        s = draw(st.one_of(S.rc(), S.rc(), S.rc2()))
    else:
        s = draw(G.any_section(max_surf=2, max_bars=4, law=st.one_of(
            S.concrete_law(), S.concrete_law(), S.steel_law())))
        for q in s['surfs']:
            q['concrete'] = True
    return {'sec': s, 'integ': integ, 'mesh': draw(st.sampled_from(mesh)),
            'theta': draw(angle()), 'ret': draw(st.booleans()),
            'kw': draw(st.booleans())}


def clip(spec, theta, h):
    """The specification with the part of the surfaces above the line at h
    across the direction theta only."""
    from shapely import Polygon
    from shapely.geometry.polygon import orient

    g = S.axis(theta)
    t = (math.cos(theta), math.sin(theta))
    r, d = G.size(spec)
    B = 10 * (r + abs(h))

    def at(u, v):
        return (u * t[0] + v * g[0], u * t[1] + v * g[1])

    half = Polygon([at(-B, h), at(B, h), at(B, h + B), at(-B, h + B)])
    surfs = []
    for s in spec['surfs']:
        p = G.polygon(s).intersection(half)
        for q in getattr(p, 'geoms', [p]):
            if q.geom_type != 'Polygon' or q.area <= 0:
                continue
            q = orient(q)
            surfs.append(dict(
                s, outer=[list(c) for c in q.exterior.coords[:-1]],
                holes=[[list(c) for c in i.coords[:-1]]
                       for i in q.interiors]))
    return dict(spec, surfs=surfs)


def unbalance(spec, E, theta, h):
    """First moment about the line at h of the compressed concrete and the
    bars, E-weighted, and its slope."""
    g = S.axis(theta)
    tot = slope = 0.0
    for s in spec['surfs']:
        # elastic without tension: stress = E*min(0, h - v)
        o, _, _ = G.scan(s, (h, -math.cos(theta), -math.sin(theta)),
                         lambda e: min(e, 0.0), [0.0])
        tot -= E[s['mat']] * o[0]
        o, _, _ = G.scan(s, (h, -math.cos(theta), -math.sin(theta)),
                         lambda e: 1.0 if e < 0 else 0.0, [0.0])
        slope += E[s['mat']] * o[0]
    for b in spec['bars']:
        v = b['p'][0] * g[0] + b['p'][1] * g[1]
        tot += E[b['mat']] * G.bar_area(b) * (v - h)
        slope += E[b['mat']] * G.bar_area(b)
    return tot, slope


def neutral_axis(spec, E, theta):
    v = [x for _, a, b, _ in S.profile(spec, theta) for x in (a, b)]
    lo, hi = min(v), max(v)
    for _ in range(80):
        m = 0.5 * (lo + hi)
        if not lo < m < hi:
            break
        if unbalance(spec, E, theta, m)[0] > 0:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def exact_axis(spec, E, theta):
    h = neutral_axis(spec, E, theta)
    r, d = G.size(spec)
    # unbalance of 0.01 force units at a curvature of 1e-5 is accepted
    dh = 1.01e3 / min(unbalance(spec, E, theta, h + x)[1]
                      for x in (-0.01 * d, 0.0, 0.01 * d))
    if dh > 1e-3 * d:
        raise Reject
    if (sum(G.area_moments(s)[0] for s in clip(spec, theta, h)['surfs'])
            < 1e-3 * d * d):
        # all bars at the compressed edge
        raise Reject
    return h, dh


def run(case, rec):
    from structuralcodes.geometry import CompoundGeometry
    from structuralcodes.sections import (
        GenericSection,
        calculate_elastic_cracked_properties,
    )

    spec, theta = case['sec'], case['theta']
    if not spec['bars'] and spec['surfs'][0]['concrete']:
        # nothing is left of plain concrete in bending
        raise Reject
    E = [float(L.build(m['law']).get_tangent(eps=0)) for m in spec['mats']]
    used = {q['mat'] for q in spec['surfs'] + spec['bars']}
    if not all(0 < E[i] < 1e12 for i in used):
        raise Reject
    E = [e if i in used else 0.0 for i, e in enumerate(E)]
    sec = G.section(spec, case['integ'], case['mesh'])
    args = (sec,) if case['kw'] else (sec, theta, case['ret'])
    kw = {'theta': theta, 'return_cracked_section': case['ret']} \
        if case['kw'] else {}
    if S.is_rc(spec):
        h, dh = exact_axis(spec, E, theta)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = calculate_elastic_cracked_properties(*args, **kw)
    if not S.is_rc(spec):
        require(res is None, f'{res!r} for a section that is not concrete')
        rec.label('not concrete')
        return
    if case['ret']:
        require(isinstance(res, tuple) and len(res) == 2,
                f'returned {res!r}')
        gp, geo = res
    else:
        gp, geo = res, None
    g = S.axis(theta)
    r, d = G.size(spec)
    # the neutral axis goes through the E-weighted centroid
    cp = float(gp.cy) * g[0] + float(gp.cz) * g[1]
    if case['integ'] == 'marin':
        req_close(cp, h, 'neutral axis', 0, 1e-6 * d + 1e-12 * r + 2 * dh)
    else:
        m = case['mesh'] if case['mesh'] is not None else 0.01
        un = 0.0
        v = [x for _, a, b, _ in S.profile(spec, theta) for x in (a, b)]
        for s in spec['surfs']:
            A = abs(G.area_moments(s)[0])
            e = math.sqrt(4 * m * A / math.tan(math.pi / 6))
            w = A / max(1e-9, max(v) - min(v)) * 2 + e
            un += E[s['mat']] * min(w * 2 * e, A) * e / 2
        sl = min(unbalance(spec, E, theta, h + x)[1]
                 for x in (-0.05 * d, 0.0, 0.05 * d))
        req_close(cp, h, 'neutral axis', 0, un / sl + 1e-6 * d)
        rec.label(f'mesh{un / sl / d:.2f}')
        # the section is cut at the axis found on the mesh: recover it from
        # the reported area
        h = cut_height(spec, theta, float(gp.area))
    cr = clip(spec, theta, h)
    if len(cr['surfs']) == 0:
        raise Reject
    compare(gp, cr, E, d, r, dh, case['integ'] == 'marin')
    if geo is not None:
        require(isinstance(geo, CompoundGeometry), f'returned {type(geo)}')
        c2 = clip(spec, theta, h)
        tot = 0.0
        for part in geo.geometries:
            tot += part.polygon.area
            for p in part.polygon.exterior.coords:
                z = p[0] * g[0] + p[1] * g[1]
                require(z >= h - 2e-6 * d - 1e-9 * r - 2 * dh, f'{p} of the cracked '
                        f'section is {h - z} below the neutral axis')
        req_close(tot, sum(G.area_moments(s)[0] for s in c2['surfs']),
                  'area of the cracked section', 1e-5, 3 * dh * d)
        require(len(geo.point_geometries) == len(spec['bars']),
                'bars of the cracked section')
        for pg, b in zip(geo.point_geometries, spec['bars']):
            req_close(pg.x, b['p'][0], 'bar x', 0, 1e-9 * r)
            req_close(pg.y, b['p'][1], 'bar y', 0, 1e-9 * r)
            req_close(pg.area, G.bar_area(b), 'bar area', 1e-12)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g2 = GenericSection(geo, integrator='marin').gross_properties
        compare(g2, cr, E, d, r, dh, True)
    # the section itself is left as it was
    t = G.section(spec, case['integ'], case['mesh'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(sec.gross_properties.isclose(t.gross_properties,
                                             rtol=1e-12),
                'the section has changed')
    rec.label(case['integ'], spec['kind'] if 'kind' in spec else 'any',
              'theta0' if theta == 0 else 'theta',
              f'parts{min(len(cr["surfs"]), 4)}')
    rec.nt(theta != 0 or spec['surfs'][0].get('kind') != 'rect')


def cut_height(spec, theta, area):
    v = [x for _, a, b, _ in S.profile(spec, theta) for x in (a, b)]
    lo, hi = min(v), max(v)
    for _ in range(60):
        m = 0.5 * (lo + hi)
        if sum(G.area_moments(s)[0]
               for s in clip(spec, theta, m)['surfs']) > area:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def compare(gp, cr, E, d, r, dh, exact):
    import shapely

    rel = 3e-6 * (1 + (r / d) * 1e-2)
    u1 = moments(cr, [1.0] * len(E))
    ue = moments(cr, E)
    a_s = sum(G.area_moments(s)[0] for s in cr['surfs'])
    a_b = sum(G.bar_area(b) for b in cr['bars'])
    tot = d * (d * 1e-6 + 3 * dh)
    req_close(gp.area, a_s, 'area', rel, tot)
    req_close(gp.area_reinforcement, a_b, 'area of bars', 1e-9)
    mass = 1e-9 * (
        sum(G.area_moments(s)[0] * cr['mats'][s['mat']]['density']
            for s in cr['surfs'])
        + sum(G.bar_area(b) * cr['mats'][b['mat']]['density']
              for b in cr['bars']))
    req_close(gp.mass, mass, 'mass', rel,
              1e-9 * tot * max(m['density'] for m in cr['mats']))
    em = max(E)
    req_close(gp.ea, ue[0], 'EA', rel, em * tot)
    un = shapely.unary_union([G.polygon(s) for s in cr['surfs']])
    if un.geom_type == 'Polygon' and len(cr['surfs']) == 1:
        req_close(gp.perimeter, un.exterior.length, 'perimeter', 1e-5,
                  1e-4 * d + 1e3 * dh)
    c = (ue[1] / ue[0], ue[2] / ue[0])
    tc = 1e-5 * d + 1e-11 * r + 3 * dh
    req_close(gp.cy, c[0], 'cy', 0, tc)
    req_close(gp.cz, c[1], 'cz', 0, tc)
    for pre, m in (('', u1), ('e_', ue)):
        w = 1.0 if pre == '' else em
        req_close(getattr(gp, pre + 'sy'), m[2], pre + 'sy', 1e-5,
                  w * tot * r)
        req_close(getattr(gp, pre + 'sz'), m[1], pre + 'sz', 1e-5,
                  w * tot * r)
        if not exact:
            continue
        t2 = w * tot * r * r
        req_close(getattr(gp, pre + 'iyy'), m[5], pre + 'iyy', 1e-5, t2)
        req_close(getattr(gp, pre + 'izz'), m[3], pre + 'izz', 1e-5, t2)
        req_close(getattr(gp, pre + 'iyz'), m[4], pre + 'iyz', 1e-5, t2)
    if not exact:
        return
    loc = G.moved(cr, dx=-c[0], dy=-c[1])
    for pre, wt in (('', [1.0] * len(E)), ('e_', E)):
        m = moments(loc, wt)
        iyy, izz, iyz = centroidal(m, (0.0, 0.0))
        w = 1.0 if pre == '' else em
        t2 = (w * tot + 1e-5 * m[0]) * d * d + 1e-12 * m[0] * r * r
        req_close(getattr(gp, pre + 'iyy_c'), iyy, pre + 'iyy_c', 1e-5, t2)
        req_close(getattr(gp, pre + 'izz_c'), izz, pre + 'izz_c', 1e-5, t2)
        req_close(getattr(gp, pre + 'iyz_c'), iyz, pre + 'iyz_c', 1e-5, t2)
        q = math.hypot((iyy - izz) / 2, iyz)
        req_close(getattr(gp, pre + 'i11'), (iyy + izz) / 2 + q,
                  pre + 'i11', 1e-5, 2 * t2)
        req_close(getattr(gp, pre + 'i22'), (iyy + izz) / 2 - q,
                  pre + 'i22', 1e-5, 2 * t2)


@st.composite
def plain(draw):
    """Sections that are not reinforced concrete."""
    s = draw(st.one_of(S.steel(), S.rc()))
    if s['kind'] == 'rc' and draw(st.booleans()):
        s['bars'] = []
    elif s['kind'] == 'rc':
        for q in s['surfs']:
            q['concrete'] = False
    return {'sec': s, 'integ': draw(st.sampled_from(['marin', 'fiber'])),
            'mesh': None, 'theta': draw(angle()),
            'ret': draw(st.booleans()), 'kw': draw(st.booleans())}


SUBS = [
    Sub('marin', lambda: strategy(), run, 900, 20000, 'see rule', shards=6),
    Sub('fiber', lambda: strategy('fiber', (None, 0.005, 0.03)), run, 150,
        4000, 'see rule', shards=4),
    Sub('plain', plain, run, 60, 1000, 'never'),
]
