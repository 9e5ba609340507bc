"""N03: the fibre integrator partitions the section."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from ..core import Reject, Sub, must_raise, req_close, require

RULE = ('random sections (1-3 surfaces, convex or not, with possibly '
        'non-convex holes, 0-5 bars), mesh sizes 0.002-1, coordinates scaled '
        'by 1e-3 to 1e3, strain planes; oracle: net areas and first moments '
        'by scan-line quadrature, point-in-polygon of every fibre, sums over '
        'fibres of independently built laws; non-trivial: hole, non-convex '
        'outline or several materials, or a scaled geometry')
ASSUMPTIONS = ['the second returned value of '
               'integrate_strain_response_on_geometry is the documented list '
               'of (x, y, area, law) blocks']


@st.composite
def strategy(draw):
    s = draw(G.any_section(law=G.sect_law(1), lo=100))
    sc = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 0.1, 1e3]))
    s = G.moved(s, scale=sc)
    return {'sec': s, 'plane': draw(G.plane_for(s)),
            'mesh': draw(st.sampled_from(
                [0.002, 0.005, 0.01, 0.01, 0.03, 0.1, 0.5, 1.0]))}


RIGHT = ('rect', 'T', 'L', 'I', 'U', 'comb')


def run(case, rec):
    from shapely import Point, prepare

    spec, plane, mesh = case['sec'], case['plane'], case['mesh']
    if G.far(spec, plane):
        raise Reject
    sec = G.section(spec, 'fiber', mesh)
    calc = sec.section_calculator
    geo = sec.geometry
    res, blocks = None, None
    out = calc.integrator.integrate_strain_response_on_geometry(
        geo, list(plane), mesh_size=mesh)
    blocks = out[-1]
    got = [float(v) for v in out[:3]]
    ns = len(spec['surfs'])
    require(len(blocks) >= ns, f'{len(blocks)} blocks for {ns} surfaces')
    r, d = G.size(spec)
    nf = 0
    for i, s in enumerate(spec['surfs']):
        x, y, a, law = (np.atleast_1d(v) if k < 3 else v
                        for k, v in enumerate(blocks[i]))
        require(len(x) == len(y) == len(a) and len(a) > 0,
                f'surface {i}: {len(x)}/{len(y)}/{len(a)} fibre data')
        nf += len(a)
        m = G.area_moments(s)
        req_close(a.sum(), m[0], f'surface {i}: total fibre area',
                  1e-9 * (1 + (r / d) ** 2))
        require((a > 0).all(), f'surface {i}: a fibre without area')
        # limit with some room for round-off in the mesher
        require(a.max() <= mesh * m[0] * (1 + 1e-6),
                f'surface {i}: fibre of area {a.max()}, limit '
                f'{mesh * m[0]} (mesh_size {mesh})')
        tol = 1e-9 * m[0] * r * (1 + (r / d))
        req_close((a * x).sum(), m[1], f'surface {i}: first moment in x',
                  1e-9, tol)
        req_close((a * y).sum(), m[2], f'surface {i}: first moment in y',
                  1e-9, tol)
        p = G.polygon(s)
        prepare(p)
        for px, py in zip(x, y):
            if not p.contains(Point(px, py)):
                require(p.distance(Point(px, py)) <= 1e-9 * (r + d),
                        f'surface {i}: fibre at {(px, py)} outside the '
                        'material')
    # bars: one fibre each
    bars = sorted((b['p'][0], b['p'][1], G.bar_area(b), repr(
        spec['mats'][b['mat']]['law'])) for b in spec['bars'])
    fb = [(float(px), float(py), float(pa)) for blk in blocks[ns:]
          for px, py, pa in zip(*(np.atleast_1d(v) for v in blk[:3]))]
    require(len(fb) == len(bars), f'{len(fb)} bar fibres, {len(bars)} bars')
    for b, f in zip(bars, sorted(fb)):
        # same position and area (ordering ties only differ in the area)
        req_close(f[0], b[0], 'bar fibre x', 1e-12)
        req_close(f[1], b[1], 'bar fibre y', 1e-12)
        req_close(f[2], b[2], 'bar fibre area', 1e-9)
    # resultants are the sums over fibres
    N = My = Mz = F = 0.0
    for i, s in enumerate(spec['surfs']):
        law = L.build(spec['mats'][s['mat']]['law'])
        x, y, a = blocks[i][:3]
        f = a * law.get_stress(plane[0] - plane[2] * x + plane[1] * y)
        N, My, Mz = N + f.sum(), My + (f * y).sum(), Mz - (f * x).sum()
        F += np.abs(f).sum()
    for b in spec['bars']:
        law = L.build(spec['mats'][b['mat']]['law'])
        f = float(law.get_stress(G.strain_at(plane, b['p']))) * G.bar_area(b)
        N, My, Mz = N + f, My + f * b['p'][1], Mz - f * b['p'][0]
        F += abs(f)
    loose = any(L.near(L.snap_points(spec['mats'][b['mat']]['law']),
                       G.strain_at(plane, b['p'])) for b in spec['bars'])
    if not loose:
        for g, w, name, t in zip(got, (N, My, Mz), ('N', 'My', 'Mz'),
                                 (1, r, r)):
            req_close(g, w, f'{name} against the sum over fibres', 1e-9,
                      1e-9 * F * t + 1e-12)
    # the section calculator uses the mesh size of the section
    again = calc.integrate_strain_profile(list(plane))
    for g, w in zip(again, got):
        req_close(g, w, 'section calculator against the integrator', 1e-9,
                  1e-9 * F * r)
    # linear materials: exact axial force, moments within the mesh error
    if all(spec['mats'][q['mat']]['law']['t'] == 'elastic'
           for q in spec['surfs'] + spec['bars']):
        ref = G.resultants(spec, plane)
        G_ = G.force_scale(spec, plane)
        req_close(got[0], ref[0], 'N of a linear section', 1e-8,
                  1e-8 * G_ * (1 + (r / d) ** 2))
        if all(q.get('kind') in RIGHT for q in spec['surfs']):
            k = math.hypot(plane[1], plane[2])
            e = 1e-8 * G_ * r * (1 + (r / d) ** 2)
            for i, q in enumerate(spec['surfs']):
                E = spec['mats'][q['mat']]['law']['E']
                a = blocks[i][2]
                # second moment of a triangle about its centroid is at most
                # a*(longest edge)^2/18, longest edge^2 <= 7 a (30 degrees)
                e += E * k * float((a * a * 7 / 18).sum())
            for j in (1, 2):
                require(abs(got[j] - ref[j]) <= e,
                        f'moment {j} of a linear section: {got[j]}, exact '
                        f'{ref[j]}, mesh error bound {e}')
            rec.label('linear-moments')
        rec.label('linear')
    rec.label('fibres<=100' if nf <= 100 else 'fibres>100',
              *{f'kind:{q.get("kind")}' for q in spec['surfs']})
    if any(q['holes'] for q in spec['surfs']):
        rec.label('holes')
    if d < 5 or d > 5000:
        rec.label('scaled')
    rec.nt(any(q['holes'] or q.get('kind') not in ('rect', 'tri', 'ngon')
               for q in spec['surfs']) or len(spec['mats']) > 1
           or d < 5 or d > 5000)


@st.composite
def bad(draw):
    s = draw(G.any_section(law=L.elastic(), max_surf=1, max_bars=1))
    return {'sec': s, 'mesh': draw(st.one_of(
        st.sampled_from([0, 0.0, -0.01, 1.0001, 2, -1]),
        L.fl(-5, 0), L.fl(1.0001, 50)))}


def run_bad(case, rec):
    def go():
        sec = G.section(case['sec'], 'fiber', case['mesh'])
        return sec.section_calculator.integrate_strain_profile([1e-4, 0, 0])

    must_raise(ValueError, go, f'mesh_size {case["mesh"]}')
    rec.nt()
    rec.label('mesh<=0' if case['mesh'] <= 0 else 'mesh>1')


@st.composite
def linear(draw):
    s = draw(G.any_section(law=L.elastic(False), lo=100))
    return {'sec': s, 'plane': draw(G.plane_for(s)),
            'mesh': draw(st.sampled_from([0.002, 0.01, 0.1, 1.0]))}


SUBS = [
    Sub('fibres', strategy, run, 1000, 20000,
        'a section, mesh size and strain plane', shards=7),
    Sub('linear', linear, run, 400, 10000, 'elastic materials only', shards=4),
    Sub('mesh_size', bad, run_bad, 60, 600, 'inadmissible mesh sizes'),
]
