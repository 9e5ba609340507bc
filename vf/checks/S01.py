"""S01: gross section properties are the exact integrals."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from ..core import Reject, Sub, req_close, require
from .N02 import rounding

RULE = ('random sections (1-3 surfaces with holes, 0-5 bars, 1-3 materials, '
        'anywhere in the plane), both integrators, stock materials and any '
        'law; oracle: independent scan-line integrals, E = tangent of an '
        'independently built law at zero strain; non-trivial: several parts, '
        'holes, or an unsymmetric shape')
ASSUMPTIONS = [
    'E-weighted quantities need positive moduli at zero strain',
    'fibre integrator: second moments within the quadrature error of the '
    'requested mesh',
]
RIGHT = ('rect', 'T', 'L', 'I', 'U', 'comb')


@st.composite
def strategy(draw, **kw):
    s = draw(G.any_section(law=G.sect_law(1), **kw))
    return {'sec': s, 'integ': 'marin', 'mesh': None}


@st.composite
def fiber(draw):
    s = draw(G.any_section(law=L.elastic(), lo=100))
    return {'sec': s, 'integ': 'fiber',
            'mesh': draw(st.sampled_from([None, 0.002, 0.01, 0.03, 0.2]))}


@st.composite
def units(draw):
    c = draw(strategy())
    c['sec'] = G.moved(c['sec'], scale=draw(st.sampled_from(
        [1e-3, 0.01, 0.1, 10.0])))
    return c


def outer_length(ring):
    a = np.asarray(ring, dtype=float)
    return float(np.hypot(*(a - np.roll(a, -1, axis=0)).T).sum())


def centroidal(m, c):
    """iyy, izz, iyz about c from (A, Sx, Sy, Ixx, Ixy, Iyy)."""
    A, Sx, Sy, Ixx, Ixy, Iyy = m
    y, z = c
    return (Iyy - 2 * z * Sy + A * z * z, Ixx - 2 * y * Sx + A * y * y,
            Ixy - y * Sy - z * Sx + A * y * z)


def shifted(spec, c):
    return G.moved(spec, dx=-c[0], dy=-c[1])


def moments(spec, weights):
    """Sums of (A, Sx, Sy, Ixx, Ixy, Iyy) with a weight per material."""
    tot = np.zeros(6)
    for s in spec['surfs']:
        tot += weights[s['mat']] * np.asarray(G.area_moments(s))
    for b in spec['bars']:
        x, y = b['p']
        tot += weights[b['mat']] * G.bar_area(b) * np.array(
            [1, x, y, x * x, x * y, y * y])
    return tot


def run(case, rec):
    import shapely

    spec, integ, mesh = case['sec'], case['integ'], case['mesh']
    E = [float(L.build(m['law']).get_tangent(eps=0)) for m in spec['mats']]
    used = {q['mat'] for q in spec['surfs'] + spec['bars']}
    if not all(0 < E[i] < 1e12 for i in used):
        raise Reject
    E = [e if i in used else 0.0 for i, e in enumerate(E)]
    sec = G.section(spec, integ, mesh)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        gp = sec.gross_properties
    r, d = G.size(spec)
    rel = rounding(spec, (0.0, 1e-3 / r, 0.0))
    ex = 1e-9

    # areas, mass
    a_surf = sum(G.area_moments(s)[0] for s in spec['surfs'])
    a_bars = sum(G.bar_area(b) for b in spec['bars'])
    req_close(gp.area, a_surf, 'area', ex * (1 + (r / d) ** 2 * 1e-3))
    req_close(gp.area_reinforcement, a_bars, 'reinforcement area', ex)
    arel = ex * (1 + (r / d) ** 2 * 1e-3)
    mass = 1e-9 * (sum(G.area_moments(s)[0]
                       * spec['mats'][s['mat']]['density']
                       for s in spec['surfs'])
                   + sum(G.bar_area(b) * spec['mats'][b['mat']]['density']
                         for b in spec['bars']))
    req_close(gp.mass, mass, 'mass', arel)
    u1 = moments(spec, [1.0] * len(E))
    ue = moments(spec, E)
    req_close(gp.ea, ue[0], 'EA', arel)

    # perimeter
    polys = [G.polygon(s) for s in spec['surfs']]
    un = shapely.unary_union(polys)
    if len(polys) == 1:
        req_close(gp.perimeter, outer_length(spec['surfs'][0]['outer']),
                  'perimeter', ex)
    elif un.geom_type == 'Polygon':
        req_close(gp.perimeter, un.exterior.length, 'perimeter', 1e-6)
    else:
        require(gp.perimeter == 0, f'perimeter {gp.perimeter} of separate '
                'surfaces')
        require(any('multi polygon' in str(x.message) for x in w),
                'no warning about the perimeter of separate surfaces')
    rec.label(un.geom_type, integ, f'surfs{len(polys)}')

    # mesh error of second moments (fibres)
    fib = integ == 'fiber'
    merr = [0.0, 0.0]
    bounded = True
    if fib:
        ms = mesh if mesh is not None else 0.01
        for s in spec['surfs']:
            A = G.area_moments(s)[0]
            # see N03: at most a*7*a/18 per triangle of area a
            e = A * A * ms * 7 / 18
            merr[0] += e
            merr[1] += e * E[s['mat']]
            bounded = (bounded and s.get('kind') in RIGHT
                       and not s['holes'])

    def second(got, exp, tol, e, what):
        """exp - e <= got <= exp for the axial moments."""
        if not fib:
            req_close(got, exp, what, 0, tol)
            return
        require(got <= exp + tol, f'{what}: {got} above the exact {exp}')
        if bounded:
            require(got >= exp - e - tol, f'{what}: {got}, exact {exp}, '
                    f'mesh error at most {e}')

    # moments about the origin and the centroid
    for pre, m, k in (('', u1, 0), ('e_', ue, 1)):
        t1 = rel * m[0] * r
        t2 = rel * m[0] * r * r
        req_close(getattr(gp, pre + 'sy'), m[2], pre + 'sy', 0, t1)
        req_close(getattr(gp, pre + 'sz'), m[1], pre + 'sz', 0, t1)
        second(getattr(gp, pre + 'iyy'), m[5], t2, merr[k], pre + 'iyy')
        second(getattr(gp, pre + 'izz'), m[3], t2, merr[k], pre + 'izz')
        if not fib or bounded:
            req_close(getattr(gp, pre + 'iyz'), m[4], pre + 'iyz', 0,
                      t2 + merr[k])
    c = (ue[1] / ue[0], ue[2] / ue[0])
    tc = rel * r * 4
    req_close(gp.cy, c[0], 'cy', 0, tc)
    req_close(gp.cz, c[1], 'cz', 0, tc)
    loc = shifted(spec, c)
    for pre, k, wt in (('', 0, [1.0] * len(E)), ('e_', 1, E)):
        m = moments(loc, wt)
        iyy, izz, iyz = centroidal(m, (0.0, 0.0))
        rr = max(G.size(loc)[0], 1e-300)
        tol = m[0] * (1e-9 * rr * rr + 4 * rr * tc + tc * tc)
        second(getattr(gp, pre + 'iyy_c'), iyy, tol, merr[k], pre + 'iyy_c')
        second(getattr(gp, pre + 'izz_c'), izz, tol, merr[k], pre + 'izz_c')
        if not fib or bounded:
            req_close(getattr(gp, pre + 'iyz_c'), iyz, pre + 'iyz_c', 0,
                      tol + merr[k])
        # principal values, from the reported tensor and from the exact one
        principal(gp, pre, tol)
        h = (iyy + izz) / 2
        q = math.hypot((iyy - izz) / 2, iyz)
        if not fib or bounded:
            e = tol + 2 * merr[k]
            req_close(getattr(gp, pre + 'i11'), h + q, pre + 'i11', 0, e)
            req_close(getattr(gp, pre + 'i22'), h - q, pre + 'i22', 0, e)
            th = getattr(gp, pre + 'theta')
            cth, sth = math.cos(th), math.sin(th)
            req_close(iyy * cth ** 2 + izz * sth ** 2 - 2 * iyz * sth * cth,
                      h + q, f'second moment about the axis at {pre}theta',
                      0, 4 * e + 1e-7 * h)
    rec.nt(len(polys) > 1 or bool(spec['bars'])
           or any(s['holes'] or s.get('kind') != 'rect'
                  for s in spec['surfs']))
    if any(s['holes'] for s in spec['surfs']):
        rec.label('holes')
    require(sec.gross_properties is gp or
            sec.gross_properties.isclose(gp, rtol=1e-12),
            'the properties change when read again')


def principal(gp, pre, tol):
    a, b, c = (float(getattr(gp, pre + k)) for k in
               ('iyy_c', 'izz_c', 'iyz_c'))
    h = (a + b) / 2
    q = math.hypot((a - b) / 2, c)
    i1, i2 = getattr(gp, pre + 'i11'), getattr(gp, pre + 'i22')
    require(i1 >= i2, f'{pre}i11 = {i1} < {pre}i22 = {i2}')
    req_close(i1, h + q, pre + 'i11 of the reported tensor', 1e-10)
    req_close(i2, h - q, pre + 'i22 of the reported tensor', 0, 1e-10 * h)
    th = float(getattr(gp, pre + 'theta'))
    cth, sth = math.cos(th), math.sin(th)
    req_close(a * cth ** 2 + b * sth ** 2 - 2 * c * sth * cth, h + q,
              f'reported second moment about {pre}theta', 0, 1e-7 * h)
    # a principal axis has no product moment
    req_close((a - b) / 2 * math.sin(2 * th) + c * math.cos(2 * th), 0.0,
              f'product moment about {pre}theta', 0, 1e-7 * h)


# ------------------------------------------------------------- the dataclass
@st.composite
def pairs(draw):
    return {'sec': draw(G.any_section(law=L.elastic(), max_surf=1)),
            'field': draw(st.integers(0, 27)),
            'k': draw(st.sampled_from([0.0, 1e-7, 1e-3, 0.1])),
            'rtol': draw(st.sampled_from([None, 1e-9, 1e-5, 1e-2])),
            'fmt': draw(st.sampled_from(['.3f', '.2e', '.6g', '']))}


def run_pairs(case, rec):
    import copy
    from dataclasses import fields

    gp = G.section(case['sec']).gross_properties
    other = copy.copy(gp)
    names = [f.name for f in fields(gp)]
    name = names[case['field'] % len(names)]
    v = float(getattr(gp, name))
    setattr(other, name, v * (1 + case['k']))
    rtol = case['rtol'] if case['rtol'] is not None else 1e-5
    kw = {} if case['rtol'] is None else {'rtol': case['rtol']}
    dv = abs(v * case['k'])
    if not 0.9 * (1e-8 + rtol * abs(v)) <= dv <= 1.2 * (1e-8 + rtol * abs(v)):
        exp = dv <= 1e-8 + rtol * abs(v)
        require(bool(gp.isclose(other, **kw)) == exp,
                f'isclose with {name} = {v} changed by {case["k"]}: '
                f'not {exp}')
        rec.nt(v != 0)
    require(bool(gp.isclose(gp, rtol=0, atol=0)), 'not close to itself')
    txt = format(gp, case['fmt'])
    for f in fields(gp):
        val = format(getattr(gp, f.name), case['fmt'])
        require(f'{f.metadata["description"]}: {val}\n' in txt,
                f'{f.name} = {val} missing in the text')
    require(str(gp) == format(gp, ''), 'str differs from format')


SUBS = [
    Sub('marin', lambda: strategy(), run, 1600, 30000, 'see rule', shards=6),
    Sub('fiber', fiber, run, 600, 8000, 'see rule', shards=4),
    Sub('units', units, run, 400, 8000, 'see rule', shards=2),
    Sub('compare', pairs, run_pairs, 200, 2000, 'the changed field is not 0'),
]
