"""Sections with unambiguous ultimate limits, for the section checks.

Kinds: 'rc' reinforced concrete; 'rc2' two concretes with the same ultimate
strain; 'src' concrete with an embedded steel shape that shares the ultimate
strain of the bars; 'cap' concrete with steel plates outside it; 'steel' one
steel law; 'mixed' anything.
"""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom as G
from . import laws as L
from .core import require


def _fl(lo, hi, nd=3):
    return L.fl(lo, hi).map(lambda v: round(v, nd))


@st.composite
def concrete_law(draw, kinds=('pr', 'pr', 'bl', 'sargin', 'pop'), eps_cu=None):
    k = draw(st.sampled_from(kinds))
    fc = float(draw(st.integers(12, 90)))
    cu = eps_cu if eps_cu is not None else draw(
        st.sampled_from([0.0035, 0.0035, 0.003, 0.0026, 0.005]))
    e0 = draw(st.sampled_from([0.002, 0.00175, 0.0022]))
    if k == 'pr':
        return {'t': 'pr', 'fc': fc, 'eps_0': e0, 'eps_u': cu,
                'n': draw(st.sampled_from([2.0, 2, 1.5, 1.75]))}
    if k == 'bl':
        return {'t': 'bl', 'fc': fc, 'eps_c': e0, 'eps_cu': cu}
    if k == 'sargin' and cu <= 0.0035:
        # compressive stress up to the ultimate strain: cu < k*eps_c1
        return {'t': 'sargin', 'fc': fc, 'eps_c1': 0.0022, 'eps_cu1': cu,
                'k': draw(st.sampled_from([2.0, 2.04, 2.5, 1.8]))}
    if k == 'sargin':
        e0 = 0.0022
    return {'t': 'pop', 'fc': fc, 'eps_c': e0, 'eps_cu': cu,
            'Ec': float(round(fc / e0 * draw(_fl(1.3, 2.5))))}


@st.composite
def steel_law(draw, su=None):
    E = draw(st.sampled_from([200000.0, 195000.0, 210000.0]))
    fy = float(draw(st.integers(200, 700)))
    Eh = draw(st.sampled_from([0.0, 0.0, 500.0, 1000.0]))
    return {'t': 'ep', 'E': E, 'fy': fy, 'Eh': Eh,
            'eps_su': su if su is not None else draw(
                st.sampled_from([0.01, 0.0675, 0.025, 0.05]))}


def place(draw, far=1500):
    ang = draw(st.one_of(
        st.sampled_from([0.0, 0.0, 0.0, math.pi / 2, math.pi]),
        L.fl(-math.pi, math.pi).map(lambda v: round(v, 4))))
    if draw(st.integers(0, 2)) == 0:
        return (ang, float(draw(st.integers(-far, far))),
                float(draw(st.integers(-far, far))))
    return ang, 0.0, 0.0


def inside_bars(draw, ring, holes, n, diams):
    """n bars inside the polygon with a cover."""
    from shapely import Polygon

    p = Polygon(ring, holes)
    cov = min(draw(st.sampled_from([30.0, 45.0, 60.0])),
              0.12 * math.sqrt(p.area))
    q = p.buffer(-cov)
    while q.is_empty and cov > 1:
        cov /= 2
        q = p.buffer(-cov)
    part = max(getattr(q, 'geoms', [q]), key=lambda g: g.area)
    line = part.exterior
    bars = []
    for i in range(n):
        f = (i + draw(st.integers(0, 9)) / 10) / n
        pt = line.interpolate(f, normalized=True)
        bars.append({'p': [round(pt.x, 3), round(pt.y, 3)],
                     'd': float(draw(st.sampled_from(diams)))})
    return bars


@st.composite
def rc(draw, lo=200, hi=1200, laws=('pr', 'pr', 'bl', 'sargin', 'pop'),
       prestress=True, holes=True, far=1500):
    s = draw(G.surf_spec(0, place(draw, far), lo, hi, holes, True))
    cl = draw(concrete_law(laws))
    sl = draw(steel_law())
    if prestress and draw(st.integers(0, 7)) == 0:
        sl = {'t': 'ini', 'law': dict(sl, fy=1500.0, eps_su=0.035),
              'e0': draw(st.sampled_from([0.004, 0.006])), 'compat': True}
    n = draw(st.integers(1, 10))
    if draw(st.integers(0, 15)) == 11:
        n = draw(st.integers(11, 36))
    bars = inside_bars(draw, s['outer'], s['holes'], n,
                       [10, 12, 16, 20, 25, 32])
    for b in bars:
        b['mat'] = 1
    return {'kind': 'rc', 'surfs': [s], 'bars': bars, 'mats': [
        {'law': cl, 'density': 2500.0}, {'law': sl, 'density': 7850.0}]}


@st.composite
def rc2(draw, far=1500):
    """A web and a flange on top of it, of different concretes."""
    b = float(draw(st.integers(200, 600)))
    h = float(draw(st.integers(200, 800)))
    w = float(draw(st.integers(0, 800)))
    t = float(draw(st.integers(80, 250)))
    pl = place(draw, far)
    web = [(-b / 2, 0), (b / 2, 0), (b / 2, h), (-b / 2, h)]
    top = [(-b / 2 - w, h), (b / 2 + w, h), (b / 2 + w, h + t),
           (-b / 2 - w, h + t)]
    web, top = G._place([web, top], pl)
    cu = draw(st.sampled_from([0.0035, 0.003]))
    sl = draw(steel_law())
    bars = inside_bars(draw, web, [], draw(st.integers(1, 6)),
                       [12, 16, 20, 25])
    bars += inside_bars(draw, top, [], draw(st.integers(0, 4)), [12, 16])
    for q in bars:
        q['mat'] = 2
    return {'kind': 'rc2', 'surfs': [
        {'outer': web, 'holes': [], 'mat': 0, 'concrete': True},
        {'outer': top, 'holes': [], 'mat': 1, 'concrete': True}],
        'bars': bars, 'mats': [
            {'law': draw(concrete_law(eps_cu=cu)), 'density': 2500.0},
            {'law': draw(concrete_law(eps_cu=cu)), 'density': 2500.0},
            {'law': sl, 'density': 7850.0}]}


@st.composite
def src(draw, far=1500):
    """Concrete around (minus) a steel box or I shape, and bars."""
    b = float(draw(st.integers(300, 900)))
    h = float(draw(st.integers(300, 900)))
    kb = b * draw(st.integers(25, 55)) / 100
    kh = h * draw(st.integers(25, 55)) / 100
    tw, tf = kb * 0.15, kh * 0.12
    pl = place(draw, far)
    x, z = kb / 2, kh / 2
    if draw(st.booleans()):
        sh = [(-x, -z), (x, -z), (x, z), (-x, z)]
    else:
        sh = [(-x, -z), (x, -z), (x, -z + tf), (tw / 2, -z + tf),
              (tw / 2, z - tf), (x, z - tf), (x, z), (-x, z), (-x, z - tf),
              (-tw / 2, z - tf), (-tw / 2, -z + tf), (-x, -z + tf)]
    out = [(-b / 2, -h / 2), (b / 2, -h / 2), (b / 2, h / 2), (-b / 2, h / 2)]
    out, sh = G._place([out, sh], pl)
    su = draw(st.sampled_from([0.01, 0.025, 0.05]))
    bars = inside_bars(draw, out, [sh], draw(st.integers(1, 8)),
                       [12, 16, 20, 25])
    for q in bars:
        q['mat'] = 2
    return {'kind': 'src', 'surfs': [
        {'outer': out, 'holes': [sh], 'mat': 0, 'concrete': True},
        {'outer': sh, 'holes': [], 'mat': 1, 'concrete': False}],
        'bars': bars, 'mats': [
            {'law': draw(concrete_law()), 'density': 2500.0},
            {'law': draw(steel_law(su)), 'density': 7850.0},
            {'law': draw(steel_law(su)), 'density': 7850.0}]}


@st.composite
def cap(draw, far=1500, ends=(1, 1, 2, 3)):
    """Concrete with a steel plate on top, at the bottom or both: the
    outermost fibres do not govern when the plate is more ductile."""
    b = float(draw(st.integers(200, 700)))
    h = float(draw(st.integers(250, 900)))
    pl = place(draw, far)
    which = draw(st.sampled_from(ends))
    rings = [[(-b / 2, 0), (b / 2, 0), (b / 2, h), (-b / 2, h)]]
    for k, z in ((1, h), (2, 0.0)):
        if which & k:
            t = float(draw(st.integers(8, 40)))
            w = b * draw(st.integers(40, 100)) / 200
            lo, hi = (z, z + t) if k == 1 else (z - t, z)
            rings.append([(-w, lo), (w, lo), (w, hi), (-w, hi)])
    # a bar next to either end: concrete governs in every direction
    rings.append([(0.0, 40.0), (0.0, h - 40.0)])
    *rings, ends = G._place(rings, pl)
    su = draw(st.sampled_from([0.025, 0.05]))
    bars = inside_bars(draw, rings[0], [], draw(st.integers(0, 6)),
                       [12, 16, 20, 25])
    bars += [{'p': [float(v) for v in p], 'd': 16.0} for p in ends]
    for q in bars:
        q['mat'] = 2
    return {'kind': 'cap', 'surfs': [
        {'outer': r, 'holes': [], 'mat': min(i, 1), 'concrete': i == 0}
        for i, r in enumerate(rings)], 'bars': bars, 'mats': [
            {'law': draw(concrete_law()), 'density': 2500.0},
            {'law': draw(steel_law(su)), 'density': 7850.0},
            {'law': draw(steel_law(su)), 'density': 7850.0}]}


@st.composite
def steel(draw, far=1500, lo=80, hi=600):
    sl = draw(steel_law())
    s = draw(G.surf_spec(0, place(draw, far), lo, hi))
    return {'kind': 'steel', 'surfs': [s], 'bars': [],
            'mats': [{'law': sl, 'density': 7850.0}]}


@st.composite
def mixed(draw):
    s = draw(G.any_section(max_surf=2, max_bars=4, law=st.one_of(
        concrete_law(), steel_law(), L.elastic(), L.ep(su='set'))))
    for q in s['surfs']:
        q['concrete'] = s['mats'][q['mat']]['law']['t'] not in (
            'ep', 'elastic')
    s['kind'] = 'mixed'
    return s


@st.composite
def symmetric(draw):
    """Doubly symmetric steel section about the origin, maybe with bars."""
    b = draw(st.integers(3, 30)) * 10.0
    h = draw(st.integers(3, 30)) * 10.0
    sl = draw(steel_law())
    t = draw(st.sampled_from(['rect', 'box', 'I']))
    R = [[b, h], [-b, h], [-b, -h], [b, -h]]
    holes = []
    if t == 'box':
        x, y = draw(L.fl(0.3, 0.9)) * b, draw(L.fl(0.3, 0.9)) * h
        holes = [[[x, y], [-x, y], [-x, -y], [x, -y]]]
    elif t == 'I':
        x, y = draw(L.fl(0.1, 0.5)) * b, draw(L.fl(0.4, 0.9)) * h
        R = [[b, h], [-b, h], [-b, y], [-x, y], [-x, -y], [-b, -y],
             [-b, -h], [b, -h], [b, -y], [x, -y], [x, y], [b, y]]
    mats = [{'law': sl, 'density': 7850.0}]
    bars = []
    if t == 'rect' and draw(st.booleans()):
        mats.append({'law': draw(steel_law(su=sl['eps_su'])),
                     'density': 7850.0})
        x, y = b - 12.0, h - 12.0
        bars = [{'p': [i * x, j * y], 'd': 16.0, 'mat': 1}
                for i in (-1, 1) for j in (-1, 1)]
    return {'kind': 'steel', 'bars': bars, 'mats': mats, 'surfs': [
        {'outer': R, 'holes': holes, 'mat': 0, 'concrete': False,
         'kind': t}]}


@st.composite
def built_up(draw, far=1500):
    """Steel plates on top of each other, of one or two strengths."""
    pl = place(draw, far)
    rings, z = [], 0.0
    for _ in range(draw(st.integers(2, 4))):
        w = float(draw(st.integers(10, 300)))
        t = float(draw(st.integers(10, 200)))
        x = draw(st.sampled_from([0.0, 0.0, 0.25, -0.2])) * w
        rings.append([(x - w / 2, z), (x + w / 2, z), (x + w / 2, z + t),
                      (x - w / 2, z + t)])
        z += t
    rings = G._place(rings, pl)
    sl = draw(steel_law())
    mats = [{'law': sl, 'density': 7850.0}]
    if draw(st.booleans()):
        mats.append({'law': draw(steel_law(su=sl['eps_su'])),
                     'density': 7850.0})
    return {'kind': 'steel', 'bars': [], 'mats': mats, 'surfs': [
        {'outer': r, 'holes': [], 'mat': draw(st.integers(0, len(mats) - 1)),
         'concrete': False} for r in rings]}


def any_limited(**kw):
    return st.one_of(rc(**kw), rc(**kw), rc(**kw), rc2(), src(), cap(),
                     steel(), st.one_of(symmetric(), built_up()))


# ------------------------------------------------------------------ limits
def limits(spec):
    """(eps_n, eps_p): the strains at which the section fails."""
    ns, ps = [], []
    for q in spec['surfs'] + spec['bars']:
        a, b = L.ult(spec['mats'][q['mat']]['law'])
        ns.append(a)
        ps.append(b)
    return max(ns), min(ps)


def is_rc(spec):
    return bool(spec['bars']) and any(
        s.get('concrete') for s in spec['surfs'])


def axis(theta):
    """Unit vector of z*: across the neutral axis."""
    return -math.sin(theta), math.cos(theta)


def profile(spec, theta):
    """For each part: (law index, lowest z*, highest z*, is bar)."""
    g = axis(theta)
    res = []
    for s in spec['surfs']:
        v = [p[0] * g[0] + p[1] * g[1] for p in s['outer']]
        res.append((s['mat'], min(v), max(v), False))
    for b in spec['bars']:
        v = b['p'][0] * g[0] + b['p'][1] * g[1]
        res.append((b['mat'], v, v, True))
    return res


def utilisation(spec, plane, theta):
    """Highest ratio strain / ultimate strain over all material points, and
    the same for compression and tension separately."""
    c = t = 0.0
    g = axis(theta)
    for q in spec['surfs']:
        a, b = L.ult(spec['mats'][q['mat']]['law'])
        for p in q['outer']:
            e = G.strain_at(plane, p)
            c = max(c, e / a if a else 0.0)
            t = max(t, e / b if b else 0.0)
    for q in spec['bars']:
        a, b = L.ult(spec['mats'][q['mat']]['law'])
        e = G.strain_at(plane, q['p'])
        c = max(c, e / a)
        t = max(t, e / b)
    return max(c, t), c, t


def uniform_force(spec, e, side):
    """Axial force of a uniform strain; the laws are evaluated on the inside
    of their limits (side = -1: at a compression limit)."""
    N = 0.0
    for q in spec['surfs']:
        law = spec['mats'][q['mat']]['law']
        N += abs(G.area_moments(q)[0]) * inner(law, e, side)
    for q in spec['bars']:
        law = spec['mats'][q['mat']]['law']
        N += G.bar_area(q) * inner(law, e, side)
    return N


def inner(law, e, side):
    """Stress at e; at an ultimate limit the stress on the inside."""
    for p in L.ult(law):
        if abs(e - p) <= 1e-12 + 1e-9 * abs(p):
            e = p - math.copysign(1e-13 + 1e-12 * abs(p), p)
            break
    return L.raw(law, e)[0]


def tol_force(spec, plane, err=True):
    """Round-off (and linearisation) tolerance on N and M."""
    from .checks.N02 import law_error, rounding

    F = G.force_scale(spec, plane)
    r, _ = G.size(spec)
    rel = rounding(spec, plane)
    en, em = law_error(spec, plane) if err else (0.0, 0.0)
    return rel * F + en, rel * F * r + em


def steps(spec, plane):
    """Resultants (dN, dM) of bars that sit at an ultimate limit (their
    stress may be taken on either side) or within round-off of a kink."""
    dn = dm = 0.0
    r, d = G.size(spec)
    w = 1e-9 + 1e-13 * math.hypot(plane[1], plane[2]) * r
    for b in spec['bars']:
        law = spec['mats'][b['mat']]['law']
        e = G.strain_at(plane, b['p'])
        o = [L.raw(law, e)[0], L.raw(law, e - w)[0], L.raw(law, e + w)[0]]
        o += L.stress_options(law, e)
        x = (max(o) - min(o)) * G.bar_area(b)
        dn += x
        dm += x * max(abs(v) for v in b['p'])
    return dn, dm


def accessors(d):
    """The named columns of an interaction domain are those of its arrays."""
    import numpy as np
    for name, a in (('forces', ('n', 'm_y', 'm_z')),
                    ('strains', ('e_a', 'k_y', 'k_z'))):
        v = getattr(d, name)
        for k, q in enumerate(a):
            require(np.array_equal(getattr(d, q), v[:, k]),
                    f'{q} of the domain is not column {k} of {name}')
