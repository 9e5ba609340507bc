"""S04: results follow rigid motions of the section."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Reject, Sub, req_close, require
from .S03 import angles

RULE = ('random sections x rotation, translation, mirror and combinations, '
        'applied by the library to the geometry or to the coordinates '
        'before building; results of the moved section against the moved '
        'results; non-trivial: the motion is not the identity')
ASSUMPTIONS = [
    'solver results: non-softening laws, 0.01 axial force on either side',
    'fibre integrator: meshes of moved polygons may differ (6 % of the '
    'force scale at mesh size 0.002)',
]

NONSOFT = ('pr', 'pr', 'bl')


# ------------------------------------------------------------------- motions
@st.composite
def motion(draw):
    k = draw(st.sampled_from(['rot', 'rot', 'tra', 'tra', 'mir', 'mir',
                              'combo']))
    m = {'k': k, 'lib': draw(st.booleans())}
    if k in ('rot', 'combo'):
        m['a'] = draw(angles())
        m['deg'] = draw(st.booleans())
        m['c'] = draw(st.sampled_from([None, [0.0, 0.0], [100.0, -250.0]]))
    if k in ('tra', 'combo'):
        m['d'] = [float(draw(st.integers(-2000, 2000))) for _ in range(2)]
    if k in ('mir', 'combo'):
        m['p'] = [float(draw(st.integers(-300, 300))) for _ in range(2)]
        m['b'] = draw(angles())
    return m


def pieces(m):
    """Elementary motions in order: (kind, matrix R, shift, angle)."""
    res = []
    if 'a' in m:
        c, s = math.cos(m['a']), math.sin(m['a'])
        R = np.array([[c, -s], [s, c]])
        o = np.array(m['c'] or [0.0, 0.0])
        res.append(('rot', R, o - R @ o))
    if 'd' in m:
        res.append(('tra', np.eye(2), np.array(m['d'])))
    if 'b' in m:
        c, s = math.cos(2 * m['b']), math.sin(2 * m['b'])
        R = np.array([[c, s], [s, -c]])
        o = np.array(m['p'])
        res.append(('mir', R, o - R @ o))
    return res


def total(m):
    """(R, t, det): x' = R x + t."""
    R, t, det = np.eye(2), np.zeros(2), 1.0
    for k, Q, s in pieces(m):
        R, t = Q @ R, Q @ t + s
        det *= -1.0 if k == 'mir' else 1.0
    return R, t, det


def move_geo(geo, m):
    from shapely import LineString, Point

    if 'a' in m:
        a = math.degrees(m['a']) if m['deg'] else m['a']
        kw = {}
        if m['deg']:
            kw['use_radians'] = False
        if m['c'] is not None:
            kw['point'] = Point(m['c']) if m['deg'] else tuple(m['c'])
        geo = geo.rotate(a, **kw)
    if 'd' in m:
        geo = geo.translate(*m['d'])
    if 'b' in m:
        p = m['p']
        geo = geo.mirror(LineString([p, [p[0] + 100 * math.cos(m['b']),
                                         p[1] + 100 * math.sin(m['b'])]]))
    return geo


def move_spec(spec, m):
    R, t, _ = total(m)

    def f(p):
        return [float(v) for v in R @ np.array(p) + t]

    r = dict(spec)
    r['surfs'] = [dict(q, outer=[f(p) for p in q['outer']],
                       holes=[[f(p) for p in h] for h in q['holes']])
                  for q in spec['surfs']]
    r['bars'] = [dict(b, p=f(b['p'])) for b in spec['bars']]
    return r


def move_vec(v, m):
    """Curvature and moment vectors (axial vectors)."""
    R, _, det = total(m)
    return det * (R @ np.array(v, dtype=float))


def move_plane(plane, m):
    k = move_vec(plane[1:], m)
    _, t, _ = total(m)
    return [plane[0] + k[1] * t[0] - k[0] * t[1], float(k[0]), float(k[1])]


def move_forces(f, m):
    M = move_vec(f[1:], m)
    _, t, _ = total(m)
    return [f[0], float(M[0] + f[0] * t[1]), float(M[1] - f[0] * t[0])]


def move_theta(th, m):
    """Direction of the neutral axis of a negative curvature."""
    v = move_vec([math.cos(th), math.sin(th)], m)
    return math.atan2(v[1], v[0])


def both(case):
    spec, m = case['sec'], case['mo']
    kw = {'integrator': case.get('integ', 'marin')}
    if kw['integrator'] == 'fiber':
        kw['mesh_size'] = 0.002
    a = G.section(spec, **kw)
    ms = move_spec(spec, m)
    if m['lib']:
        b = G.section(spec, geo=move_geo(G.geometry(spec), m), **kw)
    else:
        b = G.section(ms, **kw)
    return a.section_calculator, b.section_calculator, ms


def reach(spec, ms):
    return max(G.size(spec)[0], G.size(ms)[0])


def note(case, rec):
    m = case['mo']
    R, t, _ = total(m)
    rec.label(m['k'], 'library' if m['lib'] else 'coordinates',
              case.get('integ', 'marin'))
    rec.nt(np.abs(R - np.eye(2)).max() > 1e-9 or np.abs(t).max() > 0)


# ---------------------------------------------------------------- resultants
@st.composite
def linear(draw):
    s = draw(G.any_section(law=G.sect_law(1)))
    return {'sec': s, 'plane': draw(G.plane_for(s)), 'mo': draw(motion())}


def jumps(spec, plane):
    from .N02 import allowance

    n, m = allowance(spec, plane)
    a, b = S.steps(spec, plane)
    return n + a, m + b


def run_resultants(case, rec):
    spec, plane, m = case['sec'], case['plane'], case['mo']
    if G.far(spec, plane):
        raise Reject
    a, b, ms = both(case)
    p2 = move_plane(plane, m)
    fa = [float(v) for v in a.integrate_strain_profile(plane)]
    fb = [float(v) for v in b.integrate_strain_profile(p2)]
    exp = move_forces(fa, m)
    from .N02 import rounding

    F = G.force_scale(spec, plane)
    r = reach(spec, ms)
    rel = rounding(spec, plane) + rounding(ms, p2)
    # the strain of a point is known to about 1e-16 of its terms
    jn, jm = jumps(spec, plane)
    jn2, jm2 = jumps(ms, p2)
    en, em = S.tol_force(spec, plane)
    en2, em2 = S.tol_force(ms, p2)
    tn = rel * F + jn + jn2 + en + en2
    tm = rel * F * r + jm + jm2 + em + em2 + (jn + jn2 + en + en2) * r
    for k, (x, t) in enumerate((('N', tn), ('My', tm), ('Mz', tm))):
        req_close(fb[k], exp[k], f'{x} after {m["k"]}', 1e-9, t)
    note(case, rec)
    if tn > 1e-4 * F:
        rec.label('loose')
    # stiffness: congruent transformation
    if all(q['t'] in ('elastic', 'ep', 'pr', 'bl') for q in
           (x['law'] for x in spec['mats'])) and jn == jn2 == 0:
        e = [G.strain_at(plane, q['p']) for q in spec['bars']]
        if any(L.smooth_distance(spec['mats'][q['mat']]['law'], x) < 1e-9
               for q, x in zip(spec['bars'], e)) or plane[1] == plane[2] == 0:
            return
        Ka = np.asarray(a.integrate_strain_profile(plane, 'modulus'))
        Kb = np.asarray(b.integrate_strain_profile(p2, 'modulus'))
        T = np.column_stack([move_plane(list(e), m) for e in np.eye(3)])
        # forces: f' = T^-T f; K' = T^-T K T^-1
        Ti = np.linalg.inv(T)
        Ke = Ti.T @ Ka @ Ti
        E = max(max(abs(L.raw(x['law'], p)[1]) for p in
                    [*L.breaks(x['law']), 0.0, plane[0]])
                for x in spec['mats'])
        sc = max(E, 1.0) * G.gross_area(spec)
        for i in range(3):
            for j in range(3):
                w = r ** ((i > 0) + (j > 0))
                req_close(Kb[i, j], Ke[i, j], f'stiffness {i}{j}', 1e-6,
                          (1e-7 + 20 * rel) * sc * w)
        rec.label('stiffness')


@st.composite
def fibers(draw):
    s = draw(S.rc(lo=200, hi=600, laws=NONSOFT))
    return {'sec': s, 'mo': draw(motion()), 'integ': 'fiber',
            'theta': draw(angles()), 'f': draw(L.fl(0.1, 0.9))}


# ------------------------------------------------------------------ strength
@st.composite
def solver(draw):
    return {'sec': draw(st.one_of(S.rc(laws=NONSOFT), S.rc(laws=NONSOFT),
                                  S.src().filter(nonsoft), S.steel(),
                                  S.rc2().filter(nonsoft))),
            'mo': draw(motion()), 'integ': 'marin',
            'theta': draw(angles()), 'f': draw(L.fl(0.03, 0.97))}


def nonsoft(spec):
    return all(m['law']['t'] not in ('sargin', 'pop') for m in spec['mats'])


def run_strength(case, rec):
    spec, m, th = case['sec'], case['mo'], case['theta']
    a, b, ms = both(case)
    n = a.n_min + case['f'] * (a.n_max - a.n_min)
    ra = a.calculate_bending_strength(th, n)
    rb = b.calculate_bending_strength(move_theta(th, m), n)
    pa = [float(ra.eps_a), float(ra.chi_y), float(ra.chi_z)]
    pb = [float(rb.eps_a), float(rb.chi_y), float(rb.chi_z)]
    F = G.force_scale(spec, pa)
    r, d = reach(spec, ms), G.size(spec)[1]
    if case['integ'] == 'fiber':
        tn = tm = 0.0
        t = 0.06 * F * d
    else:
        tn, tm = S.tol_force(spec, pa)
        tn2, tm2 = S.tol_force(ms, pb)
        t = 2 * (tm + tm2) + (3e-2 + tn + tn2) * 2 * d
    exp = move_forces([n, float(ra.m_y), float(ra.m_z)], m)
    for k, x in ((1, 'm_y'), (2, 'm_z')):
        req_close(getattr(rb, x), exp[k], f'{x} after {m["k"]} (n = {n})',
                  1e-9, t + 3e-2 * r)
    if case['integ'] == 'fiber':
        note(case, rec)
        return
    # the ultimate plane is the moved one
    pe = move_plane(pa, m)
    slope = sensitivity(spec, pa, th)
    for q in [p for s in ms['surfs'] for p in s['outer']]:
        req_close(G.strain_at(pb, q), G.strain_at(pe, q),
                  f'ultimate strain at {q}', 1e-6,
                  1e-9 + (3e-2 + tn + tn2) / slope)
    req_close(b.n_min, a.n_min, 'n_min', 1e-9, tn)
    req_close(b.n_max, a.n_max, 'n_max', 1e-9, tn)
    note(case, rec)


def sensitivity(spec, plane, th):
    """|dN/d(strain)| when the plane pivots, never zero."""
    u, uc, ut = S.utilisation(spec, plane, th)
    g = S.axis(th)
    prof = S.profile(spec, th)
    if uc >= ut:
        z = max(p[2] for p in prof)
    else:
        bars = [p[1] for p in prof if p[3]]
        z = min(bars) if bars else min(p[1] for p in prof)
    chi = plane[1] * math.cos(th) + plane[2] * math.sin(th)
    e = plane[0] + chi * z
    out = []
    for f in (1e-5, -1e-5):
        c = chi * (1 + f)
        p = [e - c * z, c * math.cos(th), c * math.sin(th)]
        out.append(G.resultants(spec, p)[0])
    h = G.size(spec)[1]
    dn = abs(out[0] - out[1])
    return max(dn / (2e-5 * abs(chi) * h), 1e-3)


# ------------------------------------------------------------------- domains
@st.composite
def domains(draw):
    return {'sec': draw(S.any_limited()), 'mo': draw(motion()),
            'theta': draw(angles()), 'complete': draw(st.booleans()),
            'num': [draw(st.integers(1, 4)) for _ in range(5)]
            + [draw(st.integers(2, 5))]}


def run_domain(case, rec):
    spec, m, th = case['sec'], case['mo'], case['theta']
    a, b, ms = both(case)
    kw = {f'num_{i + 1}': v for i, v in enumerate(case['num'])}
    kw['complete_domain'] = case['complete']
    da = a.calculate_nm_interaction_domain(th, **kw)
    db = b.calculate_nm_interaction_domain(move_theta(th, m), **kw)
    require(len(da.strains) == len(db.strains),
            f'{len(db.strains)} points after {m["k"]}, {len(da.strains)} '
            'before')
    require(list(da.field_num) == list(db.field_num), 'field numbers differ')
    r = reach(spec, ms)
    for i in range(len(da.strains)):
        pa = [float(v) for v in da.strains[i]]
        pb = [float(v) for v in db.strains[i]]
        pe = move_plane(pa, m)
        for q in [p for s in ms['surfs'] for p in s['outer']]:
            req_close(G.strain_at(pb, q), G.strain_at(pe, q),
                      f'point {i}: strain at {q}', 1e-9,
                      1e-12 + 1e-13 * r * math.hypot(*pa[1:]))
        tn, tm = S.tol_force(spec, pa)
        tn2, tm2 = S.tol_force(ms, pb)
        jn, jm = jumps(spec, pa)
        jn2, jm2 = jumps(ms, pb)
        tn += tn2 + jn + jn2
        tm += tm2 + jm + jm2 + tn * r
        exp = move_forces([float(v) for v in da.forces[i]], m)
        for k, x in enumerate(('n', 'm_y', 'm_z')):
            req_close(db.forces[i][k], exp[k], f'point {i}: {x} after '
                      f'{m["k"]}', 1e-9, 4 * (tm if k else tn))
    note(case, rec)


# ----------------------------------------------------------- moment-curvature
@st.composite
def curves(draw):
    c = draw(solver())
    c['pre'] = draw(st.integers(2, 4))
    c['post'] = draw(st.integers(1, 3))
    c['f'] = draw(L.fl(0.2, 0.95))
    return c


def run_curve(case, rec):
    spec, m, th = case['sec'], case['mo'], case['theta']
    a, b, ms = both(case)
    n = a.n_min + case['f'] * (a.n_max - a.n_min)
    kw = {'num_pre_yield': case['pre'], 'num_post_yield': case['post']}
    ra = a.calculate_moment_curvature(th, n, **kw)
    rb = b.calculate_moment_curvature(move_theta(th, m), n, **kw)
    require(len(ra.m_y) == len(rb.m_y), f'{len(rb.m_y)} points after '
            f'{m["k"]}, {len(ra.m_y)} before')
    r, d = reach(spec, ms), G.size(spec)[1]
    k_u = math.hypot(ra.chi_y[-1], ra.chi_z[-1])
    for i in range(len(ra.m_y)):
        pa = [float(x[i]) for x in (ra.eps_axial, ra.chi_y, ra.chi_z)]
        pb = [float(x[i]) for x in (rb.eps_axial, rb.chi_y, rb.chi_z)]
        pe = move_plane(pa, m)
        for k in (1, 2):
            req_close(pb[k], pe[k], f'curvature {k} of point {i}', 1e-3,
                      1e-4 * k_u)
        # moments at curvatures that differ by the solver tolerance
        K = G.stiffness(spec, pa)
        F = G.force_scale(spec, pa)
        tn, tm = S.tol_force(spec, pa)
        tn2, tm2 = S.tol_force(ms, pb)
        dk = math.hypot(pb[1] - pe[1], pb[2] - pe[2])
        t = 2 * (tm + tm2) + (3e-2 + tn + tn2) * (r + d)
        t += 3 * dk * max(abs(K[1, 1]), abs(K[2, 2]), F * d / max(
            math.hypot(*pa[1:]), 1e-12))
        exp = move_forces([n, float(ra.m_y[i]), float(ra.m_z[i])], m)
        for k, x in ((1, rb.m_y), (2, rb.m_z)):
            req_close(x[i], exp[k], f'point {i}: moment {k} after {m["k"]} '
                      f'(n = {n})', 1e-6, t)
    note(case, rec)


SUBS = [
    Sub('resultants', linear, run_resultants, 900, 20000, 'see rule',
        shards=5),
    Sub('strength', solver, run_strength, 350, 8000, 'see rule', shards=6),
    Sub('domain', domains, run_domain, 120, 3000, 'see rule', shards=6),
    Sub('curve', curves, run_curve, 100, 2500, 'see rule', shards=6),
    Sub('fiber', fibers, run_strength, 60, 1000, 'see rule', shards=3),
]
