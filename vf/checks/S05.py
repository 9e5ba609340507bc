"""S05: results scale with the chosen units."""
import math

from dataclasses import fields

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, req_close, require
from .S01 import RIGHT
from .S03 import angles
from .S04 import jumps, nonsoft, sensitivity

RULE = ('random sections x a change of length unit (x) and stress unit (m): '
        'areas x^2, moments of inertia x^4, forces m x^2, moments m x^3, '
        'curvatures 1/x, strains 1; non-trivial: x or m is not 1')
ASSUMPTIONS = [
    'axial equilibrium is accepted within 0.01 force units in each system '
    '(documented solver tolerance)',
    'units in which the section is at least 0.06 and the axial forces at '
    'least about 1',
]

LEN = [1e-3, 0.01, 0.1, 10.0, 1 / 25.4, 1 / 304.8, 2.0, 1.0]
STR = [1e6, 1e3, 1e-3, 1.0, 145.0377, 2.0, 1.0]


@st.composite
def system(draw, small=False):
    x, m = draw(st.sampled_from(LEN)), draw(st.sampled_from(STR))
    if small and m * x * x > 1e3:
        # 0.01 would be within round-off of the forces
        m = 1.0
    if x == m == 1.0:
        m = 1e3
    return {'x': x, 'm': m}


def scale_law(law, m):
    r = dict(law)
    t = law['t']
    if t == 'elastic':
        r['E'] = law['E'] * m
    elif t == 'ep':
        r.update(E=law['E'] * m, fy=law['fy'] * m, Eh=law['Eh'] * m)
    elif t in ('pr', 'bl', 'sargin'):
        r['fc'] = law['fc'] * m
    elif t == 'pop':
        Ec = law['Ec']
        if Ec is None:
            Ec = 5000 * math.sqrt(abs(law['fc']))
        r.update(fc=law['fc'] * m, Ec=Ec * m)
    elif t == 'ud':
        r['y'] = [v * m for v in law['y']]
    elif t == 'par':
        r['laws'] = [scale_law(q, m) for q in law['laws']]
    elif t == 'ini':
        r['law'] = scale_law(law['law'], m)
    else:
        raise KeyError(t)
    return r


def scaled(spec, u):
    r = G.moved(spec, scale=u['x'])
    r['mats'] = [dict(m, law=scale_law(m['law'], u['m']))
                 for m in spec['mats']]
    return r


def both(case):
    spec, u = case['sec'], case['u']
    s2 = scaled(spec, u)
    kw = {'integrator': case.get('integ', 'marin')}
    if kw['integrator'] == 'fiber':
        kw['mesh_size'] = case.get('mesh', 0.005)
    return G.section(spec, **kw), G.section(s2, **kw), s2


def note(case, rec):
    u = case['u']
    rec.label(f"x{u['x']:.3g}", f"m{u['m']:.3g}", case.get('integ', 'marin'))
    rec.nt()


def plane2(p, x):
    return [p[0], p[1] / x, p[2] / x]


# ------------------------------------------------------------------- laws
@st.composite
def laws_(draw):
    law = draw(G.sect_law(1))
    return {'law': law, 'm': draw(st.sampled_from(
        [1e6, 1e3, 1e-3, 145.0377, 2.0, 1e-6])),
        'e': [draw(L.strain_for(law)) for _ in range(4)]}


def run_law(case, rec):
    """Stress, tangent and secant scale; limits do not."""
    law, m = case['law'], case['m']
    a, b = L.build(law), L.build(scale_law(law, m))
    s = L.scale(law) * m
    near = [e for e in case['e'] if L.smooth_distance(law, e) < 1e-9]
    for e in case['e']:
        req_close(b.get_stress(e), m * a.get_stress(e), f'stress at {e}',
                  1e-9, 1e-9 * s)
        if e not in near:
            req_close(b.get_tangent(e), m * a.get_tangent(e),
                      f'tangent at {e}', 1e-9, 1e-7 * s)
        if abs(e) > 1e-9:
            req_close(b.get_secant(e), m * a.get_secant(e), f'secant at {e}',
                      1e-9, 1e-9 * s / abs(e))
    req_close(b.get_tangent(0.0), m * a.get_tangent(0.0), 'tangent at 0',
              1e-9, 1e-7 * s)
    for y in (False, True):
        ua = a.get_ultimate_strain(yielding=y)
        ub = b.get_ultimate_strain(yielding=y)
        for k in (0, 1):
            req_close(ub[k], ua[k], f'limit strain {k} (yielding={y})', 1e-12)
    rec.nt()
    rec.label(law['t'])


# ------------------------------------------------------- integration, gross
@st.composite
def linear(draw):
    s = draw(G.any_section(law=G.sect_law(1)))
    return {'sec': s, 'plane': draw(G.plane_for(s)), 'u': draw(system())}


@st.composite
def fiber(draw):
    c = draw(linear())
    c['integ'] = 'fiber'
    c['mesh'] = draw(st.sampled_from([0.002, 0.01, 0.05]))
    # same mesh when only the stresses change
    if draw(st.booleans()):
        c['u']['x'] = 1.0
    return c


POW = {'area': (0, 2), 'area_reinforcement': (0, 2), 'ea': (1, 2),
       'mass': (0, 2), 'perimeter': (0, 1), 'sy': (0, 3), 'sz': (0, 3),
       'e_sy': (1, 3), 'e_sz': (1, 3), 'cy': (0, 1), 'cz': (0, 1)}


def run_linear(case, rec):
    spec, u, plane = case['sec'], case['u'], case['plane']
    if G.far(spec, plane):
        plane = [1e-4, 0.0, 0.0]
    x, m = u['x'], u['m']
    a, b, s2 = both(case)
    p2 = plane2(plane, x)
    fa = a.section_calculator.integrate_strain_profile(plane)
    fb = b.section_calculator.integrate_strain_profile(p2)
    from .N02 import rounding

    F = G.force_scale(spec, plane)
    r, d = G.size(spec)
    rel = 2 * rounding(spec, plane)
    jn, jm = jumps(spec, plane)
    if case.get('integ') == 'fiber':
        # a fibre may sit within round-off of a step
        jn += F * steps_share(case, spec, plane)
        if x != 1:
            # different meshes
            jn += 2 * math.sqrt(case['mesh']) * F
        jm += jn * r
    f = m * x * x
    for k, q in enumerate(('N', 'My', 'Mz')):
        w = r if k else 1.0
        req_close(fb[k], fa[k] * f * (x if k else 1.0), f'{q} at {plane}',
                  1e-9, (rel * F * w + 2 * (jm if k else jn)) * f * (
                      x if k else 1.0))
    e = [G.strain_at(plane, q['p']) for q in spec['bars']]
    smooth = plane[1] != 0 or plane[2] != 0
    smooth = smooth and jn == 0 and not any(
        L.smooth_distance(spec['mats'][q['mat']]['law'], v) < 1e-9
        for q, v in zip(spec['bars'], e))
    # the stiffness is a section property of the same scaling
    if smooth and case.get('integ') != 'fiber':
        Ka = np.asarray(a.section_calculator.integrate_strain_profile(
            plane, 'modulus'))
        Kb = np.asarray(b.section_calculator.integrate_strain_profile(
            p2, 'modulus'))
        E = max(max(abs(L.raw(q['law'], p)[1] or 0.0) for p in
                    [*L.breaks(q['law']), 0.0, plane[0]])
                for q in spec['mats'])
        E = max(E, F / max(G.gross_area(spec), 1e-300), 1e-9)
        for i in range(3):
            for j in range(3):
                w = (i > 0) + (j > 0)
                t = (1e-7 + 20 * rel) * E * G.gross_area(spec) * r ** w
                req_close(Kb[i, j], Ka[i, j] * f * x ** w, f'stiffness '
                          f'{i}{j} at {plane}', 1e-6, t * f * x ** w)
        rec.label('stiffness')
    if min(L.build(q['law']).get_tangent(0.0) for q in spec['mats']) <= 0:
        note(case, rec)
        return
    ga, gb = a.gross_properties, b.gross_properties
    if not math.isfinite(ga.cy) or abs(ga.ea) < 1e-6:
        note(case, rec)
        return
    Em = max(abs(L.build(q['law']).get_tangent(0.0)) for q in spec['mats'])
    A = G.gross_area(spec) + sum(G.bar_area(q) for q in spec['bars'])
    spread = max(1.0, Em * A / abs(ga.ea))
    # the centred copy of the section has a mesh of its own
    other_mesh = case.get('integ') == 'fiber'
    bounded = all(q.get('kind') in RIGHT and not q['holes']
                  for q in spec['surfs'])
    for fl in fields(ga):
        nm = fl.name
        va, vb = float(getattr(ga, nm)), float(getattr(gb, nm))
        if nm.endswith('theta'):
            continue
        pm, px = POW.get(nm, (int(nm.startswith('e_')), 4))
        t = 1e-9 * (Em if pm else 1.0) * A * r ** max(px - 2, 0)
        if px in (1, 4):
            t *= spread ** 2
        if px == 4 and other_mesh:
            # see N03
            if not bounded:
                continue
            t += 2 * 7 / 18 * case['mesh'] * A * A * (Em if pm else 1.0)
        if nm == 'perimeter':
            t = 1e-9 * r
        if nm in ('cy', 'cz'):
            t = 1e-9 * spread * r
        if nm == 'mass':
            t = 1e-12 * abs(va)
        req_close(vb, va * m ** pm * x ** px, f'{nm}', 1e-9,
                  t * m ** pm * x ** px)
    for pre in ('', 'e_'):
        i1, i2 = getattr(ga, pre + 'i11'), getattr(ga, pre + 'i22')
        t = 1e-9 * (Em if pre else 1.0) * A * r ** 2 * spread ** 2
        if (abs(i1 - i2) > 1e-4 * abs(i1) + 1e5 * t
                and not other_mesh):
            t = getattr(gb, pre + 'theta') - getattr(ga, pre + 'theta')
            req_close(math.sin(t), 0.0, pre + 'theta', 0, 1e-4)
    note(case, rec)


def steps_share(case, spec, plane):
    """Share of the force in fibres within round-off of a stress step."""
    pts = [p for q in spec['mats'] for p in L.ult(q['law']) if abs(p) < 50]
    steps = any(abs(L.raw(q['law'], p * (1 - 1e-9))[0]
                    - L.raw(q['law'], p * (1 + 1e-9))[0]) > 0
                for q in spec['mats'] for p in L.ult(q['law'])
                if abs(p) < 50)
    if not steps or not pts:
        return 0.0
    if plane[1] == plane[2] == 0:
        return 0.0
    # one row of fibres
    return 2 * case.get('mesh', 0.01)


# ------------------------------------------------------------------ strength
@st.composite
def solver(draw):
    return {'sec': draw(st.one_of(
        S.rc(laws=('pr', 'pr', 'bl')), S.rc(laws=('pr', 'bl')),
        S.src().filter(nonsoft), S.steel(), S.rc2().filter(nonsoft))),
        'u': draw(system(True)), 'theta': draw(angles()),
        'f': draw(L.fl(0.03, 0.97))}


def force_unit(u):
    return u['m'] * u['x'] ** 2


def run_strength(case, rec):
    spec, u, th = case['sec'], case['u'], case['theta']
    x, fu = u['x'], force_unit(u)
    sa, sb, s2 = both(case)
    a, b = sa.section_calculator, sb.section_calculator
    tl = S.tol_force(spec, (S.limits(spec)[0], 0.0, 0.0))[0]
    tu = S.tol_force(spec, (S.limits(spec)[1], 0.0, 0.0))[0]
    req_close(b.n_min, a.n_min * fu, 'n_min', 1e-9, 2 * tl * fu)
    req_close(b.n_max, a.n_max * fu, 'n_max', 1e-9, 2 * tu * fu)
    n = a.n_min + case['f'] * (a.n_max - a.n_min)
    # accepted unbalance, in the units of the first system
    dn = 1e-2 + 1e-2 / fu
    if dn > 0.02 * (a.n_max - a.n_min) * min(case['f'], 1 - case['f']):
        rec.label('coarse unit')
        return
    ra = a.calculate_bending_strength(th, n)
    try:
        rb = b.calculate_bending_strength(th, n * fu)
    except ValueError:
        # next to a limit load (see S02), or 0.01 force units are beyond
        # double precision of the sums
        if (min(case['f'], 1 - case['f']) > 1e-2
                and max(abs(a.n_min), abs(a.n_max)) * fu < 1e9):
            raise
        return
    pa = [float(ra.eps_a), float(ra.chi_y), float(ra.chi_z)]
    pb = [float(rb.eps_a), float(rb.chi_y), float(rb.chi_z)]
    r, d = G.size(spec)
    tn, tm = S.tol_force(spec, pa)
    dn += 2 * tn
    slope = sensitivity(spec, pa, th)
    ds = 1e-9 + 3 * dn / slope
    # the slope holds next to the plane only
    if ds < 0.02 * max(abs(v) for v in S.limits(spec)):
        for q in [p for s in spec['surfs'] for p in s['outer']]:
            req_close(G.strain_at(plane2(pb, 1 / x), q),
                      G.strain_at(pa, q), f'ultimate strain at {q}, '
                      f'n = {n}', 1e-6, ds)
        rec.label('strain')
    # moments of planes whose axial forces differ by dn
    t = 4 * tm + 4 * dn * (d + r)
    fm = fu * x
    for k in ('m_y', 'm_z'):
        req_close(getattr(rb, k), getattr(ra, k) * fm, f'{k} (n = {n})',
                  1e-7, t * fm)
    note(case, rec)


@st.composite
def domains(draw):
    return {'sec': draw(S.any_limited()), 'u': draw(system(True)),
            'theta': draw(angles()), 'complete': draw(st.booleans()),
            'num': [draw(st.integers(1, 4)) for _ in range(5)]
            + [draw(st.integers(2, 5))]}


def run_domain(case, rec):
    spec, u, th = case['sec'], case['u'], case['theta']
    x, fu = u['x'], force_unit(u)
    sa, sb, s2 = both(case)
    kw = {f'num_{i + 1}': v for i, v in enumerate(case['num'])}
    kw['complete_domain'] = case['complete']
    da = sa.section_calculator.calculate_nm_interaction_domain(th, **kw)
    db = sb.section_calculator.calculate_nm_interaction_domain(th, **kw)
    require(len(da.strains) == len(db.strains), 'numbers of points')
    r, d = G.size(spec)
    for i in range(len(da.strains)):
        pa = [float(v) for v in da.strains[i]]
        pb = plane2([float(v) for v in db.strains[i]], 1 / x)
        for q in [p for s in spec['surfs'] for p in s['outer']]:
            req_close(G.strain_at(pb, q), G.strain_at(pa, q),
                      f'point {i}: strain at {q}', 1e-9,
                      1e-12 + 1e-13 * r * math.hypot(*pa[1:]))
        tn, tm = S.tol_force(spec, pa)
        jn, jm = jumps(spec, pa)
        tn += jn
        tm += jm + tn * r
        for k in range(3):
            w = x if k else 1.0
            req_close(db.forces[i][k], da.forces[i][k] * fu * w,
                      f'point {i}: force {k}', 1e-9,
                      4 * (tm if k else tn) * fu * w)
    note(case, rec)


# ----------------------------------------------------- moment-curvature, plane
@st.composite
def curves(draw):
    c = draw(solver())
    c['f'] = draw(L.fl(0.1, 0.9))
    c['k'] = sorted(draw(st.lists(L.fl(0.02, 0.95), min_size=1, max_size=3)))
    return c


def run_curve(case, rec):
    """Given curvatures, as shares of the ultimate one."""
    spec, u, th = case['sec'], case['u'], case['theta']
    x, fu = u['x'], force_unit(u)
    sa, sb, s2 = both(case)
    a, b = sa.section_calculator, sb.section_calculator
    n = a.n_min + case['f'] * (a.n_max - a.n_min)
    dn = 1e-2 + 1e-2 / fu
    if dn > 0.005 * (a.n_max - a.n_min):
        rec.label('coarse unit')
        return
    s = a.calculate_bending_strength(th, n)
    ku = -math.hypot(s.chi_y, s.chi_z)
    chi = [f * ku for f in case['k']]
    try:
        ra = a.calculate_moment_curvature(th, n, chi=chi)
    except ValueError:
        rec.label('no root')
        return
    try:
        rb = b.calculate_moment_curvature(th, n * fu,
                                          chi=[c / x for c in chi])
    except ValueError:
        if max(abs(a.n_min), abs(a.n_max)) * fu < 1e9:
            raise
        # 0.01 force units are beyond double precision of the sums
        rec.label('unit too fine')
        return
    require(len(rb.m_y) == len(chi) == len(ra.m_y), 'numbers of points')
    r, d = G.size(spec)
    for i in range(len(chi)):
        pa = [float(v[i]) for v in (ra.eps_axial, ra.chi_y, ra.chi_z)]
        tn, tm = S.tol_force(spec, pa)
        t = 4 * tm + 4 * (dn + tn) * (r + d)
        req_close(rb.chi_y[i] * x, pa[1], f'chi_y of {i}', 1e-9, 1e-12 / d)
        req_close(rb.chi_z[i] * x, pa[2], f'chi_z of {i}', 1e-9, 1e-12 / d)
        for k in ('m_y', 'm_z'):
            req_close(getattr(rb, k)[i], getattr(ra, k)[i] * fu * x,
                      f'point {i}: {k} (n = {n})', 1e-7, t * fu * x)
    note(case, rec)


@st.composite
def planes(draw):
    s = draw(G.any_section(law=L.elastic(with_eps_u=False), holes=True))
    return {'sec': s, 'u': draw(system(True)), 'plane': draw(G.plane_for(s)),
            'initial': draw(st.booleans())}


def run_plane(case, rec):
    spec, u, plane = case['sec'], case['u'], case['plane']
    x, fu = u['x'], force_unit(u)
    sa, sb, s2 = both(case)
    if max(q['law']['E'] for q in spec['mats']) > 1e5 * min(
            q['law']['E'] for q in spec['mats']):
        rec.label('ill conditioned')
        return
    r, d = G.size(spec)
    f = G.resultants(spec, plane)
    a = sa.section_calculator.calculate_strain_profile(
        *f, initial=case['initial'])
    b = sb.section_calculator.calculate_strain_profile(
        f[0] * fu, f[1] * fu * x, f[2] * fu * x, initial=case['initial'])
    b = plane2(b, 1 / x)
    e = max(abs(G.strain_at(plane, p)) for s in spec['surfs']
            for p in s['outer'])
    for q in [p for s in spec['surfs'] for p in s['outer']]:
        req_close(G.strain_at(b, q), G.strain_at(a, q), f'strain at {q}', 0,
                  1e-6 * e * (1 + (r / d) ** 3 * 1e-3) + 1e-15)
    note(case, rec)


SUBS = [
    Sub('law', laws_, run_law, 1200, 20000, 'always', shards=2),
    Sub('integrate', linear, run_linear, 700, 15000, 'see rule', shards=5),
    Sub('fiber', fiber, run_linear, 250, 5000, 'see rule', shards=4),
    Sub('strength', solver, run_strength, 350, 8000, 'see rule', shards=5),
    Sub('domain', domains, run_domain, 150, 3000, 'see rule', shards=5),
    Sub('curve', curves, run_curve, 150, 3000, 'see rule', shards=5),
    Sub('plane', planes, run_plane, 300, 6000, 'see rule', shards=2),
]
