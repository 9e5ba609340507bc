"""S03: bending strength is a true ultimate state in equilibrium."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, req_close, require

RULE = ('random reinforced, composite and steel sections x theta x axial load '
        '(fraction of the admissible range), both integrators; oracle: '
        'reference resultants of the returned plane (independent of the '
        'integrators for marin), utilisation of every material point; '
        'non-trivial: theta is not a multiple of pi/2 or n is not 0')
ASSUMPTIONS = [
    'the ultimate-state part: sections whose parts agree on the governing '
    'limits; sections of arbitrary laws: equilibrium or an exception',
    'solver tolerance on N: 0.01',
]


def angles():
    return st.one_of(
        st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4,
                         2 * math.pi, 3 * math.pi / 2]),
        L.fl(-math.pi, math.pi), L.fl(-10, 10))


def fractions():
    return st.one_of(L.fl(0.02, 0.98), st.sampled_from(
        [0.001, 0.01, 0.99, 0.999, 0.5, 1e-5, 1e-6, 1 - 1e-5, 1 - 1e-6]),
        st.just(None))


@st.composite
def strategy(draw, sec=None):
    return {'sec': draw(sec if sec is not None else S.any_limited()),
            'integ': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
            'mesh': draw(st.sampled_from([None, 0.003, 0.02])),
            'theta': draw(angles()), 'f': draw(fractions()),
            'before': draw(st.sampled_from([None, None, 'strength', 'limit',
                                            'integ']))}


def load(case, c):
    """None: no axial load if admissible."""
    if case['f'] is None:
        if c.n_min < 0 < c.n_max:
            return 0.0
        return c.n_min + 0.5 * (c.n_max - c.n_min)
    return c.n_min + case['f'] * (c.n_max - c.n_min)


def calculator(case):
    spec, integ = case['sec'], case['integ']
    sec = G.section(spec, integ, case['mesh'] if integ == 'fiber' else None)
    c = sec.section_calculator
    b = case.get('before')
    if b == 'strength':
        try:
            c.calculate_bending_strength(1.1, 0.5 * (c.n_min + c.n_max))
        except ValueError:
            if spec['kind'] != 'mixed':
                raise
    elif b == 'limit':
        c.calculate_limit_axial_load()
    elif b == 'integ':
        c.integrate_strain_profile([1e-4, 1e-7, -1e-7])
    return c


def reference(case, plane):
    """(N, My, Mz) of a plane and the tolerances (N, M)."""
    spec, integ = case['sec'], case['integ']
    if integ == 'marin':
        tn, tm = S.tol_force(spec, plane)
        if spec['kind'] != 'mixed':
            # materials at their ultimate strain carry its stress
            k = 1e-9
            q = [v * (1 - k) for v in plane]
            ref = G.resultants(spec, q)
            e = 2 * k * np.abs(G.stiffness(spec, q)) @ np.abs(plane)
            dn, dm = snapped(spec, q)
            # edges of what has failed already
            d = np.abs(np.subtract(G.resultants(spec, q, False),
                                   G.resultants(spec, plane, False)))
            return (ref, tn + e[0] + dn + 2 * d[0],
                    tm + max(e[1:]) + dm + 2 * max(d[1:]))
        ref = G.resultants(spec, plane)
    else:
        fresh = G.section(spec, integ, case['mesh']).section_calculator
        ref = [float(v) for v in fresh.integrate_strain_profile(plane)]
        tn, tm = S.tol_force(spec, plane, err=False)
        # fibres next to a kink
        tm += 1e-9 * G.force_scale(spec, plane) * G.size(spec)[0]
    dn, dm = S.steps(spec, plane)
    return ref, tn + dn, tm + dm


def snapped(spec, plane):
    """Resultants of the change of strain of bars that are so close to their
    limit that they count as there."""
    dn = dm = 0.0
    for b in spec['bars']:
        law = spec['mats'][b['mat']]['law']
        e = G.strain_at(plane, b['p'])
        for p in L.ult(law):
            if abs(e - p) <= 1.5 * L.snap_tol(p):
                x = G.bar_area(b) * abs(
                    S.inner(law, p, 0) - L.raw(law, e)[0])
                # on the outside only the stress of the limit is right
                if abs(e) <= abs(p):
                    dn += x
                    dm += x * max(abs(v) for v in b['p'])
    return dn, dm


def jump_at_limits(case):
    """Axial force between the strain limits and the strains that count as
    the limits (single points: bars and fibres)."""
    spec, d = case['sec'], 0.0
    parts = [(q, G.bar_area(q)) for q in spec['bars']]
    if case['integ'] == 'fiber':
        parts += [(q, abs(G.area_moments(q)[0])) for q in spec['surfs']]
    for q, area in parts:
        law = spec['mats'][q['mat']]['law']
        d += area * max(abs(S.inner(law, p, 0) - L.raw(
            law, p - math.copysign(L.snap_tol(p), p))[0]) for p in L.ult(law))
    return d


def in_equilibrium(case, plane, n, m, what):
    ref, tn, tm = reference(case, plane)
    req_close(ref[0], n, f'{what}: axial force of plane {plane}', 0,
              1e-2 + tn)
    if m is not None:
        for k, x in enumerate(('my', 'mz')):
            req_close(m[k], ref[k + 1], f'{what}: {x} of plane {plane}', 0,
                      1e-9 * abs(ref[k + 1]) + tm)
    return ref, tn, tm


def inclined(chi, theta, what):
    """The curvature vector is a negative multiple of (cos, sin)."""
    k = math.hypot(*chi)
    c, s = math.cos(theta), math.sin(theta)
    require(abs(chi[0] * s - chi[1] * c) <= 1e-9 * k + 1e-20,
            f'{what}: curvature {chi} is not inclined by {theta}')
    return chi[0] * c + chi[1] * s


def run(case, rec, ultimate=True):
    spec, th = case['sec'], case['theta']
    c = calculator(case)
    n = load(case, c)
    try:
        r = c.calculate_bending_strength(theta=th, n=n)
    except ValueError:
        # the search ends at a curvature of 1e-13
        area = sum(G.area_moments(q)[0] for q in spec['surfs']) + sum(
            G.bar_area(q) for q in spec['bars'])
        flat = 1e-12 * 2 * sum(G.size(spec)) * 220e3 * area + 0.05
        # the stress jumps where strains start to count as the limit
        flat += jump_at_limits(case)
        if ultimate and c.n_min + flat < n < c.n_max - flat:
            raise
        rec.label('raised')
        return
    plane = [float(r.eps_a), float(r.chi_y), float(r.chi_z)]
    what = f'theta {th}, n {n}'
    require(all(math.isfinite(v) for v in plane), f'{what}: {plane}')
    in_equilibrium(case, plane, n, (float(r.m_y), float(r.m_z)), what)
    req_close(r.n, n, f'{what}: reported axial force', 1e-9, 1.01e-2)
    req_close(r.theta, th, 'reported theta', 0)
    chi = inclined(plane[1:], th, what)
    rec.label(spec['kind'], case['integ'],
              'n=0' if n == 0 else 'n<0' if n < 0 else 'n>0')
    rec.nt(n != 0 or abs(math.sin(2 * th)) > 1e-6)
    if not ultimate:
        return
    require(chi < 0, f'{what}: curvature {chi} stretches the top fibre')
    u, uc, ut = S.utilisation(spec, plane, th)
    r_, d = G.size(spec)
    tol = 1e-9 * (1 + r_ / d)
    require(u <= 1 + tol, f'{what}: strain {u} times the ultimate one in '
            f'plane {plane} (compression {uc}, tension {ut})')
    require(u >= 1 - tol, f'{what}: no material reaches its ultimate strain: '
            f'largest ratio {u} in plane {plane}')
    rec.label('compression' if uc > ut else 'tension')


def run_mixed(case, rec):
    run(case, rec, ultimate=False)


def run_defaults(case, rec):
    """Default arguments are theta = 0, n = 0."""
    c = calculator(case)
    if not c.n_min < 0 < c.n_max:
        return
    rec.nt()
    a = c.calculate_bending_strength()
    b = c.calculate_bending_strength(0.0, 0.0)
    d = c.calculate_bending_strength(n=0.0, theta=0.0)
    for k in ('theta', 'n', 'm_y', 'm_z', 'chi_y', 'chi_z', 'eps_a'):
        s = abs(float(getattr(b, 'm_y'))) * 1e-9 if k in ('m_y', 'm_z') else 0
        for o in (a, d):
            req_close(getattr(o, k), getattr(b, k), f'{k} with defaults',
                      1e-9, s + 1e-15)


SUBS = [
    Sub('ultimate', lambda: strategy(), run, 1200, 24000,
        'inclined or loaded', shards=8),
    Sub('mixed', lambda: strategy(S.mixed()), run_mixed, 400, 8000,
        'inclined or loaded', shards=4),
    Sub('defaults', lambda: strategy(), run_defaults, 60, 600, 'n = 0'),
]
