"""N04: the tangent section stiffness is the Jacobian of the resultants."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from ..core import Reject, Sub, require
from .N02 import rounding

RULE = ('random sections and strain planes, both integrators; oracle: '
        'scan-line quadrature (marin) or fibre sums of independently built '
        'laws (fibre), K @ strain for elastic sections, and central '
        'differences of the resultants for laws without stress jumps inside '
        'the section; non-trivial: K is not zero and the section has bars, '
        'several parts, holes or a branch limit inside')
ASSUMPTIONS = [
    'bars at a branch limit may use either one-sided tangent',
    'where the stress of a surface jumps inside the section (ultimate '
    'strain), the matrix is the integral of the tangent modulus',
]


@st.composite
def strategy(draw, law=None):
    s = draw(G.any_section(law=law))
    return {'sec': s, 'plane': draw(G.plane_for(s)),
            'integrator': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
            'dir': [draw(st.integers(-10, 10)) / 10 for _ in range(3)]}


def scales(spec):
    r, _ = G.size(spec)
    return np.array([[1, r, r], [r, r * r, r * r], [r, r * r, r * r]])


def slack(spec, plane):
    """Ambiguity of tangents at limits: stiffness times area."""
    d = 0.0
    for b in spec['bars']:
        law = spec['mats'][b['mat']]['law']
        e = G.strain_at(plane, b['p'])
        o = L.tangent_options(law, e) + [G.tangent(law, e)]
        if L.smooth_distance(law, e) < 1e-11:
            o += [G.tangent(law, e - 1e-10), G.tangent(law, e + 1e-10)]
        d += (max(o) - min(o)) * G.bar_area(b)
    if plane[1] == plane[2] == 0:
        for s in spec['surfs']:
            law = spec['mats'][s['mat']]['law']
            o = L.tangent_options(law, plane[0]) + [G.tangent(law, plane[0])]
            d += (max(o) - min(o)) * G.area_moments(s)[0]
    return d


def e_scale(spec, plane):
    tot = 0.0
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        es = [G.strain_at(plane, p) for p in s['outer']]
        pts = es + [b * f for b in L.breaks(law) for f in (0.999, 1.001)
                    if min(es) - 1e-6 <= b <= max(es) + 1e-6]
        tot += max(abs(G.tangent(law, e)) for e in pts) \
            * G.area_moments(s)[0]
    for b in spec['bars']:
        law = spec['mats'][b['mat']]['law']
        tot += abs(G.tangent(law, G.strain_at(plane, b['p']))) * G.bar_area(b)
    return tot


def run(case, rec):
    spec, plane, integ = case['sec'], case['plane'], case['integrator']
    if G.far(spec, plane):
        raise Reject
    sec = G.section(spec, integ, 0.02 if integ == 'fiber' else None)
    calc = sec.section_calculator
    K = calc.integrate_strain_profile(list(plane), integrate='modulus')
    K = np.asarray(K)
    require(K.shape == (3, 3), f'stiffness has shape {K.shape}')
    S = scales(spec)
    EA = e_scale(spec, plane)
    rel = rounding(spec, plane)
    # laws with slopes far above the typical one (extended end segments)
    tol = (rel * EA + slack(spec, plane)) * S
    require((np.abs(K - K.T) <= 1e-9 * np.abs(K) + 1e-12 * EA * S).all(),
            f'stiffness is not symmetric: {K.tolist()}')
    if integ == 'marin':
        ref = G.stiffness(spec, plane)
        for s in spec['surfs']:
            law = spec['mats'][s['mat']]['law']
            tol = tol + L.marin_err(law)[1] * G.area_moments(s)[0] * S
    else:
        out = calc.integrator.integrate_strain_response_on_geometry(
            sec.geometry, list(plane), mesh_size=0.02)
        ref = np.zeros((3, 3))
        parts = [(np.atleast_1d(x), np.atleast_1d(y), np.atleast_1d(a),
                  spec['mats'][s['mat']]['law'])
                 for s, (x, y, a, _) in zip(spec['surfs'], out[-1])]
        parts += [(np.array([b['p'][0]]), np.array([b['p'][1]]),
                   np.array([G.bar_area(b)]), spec['mats'][b['mat']]['law'])
                  for b in spec['bars']]
        for x, y, a, law in parts:
            es = plane[0] - plane[2] * x + plane[1] * y
            t = np.array([G.tangent(law, e) for e in es])
            for e, ai in zip(es, a):
                o = L.tangent_options(law, e)
                if max(o) - min(o) > 0:
                    tol = tol + (max(o) - min(o)) * ai * S
            v = np.vstack([np.ones_like(x), y, -x])
            ref += (v * (t * a)) @ v.T
    require((np.abs(K - ref) <= tol).all(),
            lambda: f'{integ} stiffness {K.tolist()}, expected '
                    f'{ref.tolist()} (tolerance {tol.tolist()}) at {plane}')
    rec.label(integ)
    # elastic sections: K @ strain are the resultants
    if all(spec['mats'][q['mat']]['law']['t'] == 'elastic'
           for q in spec['surfs'] + spec['bars']):
        got = np.array([float(v) for v in calc.integrate_strain_profile(
            list(plane))])
        r, _ = G.size(spec)
        w = K @ np.array(plane)
        t = rel * (np.abs(K) @ np.abs(plane)) * np.array([1, 1, 1]) \
            + 1e-12 * G.force_scale(spec, plane) * np.array([1, r, r])
        require((np.abs(got - w) <= t).all(),
                f'elastic resultants {got.tolist()}, K @ strain {w.tolist()}')
        rec.label('elastic')
    # directional derivative by central differences
    r, d = G.size(spec)
    smooth = True
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        es = [G.strain_at(plane, p) for p in s['outer']]
        for b in L.breaks(law) + L.snap_points(law):
            if min(es) - 2e-4 <= b <= max(es) + 2e-4:
                smooth = False
    for b in spec['bars']:
        law = spec['mats'][b['mat']]['law']
        if L.smooth_distance(law, G.strain_at(plane, b['p'])) < 2e-4:
            smooth = False
    if smooth and any(case['dir']) and rel < 1e-7:
        h = 2e-6
        dv = np.array(case['dir']) * np.array([1.0, 1 / r, 1 / r]) / 3
        up = np.array([float(v) for v in calc.integrate_strain_profile(
            list(np.array(plane) + h * dv))])
        dn = np.array([float(v) for v in calc.integrate_strain_profile(
            list(np.array(plane) - h * dv))])
        num = (up - dn) / (2 * h)
        an = K @ dv
        F = G.force_scale(spec, plane)
        fac = np.array([1, r, r])
        t = (1e-3 * EA + 10 * rel * F / h) * fac
        t = t + sum(L.marin_err(spec['mats'][s['mat']]['law'])[1]
                    * G.area_moments(s)[0] for s in spec['surfs']) * fac * 2
        require((np.abs(num - an) <= t).all(),
                lambda: f'{integ}: difference quotient {num.tolist()}, '
                        f'K @ direction {an.tolist()} (tolerance '
                        f'{t.tolist()}) at {plane}')
        rec.label('difference-quotient')
    rec.nt(np.abs(K).max() > 0 and rel < 1e-6 and (
        bool(spec['bars']) or len(spec['surfs']) > 1
        or any(s['holes'] for s in spec['surfs']) or not smooth))


SUBS = [
    Sub('stiffness', strategy, run, 2000, 40000,
        'a section, strain plane and integrator', shards=5),
    Sub('elastic', lambda: strategy(L.elastic()), run, 500, 10000,
        'elastic sections', shards=2),
    Sub('basic', lambda: strategy(G.sect_law(0)), run, 1000, 20000,
        'laws that are not composed', shards=3),
]
