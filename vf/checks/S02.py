"""S02: limit axial loads are the resultants of the limit uniform strains."""
import math

from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Reject, Sub, must_raise, req_close, require

RULE = ('random reinforced, composite and steel sections with unambiguous '
        'limits, both integrators, rotated copies and orders of calls; '
        'oracle: areas times reference stresses at the smallest ultimate '
        'strains; non-trivial: at least two materials, or a rejected load')
ASSUMPTIONS = [
    'sections whose parts agree on which strain limit governs (see DESIGN)',
    'loads within round-off of a limit may be accepted or rejected',
]


@st.composite
def strategy(draw, **kw):
    return {'sec': draw(S.any_limited(**kw)),
            'integ': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
            'order': draw(st.lists(st.sampled_from(
                ['n_min', 'n_max', 'limit', 'strength', 'check', 'integ',
                 'gross']), min_size=1, max_size=5)),
            'theta': draw(L.fl(-7, 7)),
            'f': draw(L.fl(0.05, 0.95))}


def expected(spec, integ):
    a, b = S.limits(spec)
    lo, hi = S.uniform_force(spec, a, -1), S.uniform_force(spec, b, 1)
    tl = S.tol_force(spec, (a, 0.0, 0.0), err=integ == 'marin')[0]
    th = S.tol_force(spec, (b, 0.0, 0.0), err=integ == 'marin')[0]
    return lo, hi, tl, th


def run(case, rec):
    spec, integ = case['sec'], case['integ']
    lo, hi, tl, th = expected(spec, integ)
    sec = G.section(spec, integ)
    c = sec.section_calculator
    n = lo + case['f'] * (hi - lo)
    for o in case['order']:
        if o == 'n_min':
            c.n_min
        elif o == 'n_max':
            c.n_max
        elif o == 'limit':
            r = c.calculate_limit_axial_load()
            require(len(r) == 2, f'{len(r)} limits')
            req_close(r[0], lo, 'calculated n_min', 0, tl)
            req_close(r[1], hi, 'calculated n_max', 0, th)
        elif o == 'strength':
            c.calculate_bending_strength(case['theta'], n)
        elif o == 'check':
            require(c.check_axial_load(n) is None, 'a result')
        elif o == 'integ':
            c.integrate_strain_profile([1e-4, 1e-7, -1e-7])
        else:
            sec.gross_properties
    req_close(c.n_min, lo, 'n_min', 0, tl)
    req_close(c.n_max, hi, 'n_max', 0, th)
    require(c.n_min <= c.n_max, f'n_min {c.n_min} > n_max {c.n_max}')
    # limits do not depend on the orientation
    rot = G.section(spec, integ,
                    geo=G.geometry(spec).rotate(case['theta'])
                    ).section_calculator
    req_close(rot.n_max, c.n_max, 'n_max of the rotated section', 0, 2 * th)
    req_close(rot.n_min, c.n_min, 'n_min of the rotated section', 0, 2 * tl)
    rec.nt(len(spec['mats']) > 1)
    rec.label(spec['kind'], integ, f'orders{len(case["order"])}')


@st.composite
def loads(draw):
    c = draw(strategy(hi=800))
    c['out'] = draw(st.booleans())
    c['side'] = draw(st.sampled_from(['min', 'max']))
    c['x'] = draw(st.one_of(st.sampled_from([1e-6, 1e-4, 1e-3]),
                            L.fl(1e-6, 3.0)))
    c['m'] = draw(st.sampled_from(['strength', 'strength', 'curvature', 'mm',
                                   'check', 'given']))
    c['first'] = draw(st.booleans())
    return c


def run_loads(case, rec):
    spec, integ = case['sec'], case['integ']
    lo, hi, tl, th = expected(spec, integ)
    x = case['x']
    if not case['out']:
        # close to a limit the solver may give up (law tolerances)
        x = min(x if case['m'] == 'check' else max(x, 1e-3), 0.5)
    m = x * (hi - lo) + 1.0
    if m <= 2 * (tl + th) or (not case['out'] and 2 * m > hi - lo):
        raise Reject
    sgn = 1 if case['out'] == (case['side'] == 'max') else -1
    n = (lo if case['side'] == 'min' else hi) + sgn * m
    c = G.section(spec, integ).section_calculator
    if case['first']:
        c.calculate_bending_strength(0.3, lo + 0.4 * (hi - lo))
    k, t = case['m'], case['theta']
    fn = {
        'strength': lambda: c.calculate_bending_strength(theta=t, n=n),
        'curvature': lambda: c.calculate_moment_curvature(
            theta=t, n=n, num_pre_yield=2, num_post_yield=1),
        'mm': lambda: c.calculate_mm_interaction_domain(n=n, num_theta=2),
        'check': lambda: c.check_axial_load(n),
        'given': lambda: c.calculate_moment_curvature(
            theta=t, n=n, chi=[-1e-8]),
    }[k]
    what = (f'{k} with n = {n} (limits {lo} {hi})')
    rec.label(k, 'outside' if case['out'] else 'inside', case['side'], integ,
              spec['kind'])
    rec.nt()
    if case['out']:
        must_raise(ValueError, fn, what)
        return
    try:
        fn()
    except ValueError:
        if k in ('curvature', 'given'):
            # not an admissible load, or the solver gave up (S06)
            c.check_axial_load(n)
            return
        raise


def run_signs(case, rec):
    """Symmetric steel laws: n_min = -n_max."""
    spec = case['sec']
    c = G.section(spec, case['integ']).section_calculator
    t = expected(spec, case['integ'])[3]
    req_close(c.n_min, -c.n_max, 'n_min of a symmetric law', 0, t)
    law = spec['mats'][0]['law']
    su = law['eps_su']
    ey = law['fy'] / law['E']
    A = abs(G.area_moments(spec['surfs'][0])[0])
    req_close(c.n_max, A * (law['fy'] + law['Eh'] * (su - ey)), 'n_max', 1e-9,
              t)
    rec.nt(math.isfinite(A))


SUBS = [
    Sub('limits', lambda: strategy(), run, 700, 15000, 'two materials',
        shards=6),
    Sub('loads', loads, run_loads, 500, 10000, 'always', shards=6),
    Sub('steel', lambda: st.fixed_dictionaries({
        'sec': S.steel(), 'integ': st.sampled_from(['marin', 'fiber'])}),
        run_signs, 200, 4000, 'always'),
]
