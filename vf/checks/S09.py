"""S09: calculate_strain_profile inverts integrate_strain_profile."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Reject, Sub, fail, req_close, require
from .N02 import rounding
from .S03 import calculator, reference

RULE = ('random sections, loads that are the resultants of a random strain '
        'plane or arbitrary, tangent and initial stiffness, tolerances and '
        'numbers of iterations; oracle: the plane itself (linear elastic '
        'sections: unique), reference resultants of the returned plane; '
        'non-trivial: two of the three loads are not 0, or a single one on '
        'a doubly symmetric section')
ASSUMPTIONS = [
    'the tolerance bounds the last change of strain: the unbalance is '
    'bounded with the initial stiffness, which no tangent exceeds',
    'nonlinear sections: giving up with an exception is allowed',
]
GIVE_UP = (StopIteration, np.linalg.LinAlgError)


def planes(draw, spec, limit):
    """A plane with strains of at most limit in the section."""
    x0, x1, y0, y1 = G.extents(spec)
    th = draw(st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi]),
                        L.fl(-math.pi, math.pi)))
    g = (-math.sin(th), math.cos(th))
    v = [x * g[0] + y * g[1] for x in (x0, x1) for y in (y0, y1)]
    if spec['surfs'][0]['outer'][0] == [x1, y1] and x0 == -x1 and y0 == -y1:
        # symmetric about the origin: single components
        p = [draw(L.fl(-limit, limit)), 2 * draw(L.fl(-limit, limit)) / y1,
             2 * draw(L.fl(-limit, limit)) / x1]
        use = draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1),
                                    (0, 0, 1), (1, 0, 1), (0, 1, 1)]))
        return [a if k else 0.0 for a, k in zip(p, use)]
    a, b = draw(L.fl(-limit, limit)), draw(L.fl(-limit, limit))
    k = (b - a) / (max(v) - min(v))
    e0 = a - k * min(v)
    return [e0, k * math.cos(th), k * math.sin(th)]


# ------------------------------------------------------------------- elastic
@st.composite
def elastic(draw):
    kind = draw(st.sampled_from(['elastic', 'steel']))
    if kind == 'elastic':
        s = draw(G.any_section(law=st.one_of(
            st.integers(10, 300).map(
                lambda v: {'t': 'elastic', 'E': v * 1000.0, 'eps_u': None}),
            L.elastic(with_eps_u=False).filter(
                lambda q: 1e2 < q['E'] < 1e6))))
        lim = 10 ** draw(L.fl(-6, -2))
    else:
        s = draw(S.steel())
        law = s['mats'][0]['law']
        lim = 0.999 * law['fy'] / law['E'] * draw(L.fl(0.01, 1.0))
    s['kind'] = 'mixed'
    return {'sec': s, 'integ': draw(st.sampled_from(['marin', 'fiber'])),
            'mesh': draw(st.sampled_from([None, 0.004, 0.03])),
            'before': draw(st.sampled_from([None, None, 'integ'])),
            'plane': planes(draw, s, lim), 'lim': lim,
            'initial': draw(st.booleans()),
            'kw': draw(st.sampled_from([
                {}, {}, {'tol': 1e-9}, {'max_iter': 30}, {'max_iter': 5},
                {'tol': 1e-11, 'max_iter': 50}]))}


def condition(spec, K):
    """Condition of the stiffness with lengths measured by the size."""
    r, _ = G.size(spec)
    D = np.diag([1.0, 1.0 / r, 1.0 / r])
    return np.linalg.cond(D @ K @ D)


def run_elastic(case, rec):
    spec, plane = case['sec'], case['plane']
    c = calculator(case)
    loads = [float(v) for v in c.integrate_strain_profile(plane)]
    if case['integ'] == 'marin':
        ref = G.resultants(spec, plane)
        tn, tm = S.tol_force(spec, plane)
        for k in range(3):
            req_close(loads[k], ref[k], f'resultant {k}', 1e-9,
                      tm if k else tn)
    K = np.asarray(c.integrate_strain_profile(plane, 'modulus'), dtype=float)
    cond = condition(spec, K)
    if not cond < 1e7:
        raise Reject
    c = calculator(case)
    try:
        got = c.calculate_strain_profile(*loads, initial=case['initial'],
                                         **case['kw'])
    except GIVE_UP as e:
        # tolerances on the round-off of the strains
        if case['kw'].get('tol', 1e-6) < 1e-15 * cond * case['lim'] * 10:
            rec.label('round-off')
            return
        fail(f'no strain profile of a linear section: {e!r}')
    require(isinstance(got, list) and len(got) == 3, f'returned {got!r}')
    lim = max(abs(G.strain_at(plane, p)) for q in spec['surfs']
              for p in q['outer'])
    t = lim * (1e-9 + cond * rounding(spec, plane) * 1e-3 + cond * 1e-14)
    for q in spec['surfs']:
        for p in q['outer']:
            req_close(G.strain_at(got, p), G.strain_at(plane, p),
                      f'strain at {p} of {got}, loads {loads}, from plane '
                      f'{plane}', 1e-7, t)
    rec.nt(sum(abs(v) > 1e-6 for v in loads) >= 2)
    rec.label(case['integ'], 'initial' if case['initial'] else 'tangent')


# ----------------------------------------------------------------- nonlinear
def stable_laws():
    return st.one_of(S.rc(laws=('pr', 'pr', 'bl')), S.rc(
        laws=('pr', 'bl', 'sargin', 'pop'), prestress=False), S.steel(),
        S.src(), S.rc2(), S.mixed(), S.symmetric())


@st.composite
def nonlinear(draw):
    s = draw(stable_laws())
    lim = draw(st.sampled_from([3e-4, 1e-3, 1e-3, 2e-3, 4e-3, 2e-2]))
    c = {'sec': s, 'integ': draw(st.sampled_from(['marin', 'marin',
                                                  'fiber'])),
         'mesh': draw(st.sampled_from([None, 0.004, 0.03])),
         'before': draw(st.sampled_from([None, None, 'strength', 'integ'])),
         'plane': planes(draw, s, lim), 'initial': draw(st.booleans()),
         'factor': draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 3.0]))}
    c['kw'] = draw(st.sampled_from([
        {}, {'tol': 1e-9, 'max_iter': 60}, {'tol': 1e-12, 'max_iter': 150},
        {'tol': 1e-12, 'max_iter': 150}, {'max_iter': 40}]))
    return c


def run_nonlinear(case, rec):
    spec = case['sec']
    c = calculator(case)
    loads = [case['factor'] * float(v)
             for v in c.integrate_strain_profile(case['plane'])]
    K0 = np.asarray(c.integrate_strain_profile([0.0, 0.0, 0.0], 'modulus'),
                    dtype=float)
    try:
        got = c.calculate_strain_profile(*loads, initial=case['initial'],
                                         **case['kw'])
    except GIVE_UP:
        rec.label('gave up', spec['kind'] + ' gave up')
        return
    require(isinstance(got, list) and len(got) == 3
            and all(math.isfinite(v) for v in got), f'returned {got!r}')
    kw = case['kw']
    tol = kw.get('tol', 1e-6)
    ref, tn, tm = reference(case, got)
    res = np.array([loads[k] - float(ref[k]) for k in range(3)])
    # work of the unbalance: at most that of the last change of strain
    lam = np.linalg.eigvalsh(K0)
    if not lam[0] > 1e-13 * lam[-1]:
        raise Reject
    soft = any(m['law']['t'] in ('sargin', 'pop') or (
        m['law']['t'] == 'ini') for m in spec['mats'])
    bound = (6 if soft else 2.02) * math.sqrt(lam[-1]) * tol
    # round-off and linearised laws of the reference
    e = np.array([tn, tm, tm])
    w = np.abs(np.linalg.inv(K0))
    work = math.sqrt(max(res @ np.linalg.solve(K0, res), 0.0))
    extra = math.sqrt(e @ w @ e)
    require(work <= bound + extra, f'strain profile {got} is not in '
            f'equilibrium with {loads}: resultants {list(ref)} (unbalance '
            f'{work:.3g}, tolerance {bound:.3g} + {extra:.3g}, {case["kw"]}, '
            f'initial={case["initial"]})')
    rec.label('found', spec['kind'], f'tol{tol:.0e}',
              'initial' if case['initial'] else 'tangent')
    rec.nt(sum(abs(v) > 1e-6 for v in loads) >= 2 and tol < 1e-6
           or 0.0 in case['plane'])


# --------------------------------------------- loads that cannot be carried
@st.composite
def beyond(draw):
    s = draw(st.one_of(S.steel(), S.rc(laws=('pr', 'bl'), prestress=False)))
    return {'sec': s, 'integ': 'marin', 'mesh': None,
            'x': draw(L.fl(1.02, 5.0)), 'up': draw(st.booleans()),
            'm': [draw(L.fl(-0.3, 0.3)) for _ in range(2)],
            'initial': draw(st.booleans()),
            'kw': draw(st.sampled_from([{}, {'max_iter': 60},
                                        {'max_iter': 200, 'tol': 1e-9}]))}


def run_beyond(case, rec):
    spec = case['sec']
    c = calculator(case)
    # no stress exceeds the largest one: no plane has this axial force
    hi = lo = 0.0
    for parts, area in ((spec['surfs'], lambda q: G.area_moments(q)[0]),
                        (spec['bars'], G.bar_area)):
        for q in parts:
            law = spec['mats'][q['mat']]['law']
            if law['t'] == 'ep':
                s = law['fy'] + law['Eh'] * (law['eps_su']
                                             - law['fy'] / law['E'])
                lo -= s * area(q)
                hi += s * area(q)
            else:
                lo -= law['fc'] * area(q)
    n = case['x'] * (hi if case['up'] else lo)
    r, d = G.size(spec)
    loads = [n, case['m'][0] * abs(n) * d, case['m'][1] * abs(n) * d]
    try:
        got = c.calculate_strain_profile(*loads, initial=case['initial'],
                                         **case['kw'])
    except GIVE_UP:
        rec.nt()
        return
    fail(f'strain profile {got} for loads {loads} beyond the limits '
         f'({lo}, {hi})')


SUBS = [
    Sub('elastic', elastic, run_elastic, 900, 20000, 'two loads', shards=6),
    Sub('nonlinear', nonlinear, run_nonlinear, 700, 15000,
        'two loads, tolerance below the default', shards=6),
    Sub('beyond', beyond, run_beyond, 200, 4000, 'always', shards=2),
]
