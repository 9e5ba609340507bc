"""S08: N-My-Mz and My-Mz domains agree with the single-axis results."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, must_raise, req_close, require
from .S03 import calculator, in_equilibrium, inclined, load, reference
from .S07 import DEF, kwargs, numbers, strategy as domain_args

RULE = ('random sections x numbers of directions x discretisation; oracle: '
        'calculate_nm_interaction_domain and calculate_bending_strength of '
        'a freshly built section at every direction, and reference '
        'resultants of every strain plane; non-trivial: at least three '
        'directions')
ASSUMPTIONS = ['directions: num_theta equal steps from 0 to 2 pi, both '
               'included', 'solver tolerance on N: 0.01']


def directions(k):
    return [0.0] if k == 1 else [2 * math.pi * i / (k - 1) for i in range(k)]


@st.composite
def nmm(draw):
    c = draw(domain_args())
    c.pop('theta'), c.pop('complete')
    c['k'] = draw(st.integers(1, 9))
    if draw(st.integers(0, 19)) == 11:
        c['k'] = draw(st.integers(10, 70))
        c['num'] = [2] * 6
        c.pop('types', None)
    c.setdefault('num', list(DEF))
    c['num'] = [min(v, 4) for v in c['num']]
    if 'total' in c:
        c['total'] = min(c['total'], 40)
    return c


def run_nmm(case, rec):
    spec, k = case['sec'], case['k']
    c = calculator(case)
    d = c.calculate_nmm_interaction_domain(num_theta=k, **kwargs(case))
    nums = numbers(case)
    N = sum(nums)
    require(d.num_theta == k, f'num_theta {d.num_theta}')
    for q in ('strains', 'forces'):
        require(np.shape(getattr(d, q)) == (N * k, 3),
                f'{q} of shape {np.shape(getattr(d, q))}: {k} directions of '
                f'{N} points')
    S.accessors(d)
    one = [int(v) for v in np.repeat(range(1, 7), nums)]
    require([int(v) for v in d.field_num] == one * k,
            f'field numbers {list(d.field_num)}')
    fresh = calculator(dict(case, before=None))
    r, _ = G.size(spec)
    for i, th in enumerate(directions(k)):
        e = fresh.calculate_nm_interaction_domain(th, **kwargs(case))
        for j in range(N):
            p = [float(v) for v in d.strains[i * N + j]]
            q = [float(v) for v in e.strains[j]]
            for a in spec['surfs']:
                for x in a['outer']:
                    req_close(G.strain_at(p, x), G.strain_at(q, x),
                              f'direction {i} of {k}, point {j}: strain at '
                              f'{x}', 1e-9, 1e-13 * r * math.hypot(*q[1:])
                              + 1e-13)
            ref, tn, tm = reference(case, p)
            f = d.forces[i * N + j]
            for m in range(3):
                t = tm if m else tn
                req_close(f[m], e.forces[j][m], f'direction {i} of {k}, '
                          f'point {j}: force {m}', 1e-9, 2 * t)
                req_close(f[m], ref[m], f'direction {i} of {k}, point {j}: '
                          f'integrated force {m}', 1e-9, t)
    rec.nt(k >= 3)
    rec.label(spec['kind'], case['integ'],
              'total' if 'total' in case else 'fields')


@st.composite
def mm(draw):
    return {'sec': draw(S.any_limited()),
            'integ': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
            'mesh': draw(st.sampled_from([None, 0.004, 0.02])),
            'f': draw(st.one_of(L.fl(0.02, 0.98), st.just(None))),
            'before': draw(st.sampled_from([None, None, 'strength', 'limit',
                                            'integ'])),
            'k': draw(st.integers(1, 12))}


def run_mm(case, rec):
    spec, k = case['sec'], case['k']
    c = calculator(case)
    n = load(case, c)
    d = c.calculate_mm_interaction_domain(n=n, num_theta=k)
    require(d.num_theta == k, f'num_theta {d.num_theta}')
    ths = directions(k)
    require(len(d.theta) == k and np.allclose(d.theta, ths, rtol=1e-12,
                                              atol=1e-12),
            f'directions {d.theta}')
    for q in ('strains', 'forces'):
        require(np.shape(getattr(d, q)) == (k, 3),
                f'{q} of shape {np.shape(getattr(d, q))}, {k} directions')
    S.accessors(d)
    fresh = calculator(dict(case, before=None))
    for i, th in enumerate(ths):
        p = [float(v) for v in d.strains[i]]
        f = [float(v) for v in d.forces[i]]
        what = f'direction {i} of {k}, n {n}'
        req_close(f[0], n, f'{what}: axial force', 0)
        inclined(p[1:], th, what)
        _, tn, tm = in_equilibrium(case, p, n, f[1:], what)
        b = fresh.calculate_bending_strength(th, n)
        # the same bisection
        q = [float(b.eps_a), float(b.chi_y), float(b.chi_z)]
        s = max(abs(G.strain_at(q, x)) for a in spec['surfs']
                for x in a['outer'])
        for a in spec['surfs']:
            for x in a['outer']:
                req_close(G.strain_at(p, x), G.strain_at(q, x), f'{what}: '
                          f'strain at {x}', 1e-6, 1e-7 * s)
        for m, v in ((1, b.m_y), (2, b.m_z)):
            req_close(f[m], v, f'{what}: moment {m}', 1e-6,
                      2 * tm + 1e-6 * abs(f[3 - m])
                      + 1e-7 * G.force_scale(spec, p) * G.size(spec)[0])
    rec.nt(k >= 3)
    rec.label(spec['kind'], case['integ'],
              'n=0' if n == 0 else 'n<0' if n < 0 else 'n>0')


def run_out(case, rec):
    """A load that no direction can carry."""
    c = calculator(case)
    w = c.n_max - c.n_min
    n = (c.n_max + 0.3 * w * case['x'] if case['up'] else
         c.n_min - 0.3 * w * case['x'])
    must_raise(ValueError, lambda: c.calculate_mm_interaction_domain(
        n=n, num_theta=case['k']), f'My-Mz domain at n = {n}')
    rec.nt()


@st.composite
def out(draw):
    c = draw(mm())
    c['x'] = draw(L.fl(0.01, 3.0))
    c['up'] = draw(st.booleans())
    return c


def run_defaults(case, rec):
    """32 directions, the fields of the N-M domain; n = 0."""
    c = calculator(case)
    d = c.calculate_nmm_interaction_domain()
    require(len(d.strains) == 32 * 35 and d.num_theta == 32,
            f'{len(d.strains)} points by default')
    if c.n_min < 0 < c.n_max:
        m = c.calculate_mm_interaction_domain()
        require(len(m.strains) == 32 and not m.forces[:, 0].any(),
                'default My-Mz domain')
    rec.nt()


SUBS = [
    Sub('nmm', nmm, run_nmm, 100, 2500, 'three directions', shards=8),
    Sub('mm', mm, run_mm, 200, 5000, 'three directions', shards=6),
    Sub('outside', out, run_out, 60, 1000, 'always'),
    Sub('defaults', lambda: st.fixed_dictionaries({
        'sec': S.rc(holes=False), 'integ': st.just('marin'),
        'mesh': st.just(None)}), run_defaults, 6, 60, 'always'),
]
