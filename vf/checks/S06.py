"""S06: every point of a moment-curvature result is in equilibrium."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, req_close, require
from .S03 import angles, calculator, in_equilibrium, inclined, load

RULE = ('random reinforced, composite and steel sections x theta x axial '
        'load, both integrators, default and given curvatures; oracle: '
        'reference resultants of every returned plane, the ultimate '
        'curvature of calculate_bending_strength, utilisation of the yield '
        'strains; non-trivial: at least three points')
ASSUMPTIONS = [
    'solver tolerance on N: 0.01',
    'given curvatures without a plane in equilibrium may raise ValueError',
    'yield point: sections whose parts agree on the yield strains, and only '
    'when the load can be carried at yield',
]


@st.composite
def strategy(draw, sec=None):
    return {'sec': draw(sec if sec is not None else S.any_limited()),
            'integ': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
            'mesh': draw(st.sampled_from([None, 0.004, 0.02])),
            'theta': draw(angles()),
            'f': draw(st.one_of(L.fl(0.03, 0.97), st.just(None))),
            'before': draw(st.sampled_from([None, None, 'strength', 'limit',
                                            'integ'])),
            'pre': draw(st.sampled_from([2, 3, 5, 10, None])),
            'post': draw(st.sampled_from([1, 2, 4, 10, None])),
            'first': draw(st.sampled_from([None, None, 1e-8, -1e-8, 1e-7,
                                           1e-3, -1e-9]))}


def arrays(r, n):
    for k in ('eps_axial', 'chi_y', 'chi_z', 'm_y', 'm_z'):
        v = getattr(r, k)
        require(len(v) == n, f'{len(v)} values of {k}, expected {n}')
        require(all(math.isfinite(float(x)) for x in v), f'{k} = {v}')


def check_points(case, r, n, th, chi, rec):
    """chi: the signed curvatures along theta."""
    req_close(r.theta, th, 'reported theta', 0)
    req_close(r.n, n, 'reported axial force', 0)
    for i in range(len(chi)):
        plane = [float(r.eps_axial[i]), float(r.chi_y[i]),
                 float(r.chi_z[i])]
        what = f'point {i} of {len(chi)}, theta {th}, n {n}'
        in_equilibrium(case, plane, n, (float(r.m_y[i]), float(r.m_z[i])),
                       what)
        req_close(plane[1], chi[i] * math.cos(th), f'{what}: chi_y', 1e-9,
                  1e-12 * abs(chi[i]) + 1e-300)
        req_close(plane[2], chi[i] * math.sin(th), f'{what}: chi_z', 1e-9,
                  1e-12 * abs(chi[i]) + 1e-300)
    rec.nt(len(chi) > 2)


def yield_limits(spec, q, bar):
    """Strains at which a part counts as yielding."""
    law = spec['mats'][q['mat']]['law']
    a, b = L.ult(law, True)
    if S.is_rc(spec) and (bar or not q.get('concrete')):
        a = L.ult(law)[0]
    return a, b


def yield_use(spec, plane):
    """Largest ratio of strain to yield strain; with several yield strains
    (the one that is farther away may govern) the ratio closest to 1."""
    us = [-math.inf]
    for bar, parts in ((False, spec['surfs']), (True, spec['bars'])):
        for q in parts:
            a, b = yield_limits(spec, q, bar)
            for p in ([q['p']] if bar else q['outer']):
                e = G.strain_at(plane, p)
                for lim in (a, b):
                    # limits of the same sign: prestressed beyond yield
                    us.append(e / lim if lim else -math.inf)
    if spec['kind'] == 'steel' and len({
            L.ult(m['law'], True) for m in spec['mats']}) > 1:
        return min(us, key=lambda v: abs(v - 1))
    return max(us)


def run(case, rec):
    spec, th = case['sec'], case['theta']
    c = calculator(case)
    n = load(case, c)
    kw = {}
    pre, post = 10, 10
    if case['pre'] is not None:
        kw['num_pre_yield'] = pre = case['pre']
    if case['post'] is not None:
        kw['num_post_yield'] = post = case['post']
    if case['first'] is not None:
        kw['chi_first'] = case['first']
    try:
        r = c.calculate_moment_curvature(theta=th, n=n, **kw)
    except ValueError:
        # the search may miss the solution close to the limit loads
        if 0.05 <= share(c, n) <= 0.95:
            raise
        rec.label('raised')
        return
    s = c.calculate_bending_strength(theta=th, n=n)
    ku = inclined([float(s.chi_y), float(s.chi_z)], th, 'strength')
    N = len(r.m_y)
    require(N in (pre, pre + post), f'{N} points for {pre} + {post}')
    arrays(r, N)
    what = f'theta {th}, n {n}'
    chi = [inclined([float(a), float(b)], th, what)
           for a, b in zip(r.chi_y, r.chi_z)]
    check_points(case, r, n, th, chi, rec)
    require(all(v < 0 for v in chi), f'{what}: curvatures {chi}')
    require(all(b <= a * (1 - 1e-9) for a, b in zip(chi, chi[1:])),
            f'{what}: curvatures {chi} do not grow')
    ky = chi[pre - 1]
    first = abs(case['first'] if case['first'] is not None else 1e-8)
    exp = first if first < abs(ky) else abs(ky) / pre
    req_close(chi[0], -exp, 'first curvature', 1e-9)
    steps(chi[:pre], 'before yield')
    if N == pre + post:
        req_close(chi[-1], ku, f'{what}: last curvature', 1e-9)
        steps(chi[pre - 1:], 'after yield')
        # the last point is the bending strength
        plane = [float(s.eps_a), float(s.chi_y), float(s.chi_z)]
        rec.label('post')
    else:
        require(abs(ky) >= abs(ku) - 1.01e-8, f'{what}: the curve ends at '
                f'{ky}, before the ultimate curvature {ku}')
        rec.label('no post')
    rec.label(spec['kind'], case['integ'],
              'n=0' if n == 0 else 'n<0' if n < 0 else 'n>0')
    # the point at yield
    # (prestressed: there may be other planes, with crushed concrete)
    if (spec['kind'] not in ('rc', 'steel') or case['integ'] != 'marin'
            or any(m['law']['t'] == 'ini' for m in spec['mats'])):
        return
    plane = [float(r.eps_axial[pre - 1]), float(r.chi_y[pre - 1]),
             float(r.chi_z[pre - 1])]
    # the plane is known to dn / (dN/de): at most 1e-2 N either side
    K = abs(G.stiffness(spec, plane)[0, 0])
    ds = 3e-2 / K if K > 0 else math.inf
    e = [b for q in spec['mats'] for b in L.ult(q['law'], True) if b]
    tol = ds / min(abs(v) for v in e) + 1e-6
    u = yield_use(spec, plane)
    if abs(ky) * G.size(spec)[1] < 1e-7 or tol > 0.05:
        rec.label('no yield')
        return
    if S.utilisation(spec, plane, th)[0] > 1:
        # another plane in equilibrium, with a failed material
        rec.label('failed branch')
        return
    require(abs(u - 1) <= tol, f'{what}: the largest ratio to a yield strain '
            f'is {u} at point {pre} of {N}, plane {plane}')
    rec.label('yield')


def steps(chi, what):
    d = np.diff(chi)
    if len(d) > 1:
        require(np.abs(d - d.mean()).max() <= 1e-9 * abs(chi[-1]),
                f'uneven curvatures {what}: {chi}')


# --------------------------------------------------------- given curvatures
@st.composite
def given_(draw, sec=None):
    c = draw(strategy(sec))
    for k in ('pre', 'post', 'first'):
        c.pop(k)
    c['f'] = draw(st.one_of(L.fl(0.05, 0.95), st.just(None)))
    c['k'] = draw(st.lists(st.one_of(
        L.fl(-1.0, 1.0).map(lambda v: round(v, 6)),
        st.sampled_from([0.0, 1.0, 0.5, -0.5, 1e-6])),
        min_size=1, max_size=6))
    if draw(st.integers(0, 19)) == 9:  # many curvatures
        k = draw(st.integers(7, 60))
        c['k'] = [round((i * 7 % k) / k - 0.3, 6) for i in range(k)]
    c['form'] = draw(st.sampled_from(['list', 'tuple', 'array', 'float32',
                                      'int']))
    return c


def run_given(case, rec):
    """Shares k of the ultimate curvature (of either direction)."""
    spec, th = case['sec'], case['theta']
    c = calculator(case)
    n = load(case, c)
    try:
        s = c.calculate_bending_strength(th, n)
        o = c.calculate_bending_strength(th + math.pi, n)
    except ValueError:
        if spec['kind'] != 'mixed':
            raise
        rec.label('no strength')
        return
    ku = math.hypot(float(s.chi_y), float(s.chi_z))
    ko = math.hypot(float(o.chi_y), float(o.chi_z))
    # negative curvatures stretch the bottom
    chi = [(-ku if f > 0 else ko) * abs(f) for f in case['k']]
    form = case['form']
    if form == 'int':
        chi = [0]
        arg = chi
    elif form == 'float32':
        arg = np.array(chi, dtype=np.float32)
        chi = [float(v) for v in arg]
    elif form == 'array':
        arg = np.array(chi)
    else:
        arg = tuple(chi) if form == 'tuple' else list(chi)
    keep = np.array(arg, copy=True)
    try:
        r = c.calculate_moment_curvature(th, n, chi=arg, num_pre_yield=7,
                                         num_post_yield=3, chi_first=1e-3)
    except ValueError:
        rec.label('raised', 'raised ' + spec['kind'])
        # a soft law, a jump, or next to failure
        if (spec['kind'] != 'mixed' and case['integ'] == 'marin'
                and 0.1 < share(c, n) < 0.9
                and max(abs(f) for f in case['k']) < 0.95):
            raise
        return
    require(bool((np.asarray(arg) == keep).all()), 'chi was modified')
    arrays(r, len(chi))
    check_points(case, r, n, th, chi, rec)
    rec.label(form, spec['kind'])


def share(c, n):
    return (n - c.n_min) / (c.n_max - c.n_min)


def hard(spec):
    return all(m['law']['t'] in ('pr', 'bl', 'ep') for m in spec['mats'])


SUBS = [
    Sub('default', lambda: strategy(), run, 330, 6000, 'see rule',
        shards=10),
    Sub('given', lambda: given_(), run_given, 330, 6000, 'see rule',
        shards=6),
    Sub('mixed', lambda: given_(S.mixed()), run_given, 150, 4000, 'see rule',
        shards=3),
]
