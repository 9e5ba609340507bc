"""S07: N-M domain points are ultimate states of the section."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, must_raise, req_close, require
from .S03 import angles, calculator, inclined, reference
from .S04 import nonsoft, sensitivity

RULE = ('random reinforced, composite and steel sections x theta x '
        'discretisation (numbers, spacings, total, complete domain), both '
        'integrators; oracle: reference resultants of every plane, pivots '
        'and limits from the strains of the laws and the coordinates, '
        'bending strength at the axial forces of the domain; non-trivial: '
        'at least 6 points')
ASSUMPTIONS = [
    'sections whose parts agree on the governing limits',
    'in reinforced concrete under overall compression (field 6) the '
    'ultimate strain is the one of the concrete in uniform compression at '
    'the usual pivot point',
]
SPACE = ['linear', 'geometric', 'quadratic']
DEF = [1, 2, 15, 10, 3, 4]
TYPES = ['linear', 'linear', 'geometric', 'linear', 'linear', 'linear']


@st.composite
def strategy(draw, sec=None):
    c = {'sec': draw(sec if sec is not None else S.any_limited()),
         'integ': draw(st.sampled_from(['marin', 'marin', 'fiber'])),
         'mesh': draw(st.sampled_from([0.004, 0.02])),
         'theta': draw(angles()),
         'before': draw(st.sampled_from([None, None, 'strength', 'limit',
                                         'integ'])),
         'complete': draw(st.booleans())}
    if draw(st.integers(0, 3)):
        c['num'] = [draw(st.integers(1, 5)) for _ in range(5)]
        c['num'].append(draw(st.integers(2, 5)))
        if draw(st.booleans()):
            c['types'] = [draw(st.sampled_from(SPACE)) for _ in range(6)]
            # a geometric spacing to or from 0 needs a second point
            c['num'] = [max(2, v) for v in c['num']]
            c['num'][5] = max(3, c['num'][5])
    if draw(st.integers(0, 3)) == 0:
        c['total'] = draw(st.integers(1, 60))
    elif draw(st.integers(0, 14)) == 7:
        c['num'] = [draw(st.integers(3, 24)) for _ in range(6)]
    return c


def kwargs(case):
    kw = {}
    for i, v in enumerate(case.get('num', [])):
        kw[f'num_{i + 1}'] = v
    for i, v in enumerate(case.get('types', [])):
        kw[f'type_{i + 1}'] = v
    if 'total' in case:
        kw['num'] = case['total']
    return kw


def numbers(case):
    n = list(case.get('num', DEF))
    if 'total' in case:
        n = [max(int(case['total'] / 35 * d), m) for d, m in zip(DEF, n)]
    return n


def balanced(spec, theta, yielding):
    """(z_n, z_p, eps_n, eps_p): the failure of both sides with the smallest
    curvature."""
    from .S06 import yield_limits

    best = None
    pr = S.profile(spec, theta)
    parts = [(q, False) for q in spec['surfs']] + [
        (q, True) for q in spec['bars']]
    for (q, bar), p in zip(parts, pr):
        for (o, obar), po in zip(parts, pr):
            if p[1] >= po[2]:
                continue
            if yielding:
                ep = yield_limits(spec, q, bar)[1]
                en = yield_limits(spec, o, obar)[0]
            else:
                ep = L.ult(spec['mats'][q['mat']]['law'])[1]
                en = L.ult(spec['mats'][o['mat']]['law'])[0]
            k = (ep - en) / (po[2] - p[1])
            if best is None or k < best[0] * (1 - 1e-12):
                best = (k, po[2], p[1], en, ep)
    return best[1:]


def spacing(a, b, n, kind, what, got, tol):
    """got runs from a towards b in the documented way."""
    lo, hi = min(a, b), max(a, b)
    require(all(lo - tol <= v <= hi + tol for v in got),
            f'{what}: strains {got} leave ({a}, {b})')
    if kind == 'linear':
        exp = [a + (b - a) * i / n for i in range(n)]
    elif kind == 'geometric' and a != 0 and b != 0 and a * b > 0:
        exp = [a * (b / a) ** (i / n) for i in range(n)]
    elif kind == 'quadratic' and n > 1:
        # both ends included, denser next to b
        exp = [b + (a - b) * ((n - 1 - i) / (n - 1)) ** 2 for i in range(n)]
    else:
        exp = None
    if exp is not None:
        for v, e in zip(got, exp):
            req_close(v, e, f'{what}: {kind} strains {got} between {a} and '
                      f'{b}', 1e-9, tol)


def check_side(case, strains, nums, types, th, rec):
    """One direction of bending: points of the six fields."""
    spec = case['sec']
    g = S.axis(th)
    zn, zp, en, ep = balanced(spec, th, False)
    _, _, eny, epy = balanced(spec, th, True)
    # reinforcement which its initial strain makes yield
    epy = max(epy, 0.0)
    z0 = min(p[1] for p in S.profile(spec, th) if not p[3])
    z1 = max(p[2] for p in S.profile(spec, th) if not p[3])
    h = zn - z0
    rc = S.is_rc(spec)
    r, d = G.size(spec)
    tol = 1e-9 * abs(en) + 1e-12 * ep + 1e-13 * (ep - en) * r / d

    def at(i, z):
        p = [float(v) for v in strains[i]]
        k = p[1] * math.cos(th) + p[2] * math.sin(th)
        return p[0] + k * z

    i = 0
    tops = [at(j, zn) for j in range(len(strains))]
    bots = [at(j, zp) for j in range(len(strains))]
    lim = en * (h - (zn - zp)) / h
    ends = {1: (ep, 0.0), 2: (0.0, en), 3: (ep, epy), 4: (epy, 0.0),
            5: (0.0, lim)}
    order = []
    for f in range(1, 7):
        n = nums[f - 1]
        idx = range(i, i + n)
        i += n
        what = f'theta {th}, field {f}'
        if f <= 2:
            for j in idx:
                req_close(bots[j], ep, f'{what}: strain of the lowest bar',
                          1e-9, tol)
            v = [tops[j] for j in idx]
        elif f <= 5:
            for j in idx:
                req_close(tops[j], en, f'{what}: strain of the top', 1e-9,
                          tol)
            v = [bots[j] for j in idx]
        else:
            v = [bots[j] for j in idx]
            if rc:
                zc = zn - (1 - eny / en) * h
                for j in idx:
                    req_close(at(j, zc), eny, f'{what}: strain of the pivot',
                              1e-9, tol)
                    require(at(j, zn) >= en - tol and at(j, z0) <= tol,
                            f'{what}: strains {at(j, z0)} to {at(j, zn)}')
                end = eny
            else:
                for j in idx:
                    req_close(tops[j], en, f'{what}: strain of the top',
                              1e-9, tol)
                end = en
            req_close(v[-1], end, f'{what}: last strain', 1e-9, tol)
            req_close(tops[idx[-1]], end, f'{what}: last strain of the top',
                      1e-9, tol)
            # the last of them is the end
            spacing(lim, end, n - 1, types[5], what, v[:-1], tol)
            continue
        if n:
            spacing(*ends[f], n, types[f - 1], what, v, tol)
    # ultimate, not beyond
    for j in range(len(strains)):
        p = [float(v) for v in strains[j]]
        u, uc, ut = S.utilisation(spec, p, th)
        f = int(np.repeat(range(1, 7), nums)[j])
        require(u <= 1 + 1e-8 * (1 + r / d), f'theta {th}, field {f}: strain '
                f'{u} times the ultimate one in plane {p}')
        if f < 6 or not rc:
            require(u >= 1 - 1e-8 * (1 + r / d), f'theta {th}, field {f}: no '
                    f'material at its ultimate strain ({u}) in plane {p}')
    # from pure tension to pure compression: rotation of the plane
    mean = [at(j, 0.5 * (z0 + z1)) for j in range(len(strains))]
    low = [at(j, z0) for j in range(len(strains))]
    require(all(b <= a + 2 * tol for a, b in zip(low, low[1:])) or rc and
            nums[5], f'theta {th}: strains {low} of the bottom do not fall')
    require(mean[-1] <= min(mean) + 1e-6 + (abs(en) if rc else 0),
            'the last point is not in compression')
    return order


def run(case, rec):
    spec, th = case['sec'], case['theta']
    c = calculator(case)
    kw = kwargs(case)
    if case['complete']:
        kw['complete_domain'] = True
    d = c.calculate_nm_interaction_domain(theta=th, **kw)
    nums = numbers(case)
    types = [case.get('types', TYPES)[i] for i in range(6)]
    N = sum(nums)
    req_close(d.theta, th, 'reported theta', 0)
    total = 2 * N - 2 if case['complete'] else N
    for k in ('strains', 'forces'):
        require(np.shape(getattr(d, k)) == (total, 3),
                f'{k} of shape {np.shape(getattr(d, k))}, expected '
                f'{total} points')
        require(bool(np.isfinite(getattr(d, k)).all()), f'{k} not finite')
    S.accessors(d)
    fields = [int(v) for v in np.repeat(range(1, 7), nums)]
    exp = fields + (fields[-2:0:-1] if case['complete'] else [])
    require([int(v) for v in d.field_num] == exp,
            f'field numbers {list(d.field_num)}, expected {exp}')
    for i in range(total):
        p = [float(v) for v in d.strains[i]]
        ref, tn, tm = reference(case, p)
        for k in range(3):
            req_close(d.forces[i][k], ref[k], f'theta {th}: force {k} of '
                      f'point {i}, plane {p}', 1e-9, tm if k else tn)
        inclined(p[1:], th, f'point {i}')
    check_side(case, d.strains[:N], nums, types, th, rec)
    if case['complete']:
        # the other direction: without its ends, which are the same
        o = calculator(case).calculate_nm_interaction_domain(
            theta=th + math.pi, **kwargs(case))
        mid = o.strains[-2:0:-1]
        # rounding of theta + pi
        require(np.allclose(d.strains[N:], mid, rtol=1e-9,
                            atol=1e-9 * np.abs(mid).max(0)),
                'points of the opposite direction')
        check_side(case, o.strains, nums, types, th + math.pi, rec)
    # ends: the limit loads
    ref, tn, _ = reference(case, [float(v) for v in d.strains[0]])
    if nums[0]:
        req_close(d.forces[0][0], c.n_max, 'axial force of the first point',
                  1e-9, 2 * tn)
    if not S.is_rc(spec):
        req_close(d.forces[N - 1][0], c.n_min, 'axial force of the last '
                  'point', 1e-9, 2 * tn + reference(
                      case, [float(v) for v in d.strains[N - 1]])[1])
    rec.label(spec['kind'], case['integ'],
              'types' if 'types' in case else 'default',
              'total' if 'total' in case else 'fields')
    rec.nt(total >= 6)


# ------------------------------------------------- against bending strength
@st.composite
def strengths(draw):
    c = draw(strategy(st.one_of(
        S.rc(laws=('pr', 'pr', 'bl')), S.src().filter(nonsoft),
        S.cap().filter(nonsoft), S.steel(),
        S.rc2().filter(nonsoft))))
    c.pop('types', None)
    c['integ'] = 'marin'
    c['pick'] = [draw(st.integers(0, 10 ** 4)) for _ in range(3)]
    return c


def run_strength(case, rec):
    spec, th = case['sec'], case['theta']
    c = calculator(case)
    kw = kwargs(case)
    d = c.calculate_nm_interaction_domain(th, complete_domain=True, **kw)
    nums = numbers(case)
    N = sum(nums)
    rc = S.is_rc(spec)
    r, dd = G.size(spec)
    use = [i for i in range(len(d.strains))
           if d.field_num[i] < (6 if rc else 7)]
    for k in case['pick']:
        i = use[k % len(use)]
        n = float(d.forces[i][0])
        f = (n - c.n_min) / (c.n_max - c.n_min)
        if not 1e-3 < f < 1 - 1e-3:
            rec.label('end')
            continue
        t = th if i < N else th + math.pi
        p = [float(v) for v in d.strains[i]]
        s = c.calculate_bending_strength(t, n)
        slope = sensitivity(spec, p, t)
        tn, tm = S.tol_force(spec, p)
        jn, jm = S.steps(spec, p)
        ds = (3e-2 + tn + jn) / slope
        if ds > 0.02 * max(abs(v) for v in S.limits(spec)):
            rec.label('flat')
            continue
        tol = 4 * (tm + jm) + 4 * (3e-2 + tn + jn) * (dd + r)
        for a, b in ((s.m_y, d.forces[i][1]), (s.m_z, d.forces[i][2])):
            req_close(a, b, f'bending strength at n = {n}, theta {t}, of '
                      f'point {i} in field {d.field_num[i]}', 1e-6, tol)
        rec.label(f'field {d.field_num[i]}')
        rec.nt()


# ------------------------------------------------------------------ arguments
@st.composite
def bad(draw):
    k = draw(st.sampled_from(['num', 'type']))
    i = draw(st.integers(1, 6))
    v = (draw(st.integers(-5, -1)) if k == 'num' else
         draw(st.sampled_from(['cubic', '', 'lin', 'log'])))
    return {'sec': draw(S.rc(holes=False)), 'integ': 'marin', 'mesh': None,
            'theta': draw(angles()), 'arg': f'{k}_{i}', 'v': v}


def run_bad(case, rec):
    c = calculator(case)
    must_raise(ValueError, lambda: c.calculate_nm_interaction_domain(
        case['theta'], **{case['arg']: case['v']}),
        f"{case['arg']} = {case['v']!r}")
    rec.nt()


SUBS = [
    Sub('points', lambda: strategy(), run, 350, 8000, 'see rule', shards=8),
    Sub('strength', strengths, run_strength, 250, 6000, 'see rule',
        shards=6),
    Sub('arguments', bad, run_bad, 100, 1000, 'always'),
]
