"""Law specifications: generation, building through the public API and an
independent reference (stress, tangent, break points, limits).

A spec is plain JSON. Strain/stress signs: tension positive.
"""
import math

from hypothesis import strategies as st

# ------------------------------------------------------------------ building


def build(spec):
    from structuralcodes.materials import constitutive_laws as cl

    t = spec['t']
    if t == 'elastic':
        eu = spec.get('eps_u')
        if eu is None:
            return cl.Elastic(spec['E'])
        return cl.Elastic(spec['E'], eps_u=tuple(eu) if isinstance(eu, list) else eu)
    if t == 'ep':
        return cl.ElasticPlastic(spec['E'], spec['fy'], Eh=spec['Eh'],
                                 eps_su=spec['eps_su'])
    if t == 'pr':
        return cl.ParabolaRectangle(spec['fc'], eps_0=spec['eps_0'],
                                    eps_u=spec['eps_u'], n=spec['n'])
    if t == 'bl':
        return cl.BilinearCompression(spec['fc'], spec['eps_c'],
                                      eps_cu=spec['eps_cu'])
    if t == 'sargin':
        return cl.Sargin(spec['fc'], eps_c1=spec['eps_c1'],
                         eps_cu1=spec['eps_cu1'], k=spec['k'])
    if t == 'pop':
        return cl.Popovics(spec['fc'], eps_c=spec['eps_c'],
                           eps_cu=spec['eps_cu'], Ec=spec['Ec'])
    if t == 'ud':
        eu = spec.get('eps_u')
        kw = {}
        if eu is not None:
            kw['eps_u'] = tuple(eu) if isinstance(eu, list) else eu
        return cl.UserDefined(spec['x'], spec['y'], flag=spec['flag'], **kw)
    if t == 'par':
        return cl.Parallel([build(s) for s in spec['laws']],
                           weights=spec['w'])
    if t == 'ini':
        return cl.InitialStrain(build(spec['law']), spec['e0'],
                                spec['compat'])
    raise KeyError(t)


# ----------------------------------------------------------------- reference
def ud_points(spec):
    """Points of a UserDefined law, reflected when only x >= 0 is given."""
    x, y = list(spec['x']), list(spec['y'])
    if all(v >= 0 for v in x):
        x, y = ([-v for v in reversed(x[1:])] + x,
                [-v for v in reversed(y[1:])] + y)
    return x, y


def ult(spec, yielding=False):
    """Documented ultimate (or yield) strains (negative, positive)."""
    t = spec['t']
    if t == 'elastic':
        eu = spec.get('eps_u')
        if eu is None:
            return (-100.0, 100.0)
        if isinstance(eu, list):
            return (min(eu), max(eu))
        return (-abs(eu), abs(eu))
    if t == 'ep':
        ey = spec['fy'] / spec['E']
        if yielding:
            return (-ey, ey)
        if spec['eps_su'] is None:
            return (-2 * ey, 2 * ey)
        return (-spec['eps_su'], spec['eps_su'])
    if t == 'pr':
        return (-abs(spec['eps_0'] if yielding else spec['eps_u']), 100.0)
    if t == 'bl':
        return (-abs(spec['eps_c'] if yielding else spec['eps_cu']), 100.0)
    if t == 'sargin':
        return (-abs(spec['eps_c1'] if yielding else spec['eps_cu1']), 100.0)
    if t == 'pop':
        return (-abs(spec['eps_c'] if yielding else spec['eps_cu']), 100.0)
    if t == 'ud':
        eu = spec.get('eps_u')
        if eu is not None:
            if isinstance(eu, list):
                return (min(eu), max(eu))
            return (-abs(eu), abs(eu))
        x, _ = ud_points(spec)
        return (x[0], x[-1])
    if t == 'par':
        lims = [ult(s, yielding) for s in spec['laws']]
        return (min(a for a, _ in lims), max(b for _, b in lims))
    if t == 'ini':
        a, b = ult(spec['law'], yielding)
        return (a - spec['e0'], b - spec['e0'])
    raise KeyError(t)


def _pop_n(spec):
    fc, ec = abs(spec['fc']), abs(spec['eps_c'])
    E = spec['Ec'] if spec['Ec'] is not None else 5000 * math.sqrt(fc)
    return E / (E - fc / ec)


def raw(spec, e):
    """(stress, tangent) of the documented formula, no snapping at limits."""
    t = spec['t']
    if t == 'elastic':
        return spec['E'] * e, spec['E']
    if t == 'ep':
        E, fy, Eh, su = spec['E'], spec['fy'], spec['Eh'], spec['eps_su']
        ey = fy / E
        if su is not None and abs(e) > su:
            return 0.0, 0.0
        if abs(e) <= ey:
            return E * e, E
        return math.copysign(fy + Eh * (abs(e) - ey), e), Eh
    if t == 'pr':
        fc, e0, eu, n = (abs(spec['fc']), abs(spec['eps_0']),
                         abs(spec['eps_u']), spec['n'])
        c = -e
        if c < 0 or c > eu:
            return 0.0, 0.0
        if c <= e0:
            r = 1 - c / e0
            return -fc * (1 - r ** n), fc / e0 * n * r ** (n - 1)
        return -fc, 0.0
    if t == 'bl':
        fc, ec, eu = abs(spec['fc']), abs(spec['eps_c']), abs(spec['eps_cu'])
        c = -e
        if c < 0 or c > eu:
            return 0.0, 0.0
        if c < ec:
            return -fc * c / ec, fc / ec
        return -fc, 0.0
    if t == 'sargin':
        fc, e1, eu, k = (abs(spec['fc']), abs(spec['eps_c1']),
                         abs(spec['eps_cu1']), spec['k'])
        c = -e
        if c < 0 or c > eu:
            return 0.0, 0.0
        h = c / e1
        d = 1 + (k - 2) * h
        s = (k * h - h * h) / d
        ds = ((k - 2 * h) * d - (k * h - h * h) * (k - 2)) / (d * d)
        return -fc * s, fc / e1 * ds
    if t == 'pop':
        fc, ec, eu = abs(spec['fc']), abs(spec['eps_c']), abs(spec['eps_cu'])
        c = -e
        if c < 0 or c > eu:
            return 0.0, 0.0
        n = _pop_n(spec)
        h = c / ec
        d = n - 1 + h ** n
        s = h * n / d
        ds = (n * d - h * n * n * (h ** (n - 1) if h > 0 else 0.0)) / (d * d)
        return -fc * s, fc / ec * ds
    if t == 'ud':
        x, y = ud_points(spec)
        if e < x[0] or e > x[-1]:
            f = spec['flag']
            if f == 0:
                return 0.0, 0.0
            a, b = (0, 1) if e < x[0] else (-1, -2)
            if f == 1:
                return y[a], 0.0
            if f == 2:
                m = (y[a] - y[b]) / (x[a] - x[b])
            else:
                m = y[a] / x[a]
            return y[a] + m * (e - x[a]), m
        i = 0
        while i < len(x) - 2 and e > x[i + 1]:
            i += 1
        m = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        return y[i] + m * (e - x[i]), m
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        vals = [raw(s, e) for s in spec['laws']]
        return (sum(a * v[0] for a, v in zip(w, vals)),
                sum(a * v[1] for a, v in zip(w, vals)))
    if t == 'ini':
        if not spec['compat']:
            return raw(spec['law'], spec['e0'])[0], None
        return raw(spec['law'], e + spec['e0'])
    raise KeyError(t)


def breaks(spec):
    """Strains at which stress or tangent may jump."""
    t = spec['t']
    if t == 'elastic':
        return []
    if t == 'ep':
        ey = spec['fy'] / spec['E']
        r = [-ey, ey]
        if spec['eps_su'] is not None:
            r += [-spec['eps_su'], spec['eps_su']]
        else:
            r += [-2 * ey, 2 * ey]
        return r
    if t == 'pr':
        return [0.0, -abs(spec['eps_0']), -abs(spec['eps_u'])]
    if t == 'bl':
        return [0.0, -abs(spec['eps_c']), -abs(spec['eps_cu'])]
    if t == 'sargin':
        return [0.0, -abs(spec['eps_cu1'])]
    if t == 'pop':
        return [0.0, -abs(spec['eps_cu'])]
    if t == 'ud':
        x, _ = ud_points(spec)
        return list(x) + [v for v in ult(spec) if v not in x]
    if t == 'par':
        return [b for s in spec['laws'] for b in breaks(s)]
    if t == 'ini':
        return [b - spec['e0'] for b in breaks(spec['law'])]
    raise KeyError(t)


def snap_points(spec):
    """Strains whose neighbourhood is treated as the limit itself."""
    t = spec['t']
    if t == 'par':
        return [p for s in spec['laws'] for p in snap_points(s)]
    if t == 'ini':
        return [p - spec['e0'] for p in snap_points(spec['law'])]
    if t == 'elastic':
        return []
    return list(ult(spec))


def snap_tol(p):
    return 1.05e-6 + 1.05e-5 * abs(p)


def near(points, e, factor=1.0):
    return [p for p in points if abs(e - p) <= factor * snap_tol(p)]


def stress_options(spec, e):
    """Acceptable stresses at e: [lo, hi] intervals are avoided; the formula
    at e, and for strains within round-off of an ultimate limit also the
    stress at the limit (inside) or zero (outside)."""
    t = spec['t']
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        opts = [0.0]
        for a, s in zip(w, spec['laws']):
            o = stress_options(s, e)
            opts = _distinct(x + a * y for x in opts for y in o)
        return opts
    if t == 'ini':
        if not spec['compat']:
            return stress_options(spec['law'], spec['e0'])
        return stress_options(spec['law'], e + spec['e0'])
    opts = [raw(spec, e)[0]]
    if t == 'elastic':
        return opts
    for p in ult(spec):
        d = abs(e - p)
        if d <= snap_tol(p):
            s = raw(spec, p)[0]
            if d <= 1e-12 * abs(p):
                # equal to the limit within round-off: must carry stress
                return [s]
            opts.append(s)
    return opts


def scale(spec):
    """A stress magnitude for absolute tolerances."""
    t = spec['t']
    if t == 'elastic':
        return spec['E'] * 1e-3
    if t == 'ep':
        return spec['fy']
    if t in ('pr', 'bl', 'sargin', 'pop'):
        return abs(spec['fc'])
    if t == 'ud':
        return max(max(abs(v) for v in spec['y']), 1e-6)
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        return sum(abs(a) * scale(s) for a, s in zip(w, spec['laws'])) or 1.0
    return scale(spec['law'])


def polynomial(spec):
    t = spec['t']
    if t in ('sargin', 'pop'):
        return False
    if t == 'pr':
        return spec['n'] == 2
    if t == 'par':
        return all(polynomial(s) for s in spec['laws'])
    if t == 'ini':
        return polynomial(spec['law']) or not spec['compat']
    return True


# ---------------------------------------------------------------- generators
def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def sig(lo, hi, digits=4):
    """Floats with few significant digits (shrinks and prints nicely)."""
    return fl(lo, hi).map(lambda v: float(f'{v:.{digits}g}')).map(
        # nothing of denormal size
        lambda v: min(max(0.0 if abs(v) < 1e-9 else v, lo), hi))


signs = st.sampled_from([1, -1])


@st.composite
def elastic(draw, with_eps_u=True):
    d = {'t': 'elastic', 'E': draw(st.one_of(
        sig(10, 4e5), st.sampled_from([200000.0, 30000.0])))}
    k = draw(st.integers(0, 3)) if with_eps_u else 0
    if k == 1:
        d['eps_u'] = draw(sig(1e-4, 0.1)) * draw(signs)
    elif k == 2:
        a, b = -draw(sig(1e-4, 0.1)), draw(sig(1e-4, 0.1))
        d['eps_u'] = [a, b] if draw(st.booleans()) else [b, a]
    else:
        d['eps_u'] = None
    return d


@st.composite
def ep(draw, su='any'):
    E = draw(st.one_of(sig(5e4, 3e5), st.just(200000.0)))
    fy = draw(sig(100, 1900))
    Eh = draw(st.one_of(st.just(0.0), sig(1, E / 10)))
    ey = fy / E
    d = {'t': 'ep', 'E': E, 'fy': fy, 'Eh': Eh, 'eps_su': None}
    if su == 'set' or (su == 'any' and draw(st.integers(0, 4))):
        d['eps_su'] = max(draw(sig(0.002, 0.15)), ey * draw(
            st.sampled_from([1.001, 1.3, 2.0, 5.0])))
    return d


def _conc(draw):
    return draw(sig(8, 120)) * draw(signs)


@st.composite
def pr(draw, n=None):
    e0 = draw(st.one_of(st.just(0.002), sig(0.0012, 0.0035)))
    eu = e0 * draw(st.one_of(st.sampled_from([1.0, 1.75]), sig(1.0, 4)))
    nn = n if n is not None else draw(
        st.one_of(st.just(2.0), st.just(2), sig(1.2, 2.5)))
    return {'t': 'pr', 'fc': _conc(draw), 'eps_0': e0 * draw(signs),
            'eps_u': eu * draw(signs), 'n': nn}


@st.composite
def bl(draw):
    e0 = draw(st.one_of(st.just(0.00175), sig(0.001, 0.003)))
    eu = e0 * draw(st.one_of(st.sampled_from([1.0, 2.0]), sig(1.0, 4)))
    return {'t': 'bl', 'fc': _conc(draw), 'eps_c': e0 * draw(signs),
            'eps_cu': eu * draw(signs)}


@st.composite
def sargin(draw):
    e1 = draw(sig(0.0015, 0.0035))
    k = draw(st.one_of(st.sampled_from([2.0, 2.04]), sig(1.05, 5)))
    # keep the denominator positive and the stress compressive up to eps_cu1
    hmax = min(k, 1 / (2 - k) if k < 2 else 10.0, 3.0)
    r = draw(fl(0.0, 0.9))
    eu = e1 * (1 + (hmax - 1) * r)
    return {'t': 'sargin', 'fc': _conc(draw), 'eps_c1': e1 * draw(signs),
            'eps_cu1': float(f'{eu:.6g}') * draw(signs) if eu > e1 * 1.0001
            else e1 * draw(signs), 'k': k}


@st.composite
def pop(draw):
    fc = _conc(draw)
    e1 = draw(sig(0.0018, 0.0035))
    eu = e1 * draw(sig(1.0, 4))
    sec = abs(fc) / e1
    if draw(st.booleans()) and 5000 * math.sqrt(abs(fc)) > 1.05 * sec:
        Ec = None
    else:
        Ec = float(f'{sec * draw(fl(1.05, 4)):.5g}')
    return {'t': 'pop', 'fc': fc, 'eps_c': e1 * draw(signs),
            'eps_cu': eu * draw(signs), 'Ec': Ec}


@st.composite
def ud(draw, flag=None, eps_u=True):
    f = draw(st.integers(0, 3)) if flag is None else flag

    def side(lo_y):
        n = draw(st.integers(1, 4))
        if draw(st.integers(0, 19)) == 13:  # a law of many points
            n = draw(st.integers(5, 40))
            dx, k = draw(sig(3e-4, 4e-3)), draw(st.integers(1, 9))
            xs = [float(f'{dx * (i + 1 + (i * k % 7) / 10):.7g}')
                  for i in range(n)]
            y0 = draw(sig(50, 400))
            return xs, [float(f'{y0 * (1 + (i * k % 11) / 10):.4g}')
                        for i in range(n)]
        xs, x = [], 0.0
        for _ in range(n):
            x += draw(sig(3e-4, 0.01))
            xs.append(float(f'{x:.7g}'))
        return xs, [draw(sig(lo_y, 600)) for _ in xs]

    xp, yp = side(-100)
    mode = draw(st.integers(0, 2))
    if mode == 0:
        x, y = [0.0] + xp, [0.0] + yp
    else:
        xn, yn = side(-100)
        x = [-v for v in reversed(xn)]
        y = [-v for v in reversed(yn)]
        if mode == 1 or draw(st.booleans()):
            x, y = x + [0.0], y + [0.0]
        if mode == 1 and f == 0 and draw(st.booleans()):
            pass  # compression only
        else:
            x, y = x + xp, y + yp
    d = {'t': 'ud', 'x': x, 'y': y, 'flag': f, 'eps_u': None}
    if eps_u and draw(st.integers(0, 4)) == 0:
        xx, _ = ud_points(d)
        lo, hi = xx[0], xx[-1]
        if lo < 0 < hi:
            r = draw(sig(0.3, 1.0)) if f == 0 else draw(sig(0.3, 5.0))
            if draw(st.booleans()):
                a, b = float(f'{lo * r:.6g}'), float(f'{hi * r:.6g}')
                d['eps_u'] = [a, b] if draw(st.booleans()) else [b, a]
            else:
                d['eps_u'] = float(f'{min(-lo, hi) * r:.6g}') * draw(signs)
    return d


def basic():
    return st.one_of(elastic(), ep(), pr(), bl(), sargin(), pop(), ud())


@st.composite
def composite(draw, depth=2, base=None):
    base = base or basic()
    k = draw(st.integers(0, 2 if depth else 0))
    if k == 0:
        return draw(base)
    if k == 1:
        n = draw(st.integers(1, 3))
        laws = [draw(composite(depth - 1, base)) for _ in range(n)]
        w = None
        if draw(st.booleans()):
            w = [draw(sig(0.1, 3)) for _ in laws]
        return {'t': 'par', 'laws': laws, 'w': w}
    law = draw(composite(depth - 1, base))
    return {'t': 'ini', 'law': law, 'e0': draw(sig(-0.004, 0.008)),
            'compat': draw(st.integers(0, 3)) > 0}


@st.composite
def _strain_for(draw, spec):
    """A strain with the interesting places of the law over-represented."""
    pts = [p for p in breaks(spec) if abs(p) < 50] or [0.0]
    k = draw(st.integers(0, 7))
    lo, hi = min(pts + [-0.001]), max(pts + [0.001])
    if k <= 3:
        return draw(fl(lo * 1.2, hi * 1.2))
    if k == 4:
        return draw(st.sampled_from(pts + [0.0]))
    if k == 5:
        p = draw(st.sampled_from(pts))
        return p + draw(signs) * draw(st.sampled_from(
            [1e-16, 1e-12, 1e-9, 5e-7, 2e-6, 5e-6, 3e-5, 1e-4]))
    if k == 6:
        p = draw(st.sampled_from(pts))
        return p * (1 + draw(fl(-0.3, 0.3)))
    return draw(fl(lo * 3, hi * 3))


def strain_for(spec):
    # strains of denormal size are not strains
    return _strain_for(spec).map(lambda e: 0.0 if abs(e) < 1e-18 else e)


# ------------------------------------------------- tangent / marin references
def _distinct(values):
    return list({float(f'{v:.14g}'): v for v in values}.values())[:4096]


def tangent_options(spec, e):
    t = spec['t']
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        opts = [0.0]
        for a, s in zip(w, spec['laws']):
            o = tangent_options(s, e)
            opts = _distinct(x + a * y for x in opts for y in o)
        return opts
    if t == 'ini':
        if not spec['compat']:
            # practically zero: 1e-6 of the wrapped tangent at zero strain
            return [x * 1e-6 for x in tangent_options(spec['law'], 0.0)]
        return tangent_options(spec['law'], e + spec['e0'])
    opts = [raw(spec, e)[1]]
    for p in breaks(spec):
        if abs(e - p) <= snap_tol(p):
            d = 1e-9 * max(abs(p), 1e-3)
            opts += [raw(spec, p - d)[1], raw(spec, p + d)[1],
                     raw(spec, p)[1]]
    return _distinct(opts)


def smooth_distance(spec, e):
    """Distance to the nearest break point (and snapping zone)."""
    r = float('inf')
    for p in breaks(spec):
        r = min(r, abs(e - p))
    for p in snap_points(spec):
        r = min(r, max(abs(e - p) - snap_tol(p), 0.0))
    return r


_err_cache = {}


def marin_err(spec):
    """(stress error, tangent error) allowed for the ten-segment
    linearisation of laws that are not piecewise polynomial."""
    t = spec['t']
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        es = [marin_err(s) for s in spec['laws']]
        return (sum(abs(a) * e[0] for a, e in zip(w, es)),
                sum(abs(a) * e[1] for a, e in zip(w, es)))
    if t == 'ini':
        return marin_err(spec['law']) if spec['compat'] else (0.0, 0.0)
    if polynomial(spec):
        return 0.0, 0.0
    key = repr(sorted(spec.items(), key=lambda kv: kv[0]))
    if key in _err_cache:
        return _err_cache[key]
    lo = ult(spec)[0]
    N, M = 10, 40
    es = et = 0.0
    for i in range(N):
        a, b = lo * (N - i) / N, lo * (N - i - 1) / N
        sa, sb = raw(spec, a)[0], raw(spec, b)[0]
        m = (sb - sa) / (b - a)
        for j in range(M + 1):
            e = a + (b - a) * j / M
            s, d = raw(spec, e)
            es = max(es, abs(sa + m * (e - a) - s))
            et = max(et, abs(m - d))
    r = (1.5 * es + 1e-5 * abs(spec['fc']), 1.5 * et)
    _err_cache[key] = r
    return r


def far(spec, e):
    """Beyond 90 times the limits of a UserDefined law that goes on after its
    last point: 'goes on' is implemented by points at 100 times the limits."""
    t = spec['t']
    if t == 'par':
        return any(far(s, e) for s in spec['laws'])
    if t == 'ini':
        return spec['compat'] and far(spec['law'], e + spec['e0'])
    if t != 'ud' or spec['flag'] == 0:
        return False
    x, _ = ud_points(spec)
    return e < 90 * x[0] or e > 90 * x[-1]
