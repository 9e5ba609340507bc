"""L05: marin coefficients represent get_stress / get_tangent."""
from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, fail, req_close, require

RULE = ('random (nested) laws, strain profiles e0 + chi*z with chi positive, '
        'negative, tiny or zero, evaluated at 8 strains inside the limits; '
        'non-trivial: chi != 0 and at least one non-zero stress inside a '
        'returned range')
ASSUMPTIONS = [
    'laws that are not piecewise polynomial: error bound 1.5x that of a '
    'ten-segment linear interpolation of the compression branch',
]


@st.composite
def strategy(draw, kind):
    spec = draw(kind)
    pts = [p for p in L.breaks(spec) if abs(p) < 50] or [0.0]
    e0 = draw(L.strain_for(spec))
    chi = draw(st.one_of(
        L.fl(1e-7, 1e-2), st.sampled_from([1e-9, 1e-6, 1e-5, 1.0]),
        st.just(0.0))) * draw(L.signs)
    return {'law': spec, 'e0': e0, 'chi': chi,
            'eps': [draw(L.strain_for(spec)) for _ in range(8)],
            'uni': [draw(L.strain_for(spec)) for _ in range(4)]}


def poly(c, z):
    return (sum(float(a) * z ** i for i, a in enumerate(c)),
            sum(abs(float(a) * z ** i) for i, a in enumerate(c)))


def outer(spec):
    """True for the listed known finding: inside Parallel, a member without
    strain ranges next to members that end at an ultimate strain."""
    def rangeless(s):
        if s['t'] == 'elastic':
            return True
        if s['t'] == 'ini':
            return (not s['compat']) or rangeless(s['law'])
        if s['t'] == 'par':
            return all(rangeless(q) for q in s['laws'])
        return False
    if spec['t'] == 'par':
        r = [rangeless(q) for q in spec['laws']]
        return (any(r) and not all(r)) or any(outer(q) for q in spec['laws'])
    if spec['t'] == 'ini':
        return outer(spec['law'])
    return False


def open_ended(spec):
    """ElasticPlastic without eps_su inside Parallel: get_stress goes on
    beyond the (nominal) ultimate strain of that member."""
    if spec['t'] == 'par':
        return any(s['t'] == 'ep' and s['eps_su'] is None or open_ended(s)
                   or (s['t'] == 'ini' and 'None' in repr(s))
                   for s in spec['laws'])
    return spec['t'] == 'ini' and open_ended(spec['law'])


def ranged_limits(spec, shift=0.0):
    """Intersection-free hull in which the known finding cannot show: the
    tightest limits of the ranged members."""
    t = spec['t']
    if t == 'par':
        ls = [ranged_limits(s, shift) for s in spec['laws']]
        return max(a for a, _ in ls), min(b for _, b in ls)
    if t == 'ini':
        if not spec['compat']:
            return -100.0, 100.0
        return ranged_limits(spec['law'], shift + spec['e0'])
    if t == 'elastic':
        return -100.0, 100.0
    a, b = L.ult(spec)
    if t == 'ud' and spec['flag'] == 0:
        x, _ = L.ud_points(spec)
        a, b = max(a, x[0]), min(b, x[-1])
    return a - shift, b - shift


def uniform(spec, law, e, es, et, sc):
    lo, hi = L.ult(spec)
    if (outer(spec) or open_ended(spec)):
        a, b = ranged_limits(spec)
        lo, hi = max(lo, a), min(hi, b)
    # these laws are documented to have no stress beyond their limits
    ends = spec['t'] in ('pr', 'bl') or (
        spec['t'] == 'ep' and spec['eps_su'] is not None)
    if not lo <= e <= hi and not ends or L.far(spec, e):
        return
    d = L.smooth_distance(spec, e)
    for fn, err, base, want in (
            ('__marin__', es, sc, [float(law.get_stress(e))]
             + L.stress_options(spec, e)),
            ('__marin_tangent__', et, 0.0, [float(law.get_tangent(e))]
             + (L.tangent_options(spec, e)
                if d < (1e-9 if L.polynomial(spec) else 2e-6) else []))):
        ranges, coeffs = getattr(law, fn)(strain=[e, 0.0])
        if ranges is None:
            c = coeffs
        else:
            c = [q for (a, b), q in zip(ranges, coeffs) if a <= e <= b]
        got = float(c[0][0]) if c and len(c[0]) else 0.0
        tol = err + 1e-9 * max(abs(w) for w in want) + 1e-10 * base
        require(any(abs(got - w) <= tol for w in want),
                lambda: f'{fn} of {spec} for the uniform strain {e!r}: '
                        f'{got!r}, expected one of {want}; ranges {ranges}')


def run(case, rec):
    spec = case['law']
    e0, chi = case['e0'], case['chi']
    law = L.build(spec)
    es, et = L.marin_err(spec)
    sc = L.scale(spec)
    # uniform strain: the coefficients of a part without curvature
    for e in case.get('uni', []):
        uniform(spec, law, e, es, et, sc)
    lo, hi = L.ult(spec)
    if case.get('raw') is None and (outer(spec) or open_ended(spec)):
        # known finding: only judged inside the limits of the ranged members
        a, b = ranged_limits(spec)
        lo, hi = max(lo, a), min(hi, b)
        rec.label('finding-excluded')
    rec.label(spec['t'], 'uniform' if chi == 0 else 'gradient',
              'poly' if L.polynomial(spec) else 'linearised')
    for fn, err, name in (('__marin__', es, 'stress'),
                          ('__marin_tangent__', et, 'tangent')):
        for cont in (list, tuple):
            prof = cont([e0, chi])
            ranges, coeffs = getattr(law, fn)(strain=prof)
            require(list(prof) == [e0, chi],
                    f'{fn} changed the strain profile to {prof}')
        if ranges is None:
            require(len(coeffs) == 1, f'{fn}: no ranges, '
                    f'{len(coeffs)} polynomials')
        else:
            require(len(ranges) == len(coeffs),
                    f'{fn}: {len(ranges)} ranges, {len(coeffs)} polynomials')
            rs = sorted((float(a), float(b)) for a, b in ranges)
            for a, b in rs:
                require(a <= b, f'{fn}: reversed range {(a, b)}')
            for (a, b), (c, d) in zip(rs, rs[1:]):
                require(b <= c + 1e-12, f'{fn}: ranges overlap {rs}')
        points = [e0] if chi == 0 else case['eps']
        for e in points:
            if not lo <= e <= hi or L.far(spec, e):
                continue
            d = L.smooth_distance(spec, e)
            if chi == 0:
                z = 0.0
            else:
                z = (e - e0) / chi
                if d < 1e-9 or abs(z) > 1e9:
                    continue
            if name == 'stress':
                want = [float(law.get_stress(e))]
                if chi == 0:
                    want += L.stress_options(spec, e)
            elif d < (1e-9 if L.polynomial(spec) else 2e-6):
                want = [float(law.get_tangent(e))]
                want += L.tangent_options(spec, e)
            else:
                want = [float(law.get_tangent(e))]
            if ranges is None:
                cs = [coeffs[0]]
            else:
                cs = [c for (a, b), c in zip(ranges, coeffs) if a <= e <= b]
            if not cs:
                got, mag = 0.0, 0.0
            else:
                got, mag = poly(cs[0], z)
            base = sc if name == 'stress' else 0.0
            tol = (err + 1e-9 * max([abs(w) for w in want]) + 1e-8 * mag
                   + 1e-10 * base)
            require(any(abs(got - w) <= tol for w in want),
                    lambda: f'{fn} of {spec} for profile {[e0, chi]} at '
                            f'strain {e!r}: {got!r}, {name} is {want}; '
                            f'ranges {ranges}')
            if cs and want[0] != 0:
                rec.nt(chi != 0)


SUBS = [
    Sub('basic', lambda: strategy(L.basic()), run, 4000, 60000,
        'one basic law', shards=4),
    Sub('composite', lambda: strategy(L.composite(2)), run, 3000, 50000,
        'nested Parallel / InitialStrain', shards=4),
]
