"""L02: tangent and secant moduli are consistent with the stress."""
import numpy as np
from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, req_close, require

RULE = ('random laws (plain, Parallel, compatible InitialStrain, nested) and '
        'strains, one by one and as arrays; non-trivial: non-zero tangent compared at a smooth point, '
        'or a strain at a branch limit')
ASSUMPTIONS = ['finite differences of step 1e-6 with tolerance 2e-4 of the '
               'initial modulus; exact reference tangent to 1e-9']


def compat_only(spec):
    if spec['t'] == 'par':
        return all(compat_only(s) for s in spec['laws'])
    if spec['t'] == 'ini':
        return spec['compat'] and compat_only(spec['law'])
    return True


def stiff(spec):
    t = spec['t']
    if t in ('elastic', 'ep'):
        return spec['E']
    if t == 'pr':
        return abs(spec['fc'] / spec['eps_0']) * spec['n']
    if t == 'bl':
        return abs(spec['fc'] / spec['eps_c'])
    if t == 'sargin':
        return abs(spec['fc'] / spec['eps_c1']) * spec['k'] * 3
    if t == 'pop':
        return abs(spec['fc'] / spec['eps_c']) * 5
    if t == 'ud':
        x, y = L.ud_points(spec)
        return max(abs((y[i + 1] - y[i]) / (x[i + 1] - x[i]))
                   for i in range(len(x) - 1))
    if t == 'par':
        w = spec['w'] or [1.0] * len(spec['laws'])
        return sum(abs(a) * stiff(s) for a, s in zip(w, spec['laws']))
    return stiff(spec['law'])


@st.composite
def strategy(draw, kind):
    spec = draw(kind)

    def fix(s):  # InitialStrain without compatibility is the subject of L04
        if s['t'] == 'par':
            for q in s['laws']:
                fix(q)
        elif s['t'] == 'ini':
            s['compat'] = True
            fix(s['law'])
    fix(spec)
    return {'law': spec, 'eps': [draw(L.strain_for(spec)) for _ in range(5)]}


def run(case, rec):
    spec = case['law']
    law = L.build(spec)
    E = stiff(spec)
    rec.label(spec['t'])
    h = 1e-6
    strains = [e for e in case['eps'] if not L.far(spec, e)]
    # all strains at once
    arr = np.array(strains, dtype=float)
    tangents, secants = law.get_tangent(arr), law.get_secant(arr)
    require(np.shape(tangents) == np.shape(secants) == arr.shape,
            lambda: f'moduli of {spec} for {arr}: {tangents}, {secants}')
    for e, t, s in zip(strains, tangents, secants):
        opts = L.tangent_options(spec, e)
        require(any(abs(float(t) - o) <= 1e-9 * E + 1e-9 * abs(o)
                    for o in opts),
                lambda: f'tangent of {spec} at {e!r} (array): {t!r}, expected '
                        f'one of {opts}')
        if e != 0:
            req_close(float(s) * e, law.get_stress(e), 'get_secant*eps of '
                      f'{spec} at {e!r} (array)', rtol=1e-9,
                      atol=1e-9 * L.scale(spec))
        else:
            req_close(s, t, f'get_secant(0) of {spec} (array)', rtol=1e-12)
    for e in strains:
        t = law.get_tangent(e)
        require(not isinstance(t, complex), f'complex tangent at {e!r}')
        opts = L.tangent_options(spec, e)
        require(any(abs(float(t) - o) <= 1e-9 * E + 1e-9 * abs(o)
                    for o in opts),
                lambda: f'tangent of {spec} at {e!r}: {t!r}, expected one '
                        f'of {opts}')
        d = L.smooth_distance(spec, e)
        if d > 50 * h:
            num = (float(law.get_stress(e + h)) -
                   float(law.get_stress(e - h))) / (2 * h)
            req_close(t, num, f'tangent of {spec} at {e!r} vs slope of '
                      f'get_stress', rtol=1e-4,
                      atol=2e-4 * E + 1e-9 * abs(law.get_stress(e)) / h)
            rec.label('smooth')
            rec.nt(num != 0)
        else:
            rec.label('near-break')
            rec.nt()
        s = law.get_secant(e)
        if e != 0:
            req_close(float(s) * e, law.get_stress(e),
                      f'get_secant*eps of {spec} at {e!r}', rtol=1e-9,
                      atol=1e-9 * L.scale(spec))
        else:
            rec.label('zero-strain')
            req_close(s, t, f'get_secant(0) of {spec}', rtol=1e-12)


SUBS = [
    Sub('basic', lambda: strategy(L.basic()), run, 4000, 80000,
        'one basic law, five strains', shards=2),
    Sub('composite', lambda: strategy(L.composite(2)), run, 2500, 50000,
        'nested Parallel / InitialStrain compositions', shards=2),
]
