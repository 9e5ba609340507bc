"""L04: Parallel and InitialStrain are exact compositions."""
from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, must_raise, req_close, require

RULE = ('nested Parallel / InitialStrain laws (depth up to 3, 1-4 members, '
        'with and without weights) and strains around the shifted limits of '
        'their members; non-trivial: a composite with non-zero stress')
ASSUMPTIONS = ['members get_stress/get_tangent are decided by L01/L02']


@st.composite
def strategy(draw):
    kind = draw(st.integers(0, 2))
    inner = L.composite(2)
    if kind == 0:
        laws = draw(st.lists(inner, min_size=1, max_size=4))
        if draw(st.integers(0, 24)) == 13:
            laws = draw(st.lists(L.basic(), min_size=5, max_size=9))
        w = draw(st.one_of(st.none(), st.lists(
            L.sig(0.0, 3), min_size=len(laws), max_size=len(laws))))
        spec = {'t': 'par', 'laws': laws, 'w': w}
    else:
        spec = {'t': 'ini', 'law': draw(inner),
                'e0': draw(st.one_of(L.sig(-0.004, 0.01), st.just(0.0))),
                'compat': kind == 1}
    return {'law': spec, 'eps': [draw(L.strain_for(spec)) for _ in range(5)]}


def run(case, rec):
    spec = case['law']
    law = L.build(spec)
    sc = L.scale(spec)
    rec.label(spec['t'])
    if spec['t'] == 'par':
        members = [L.build(s) for s in spec['laws']]
        w = spec['w'] or [1.0] * len(members)
        require(len(law.wrapped_laws) == len(members),
                'wrapped_laws has the wrong length')
        require([float(x) for x in law.weights] == [float(x) for x in w],
                f'weights {law.weights!r} for {w}')
        for y in (False, True):
            lims = [m.get_ultimate_strain(yielding=y) for m in members]
            got = law.get_ultimate_strain(yielding=y)
            require(tuple(got) == (min(a for a, _ in lims),
                                   max(b for _, b in lims)),
                    f'ultimate strains (yielding={y}) {got} of members {lims}')
        for e in case['eps']:
            for f in ('get_stress', 'get_tangent'):
                exp = sum(a * float(getattr(m, f)(e))
                          for a, m in zip(w, members))
                mag = sum(abs(a * float(getattr(m, f)(e)))
                          for a, m in zip(w, members))
                req_close(getattr(law, f)(e), exp, f'{f} of {spec} at {e!r}',
                          rtol=1e-9, atol=1e-12 * mag)
                rec.nt(exp != 0)
        k = len(members)
        from structuralcodes.materials.constitutive_laws import Parallel
        must_raise(ValueError, lambda: Parallel(members, weights=[1.0] *
                                                (k + 1)),
                   'Parallel with one weight too many')
        must_raise(TypeError, lambda: Parallel(members + [3.0]),
                   'Parallel of a number')
    else:
        inner = L.build(spec['law'])
        e0 = spec['e0']
        require(law.strain_compatibility is spec['compat'],
                'strain_compatibility not kept')
        for y in (False, True):
            a, b = inner.get_ultimate_strain(yielding=y)
            got = law.get_ultimate_strain(yielding=y)
            req_close(got[0], a - e0, f'negative limit of {spec}', 1e-12)
            req_close(got[1], b - e0, f'positive limit of {spec}', 1e-12)
        for e in case['eps']:
            if spec['compat']:
                exp = float(inner.get_stress(e + e0))
                ext = float(inner.get_tangent(e + e0))
                req_close(law.get_tangent(e), ext,
                          f'get_tangent of {spec} at {e!r}', 1e-9, 1e-12)
            else:
                exp = float(inner.get_stress(e0))
                t = float(law.get_tangent(e))
                require(abs(t) <= 1e-3 * max(abs(float(inner.get_tangent(0))),
                                             1e-9),
                        f'tangent {t} of an unbonded law {spec}')
                rec.label('unbonded')
            req_close(law.get_stress(e), exp,
                      f'get_stress of {spec} at {e!r}', 1e-9, 1e-12 * sc)
            rec.nt(exp != 0)
        from structuralcodes.materials.constitutive_laws import InitialStrain
        must_raise(TypeError, lambda: InitialStrain(e0, e0),
                   'InitialStrain of a number')
    # and against the independent reference, through all levels
    for e in case['eps']:
        if L.far(spec, e):
            continue
        got = float(law.get_stress(e))
        opts = L.stress_options(spec, e)
        if len(opts) > 1 or any(
                abs(e - p) < 2e-12 * max(abs(p), 1e-3) + 1e-15
                for p in L.breaks(spec)):
            continue
        if has_eps_u(spec):
            continue
        req_close(got, opts[0], f'stress of {spec} at {e!r} (reference)',
                  1e-8, 1e-10 * sc)


def has_eps_u(spec):
    if spec['t'] == 'par':
        return any(has_eps_u(s) for s in spec['laws'])
    if spec['t'] == 'ini':
        return has_eps_u(spec['law'])
    return spec['t'] == 'ud' and spec.get('eps_u') is not None


SUBS = [Sub('compose', strategy, run, 5000, 100000, RULE, shards=4)]
