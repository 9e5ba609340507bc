"""L06: ultimate and yield strain limits; rejected arguments."""
import math

from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, must_raise, req_close, require

RULE = ('random law parameters with either sign, every form of eps_u; '
        'non-trivial: a law with finite limits or a rejected argument')
ASSUMPTIONS = []


def s_limits():
    return st.one_of(L.basic(), L.composite(2)).map(lambda s: {'law': s})


def run_limits(case, rec):
    spec = case['law']
    law = L.build(spec)
    rec.label(spec['t'])
    rec.nt(spec['t'] != 'elastic' or spec.get('eps_u') is not None)
    for y in (False, True):
        got = law.get_ultimate_strain(yielding=y)
        exp = L.ult(spec, y)
        require(isinstance(got, tuple) and len(got) == 2,
                f'get_ultimate_strain of {spec} is {got!r}')
        for g, e, n in zip(got, exp, ('negative', 'positive')):
            req_close(g, e, f'{n} limit (yielding={y}) of {spec}', 1e-12,
                      1e-15)
        require(got[0] <= got[1], f'limits of {spec} not ordered: {got}')
    a, b = law.get_ultimate_strain()
    require(tuple(law.get_ultimate_strain()) == (a, b), 'not repeatable')
    if spec['t'] in ('ep', 'pr', 'bl', 'sargin', 'pop'):
        c, d = law.get_ultimate_strain(yielding=True)
        require(a <= c <= 0 <= d <= b, f'yield limits {(c, d)} of {spec} '
                f'outside ultimate limits {(a, b)}')


@st.composite
def s_epsu(draw):
    kind = draw(st.sampled_from(['elastic', 'ud']))
    spec = draw(L.elastic(with_eps_u=False) if kind == 'elastic'
                else L.ud(eps_u=False))
    v = st.one_of(L.sig(1e-5, 0.2), st.just(0.0))
    form = draw(st.sampled_from(['num', 'pair', 'bothpos', 'bothneg', 'one',
                                 'str']))
    a, b = draw(v), draw(v)
    sa, sb = draw(L.signs), draw(L.signs)
    return {'law': spec, 'form': form, 'a': a, 'b': b,
            'sa': sa, 'flip': draw(st.booleans())}


def run_epsu(case, rec):
    from structuralcodes.materials import constitutive_laws as cl

    spec, form, a, b = case['law'], case['form'], case['a'], case['b']

    def make(eu):
        if spec['t'] == 'elastic':
            return cl.Elastic(spec['E'], eps_u=eu)
        return cl.UserDefined(spec['x'], spec['y'], flag=spec['flag'],
                              eps_u=eu)
    rec.label(form, spec['t'])
    rec.nt()
    if form == 'num':
        got = make(case['sa'] * a).get_ultimate_strain()
        require(tuple(got) == (-a, a), f'eps_u={case["sa"] * a}: {got}')
    elif form == 'pair':
        p = (b, -a) if case['flip'] else (-a, b)
        got = make(p).get_ultimate_strain()
        require(tuple(got) == (-a, b), f'eps_u={p}: limits {got}')
    elif form == 'bothpos':
        a, b = a + 1e-6, b + 1e-6
        must_raise(ValueError, lambda: make((a, b)), f'eps_u={(a, b)}')
    elif form == 'bothneg':
        a, b = a + 1e-6, b + 1e-6
        must_raise(ValueError, lambda: make((-a, -b)), f'eps_u={(-a, -b)}')
    elif form == 'one':
        must_raise(ValueError, lambda: make((a,)), f'eps_u={(a,)}')
    else:
        must_raise(ValueError, lambda: make('limit'), "eps_u='limit'")


@st.composite
def s_reject(draw):
    return {'what': draw(st.sampled_from(
        ['elastic', 'ep', 'popovics', 'sargin', 'ud-length', 'ud-flag',
         'par-weights', 'par-type', 'ini-type'])),
        'v': -draw(st.one_of(st.just(0.0), L.sig(1e-6, 1e6))),
        'n': draw(st.integers(1, 5)), 'm': draw(st.integers(1, 5)),
        'flag': draw(st.one_of(st.integers(-5, -1), st.integers(4, 50)))}


def run_reject(case, rec):
    from structuralcodes.materials import constitutive_laws as cl

    w, v, n, m = case['what'], case['v'], case['n'], case['m']
    rec.label(w)
    rec.nt()
    V = ValueError
    if w == 'elastic':
        must_raise(V, lambda: cl.Elastic(v), f'Elastic(E={v})')
    elif w == 'ep':
        must_raise(V, lambda: cl.ElasticPlastic(v, 500), f'E={v}')
    elif w == 'popovics':
        must_raise(V, lambda: cl.Popovics(30, Ec=v), f'Popovics(Ec={v})')
    elif w == 'sargin':
        must_raise(V, lambda: cl.Sargin(30, k=v), f'Sargin(k={v})')
    elif w == 'ud-length':
        x = [0.001 * i for i in range(n + 1)]
        y = [1.0 * i for i in range(n + 1 + m)]
        must_raise(V, lambda: cl.UserDefined(x, y), 'UserDefined lengths')
        must_raise(V, lambda: cl.UserDefined(y, x), 'UserDefined lengths')
    elif w == 'ud-flag':
        must_raise(V, lambda: cl.UserDefined([0, 0.001], [0, 1],
                                             flag=case['flag']),
                   f'UserDefined flag={case["flag"]}')
    elif w == 'par-weights':
        laws = [cl.Elastic(10 + i) for i in range(n)]
        must_raise(V, lambda: cl.Parallel(laws, weights=[1.0] * (n + m)),
                   'Parallel weights')
    elif w == 'par-type':
        must_raise(TypeError, lambda: cl.Parallel(
            [cl.Elastic(10)] * (n - 1) + ['x'] + [cl.Elastic(1)] * m),
            'Parallel of a string')
    else:
        must_raise(TypeError, lambda: cl.InitialStrain(None, v),
                   'InitialStrain(None)')


SUBS = [
    Sub('limits', s_limits, run_limits, 5000, 60000, 'all laws', shards=2),
    Sub('eps_u', s_epsu, run_epsu, 2500, 30000, 'all forms of eps_u',
        shards=1),
    Sub('reject', s_reject, run_reject, 600, 5000,
        'arguments documented as invalid', shards=1),
]
