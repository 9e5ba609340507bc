"""L03: scalars and arrays alike, inputs never modified, calls repeatable."""
import numpy as np
from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, fail, require

RULE = ('random (nested) laws, arrays of 1-12 strains incl. limits, '
        'near-limits, zeros, duplicates, as list / float array / integer '
        'array / numpy scalars; non-trivial: at least two different '
        'non-zero stresses or an integer container')
ASSUMPTIONS = []


@st.composite
def strategy(draw):
    spec = draw(st.one_of(L.basic(), L.composite(2)))
    kind = draw(st.sampled_from(['list', 'array', 'array', 'array', 'int',
                                 'intlist', 'tuple', 'readonly']))
    if kind in ('int', 'intlist'):
        eps = draw(st.lists(st.sampled_from([0, 0, 1, -1, 2]), min_size=1,
                            max_size=5))
    else:
        eps = draw(st.lists(L.strain_for(spec), min_size=1, max_size=10))
        eps += draw(st.lists(st.sampled_from(eps + [0.0]), max_size=2))
        if draw(st.integers(0, 24)) == 17:  # a long array
            k = draw(st.integers(20, 300))
            eps = [float(f'{v * (1 - i / k):.9g}')
                   for i in range(k) for v in eps]
    order = draw(st.permutations(
        ['get_stress', 'get_tangent', 'get_secant', 'get_stress']))
    return {'law': spec, 'kind': kind, 'eps': eps, 'order': order}


def container(kind, eps):
    if kind in ('list', 'intlist'):
        return list(eps)
    if kind == 'tuple':
        return tuple(eps)
    if kind == 'int':
        return np.array(eps, dtype=int)
    a = np.array(eps, dtype=float)
    if kind == 'readonly':
        a.setflags(write=False)
    return a


def run(case, rec):
    spec = case['law']
    law = L.build(spec)
    rec.label(spec['t'], case['kind'])
    eps = case['eps']
    # scalar answers are taken from a second, fresh law
    ref = L.build(spec)
    for name in case['order']:
        want = [getattr(ref, name)(e) for e in eps]
        arg = container(case['kind'], eps)
        before = list(arg)
        got = getattr(law, name)(arg)
        require(len(arg) == len(before) and
                all(a == b for a, b in zip(arg, before)),
                lambda: f'{name} of {spec} changed its input {before} into '
                        f'{list(arg)}')
        got = np.asarray(got)
        require(got.shape == (len(eps),),
                lambda: f'{name} of {spec}: shape {got.shape} for '
                        f'{len(eps)} strains')
        for e, g, w in zip(eps, got, want):
            # only the exact value of a tangent AT a break may be chosen
            # freely by the law, but scalars and arrays must agree on it
            tol = 1e-10 * max(abs(float(w)), L.scale(spec)) if (
                name == 'get_stress') else 1e-9 * max(abs(float(w)), 1.0)
            if name == 'get_secant' and e != 0:
                tol += 1e-10 * L.scale(spec) / abs(e)
            ok = (not isinstance(w, complex) and not np.iscomplexobj(g)
                  and (float(g) == float(w)
                       or abs(float(g) - float(w)) <= tol))
            require(ok, lambda: f'{name} of {spec} at {e!r}: array gives '
                                f'{g!r}, scalar {w!r}')
        again = np.asarray(getattr(law, name)(container(case['kind'], eps)))
        require(np.array_equal(again, got),
                f'{name} of {spec} is not repeatable')
        nps = getattr(law, name)(np.float64(eps[0]))
        require(abs(float(nps) - float(want[0])) <=
                1e-9 * max(abs(float(want[0])), 1.0),
                lambda: f'{name}(np.float64) {nps!r} vs {want[0]!r}')
        rec.nt(len({float(w) for w in want if w}) > 1
               or case['kind'].startswith('int'))


SUBS = [Sub('arrays', strategy, run, 6000, 100000,
            'nested laws, arrays of strains, all three functions', shards=4)]
