"""M03: laws built from a material carry its design values."""
from hypothesis import strategies as st

from .. import laws as L
from .. import mats as M
from ..core import Reject, Sub, fail, must_raise, req_close, require
from .M02 import law_of, sane

RULE = ('random concretes and reinforcements x every law name in random '
        'letter case, through the keyword, the factory and a law object, '
        'compared at 10 strains and the limits with a reference law with the '
        'design values; non-trivial: a law other than elastic')
ASSUMPTIONS = ['overrides with the peak before the ultimate strain; Sargin '
               'and Popovics parameters for which the formula is defined']

CASES = st.sampled_from(['lower', 'upper', 'title', 'mixed'])


def cased(name, how):
    if how == 'upper':
        return name.upper()
    if how == 'title':
        return name.title()
    if how == 'mixed':
        return ''.join(c.upper() if i % 3 else c for i, c in enumerate(name))
    return name


@st.composite
def strategy(draw):
    if draw(st.booleans()):
        m = draw(M.concrete(law=False))
        name = draw(st.sampled_from(M.LAWS[m['code']]))
    else:
        m = draw(M.steel(law=False))
        name = draw(st.sampled_from(M.STEEL_LAWS))
    return {'m': m, 'law': name, 'case': draw(CASES),
            'how': draw(st.sampled_from(['class', 'factory'])),
            'eps': [draw(L.sig(-1.05, 1.05)) for _ in range(6)]}


def build(m, how, **kw):
    m = {**m, 'kw': {**m['kw'], **kw}}
    return M.build_concrete(m, how) if 'fck' in m else M.build_steel(m, how)


def compare(law, spec, eps, text):
    for y in (False, True):
        for g, e, n in zip(law.get_ultimate_strain(yielding=y),
                           L.ult(spec, y), ('negative', 'positive')):
            req_close(g, e, f'{n} limit (yielding={y}) of {text}', 1e-9)
    s = L.scale(spec)
    snaps = L.snap_points(spec)
    for e in eps:
        if L.near(snaps, e, 2):
            continue
        want, tang = L.raw(spec, e)[:2]
        req_close(law.get_stress(e), want, f'stress at {e} of {text}', 1e-9,
                  1e-9 * s)
        if not L.near(L.breaks(spec), e, 2):
            req_close(law.get_tangent(e), tang, f'tangent at {e} of {text}',
                      1e-7, 1e-7 * s / 1e-3)


def run(case, rec):
    from structuralcodes.materials.constitutive_laws import (
        create_constitutive_law,
    )

    m, name = case['m'], cased(case['law'], case['case'])
    conc = 'fck' in m
    code = m['code']
    m2 = {**m, 'kw': {**m['kw'], 'constitutive_law': case['law']}}
    spec = law_of('concrete' if conc else 'steel', m2)
    if not sane(spec):
        raise Reject
    rec.label(f'{code}:{case["law"]}')
    rec.nt(spec['t'] != 'elastic')
    lo, hi = L.ult(spec)
    lo, hi = max(lo, -0.01), min(hi, 0.05)
    hi = hi or 0.003
    eps = [r * (hi if r > 0 else -lo) for r in case['eps']]
    # the characteristic strains of the law
    eps += [p for p in L.breaks(spec) if abs(p) < 1]
    text = f'law {name} of {m}'
    mat = build(m, case['how'], constitutive_law=name)
    other = build(m, case['how'])
    laws = {'keyword': mat.constitutive_law,
            'factory': create_constitutive_law(name, other),
            'factory keyword': create_constitutive_law(
                constitutive_law_name=name, material=mat)}
    cls = {'elastic': 'Elastic', 'pr': 'ParabolaRectangle', 'ep':
           'ElasticPlastic', 'bl': 'BilinearCompression', 'sargin': 'Sargin',
           'pop': 'Popovics'}[spec['t']]
    for how, law in laws.items():
        require(type(law).__name__ == cls,
                f'{how}: {text} is a {type(law).__name__}')
        compare(law, spec, eps, f'{how}: {text}')
    # the default law of the material
    default = 'parabolarectangle' if conc else 'elasticplastic'
    dspec = law_of('concrete' if conc else 'steel',
                   {**m, 'kw': {**m['kw'], 'constitutive_law': default}})
    if sane(dspec):
        compare(other.constitutive_law, dspec, eps, f'default law of {m}')
    # a law object is used as it is
    again = build(m, case['how'], constitutive_law=laws['factory'])
    require(again.constitutive_law is laws['factory'],
            f'another law object in {text}')


@st.composite
def s_bad(draw):
    m = draw(st.one_of(M.concrete(law=False), M.steel(law=False)))
    return {'m': m, 'name': draw(st.one_of(
        st.sampled_from(M.ALL_LAWS), st.sampled_from(
            ['userdefined', 'parallel', 'elastic ', 'elastic_plastic', '',
             'parabola', 'Sarginn', '__elastic__']),
        st.text(max_size=12))), 'case': draw(CASES),
        'how': draw(st.sampled_from(['class', 'factory']))}


def run_bad(case, rec):
    from structuralcodes.materials import basic
    from structuralcodes.materials import constitutive_laws as cl

    m, name = case['m'], cased(case['name'], case['case'])
    conc = 'fck' in m
    ok = M.LAWS[m['code']] if conc else M.STEEL_LAWS
    mat = build(m, case['how'])
    valid = name.lower() in ok
    rec.label('valid' if valid else 'unavailable'
              if name.lower() in M.ALL_LAWS else 'unknown')
    rec.nt(not valid)
    if not valid:
        must_raise(ValueError, lambda: cl.create_constitutive_law(name, mat),
                   f'law {name!r} for {m}')
        must_raise(ValueError, lambda: build(m, case['how'],
                                             constitutive_law=name),
                   f'law {name!r} for {m}')
    # the basic materials offer only their own law
    e = basic.ElasticMaterial(1e4, 1.0)
    p = basic.ElasticPlasticMaterial(1e4, 10.0, 1.0)
    g = basic.GenericMaterial(1.0, cl.Elastic(3.0))
    for o, names in ((e, ['elastic']), (p, ['elasticplastic']), (g, [])):
        if name.lower() in names:
            law = cl.create_constitutive_law(name, o)
            req_close(law.get_tangent(0.0), 1e4, 'modulus', 1e-12)
        else:
            must_raise(ValueError,
                       lambda o=o: cl.create_constitutive_law(name, o),
                       f'law {name!r} for {type(o).__name__}')
    lst = cl.get_constitutive_laws_list()
    for n in M.ALL_LAWS:
        if n not in lst:
            fail(f'{n} not listed in {lst}')
    for n in lst:
        if n.lower() != n:
            fail(f'{n} listed in upper case')


SUBS = [
    Sub('values', strategy, run, 9600, 160000, RULE, 8),
    Sub('names', s_bad, run_bad, 3200, 40000, RULE, 4),
]
