"""M02: reinforcement and basic materials; initial strains and stresses."""
from hypothesis import strategies as st

from .. import laws as L
from .. import mats as M
from ..core import Reject, Sub, must_raise, req_close, require
from ..laws import sig

RULE = ('random reinforcement of the three codes and random materials of '
        'every class with an initial strain or stress (from 1e-3 to 1e9 '
        'stress units); non-trivial: explicit partial factors, or a non-zero '
        'initial state')
ASSUMPTIONS = ['initial stresses below 98 % of the strength of the law']


def s_steel():
    return st.tuples(M.steel(), st.sampled_from(['class', 'factory']),
                     sig(0.02, 0.2)).map(
        lambda t: {'s': t[0], 'how': t[1], 'eu': t[2]})


def run_steel(case, rec):
    spec = case['s']
    v = M.expected_steel(spec)
    s = M.build_steel(spec, case['how'])
    rec.label(spec['code'])
    rec.nt(any(k.startswith('gamma') for k in spec['kw']))
    require(type(s) is M.steel_class(spec['code']),
            f'{type(s)} for {spec["code"]}')

    def look(v):
        for n, e in v.items():
            g = getattr(s, n)
            if n in ('fyd', 'ftd', 'epsud'):
                g = g()
            if n == 'name':
                require(g == e, f'name is {g!r}, expected {e!r}')
            else:
                req_close(g, e, f'{n} of {spec}', 1e-12)
    look(v)
    for n in v:
        if n in ('fyd', 'ftd', 'epsud', 'epsuk'):
            continue
        must_raise(AttributeError, lambda n=n: setattr(s, n, 1.0),
                   f'changing {n} of a reinforcement')
    # the only documented setter
    s.epsuk = -case['eu']
    look(M.expected_steel({**spec, 'epsuk': case['eu']}))


@st.composite
def s_bad(draw):
    spec = draw(M.steel(law=False))
    kinds = ['gamma_s', 'law', 'lawobj', 'both']
    if spec['code'] != 'ec2_2023':
        kinds.append('gamma_eps')
    kind = draw(st.sampled_from(kinds))
    if kind == 'gamma_s':
        spec['kw']['gamma_s'] = draw(st.one_of(sig(0.1, 0.999),
                                               st.just(0.9999)))
    elif kind == 'gamma_eps':
        spec['kw']['gamma_eps'] = draw(st.one_of(sig(1.001, 3),
                                                 st.just(1.0001)))
    elif kind == 'law':
        spec['kw']['constitutive_law'] = draw(st.sampled_from(
            ['bilinearcompression', 'parabolarectangle', 'popovics',
             'sargin', 'initialstrain', 'foo', '']))
    return {'s': spec, 'kind': kind, 'fac': draw(st.booleans())}


def run_bad(case, rec):
    from structuralcodes.materials import constitutive_laws as cl

    spec, kind = case['s'], case['kind']
    spec = {**spec, 'kw': dict(spec['kw'])}
    rec.label(kind)
    rec.nt()
    if kind == 'lawobj':
        spec['kw']['constitutive_law'] = cl.ParabolaRectangle(30)
    if kind == 'both':
        spec['kw']['initial_strain'] = 0.001
        spec['kw']['initial_stress'] = 200.0

    def make():
        return M.build_steel(spec, 'factory' if case['fac'] else 'class')
    must_raise(ValueError, make, f'reinforcement {spec} ({kind})')


# ------------------------------------------------------------ initial state
@st.composite
def s_initial(draw):
    kind = draw(st.sampled_from(['concrete', 'steel', 'elastic', 'ep',
                                 'generic']))
    scale = 1.0
    if kind == 'concrete':
        m = draw(M.concrete(law=False))
        m['kw']['constitutive_law'] = draw(st.sampled_from(
            [n for n in M.LAWS[m['code']] if n != 'sargin']))
    elif kind == 'steel':
        m = draw(M.steel())
    elif kind == 'elastic':
        m = draw(L.elastic(with_eps_u=False))
        scale = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e6]))
        m['E'] *= scale
        if draw(st.booleans()):
            m['eps_u'] = draw(sig(0.01, 0.1))
    elif kind == 'ep':
        m = draw(L.ep())
        scale = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e6]))
        for k in ('E', 'fy', 'Eh'):
            m[k] *= scale
    else:
        m = draw(st.one_of(L.elastic(with_eps_u=False), L.ep(), L.pr(n=2),
                           L.bl()))
    return {'kind': kind, 'm': m, 'by': draw(st.sampled_from(
        ['strain', 'stress'])), 'r': draw(st.one_of(
            sig(-0.98, 0.98), st.sampled_from([0.0, 0.5, -0.5]))),
        'compat': draw(st.sampled_from([None, True, False])),
        'far': draw(st.sampled_from([1.0, 1.0, 1.0, 3.0]))}


def make_material(kind, m, **kw):
    from structuralcodes.materials import basic

    if kind == 'concrete':
        return M.build_concrete({**m, 'kw': {**m['kw'], **kw}})
    if kind == 'steel':
        return M.build_steel({**m, 'kw': {**m['kw'], **kw}})
    if kind == 'elastic':
        return basic.ElasticMaterial(m['E'], density=1000.0,
                                     ultimate_strain=m.get('eps_u'), **kw)
    if kind == 'ep':
        return basic.ElasticPlasticMaterial(m['E'], m['fy'], 7850.0,
                                            Eh=m['Eh'], eps_su=m['eps_su'],
                                            **kw)
    return basic.GenericMaterial(1234.0, L.build(m), **kw)


def law_of(kind, m):
    """Reference spec of the law without initial strain."""
    if kind == 'concrete':
        return M.law_spec(m['code'], M.expected(m),
                          m['kw'].get('constitutive_law',
                                      'parabolarectangle'))
    if kind == 'steel':
        return M.steel_law_spec(M.expected_steel(m),
                                m['kw'].get('constitutive_law',
                                            'elasticplastic'))
    return m


def sane(spec):
    """The reference formula applies (peak before ultimate etc.)."""
    t = spec['t']
    if t == 'pr':
        return spec['eps_u'] >= spec['eps_0'] > 0 or spec['fc'] < 0 or \
            abs(spec['eps_u']) >= abs(spec['eps_0'])
    if t == 'bl':
        return abs(spec['eps_cu']) >= abs(spec['eps_c'])
    if t == 'sargin':
        eta = abs(spec['eps_cu1'] / spec['eps_c1'])
        return eta >= 1 and 1 + (spec['k'] - 2) * eta > 0.05 and spec['k'] > 1
    if t == 'pop':
        sec = abs(spec['fc'] / spec['eps_c'])
        return abs(spec['eps_cu']) >= abs(spec['eps_c']) and \
            spec['Ec'] is not None and spec['Ec'] > 1.05 * sec
    if t == 'ep':
        return spec['eps_su'] is None or \
            spec['eps_su'] > spec['fy'] / spec['E'] * 1.0001
    return True


def run_initial(case, rec):
    kind, m = case['kind'], case['m']
    spec = law_of(kind, m)
    if not sane(spec):
        raise Reject
    t = spec['t']
    rec.label(f'{kind}:{t}:{case["by"]}')
    rec.nt(case['r'] != 0)
    base = make_material(kind, m).constitutive_law
    if case['by'] == 'strain':
        lo, hi = L.ult(spec)
        lo, hi = max(lo, -0.02), min(hi, 0.02)
        r = case['r'] * case['far']
        e0 = r * (hi if r > 0 else -lo)
        mat = make_material(kind, m, initial_strain=e0,
                            strain_compatibility=case['compat'])
        s0 = base.get_stress(e0)
        req_close(mat.initial_strain, e0, 'initial_strain', 1e-14)
        req_close(mat.initial_stress, s0, f'initial_stress of {case}', 1e-9,
                  1e-9 * L.scale(spec))
    else:
        s = case['r'] * (L.scale(spec) if t != 'elastic'
                         else spec['E'] * 2e-3)
        if t in ('pr', 'bl', 'pop'):
            s = -abs(s)
        if t == 'ep' and case['far'] > 1 and spec['Eh'] > 0 and \
                spec['eps_su'] is not None and \
                spec['eps_su'] > 1.2 * spec['fy'] / spec['E'] + 1e-4:
            # beyond yielding, on the hardening branch
            top = spec['fy'] + spec['Eh'] * (spec['eps_su'] - spec['fy']
                                             / spec['E'])
            s = (spec['fy'] + abs(case['r']) * (top - spec['fy'])) * (
                1 if s > 0 else -1)
        mat = make_material(kind, m, initial_stress=s,
                            strain_compatibility=case['compat'])
        e0 = mat.initial_strain
        require(mat.initial_stress == s, 'initial_stress changed')
        req_close(base.get_stress(e0), s, f'stress at the initial strain {e0}'
                  f' of {case}', 1e-9, 1e-10 * L.scale(spec))
        s0 = s
        if t != 'ep' or abs(s) < spec['fy'] * (1 - 1e-9):
            # the ascending branch is the natural solution
            lo = max((p for p in L.breaks(spec) if p < 0), default=-1e9)
            hi = min((p for p in L.breaks(spec) if p > 0), default=1e9)
            require(lo - 1e-12 <= e0 <= hi + 1e-12,
                    f'initial strain {e0} of {case} beyond the first branch')
    law = mat.constitutive_law
    atol = 1e-7 * L.scale(spec)
    if case['r'] * case['far'] and abs(case['r'] * case['far']) <= 1:
        req_close(law.get_stress(0.0), s0, f'stress at zero strain of {case}',
                  1e-7, atol)
    require(mat.strain_compatibility is case['compat'],
            'strain_compatibility changed')
    # further strains: shifted law, or constant stress
    for e in (-0.0005, 0.0004, -0.0017, 0.0021):
        if case['compat'] is False:
            want = base.get_stress(e0)
        else:
            if L.near(L.snap_points(spec), e + e0, 2):
                continue
            want = base.get_stress(e + e0)
        req_close(law.get_stress(e), want, f'stress at {e} of {case}', 1e-9,
                  1e-9 * L.scale(spec))
    for n in ('initial_strain', 'initial_stress', 'strain_compatibility',
              'density', 'constitutive_law', 'name'):
        must_raise(AttributeError, lambda n=n: setattr(mat, n, 1.0),
                   f'changing {n} of a material')


@st.composite
def s_basic(draw):
    kind = draw(st.sampled_from(['elastic', 'ep', 'generic', 'from']))
    if kind == 'elastic':
        m = draw(L.elastic())
    elif kind == 'ep':
        m = draw(L.ep())
    elif kind == 'generic':
        m = draw(L.composite(1))
    else:
        m = draw(st.one_of(M.concrete(), M.steel(), L.composite(1)))
    return {'kind': kind, 'm': m, 'density': draw(sig(-9000, 9000)),
            'name': draw(st.one_of(st.none(), st.just('mine'))),
            'e': draw(sig(-0.004, 0.004))}


def run_basic(case, rec):
    from structuralcodes.materials import basic

    kind, m, d, name = case['kind'], case['m'], case['density'], case['name']
    rec.label(kind)
    rec.nt(kind != 'from' or 'fck' in m)
    if kind == 'from':
        if 'fck' in m:
            if not sane(law_of('concrete', m)):
                raise Reject
            o = M.build_concrete(m)
        elif 'fyk' in m:
            o = M.build_steel(m)
        else:
            o = basic.GenericMaterial(d, L.build(m), name=name)
        E = float(o.constitutive_law.get_tangent(0.0))
        if E <= 0:
            raise Reject
        mat = basic.ElasticMaterial.from_material(o)
        req_close(mat.E, E, f'E of from_material({m})', 1e-12)
        req_close(mat.density, o.density, 'density', 0)
        require(mat.name == f'{o.name}_elastic', f'name {mat.name!r}')
        spec = {'t': 'elastic', 'E': E, 'eps_u': None}
        law = mat.constitutive_law
    else:
        if kind == 'elastic':
            eu = m['eps_u']
            mat = basic.ElasticMaterial(
                m['E'], d, ultimate_strain=tuple(eu) if isinstance(eu, list)
                else eu, name=name)
            req_close(mat.E, m['E'], 'E', 0)
        elif kind == 'ep':
            mat = basic.ElasticPlasticMaterial(
                m['E'], m['fy'], d, Eh=m['Eh'], eps_su=m['eps_su'],
                name=name)
            for n in ('E', 'fy', 'Eh', 'eps_su'):
                require(getattr(mat, n) == m[n], f'{n} changed')
        else:
            law0 = L.build(m)
            mat = basic.GenericMaterial(d, law0, name=name)
            require(mat.constitutive_law is law0, 'another law object')
        req_close(mat.density, abs(d), 'density', 0)
        default = {'elastic': 'ElasticMaterial',
                   'ep': 'ElasticPlasticMaterial',
                   'generic': 'GenericMaterial'}[kind]
        require(mat.name == (name or default), f'name is {mat.name!r}')
        spec, law = m, mat.constitutive_law
        for y in (False, True):
            for g, e in zip(law.get_ultimate_strain(yielding=y),
                            L.ult(spec, y)):
                req_close(g, e, f'limits of {case}', 1e-12, 1e-15)
    e = case['e']
    if not L.near(L.snap_points(spec) + L.breaks(spec), e, 2):
        got = law.get_stress(e)
        opts = L.stress_options(spec, e)
        require(any(abs(got - o) <= 1e-9 * max(L.scale(spec), abs(o))
                    for o in opts), f'stress {got} at {e}, expected {opts}: '
                f'{case}')
    require(mat.initial_strain is None and mat.initial_stress is None,
            'initial state without being asked')
    must_raise(ValueError, lambda: basic.ElasticMaterial(
        1e4, 1.0, initial_strain=0.0, initial_stress=0.0), 'both given')


SUBS = [
    Sub('steel', s_steel, run_steel, 4800, 80000, RULE, 4),
    Sub('bad', s_bad, run_bad, 1600, 20000, RULE, 2),
    Sub('initial', s_initial, run_initial, 9600, 160000, RULE, 8),
    Sub('basic', s_basic, run_basic, 6400, 80000, RULE, 4),
]
