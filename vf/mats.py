"""Generators and reference values for materials (M checks)."""
import warnings

from hypothesis import strategies as st

from .laws import fl, sig

CODES = ['ec2_2004', 'ec2_2023', 'mc2010']

# order of the overrides = the documented keyword arguments
OVER = {
    'ec2_2004': ['fcm', 'fctm', 'fctk_5', 'fctk_95', 'Ecm', 'eps_c1',
                 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2',
                 'n_parabolic_rectangular', 'eps_c3', 'eps_cu3'],
    'ec2_2023': ['fcm', 'fctm', 'fctk_5', 'fctk_95', 'Ecm', 'eps_c1',
                 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2',
                 'n_parabolic_rectangular'],
    'mc2010': ['fcm', 'fctm', 'fctkmin', 'fctkmax', 'Eci', 'Gf', 'eps_c1',
               'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2',
               'n_parabolic_rectangular', 'eps_c3', 'eps_cu3'],
}
LAWS = {
    'ec2_2004': ['elastic', 'bilinearcompression', 'parabolarectangle',
                 'sargin', 'popovics'],
    'ec2_2023': ['elastic', 'parabolarectangle', 'sargin', 'popovics'],
    'mc2010': ['elastic', 'bilinearcompression', 'parabolarectangle',
               'sargin', 'popovics'],
}
ALL_LAWS = ['elastic', 'elasticplastic', 'elasticperfectlyplastic',
            'bilinearcompression', 'parabolarectangle', 'popovics', 'sargin',
            'initialstrain']
STEEL_LAWS = ['elastic', 'elasticplastic', 'elasticperfectlyplastic']


def module(code):
    from structuralcodes import codes

    return getattr(codes, code)


def concrete_class(code):
    from structuralcodes.materials import concrete as c

    return {'ec2_2004': c.ConcreteEC2_2004, 'ec2_2023': c.ConcreteEC2_2023,
            'mc2010': c.ConcreteMC2010}[code]


def steel_class(code):
    from structuralcodes.materials import reinforcement as r

    return {'ec2_2004': r.ReinforcementEC2_2004,
            'ec2_2023': r.ReinforcementEC2_2023,
            'mc2010': r.ReinforcementMC2010}[code]


s_fck = st.one_of(
    sig(12, 100), st.sampled_from([12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60,
                                  70, 80, 90, 50.0, 12.0, 30.0, 40.0]),
    st.sampled_from([49.99, 50.01, 49.9, 50.1, 39.9, 40.1]))

S_VALUE = {
    'fctm': sig(0.5, 6), 'fctk_5': sig(0.3, 5), 'fctk_95': sig(0.5, 8),
    'fctkmin': sig(0.3, 5), 'fctkmax': sig(0.5, 8),
    'Ecm': sig(1e4, 6e4), 'Eci': sig(1e4, 6e4), 'Gf': sig(50, 250),
    'k_sargin': sig(1.05, 4), 'n_parabolic_rectangular': sig(1, 3),
}


@st.composite
def concrete(draw, prob=0.35, law=True):
    """JSON-able spec of a valid concrete."""
    code = draw(st.sampled_from(CODES))
    fck = draw(s_fck)
    kw = {}
    names = OVER[code]
    chosen = draw(st.one_of(
        st.just([]), st.sampled_from(names).map(lambda n: [n]),
        st.lists(st.sampled_from(names), unique=True),
        st.just(list(names))))
    if law:
        lawname = draw(st.one_of(st.none(), st.sampled_from(LAWS[code])))
    else:
        lawname = None
    e0 = draw(sig(0.001, 0.003))
    for n in chosen:
        if n == 'fcm':
            kw[n] = fck + draw(sig(0.1, 20))
            if code == 'ec2_2023':  # eps_c1 is defined from fcm = 20 MPa
                kw[n] = max(kw[n], 20.0)
        elif n in S_VALUE:
            kw[n] = draw(S_VALUE[n])
        elif n in ('eps_c1', 'eps_c2', 'eps_c3'):
            kw[n] = draw(sig(0.001, 0.003))
        elif n.startswith('eps_cu'):
            kw[n] = draw(sig(0.0031, 0.008))
    # a sign given by the user is dropped (all magnitudes are positive)
    if chosen and draw(st.integers(0, 3)) == 0:
        for n in chosen:
            if n not in ('k_sargin', 'n_parabolic_rectangular'):
                kw[n] = -kw[n]
    if draw(st.booleans()):
        kw['gamma_c'] = draw(st.one_of(st.sampled_from([1.0, 1.2, 1.4, 1.5]),
                                       sig(1.0 if code == 'ec2_2023' else 0.5,
                                           2.5)))
    if code != 'ec2_2023':
        if draw(st.booleans()):
            kw['alpha_cc'] = draw(st.one_of(st.sampled_from([0.85, 1.0]),
                                            sig(0.3, 1.2)))
    else:
        if draw(st.booleans()):
            kw['kE'] = draw(st.one_of(st.sampled_from([5000, 9500, 13000]),
                                      sig(5000, 13000)))
        if draw(st.booleans()):
            c = draw(st.sampled_from(['CS', 'CN', 'CR', 'slow', 'normal',
                                      'rapid', 'cs', 'Cn', 'SLOW', 'Rapid',
                                      ' CR ', 'normal ']))
            kw['strength_dev_class'] = c
    if draw(st.integers(0, 3)) == 0:
        kw['density'] = draw(sig(1000, 3000))
    if draw(st.integers(0, 3)) == 0:
        kw['name'] = draw(st.sampled_from(['My concrete', 'x', 'C']))
    if lawname:
        kw['constitutive_law'] = lawname
    del e0
    return {'code': code, 'fck': fck, 'kw': kw}


def build_concrete(spec, how='class'):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if how == 'class':
            return concrete_class(spec['code'])(spec['fck'], **spec['kw'])
        from structuralcodes.materials.concrete import create_concrete

        return create_concrete(spec['fck'], design_code=spec['code'],
                               **spec['kw'])


def expected(spec):
    """Values of all attributes of a concrete spec, by the code functions."""
    code, fck, kw = spec['code'], abs(spec['fck']), spec['kw']
    m = module(code)
    v = {'fck': fck, 'density': abs(kw.get('density', 2400.0)),
         'name': kw.get('name', f'C{round(fck)}'),
         'gamma_c': kw.get('gamma_c', 1.5)}

    def put(n, f):
        if n in kw:
            v[n] = kw[n] if n in ('k_sargin', 'n_parabolic_rectangular') \
                else abs(kw[n])
        else:
            v[n] = f()

    put('fcm', lambda: m.fcm(fck))
    put('fctm', lambda: m.fctm(fck))
    if code == 'mc2010':
        put('fctkmin', lambda: m.fctkmin(v['fctm']))
        put('fctkmax', lambda: m.fctkmax(v['fctm']))
        put('Eci', lambda: m.Eci(v['fcm']))
        put('Gf', lambda: m.Gf(fck))
        for n in ('eps_c1', 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2',
                  'n_parabolic_rectangular', 'eps_c3', 'eps_cu3'):
            put(n, lambda n=n: getattr(m, n)(fck))
    else:
        put('fctk_5', lambda: m.fctk_5(v['fctm']))
        put('fctk_95', lambda: m.fctk_95(v['fctm']))
        if code == 'ec2_2004':
            put('Ecm', lambda: m.Ecm(v['fcm']))
            put('eps_c1', lambda: m.eps_c1(v['fcm']))
            put('eps_cu1', lambda: m.eps_cu1(fck))
            for n in ('eps_c2', 'eps_cu2', 'n_parabolic_rectangular',
                      'eps_c3', 'eps_cu3'):
                put(n, lambda n=n: getattr(m, n)(fck))
        else:
            put('Ecm', lambda: m.Ecm(v['fcm'], kw.get('kE', 9500)))
            put('eps_c1', lambda: m.eps_c1(v['fcm']))
            put('eps_cu1', lambda: m.eps_cu1(v['fcm']))
            for n in ('eps_c2', 'eps_cu2', 'n_parabolic_rectangular'):
                put(n, lambda n=n: getattr(m, n)())
        put('k_sargin', lambda: m.k_sargin(v['Ecm'], v['fcm'], v['eps_c1']))
    if code == 'ec2_2023':
        cls = kw.get('strength_dev_class', 'CN').strip().lower()
        v['fcd'] = m.fcd(fck, m.eta_cc(fck, 40), m.k_tc(28, 91, cls),
                         v['gamma_c'])
        v['fctd'] = m.fctd(v['fctk_5'], m.k_tt(28, cls), v['gamma_c'])
    else:
        v['alpha_cc'] = kw.get('alpha_cc', 1.0)
        v['fcd'] = v['alpha_cc'] * fck / v['gamma_c']
    return v


def law_spec(code, v, name):
    """Reference law (vf.laws spec) that the concrete must carry."""
    E = v.get('Ecm', v.get('Eci'))
    if name == 'elastic':
        return {'t': 'elastic', 'E': E}
    if name == 'bilinearcompression':
        return {'t': 'bl', 'fc': v['fcd'], 'eps_c': v['eps_c3'],
                'eps_cu': v['eps_cu3']}
    if name == 'parabolarectangle':
        return {'t': 'pr', 'fc': v['fcd'], 'eps_0': v['eps_c2'],
                'eps_u': v['eps_cu2'], 'n': v['n_parabolic_rectangular']}
    if name == 'sargin':
        return {'t': 'sargin', 'fc': v['fcm'], 'eps_c1': v['eps_c1'],
                'eps_cu1': v['eps_cu1'], 'k': v['k_sargin']}
    return {'t': 'pop', 'fc': v['fcd'], 'eps_c': v['eps_c1'],
            'eps_cu': v['eps_cu1'], 'Ec': E}


@st.composite
def steel(draw, law=True):
    code = draw(st.sampled_from(CODES))
    fyk = draw(st.one_of(st.sampled_from([400, 500, 550, 600]),
                         sig(200, 1800)))
    Es = draw(st.one_of(st.sampled_from([200000, 2e5, 1.95e5]),
                        sig(1.5e5, 2.2e5)))
    ftk = fyk * draw(st.one_of(st.sampled_from([1.0, 1.05, 1.08, 1.15]),
                               sig(1.0, 1.5)))
    epsuk = draw(st.one_of(st.sampled_from([0.025, 0.05, 0.075]),
                           sig(0.02, 0.15)))
    kw = {}
    if draw(st.booleans()):
        kw['gamma_s'] = draw(st.one_of(st.sampled_from([1.0, 1.1, 1.15]),
                                       sig(1.0, 1.6)))
    if code != 'ec2_2023' and draw(st.booleans()):
        kw['gamma_eps'] = draw(st.one_of(st.sampled_from([0.9, 1.0]),
                                         sig(0.7, 1.0)))
    if draw(st.integers(0, 3)) == 0:
        kw['density'] = draw(sig(5000, 9000))
    if draw(st.integers(0, 3)) == 0:
        kw['name'] = draw(st.sampled_from(['My steel', 'B500', 'x']))
    if law and draw(st.booleans()):
        kw['constitutive_law'] = draw(st.sampled_from(STEEL_LAWS))
    return {'code': code, 'fyk': fyk, 'Es': Es, 'ftk': ftk, 'epsuk': epsuk,
            'kw': kw}


def build_steel(spec, how='class'):
    a = {k: spec[k] for k in ('fyk', 'Es', 'ftk', 'epsuk')}
    if how == 'class':
        return steel_class(spec['code'])(**a, **spec['kw'])
    from structuralcodes.materials.reinforcement import create_reinforcement

    return create_reinforcement(**a, design_code=spec['code'], **spec['kw'])


def expected_steel(spec):
    kw = spec['kw']
    gs = kw.get('gamma_s', 1.15)
    v = {k: abs(spec[k]) for k in ('fyk', 'Es', 'ftk', 'epsuk')}
    v['gamma_s'] = gs
    v['density'] = abs(kw.get('density', 7850.0))
    v['name'] = kw.get('name', f'Reinforcement{round(spec["fyk"])}')
    v['fyd'] = v['fyk'] / gs
    v['ftd'] = v['ftk'] / gs
    if spec['code'] == 'ec2_2023':
        v['epsud'] = v['epsuk'] / gs
    else:
        v['gamma_eps'] = kw.get('gamma_eps', 0.9)
        v['epsud'] = v['epsuk'] * v['gamma_eps']
    v['epsyk'] = v['fyk'] / v['Es']
    v['epsyd'] = v['fyd'] / v['Es']
    return v


def steel_law_spec(v, name):
    if name == 'elastic':
        return {'t': 'elastic', 'E': v['Es']}
    if name == 'elasticperfectlyplastic':
        return {'t': 'ep', 'E': v['Es'], 'fy': v['fyd'], 'Eh': 0.0,
                'eps_su': v['epsud']}
    Eh = (v['ftd'] - v['fyd']) / (v['epsud'] - v['epsyd'])
    return {'t': 'ep', 'E': v['Es'], 'fy': v['fyd'], 'Eh': Eh,
            'eps_su': v['epsud']}


def build(make):
    """Material of {'kind', 'm', 'how', 'e0'}."""
    m = make['m']
    if make['kind'] == 'ep':
        from structuralcodes.materials.basic import ElasticPlasticMaterial

        return ElasticPlasticMaterial(**m)
    if make.get('e0') is not None:
        m = {**m, 'kw': {**m['kw'], 'initial_strain': make['e0']}}
    return (build_concrete if make['kind'] == 'concrete' else build_steel)(
        m, make['how'])


__all__ = [n for n in dir() if not n.startswith('_')] + ['fl']
