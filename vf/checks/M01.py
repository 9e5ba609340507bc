"""M01: concrete materials expose code values and honour overrides."""
import warnings

from hypothesis import strategies as st

from .. import mats as M
from ..core import Reject, Sub, must_raise, req_close, require
from ..laws import sig
from .M02 import law_of, sane

RULE = ('random concretes of the three codes with random subsets of '
        'overrides (either sign), partial factors, aggregate and cement '
        'options, built by class or factory; non-trivial: at least one '
        'override, or a rejected argument')
ASSUMPTIONS = ['the code functions themselves are decided by K01/K05/K07']


def s_values():
    return st.tuples(M.concrete(), st.sampled_from(['class', 'factory'])).map(
        lambda t: {'c': t[0], 'how': t[1]})


def run_values(case, rec):
    spec = case['c']
    v = M.expected(spec)
    if not sane(law_of('concrete', spec)):
        raise Reject
    c = M.build_concrete(spec, case['how'])
    over = [n for n in M.OVER[spec['code']] if n in spec['kw']]
    rec.label(spec['code'], f'{min(len(over), 3)}+ overrides' if over else
              'defaults')
    rec.nt(bool(over) or 'gamma_c' in spec['kw'])
    require(type(c) is M.concrete_class(spec['code']),
            f'{type(c)} created for {spec["code"]}')
    for turn in range(2):
        for n, e in v.items():
            g = getattr(c, n)
            if n in ('fcd', 'fctd'):
                g = g()
            if n == 'name':
                require(g == e, f'name is {g!r}, expected {e!r}')
            else:
                req_close(g, e, f'{n} of {spec["code"]} fck={spec["fck"]} '
                          f'{spec["kw"]}', 1e-12)
    for n in v:
        if n in ('fcd', 'fctd'):
            continue
        must_raise(AttributeError, lambda n=n: setattr(c, n, 1.0),
                   f'changing {n} of a concrete')
    # the arguments of fcd / fctd
    if spec['code'] == 'ec2_2023':
        m = M.module('ec2_2023')
        cls = spec['kw'].get('strength_dev_class', 'CN').strip().lower()
        for t_ref, t0, ref in ((28, 91, 40), (56, 91, 40), (28, 200, 30),
                               (57, 10, 50), (90, 90, 40)):
            e = m.fcd(v['fck'], m.eta_cc(v['fck'], ref),
                      m.k_tc(t_ref, t0, cls), v['gamma_c'])
            req_close(c.fcd(t_ref=t_ref, t0=t0, fck_ref=ref), e,
                      f'fcd({t_ref},{t0},{ref}) of {spec}', 1e-12)
            req_close(c.fcd(t_ref, t0, ref), e, 'fcd positional', 1e-12)
            e = m.fctd(v['fctk_5'], m.k_tt(t_ref, cls), v['gamma_c'])
            req_close(c.fctd(t_ref=t_ref), e, f'fctd({t_ref}) of {spec}',
                      1e-12)
        must_raise(ValueError, lambda: c.fcd(t_ref=-1), 'fcd(t_ref=-1)')
        must_raise(ValueError, lambda: c.fcd(t0=-1), 'fcd(t0=-1)')
        must_raise(ValueError, lambda: c.fcd(fck_ref=0), 'fcd(fck_ref=0)')


SUSPECT = {
    'ec2_2004': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2', 'eps_c3',
                 'eps_cu3'],
    'ec2_2023': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2'],
    'mc2010': ['eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2', 'eps_c3',
               'eps_cu3'],
}


@st.composite
def s_reject(draw):
    spec = draw(M.concrete(law=False))
    code, fck = spec['code'], spec['fck']
    kinds = ['fcm', 'fcm_eq', 'k_sargin', 'n', 'law', 'lawobj', 'existing',
             'both', 'warn', 'warn_n']
    kinds += ['class', 'gamma'] if code == 'ec2_2023' else ['warn_fctm']
    if code == 'mc2010':
        kinds += ['warn_Eci']
    kind = draw(st.sampled_from(kinds))
    kw = spec['kw']
    x = None
    if kind == 'fcm':
        kw['fcm'] = fck * draw(st.one_of(sig(0.1, 0.999), st.just(0.9999))) * \
            draw(st.sampled_from([1, -1]))
    elif kind == 'fcm_eq':
        kw['fcm'] = fck
    elif kind == 'k_sargin':
        kw['k_sargin'] = -draw(sig(1e-6, 5))
    elif kind == 'n':
        kw['n_parabolic_rectangular'] = -draw(sig(1e-6, 5))
    elif kind == 'class':
        kw['strength_dev_class'] = draw(st.sampled_from(
            ['C', 'CNN', '', 'fast', 'c n', 'N', '42.5R']))
    elif kind == 'gamma':
        kw['gamma_c'] = draw(st.one_of(st.just(0), st.just(0.0),
                                       sig(1e-6, 3).map(lambda v: -v)))
    elif kind == 'warn':
        n = draw(st.sampled_from(SUSPECT[code]))
        kw[n] = draw(st.one_of(sig(0.1001, 5), st.just(3.5), st.just(2)))
        x = n
    elif kind == 'warn_n':
        kw['n_parabolic_rectangular'] = draw(sig(5.0001, 20))
    elif kind == 'warn_fctm':
        kw['fctm'] = fck * draw(sig(0.5001, 2))
    elif kind == 'warn_Eci':
        kw['Eci'] = draw(st.one_of(sig(10, 9999), sig(100001, 1e6)))
    return {'c': spec, 'kind': kind, 'x': x, 'fac': draw(st.booleans()),
            'law': draw(st.sampled_from(['elasticplastic', 'initialstrain',
                                         'elasticperfectlyplastic', 'foo',
                                         'userdefined', '']))}


def run_reject(case, rec):
    from structuralcodes.materials import constitutive_laws as cl
    from structuralcodes.materials.concrete import create_concrete

    spec, kind = case['c'], case['kind']
    kw = dict(spec['kw'])
    rec.label(f'{spec["code"]}:{kind}')
    rec.nt()

    def make():
        if case['fac']:
            return create_concrete(spec['fck'], design_code=spec['code'],
                                   **kw)
        return M.concrete_class(spec['code'])(spec['fck'], **kw)
    text = f'{spec["code"]} concrete {spec["fck"]} {kw} ({kind})'
    if kind.startswith('warn'):
        # the law must not depend on the suspicious value
        kw['constitutive_law'] = 'elastic'
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            make()
        require(any(issubclass(x.category, Warning) for x in w),
                f'{text}: no warning')
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'law':
            kw['constitutive_law'] = case['law']
            must_raise(ValueError, make, text)
        elif kind == 'lawobj':
            kw['constitutive_law'] = cl.ElasticPlastic(2e5, 500)
            must_raise(ValueError, make, text)
        elif kind == 'existing':
            kw['existing'] = True
            must_raise(NotImplementedError, make, text)
        elif kind == 'both':
            kw['initial_strain'] = -1e-4
            kw['initial_stress'] = -1.0
            must_raise(ValueError, make, text)
        else:
            must_raise(ValueError, make, text)


def run_quiet(case, rec):
    """Ordinary values give no warning and arguments are kept unchanged."""
    spec = case['c']
    kw = dict(spec['kw'])
    if kw.get('fctm') is not None and abs(kw['fctm']) > 0.45 * spec['fck']:
        rec.label('skipped')
        return
    if not sane(law_of('concrete', spec)):
        raise Reject
    rec.label(spec['code'])
    rec.nt(bool(kw))
    from structuralcodes.materials.concrete import create_concrete
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        c = create_concrete(spec['fck'], design_code=spec['code'],
                            existing=False, **kw)
    w = [x for x in w if issubclass(x.category, UserWarning)
         and 'suspect' in str(x.message)]
    require(not w, lambda: f'{spec}: warned {w[0].message}')
    require(c.initial_strain is None and c.initial_stress is None,
            'initial strain without being asked')
    # constructing another one does not change the first
    before = {n: getattr(c, n) for n in M.expected(spec)
              if n not in ('fcd', 'fctd')}
    other = M.concrete_class(spec['code'])(33.0, gamma_c=1.33)
    after = {n: getattr(c, n) for n in before}
    require(before == after, f'{before} became {after}')
    require(other.fck == 33.0 and other.gamma_c == 1.33, 'mixed up')


SUBS = [
    Sub('values', s_values, run_values, 9600, 160000, RULE, 8),
    Sub('reject', s_reject, run_reject, 6400, 80000, RULE, 4),
    Sub('quiet', s_values, run_quiet, 2400, 40000, RULE, 4),
]
