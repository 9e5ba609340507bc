"""M04: design-code selection and factories, over histories of calls."""
import types

from hypothesis import strategies as st

from ..core import Sub, must_raise, require

RULE = ('random histories of up to 25 selections (names in any case, '
        'modules, None, invalid ones), annex selections and factory calls '
        'with and without explicit code, against a one-variable model; '
        'non-trivial: a factory call after at least one selection')
ASSUMPTIONS = []

NAMES = ['mc2010', 'mc2020', 'ec2_2004', 'ec2_2023']
# modules of a user, with the materials they cover
OWN = {'custom': ('concrete', 'reinforcement'), 'onlyc': ('concrete',),
       'onlys': ('reinforcement',)}
BAD = ['mc90', '', 'ec2', 'ec2_2005', 'EC2-2004', 'mc2010 ', 5, 1.5, ['a'],
       'module:math', 'module:structuralcodes', 'module:nomaterials']


@st.composite
def s_name(draw):
    n = draw(st.sampled_from(NAMES))
    return draw(st.sampled_from([n, n, n.upper(), n.title(), n.swapcase()]))


@st.composite
def op(draw):
    k = draw(st.integers(0, 11))
    if k <= 2:
        return ['set', draw(s_name())]
    if k == 3:
        return ['set', 'module:' + draw(st.sampled_from(NAMES))]
    if k == 4:
        return ['set', None]
    if k == 5:
        return ['set', draw(st.sampled_from(BAD))]
    code = draw(st.one_of(st.none(), st.none(), s_name(),
                          st.sampled_from(NAMES).map('module:{}'.format),
                          st.sampled_from(BAD + ['module:custom', 'module:onlyc',
                                                 'module:onlys'])))
    if k <= 8:
        return ['concrete', code, draw(st.sampled_from([20, 35.5, 60])),
                draw(st.sampled_from([None, 1.4]))]
    if k <= 10:
        return ['steel', code, draw(st.sampled_from([400, 500.0, 550])),
                draw(st.sampled_from([None, 1.1]))]
    return draw(st.sampled_from([['list'], ['annex', 'NO'],
                                 ['set', 'module:custom'], ['set', 'module:onlyc'],
                                 ['set', 'module:onlys']]))


def strategy():
    return st.lists(op(), min_size=1, max_size=25).map(lambda o: {'ops': o})


def resolve(x):
    """The argument to pass for a JSON token."""
    import structuralcodes
    from structuralcodes import codes

    if not (isinstance(x, str) and x.startswith('module:')):
        return x
    n = x[7:]
    if n == 'math':
        import math
        return math
    if n == 'structuralcodes':
        return structuralcodes
    if n == 'nomaterials':
        m = types.ModuleType('nomaterials')
        m.__title__, m.__year__ = 'X', '1'
        return m
    if n in OWN:
        m = types.ModuleType(n)
        m.__title__, m.__year__ = 'Own code', '2020'
        m.__materials__ = OWN[n]
        return m
    return getattr(codes, n)


def code_of(x):
    """Model: which code a token selects, or 'bad'."""
    if isinstance(x, str):
        n = x[7:] if x.startswith('module:') else x.lower()
        if n in NAMES or (n in OWN and x.startswith('module:')):
            return n
    return 'bad'


def run(case, rec):
    from structuralcodes import codes, set_design_code
    from structuralcodes.materials import concrete as C
    from structuralcodes.materials import reinforcement as R

    conc = {'ec2_2004': C.ConcreteEC2_2004, 'ec2_2023': C.ConcreteEC2_2023,
            'mc2010': C.ConcreteMC2010}
    reinf = {'ec2_2004': R.ReinforcementEC2_2004,
             'ec2_2023': R.ReinforcementEC2_2023,
             'mc2010': R.ReinforcementMC2010}
    annex0 = getattr(codes, '_NATIONAL_ANNEX', None)
    set_design_code(None)
    current = None
    made = []
    selected = False
    try:
        for i, o in enumerate(case['ops']):
            text = f'step {i} {o} of {case["ops"]}'
            if o[0] == 'set':
                arg = resolve(o[1])
                if o[1] is None:
                    set_design_code()if i % 2 else set_design_code(None)
                    current = None
                elif code_of(o[1]) == 'bad':
                    rec.label('bad selection')
                    must_raise(ValueError, lambda: set_design_code(arg), text)
                else:
                    set_design_code(arg)
                    current = code_of(o[1])
                    selected = True
            elif o[0] == 'list':
                lst = codes.get_design_codes()
                require(sorted(lst) == sorted(NAMES),
                        f'{text}: listed {lst}')
                lst.append('mine')  # the caller's own copy
                must_raise(ValueError, lambda: set_design_code('mine'), text)
            elif o[0] == 'annex':
                codes.set_national_annex(o[1])
            else:
                kind, code, size, gamma = o
                table = conc if kind == 'concrete' else reinf
                use = current if code is None else code_of(code)
                kw = {} if code is None else {'design_code': resolve(code)}
                if gamma is not None:
                    kw['gamma_c' if kind == 'concrete' else 'gamma_s'] = gamma

                def make():
                    if kind == 'concrete':
                        return C.create_concrete(size, **kw)
                    return R.create_reinforcement(size, 2e5, 1.08 * size,
                                                  0.05, **kw)
                rec.nt(selected)
                rec.label(f'{kind}:{use}:'
                          f'{"given" if code is not None else "global"}')
                covers = OWN.get(use, ('concrete', 'reinforcement'))
                if use in (None, 'bad') or \
                        ('concrete' if kind == 'concrete' else
                         'reinforcement') not in covers:
                    must_raise(ValueError, make, text)
                elif use in OWN or use == 'mc2020':
                    # no material classes: None or ValueError
                    try:
                        r = make()
                    except ValueError:
                        r = None
                    require(r is None, f'{text}: created {r!r}')
                else:
                    m = make()
                    require(type(m) is table[use],
                            f'{text}: {type(m).__name__}, expected '
                            f'{table[use].__name__}')
                    made.append((m, kind, size, gamma))
            # objects made before keep their values
            for m, kind, size, gamma in made[-3:]:
                if kind == 'concrete':
                    require(m.fck == size and m.gamma_c == (gamma or 1.5),
                            f'{text}: changed an earlier concrete')
                else:
                    require(m.fyk == size and m.gamma_s == (gamma or 1.15),
                            f'{text}: changed an earlier reinforcement')
    finally:
        set_design_code(None)
        codes._NATIONAL_ANNEX = annex0


SUBS = [Sub('history', strategy, run, 6400, 100000, RULE, 8)]
