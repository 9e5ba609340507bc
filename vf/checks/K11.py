"""fib Model Code 2010 bond between concrete and reinforcing bars."""
import math
import warnings

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, RULE, cased, make_sub, near, num  # noqa: F401

ASSUMPTIONS = [
    'sizes and strengths are positive',
    'the confinement condition of a pull-out failure, which does not '
    'influence s_3, is one of the documented names',
]

BAD = st.sampled_from(['', 'poor', 'goodd', 'all', None, 1, ' good', 'PO'])
BOND = st.one_of(cased('good', 'other'), cased('good', 'other'),
                 cased('good', 'other'), BAD)
FAIL = st.one_of(cased('po', 'sp'), cased('po', 'sp'), cased('po', 'sp'),
                 st.sampled_from(['', 'pull-out', None, 2, 'p', 'good']))
CONF = st.one_of(cased('unconfined', 'stirrups'),
                 cased('unconfined', 'stirrups'),
                 cased('unconfined', 'stirrups'),
                 st.sampled_from(['', 'confined', None, 3, 'stirrup']))


def name(x, *names):
    if not isinstance(x, str) or x.lower() not in names:
        raise Bad
    return x.lower()


def bond(a, b):
    return lambda bond: a if name(bond, 'good', 'other') == 'good' else b


def tau_bu_split(eta_2, f_cm, phi, c_min, c_max, k_m, K_tr):
    return (eta_2 * 6.5 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2
            * ((c_min / phi) ** 0.33 * (c_max / c_min) ** 0.1 + k_m * K_tr))


def s_3(failmod, bond, confinement, c_clear, s_1):
    f = name(failmod, 'po', 'sp')
    name(bond, 'good', 'other')
    if f == 'po':
        try:
            name(confinement, 'unconfined', 'stirrups')
        except Bad:
            raise core.Reject from None
        return c_clear
    c = name(confinement, 'unconfined', 'stirrups')
    return 1.2 * s_1 if c == 'unconfined' else 0.5 * c_clear


def f_stm(f_cm, phi, l_b, c_min, c_max, k_m, K_tr):
    return (54 * (f_cm / 25) ** 0.25 * (25 / phi) ** 0.2
            * (l_b / phi) ** 0.55
            * ((c_min / phi) ** 0.25 * (c_max / c_min) ** 0.1 + k_m * K_tr))


class Stm(F):
    """f_stm warns for each bound of its domain."""

    def strategy(self):
        # ratios next to the limits of the domain
        def fix(t):
            case, a, b = t
            if a is not None:
                case['a']['c_min'] = a * case['a']['phi']
            if b is not None:
                case['a']['c_max'] = b * case['a']['c_min']
            return case
        no = st.none()
        return st.tuples(super().strategy(),
                         st.one_of(no, num(0.4, 4, 0.5, 3.5, ints=False)),
                         st.one_of(no, num(0.9, 6, 1, 5, ints=False))
                         ).map(fix)

    def call(self, fn, vals, pos):
        v = vals
        a, b = v['c_min'] / v['phi'], v['c_max'] / v['c_min']
        for x, m in ((a, .5), (a, 3.5), (b, 1), (b, 5)):
            if x != m:
                near(x, m)
        exp = [not 15 < v['f_cm'] < 110, not 0.5 < a < 3.5, not 1 < b < 5,
               v['K_tr'] > 0.05]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = super().call(fn, vals, pos)
        n = sum(issubclass(x.category, UserWarning) for x in w)
        core.require((n > 0) == any(exp) and n >= sum(exp),
                     f'f_stm: {n} warnings, {sum(exp)} conditions not met '
                     f'for {dict(v)!r}')
        return r


FCM = num(8, 140, 15, 25, 110)
PHI = num(5, 50, 25)
C = num(5, 200, 20, 25)
KTR = num(0, 0.08, 0.05, 0, ints=False)
KM = st.one_of(num(0, 12, 0, 6, 12))
ARGS = {'f_cm': FCM, 'phi': PHI, 'c_min': C, 'c_max': C, 'k_m': KM,
        'K_tr': KTR}

SPECS = [
    F('eta_2', {'bond': BOND}, bond(1.0, 0.7), weight=2),
    F('tau_bu_split', {'eta_2': num(0.5, 1, 0.7), **ARGS}, tau_bu_split,
      weight=2),
    F('K_tr', {'n_t': num(1, 10), 'A_st': num(10, 1000), 'n_b': num(1, 20),
               'phi': PHI, 's_t': num(20, 1000)},
      lambda n_t, A_st, n_b, phi, s_t:
      min(0.05, n_t * A_st / (n_b * phi * s_t)), weight=2),
    F('tau_bmax', {'bond': BOND, 'f_cm': FCM},
      lambda bond, f_cm: (2.5 if name(bond, 'good', 'other') == 'good'
                          else 1.25) * math.sqrt(f_cm), weight=2),
    F('s_1', {'bond': BOND}, bond(1.0, 1.8), weight=2),
    F('s_2', {'bond': BOND}, bond(2.0, 3.6), weight=2),
    F('s_3', {'failmod': FAIL, 'bond': BOND, 'confinement': CONF,
              'c_clear': num(1, 60), 's_1': num(0.1, 5, 1, 1.8)}, s_3,
      weight=5),
    F('s_tau_bu_split', {'tau_bmax': num(2, 30), 'tau_bu_split': num(0, 30),
                         'alpha': num(0.1, 1, 0.4, ints=False),
                         's_1': num(0.1, 5)},
      lambda tau_bmax, tau_bu_split, alpha, s_1:
      s_1 * (tau_bu_split / tau_bmax) ** (1 / alpha), weight=2),
    Stm('f_stm', {'f_cm': FCM, 'phi': PHI, 'l_b': num(20, 2000),
                  'c_min': C, 'c_max': C, 'k_m': KM, 'K_tr': KTR}, f_stm,
        weight=4),
    F('tau_yield', {'f_y': num(200, 700), 'l_b': num(20, 2000), 'phi': PHI},
      lambda f_y, l_b, phi: f_y * phi / (4 * l_b)),
]

SUBS = [make_sub('mc2010', SPECS)]
