"""fib Model Code 2010 creep and shrinkage."""
import math
import warnings

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, RULE, make_sub, near, num  # noqa: F401
from .K02 import t_T, t_T_args

ASSUMPTIONS = [
    'times are not before loading for the creep time functions, which do '
    'not document earlier times; cement classes are spelled as documented',
    'strengths, sizes and moduli are positive',
]

CEM = ['32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R']
GRP = {'32.5 N': 'S', '32.5 R': 'N', '42.5 N': 'N', '42.5 R': 'R',
       '52.5 N': 'R', '52.5 R': 'R'}


def t0_adj(t_T, cem_class):
    al = {'S': -1, 'N': 0, 'R': 1}[GRP[cem_class]]
    return max(0.5, t_T * (1 + 9 / (2 + t_T ** 1.2)) ** al)


def eps_cds0(fcm, cem_class):
    a1, a2 = {'S': (3, .013), 'N': (4, .012), 'R': (6, .012)}[GRP[cem_class]]
    return (220 + 110 * a1) * math.exp(-a2 * fcm) * 1e-6


def eps_cbs0(fcm, cem_class):
    a = {'S': 800, 'N': 700, 'R': 600}[GRP[cem_class]]
    return -a * 1e-6 * (0.1 * fcm / (6 + 0.1 * fcm)) ** 2.5


def beta_ds(time, ts, notional_size):
    d = max(0, time - ts)
    return math.sqrt(d / (0.035 * notional_size ** 2 + d))


def rel(rh):
    if not (0.4 <= rh <= 1 or 40 <= rh <= 100):
        raise Bad
    return rh / 100 if rh > 1 else rh


def beta_RH(rh, beta_s1):
    r = rel(rh)
    lim = 0.99 * beta_s1
    if r != lim:
        near(r, lim)
    near(r, 0.4 * beta_s1)
    if r >= lim:
        return 0.25
    if r < 0.4 * beta_s1:
        raise Bad
    return -1.55 * (1 - r ** 3)


def beta_dc_RH(rh, notional_size):
    return (1 - rel(rh)) / (0.1 * notional_size / 100) ** (1 / 3)


def beta_bc_t(time, t0, t0_adj):
    if time < t0:
        raise core.Reject
    return math.log1p((30 / t0_adj + 0.035) ** 2 * (time - t0))


def beta_dc_t(time, t0, beta_h, gamma_t0):
    if time < t0:
        raise core.Reject
    return ((time - t0) / (beta_h + time - t0)) ** gamma_t0


def k_sigma(sigma, fcm):
    near(abs(sigma), 0.6 * fcm)
    if abs(sigma) > 0.6 * fcm:
        raise Bad
    return abs(sigma) / fcm


def phi(phi_bc, phi_dc, sigma, fcm):
    k = k_sigma(sigma, fcm)
    f = math.exp(1.5 * (k - 0.4)) if k > 0.4 else 1.0
    return f * (phi_bc + phi_dc)


T = num(0.01, 40000, 1, 7, 28, 365, log=True)
TL = num(28, 40000, 28, 365, log=True)
T0 = num(0.5, 28, 1, 7, 28)
FCM = num(8, 140, 35, 20, 60)
H = num(20, 3000, 100, 1000)
RH = st.one_of(num(40, 100, 80, 99), num(0.4, 1, 0.8, 0.99, ints=False),
               num(-10, 130, 0, 0.4, 1, 40, 100))
BS1 = st.one_of(num(0.8, 1, 1), num(0.8, 1.3, 1), st.just(1.0))


class BRH(F):
    """Relative humidity next to the two limits."""

    def strategy(self):
        def fix(t):
            case, r, p = t
            if r is not None:
                x = r * case['a']['beta_s1']
                case['a']['rh'] = 100 * x if p else x
            return case
        return st.tuples(super().strategy(), st.one_of(
            st.none(), num(0.97, 1.01, 0.99, ints=False),
            num(0.39, 0.42, 0.4, ints=False)), st.booleans()).map(fix)


class Sg(F):
    """Stress as a fraction of the strength."""

    def strategy(self):
        fr = st.one_of(num(-0.75, 0.75, 0, 0.4, -0.4, 0.6, -0.6),
                       num(0.3, 0.7, 0.4, 0.6))

        def fix(t):
            case, f = t
            case['a']['sigma'] = f * case['a']['fcm']
            return case
        return st.tuples(super().strategy(), fr).map(fix)

    def call(self, fn, vals, pos):
        # documented warning above 0.4 fcm
        k = abs(vals['sigma']) / vals['fcm']
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = super().call(fn, vals, pos)
        if abs(k - 0.4) > 1e-9 and k < 0.6 - 1e-9:
            n = sum(issubclass(x.category, UserWarning) for x in w)
            core.require((n > 0) == (k > 0.4),
                         f'{self.name}: {n} warnings at {k} fcm')
        return r


SPECS = [
    F('t0_adj', {'t_T': num(0.05, 1000, 0.5, 1, 28, log=True),
                 'cem_class': st.sampled_from(CEM)}, t0_adj, weight=2),
    F('eps_cds0', {'fcm': FCM, 'cem_class': st.sampled_from(CEM)}, eps_cds0,
      weight=2),
    F('beta_ds', {'time': T, 'ts': T0, 'notional_size': H}, beta_ds,
      arrays=['time'], weight=2),
    F('beta_s1', {'fcm': FCM}, lambda fcm: min(1, (35 / fcm) ** 0.1)),
    BRH('beta_RH', {'rh': RH, 'beta_s1': BS1}, beta_RH, atol=1e-12, weight=4),
    F('eps_cds', {'eps_cds0': num(0, 1e-3, ints=False), 'beta_ds': num(0, 1),
                  'beta_rh': num(-1.55, 0.25)},
      lambda eps_cds0, beta_ds, beta_rh: eps_cds0 * beta_ds * beta_rh,
      arrays=['beta_ds']),
    F('eps_cbs0', {'fcm': FCM, 'cem_class': st.sampled_from(CEM)}, eps_cbs0,
      weight=2),
    F('beta_bs', {'time': T}, lambda time: 1 - math.exp(-.2 * time ** 0.5),
      arrays=['time']),
    F('eps_cbs', {'eps_cbs0': num(-1e-3, 0, ints=False),
                  'beta_bs': num(0, 1)},
      lambda eps_cbs0, beta_bs: eps_cbs0 * beta_bs, arrays=['beta_bs']),
    F('beta_bc_fcm', {'fcm': FCM}, lambda fcm: 1.8 * fcm ** -0.7),
    F('beta_bc_t', {'time': TL, 't0': T0, 't0_adj': num(0.5, 100)},
      beta_bc_t, arrays=['time'], atol=1e-12, weight=2),
    F('phi_bc', {'beta_bc_fcm': num(0.05, 0.5), 'beta_bc_t': num(0, 20)},
      lambda beta_bc_fcm, beta_bc_t: beta_bc_fcm * beta_bc_t,
      arrays=['beta_bc_t']),
    F('beta_dc_fcm', {'fcm': FCM}, lambda fcm: 412 * fcm ** -1.4),
    F('beta_dc_RH', {'rh': RH, 'notional_size': H}, beta_dc_RH, atol=1e-12,
      weight=3),
    F('beta_dc_t0', {'t0_adj': num(0.5, 100)},
      lambda t0_adj: 1 / (0.1 + t0_adj ** 0.2)),
    F('alpha_fcm', {'fcm': FCM}, lambda fcm: (35 / fcm) ** 0.5),
    F('beta_h', {'notional_size': H, 'alpha_fcm': num(0.4, 1.5, 1)},
      lambda notional_size, alpha_fcm: min(
          1500 * alpha_fcm, 250 * alpha_fcm + 1.5 * notional_size)),
    F('gamma_t0', {'t0_adj': num(0.5, 100)},
      lambda t0_adj: 1 / (2.3 + 3.5 / t0_adj ** 0.5)),
    F('beta_dc_t', {'time': TL, 't0': T0, 'beta_h': num(250, 1500),
                    'gamma_t0': num(0.1, 0.43)}, beta_dc_t, arrays=['time'],
      weight=2),
    F('phi_dc', {'beta_dc_fcm': num(0.3, 6), 'beta_dc_RH': num(0, 3),
                 'beta_dc_t0': num(0.2, 1.5), 'beta_dc_t': num(0, 1)},
      lambda beta_dc_fcm, beta_dc_RH, beta_dc_t0, beta_dc_t:
      beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t,
      arrays=['beta_dc_t']),
    Sg('k_sigma', {'sigma': st.just(0.0), 'fcm': FCM}, k_sigma, weight=2),
    Sg('phi', {'phi_bc': num(0, 4), 'phi_dc': num(0, 4),
               'sigma': st.just(0.0), 'fcm': FCM}, phi,
       arrays=['phi_bc', 'phi_dc'], weight=4),
    F('calc_J', {'E_ci_t0': num(5e3, 6e4), 'phi': num(0, 6),
                 'E_ci': num(5e3, 6e4)},
      lambda E_ci_t0, phi, E_ci: 1 / E_ci_t0 + phi / E_ci, arrays=['phi']),
]


def run_t_T(case, rec):
    import numpy as np

    from structuralcodes.codes import mc2010
    T_, dt = case['T'], case['dt']

    def call():
        a, b = T_, dt
        if case['np']:
            a = np.array(a) if isinstance(a, list) else np.float64(a)
            b = np.array(b) if isinstance(b, list) else np.float64(b)
        return mc2010.t_T(T_cur=a, dt=b)

    rec.nt()
    try:
        exp = t_T(T_, dt)
    except Bad:
        rec.label('rejects')
        core.must_raise(ValueError, call, f't_T({T_}, {dt})')
        return
    rec.label('array' if isinstance(T_, list) else 'scalar')
    core.req_close(call(), exp, f't_T({T_}, {dt})')


SUBS = [
    make_sub('mc2010', SPECS),
    core.Sub('maturity', t_T_args, run_t_T, 4000, 60000,
             'maturity compared, or excluded combination rejected',
             shards=2),
]
