"""EN 1992-1-1:2004 creep and shrinkage."""
import math

from hypothesis import strategies as st

from ..formula import Bad, F, cased, make_sub, num, RULE  # noqa: F401
from .. import core

ASSUMPTIONS = [
    'ages, sizes and strengths are positive',
    'creep and shrinkage before loading or drying is zero',
    'cement classes with surrounding blanks are not examined for '
    'alpha_cement, whose documentation does not mention them',
]

T = num(0.01, 40000, 1, 7, 28, 365, 18250, log=True)
TS = num(0.01, 100, 1, 7, 28, log=True)
H0 = num(10, 2000, 100, 200, 300, 500)
FCM = num(10, 120, 35, 28, 43)
CEM = st.one_of(cased('R', 'N', 'S'),
                st.sampled_from(['X', '', 'RN', 'A', 'NR']))
EPS = num(0, 1e-3, ints=False)


def table(r, n, s):
    def f(cement_class):
        c = cement_class.strip().upper()
        if c not in ('R', 'N', 'S'):
            raise Bad
        return {'R': r, 'N': n, 'S': s}[c]
    return f


def k_h(h_0):
    xs, ys = [100, 200, 300, 500], [1.0, 0.85, 0.75, 0.7]
    if h_0 <= 100:
        return 1.0
    if h_0 >= 500:
        return 0.7
    for i in range(3):
        if h_0 <= xs[i + 1]:
            f = (h_0 - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] + f * (ys[i + 1] - ys[i])


def beta_ds(t, t_s, h_0):
    d = max(t - t_s, 0)
    return d / (d + 0.04 * math.sqrt(h_0 ** 3))


def beta_c(t0, t, beta_H):
    d = max(t - t0, 0)
    return (d / (beta_H + d)) ** 0.3


def phi_rh(h_0, fcm, RH, alpha_1, alpha_2):
    a = (1 - RH / 100) / (0.1 * h_0 ** (1 / 3))
    if fcm <= 35:
        return 1 + a
    return (1 + a * alpha_1) * alpha_2


def beta_h(h_0, fcm, RH, alpha_3):
    a = 1.5 * (1 + (0.012 * RH) ** 18) * h_0
    if fcm <= 35:
        return min(a + 250, 1500)
    return min(a + 250 * alpha_3, 1500 * alpha_3)


def t0_adj(t0, alpha_cement):
    return max(t0 * (9 / (2 + t0 ** 1.2) + 1) ** alpha_cement, 0.5)


def t_T(T, dt):
    sT, sd = isinstance(T, list), isinstance(dt, list)
    if sT != sd or (sT and len(T) != len(dt)):
        raise Bad
    if not sT:
        T, dt = [T], [dt]
    return math.fsum(math.exp(-(4000 / (273 + a) - 13.65)) * b
                     for a, b in zip(T, dt))


def t_T_args():
    """Scalars, lists of equal length, and the excluded combinations."""
    T1, d1 = num(-30, 90, 0, 20), num(0, 400, 1, 28)

    @st.composite
    def s(draw):
        n = draw(st.integers(1, 6))
        k = draw(st.sampled_from(['s', 'l', 'l', 'l', 'x', 'T', 'd']))
        m = n
        if k == 'x':
            m = draw(st.integers(1, 6))
        T = draw(st.lists(T1, min_size=n, max_size=n))
        d = draw(st.lists(d1, min_size=m, max_size=m))
        if k in 'sT':
            T = T[0]
        if k in 'sd':
            d = d[0]
        return {'T': T, 'dt': d, 'np': draw(st.booleans())}
    return s()


def run_t_T(case, rec):
    import numpy as np

    from structuralcodes.codes import ec2_2004
    T, dt = case['T'], case['dt']

    def call():
        a, b = T, dt
        if case['np']:
            a = np.array(a) if isinstance(a, list) else np.float64(a)
            b = np.array(b) if isinstance(b, list) else np.float64(b)
        return ec2_2004.t_T(T=a, dt=b)

    rec.nt()
    try:
        exp = t_T(T, dt)
    except Bad:
        rec.label('rejects')
        core.must_raise(ValueError, call, f't_T({T}, {dt})')
        return
    rec.label('array' if isinstance(T, list) else 'scalar')
    core.req_close(call(), exp, f't_T({T}, {dt})')
    core.req_close(call(), exp, f't_T({T}, {dt}) again')


SPECS = [
    F('eps_cs', {'eps_cd': EPS, 'eps_ca': EPS},
      lambda eps_cd, eps_ca: eps_cd + eps_ca, arrays=['eps_cd', 'eps_ca']),
    F('eps_cd', {'beta_ds': num(0, 1), 'k_h': num(0.7, 1),
                 'eps_cd_0': EPS},
      lambda beta_ds, k_h, eps_cd_0: beta_ds * k_h * eps_cd_0,
      arrays=['beta_ds']),
    F('beta_ds', {'t': T, 't_s': TS, 'h_0': H0}, beta_ds, arrays=['t'],
      weight=2),
    F('k_h', {'h_0': H0}, k_h),
    F('eps_cd_0', {'alpha_ds1': num(3, 6), 'alpha_ds2': num(.1, .14),
                   'fcm': FCM, 'beta_RH': num(0, 1.55),
                   'fcm_0': num(5, 20, 10)},
      lambda alpha_ds1, alpha_ds2, fcm, beta_RH, fcm_0=10:
      0.85e-6 * (220 + 110 * alpha_ds1)
      * math.exp(-alpha_ds2 * fcm / fcm_0) * beta_RH, opt=['fcm_0']),
    F('alpha_ds1', {'cement_class': CEM}, table(6, 4, 3)),
    F('alpha_ds2', {'cement_class': CEM}, table(0.11, 0.12, 0.13)),
    F('beta_RH', {'RH': num(0, 100, 40, 80), 'RH_0': num(50, 150, 100)},
      lambda RH, RH_0=100: 1.55 * (1 - (RH / RH_0) ** 3), opt=['RH_0'],
      atol=1e-12),
    F('eps_ca', {'beta_as': num(0, 1), 'eps_ca_inf': EPS},
      lambda beta_as, eps_ca_inf: beta_as * eps_ca_inf, arrays=['beta_as']),
    F('eps_ca_inf', {'fck': num(5, 110, 10, 50)},
      lambda fck: 2.5 * (fck - 10) * 1e-6),
    F('beta_as', {'t': T}, lambda t: 1 - math.exp(-0.2 * math.sqrt(t)),
      arrays=['t']),
    F('phi', {'phi_0': num(0.2, 6), 'beta_c': num(0, 1)},
      lambda phi_0, beta_c: phi_0 * beta_c, arrays=['beta_c']),
    F('phi_0', {'phi_RH': num(0.3, 4), 'beta_fcm': num(1, 5),
                'beta_t0': num(0.05, 3)},
      lambda phi_RH, beta_fcm, beta_t0: phi_RH * beta_fcm * beta_t0),
    F('phi_RH', {'h_0': H0, 'fcm': FCM, 'RH': num(0, 100, 40),
                 'alpha_1': num(.3, 1.5, 1), 'alpha_2': num(.3, 1.5, 1)},
      phi_rh, weight=2),
    F('beta_fcm', {'fcm': FCM}, lambda fcm: 16.8 / math.sqrt(fcm)),
    F('beta_t0', {'t0': T}, lambda t0: 1 / (0.1 + t0 ** 0.2)),
    F('h_0', {'Ac': num(1, 1e7), 'u': num(1, 1e5)},
      lambda Ac, u: 2 * Ac / u),
    F('beta_c', {'t0': TS, 't': T, 'beta_H': num(250, 1500)}, beta_c,
      arrays=['t'], weight=2),
    F('beta_H', {'h_0': H0, 'fcm': FCM, 'RH': num(0, 100, 40, 80),
                 'alpha_3': num(.4, 1.5, 1)}, beta_h, weight=2),
    F('alpha_1', {'fcm': FCM}, lambda fcm: (35 / fcm) ** 0.7),
    F('alpha_2', {'fcm': FCM}, lambda fcm: (35 / fcm) ** 0.2),
    F('alpha_3', {'fcm': FCM}, lambda fcm: (35 / fcm) ** 0.5),
    F('t0_adj', {'t0': num(0.05, 1000, 0.5, 1, 28, log=True),
                 'alpha_cement': st.one_of(st.sampled_from([-1, 0, 1]),
                                           num(-1, 1))}, t0_adj),
    F('alpha_cement', {'cement_class': CEM}, table(1, 0, -1)),
]


SUBS = [
    make_sub('ec2_2004', SPECS),
    core.Sub('maturity', t_T_args, run_t_T, 4000, 60000,
             'maturity compared, or excluded combination rejected',
             shards=2),
]
