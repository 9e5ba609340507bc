"""EN 1992-1-1:2004 concrete and steel property formulas."""
import math

from hypothesis import strategies as st

from ..formula import Bad, F, cased, enum_sub, make_sub, num, RULE  # noqa: F401

ASSUMPTIONS = [
    'times are positive; strengths non-zero where the formula divides by them',
    'array results are compared for lists, tuples, 1-D and 2-D arrays',
]

FCK = num(-110, 110, 0, 50, -50, 12, 90)
T = num(0.01, 30000, 28, 27, 29, 1, 3, log=True)
S = num(0.05, 0.6, 0.2, 0.25, 0.38)


def fctm(fck):
    fck = abs(fck)
    if fck <= 50:
        return 0.3 * fck ** (2 / 3)
    return 2.12 * math.log(1 + 0.1 * (fck + 8))


def ecu1(fck):
    fck = abs(fck)
    if fck <= 50:
        return 3.5e-3
    return 2.8e-3 + 27e-3 * ((98 - (fck + 8)) / 100) ** 4


def ec2(fck):
    fck = abs(fck)
    return 2e-3 if fck <= 50 else 2e-3 + 0.085e-3 * (fck - 50) ** 0.53


def ecu2(fck):
    fck = abs(fck)
    return 3.5e-3 if fck <= 50 else 2.6e-3 + 35e-3 * ((90 - fck) / 100) ** 4


def n_pr(fck):
    fck = abs(fck)
    return 2.0 if fck <= 50 else 1.4 + 23.4 * ((90 - fck) / 100) ** 4


def ec3(fck):
    fck = abs(fck)
    return 1.75e-3 if fck <= 50 else 1.75e-3 + 0.55e-3 * (fck - 50) / 40


def bcc(t, s):
    return math.exp(s * (1 - (28 / t) ** 0.5))


def bct(t, s):
    return bcc(t, s) if t < 28 else bcc(t, s) ** (2 / 3)


def s_td(cement_class):
    c = '' if cement_class is None else cement_class.strip().upper()
    if c not in ('R', 'N', 'S'):
        raise Bad
    return {'R': 0.2, 'N': 0.25, 'S': 0.38}[c]


def fyd(fyk, gamma_s):
    if fyk < 0 or gamma_s < 1:
        raise Bad
    return fyk / gamma_s


def epsud(epsuk, gamma_eps=0.9):
    if epsuk < 0 or gamma_eps > 1:
        raise Bad
    return epsuk * gamma_eps


def duct(fyk, ductility_class):
    t = {'A': (2.5e-2, 1.05), 'B': (5e-2, 1.08), 'C': (7.5e-2, 1.15)}
    c = ductility_class.upper()
    if c not in t:
        raise Bad
    return {'epsuk': t[c][0], 'ftk': t[c][1] * fyk}


POS = num(0.5, 120, 8, 58, 20, 38)
SPECS = [
    F('fcm', {'fck': FCK, 'delta_f': num(-12, 12, 8, 0)},
      lambda fck, delta_f=8: abs(fck) + abs(delta_f), opt=['delta_f']),
    F('fctm', {'fck': FCK}, fctm),
    F('fctk_5', {'fctm': num(-6, 6, 0)}, lambda fctm: 0.7 * abs(fctm)),
    F('fctk_95', {'fctm': num(-6, 6, 0)}, lambda fctm: 1.3 * abs(fctm)),
    F('Ecm', {'fcm': num(-120, 120, 0, 10)},
      lambda fcm: 22e3 * (abs(fcm) / 10) ** 0.3),
    F('eps_c1', {'fcm': num(-130, 130, 0, (2.8 / 0.7) ** (1 / 0.31))},
      lambda fcm: 1e-3 * min(2.8, 0.7 * abs(fcm) ** 0.31)),
    F('eps_cu1', {'fck': FCK}, ecu1),
    F('k_sargin', {'Ecm': num(5e3, 6e4), 'fcm': POS,
                   'eps_c1': num(-0.01, 0.01, ints=False)},
      lambda Ecm, fcm, eps_c1: 1.05 * Ecm * abs(eps_c1) / fcm),
    F('eps_c2', {'fck': FCK}, ec2),
    F('eps_cu2', {'fck': FCK}, ecu2),
    F('n_parabolic_rectangular', {'fck': FCK}, n_pr),
    F('eps_c3', {'fck': FCK}, ec3),
    F('eps_cu3', {'fck': FCK}, ecu2),
    F('fcd', {'fck': FCK, 'alpha_cc': num(-1.2, 1.2, 1, 0.85),
              'gamma_c': st.one_of(num(0.8, 2, 1.5, 1),
                                   num(-2, -0.8, -1.5))},
      lambda fck, alpha_cc, gamma_c:
      abs(alpha_cc) * abs(fck) / abs(gamma_c)),
    F('beta_cc', {'t': T, 's': S}, bcc, arrays=['t']),
    F('beta_ct', {'t': T, 's': S}, bct, arrays=['t'], weight=2),
    F('beta_E', {'t': T, 's': S}, lambda t, s: bcc(t, s) ** 0.3,
      arrays=['t']),
    F('s_time_development',
      {'cement_class': st.one_of(
          cased('R', 'N', 'S', pad=True), cased('R', 'N', 'S'),
          st.sampled_from([None, '', 'X', 'RN', 'A', 'CEM', '32.5R', 'SN']))},
      s_td),
    F('fcm_time', {'fcm': POS, 'beta_cc': num(0.01, 2, 1)},
      lambda fcm, beta_cc: fcm * beta_cc, arrays=['beta_cc']),
    F('fctm_time', {'fctm': num(0.1, 6), 'beta_cc': num(0.01, 2, 1),
                    'alpha': num(0.3, 1, 2 / 3)},
      lambda fctm, beta_cc, alpha: beta_cc ** alpha * fctm,
      arrays=['beta_cc', 'alpha']),
    F('Ecm_time', {'fcm': POS, 'fcm_time': num(0.1, 120),
                   'Ecm': num(5e3, 6e4)},
      lambda fcm, fcm_time, Ecm: (fcm_time / fcm) ** 0.3 * Ecm,
      arrays=['fcm_time']),
    F('fyd', {'fyk': num(-50, 800, 0, 500), 'gamma_s': num(0.5, 2, 1, 1.15)},
      fyd, weight=2),
    F('epsud', {'epsuk': num(-0.01, 0.1, 0, 0.025, ints=False),
                'gamma_eps': num(0.2, 1.5, 1, 0.9)}, epsud,
      opt=['gamma_eps'], weight=2),
    F('reinforcement_duct_props',
      {'fyk': num(200, 800, 500),
       'ductility_class': st.one_of(
           cased('A', 'B', 'C'),
           st.sampled_from(['D', '', 'AB', 'E', 'X']))}, duct),
]

def grid():
    """Single-argument functions of the strength over all classes."""
    out = []
    for f in SPECS:
        if list(f.args) in (['fck'], ['fcm']):
            for i in range(8, 130):
                for x in (i, i + 0.5):
                    out.append((f.name, {list(f.args)[0]: x}))
    return out


SUBS = [make_sub('ec2_2004', SPECS), enum_sub('ec2_2004', SPECS, grid)]
