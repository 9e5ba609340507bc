"""fib Model Code 2010 concrete and steel properties."""
import math

from hypothesis import strategies as st

from ..formula import Bad, F, RULE, cased, enum_sub, make_sub, num  # noqa: F401
from .K01 import bcc, ec2, ec3, ecu2, fctm, fyd, n_pr

ASSUMPTIONS = [
    'strains of Table 5.1-8 carry the sign of the table (compression '
    'negative); the docstrings call them absolute values',
    'unknown aggregate or cement names are not examined (not documented)',
    'times and strengths are positive',
]

GR = [12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120]
EC1 = [1.9, 2.0, 2.1, 2.2, 2.3, 2.3, 2.4, 2.5, 2.6, 2.6, 2.7, 2.7, 2.8, 2.9,
       3.0, 3.0, 3.0]
ECL = [3.5] * 8 + [3.4, 3.4, 3.3, 3.2, 3.1] + [3.0] * 4
KS = [2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55, 1.47,
      1.41, 1.36, 1.32, 1.24, 1.18]


def table(ys, f=1.0):
    def g(fck):
        if fck < 12 or fck > 120:
            raise Bad
        for i in range(len(GR) - 1):
            if fck <= GR[i + 1]:
                u = (fck - GR[i]) / (GR[i + 1] - GR[i])
                return f * ((1 - u) * ys[i] + u * ys[i + 1])
    return g


def duct(fyk, ductility_class):
    t = {'A': (2.5e-2, 1.05), 'B': (5e-2, 1.08), 'C': (7.5e-2, 1.15),
         'D': (8e-2, 1.25)}
    c = ductility_class.upper()
    if c not in t:
        raise Bad
    return {'epsuk': t[c][0], 'ftk': t[c][1] * fyk}


def epsud(epsuk, gamma_eps=0.9):
    if epsuk < 0 or gamma_eps > 1:
        raise Bad
    return epsuk * gamma_eps


AGG = {'basalt': 1.2, 'quartzite': 1.0, 'limestone': 0.9, 'sandstone': 0.7}
CEM = {'32.5 N': 0.38, '32.5 R': 0.25, '42.5 N': 0.25, '42.5 R': 0.2,
       '52.5 N': 0.2, '52.5 R': 0.2}


def Eci(fcm, agg_type='quartzite', EC0=21500):
    return EC0 * AGG[agg_type.lower()] * (fcm / 10) ** (1 / 3)


def beta_cc(time, fcm, cem_class):
    return bcc(time, 0.2 if fcm > 60 else CEM[cem_class.upper()])


FCK = num(-130, 130, 0, 50, -50, 12)
TAB = st.one_of(st.sampled_from(GR), num(12, 120, *GR), num(0, 140, 12, 120))
T = num(0.01, 30000, 28, 1, 7, log=True)
FCM = num(8, 140, 60, 20, 10)

SPECS = [
    F('fcm', {'fck': FCK, 'delta_f': num(-12, 12, 8, 0)},
      lambda fck, delta_f=8: abs(fck) + abs(delta_f), opt=['delta_f']),
    F('fctm', {'fck': FCK}, fctm, weight=2),
    F('fctkmin', {'fctm': num(0, 6)}, lambda fctm: 0.7 * fctm),
    F('fctkmax', {'fctm': num(0, 6)}, lambda fctm: 1.3 * fctm),
    F('fcd', {'fck': FCK, 'alpha_cc': num(-1.2, 1.2, 1, 0.85),
              'gamma_c': st.one_of(num(0.8, 2, 1.5, 1),
                                   num(-2, -0.8, -1.5))},
      lambda fck, alpha_cc=1.0, gamma_c=1.5:
      abs(alpha_cc) * abs(fck) / abs(gamma_c), opt=['alpha_cc', 'gamma_c'],
      weight=2),
    F('Gf', {'fck': FCK}, lambda fck: 73 * (abs(fck) + 8) ** 0.18),
    F('eps_c1', {'fck': TAB}, table(EC1, -1e-3), weight=3),
    F('eps_cu1', {'fck': TAB}, table(ECL, -1e-3), weight=3),
    F('eps_clim', {'fck': TAB}, table(ECL, -1e-3),
      mod='mc2010._concrete_material_properties'),
    F('k_sargin', {'fck': TAB}, table(KS), weight=3),
    F('eps_c2', {'fck': FCK}, ec2),
    F('eps_cu2', {'fck': FCK}, ecu2),
    F('n_parabolic_rectangular', {'fck': FCK}, n_pr),
    F('eps_c3', {'fck': FCK}, ec3),
    F('eps_cu3', {'fck': FCK}, ecu2),
    F('fyd', {'fyk': num(-50, 800, 0, 500), 'gamma_s': num(0.5, 2, 1, 1.15)},
      lambda fyk, gamma_s=1.15: fyd(fyk, gamma_s), opt=['gamma_s'],
      weight=2),
    F('epsud', {'epsuk': num(-0.01, 0.1, 0, 0.025, ints=False),
                'gamma_eps': num(0.2, 1.5, 1, 0.9)}, epsud,
      opt=['gamma_eps'], weight=2),
    F('reinforcement_duct_props',
      {'fyk': num(200, 800, 500), 'ductility_class': st.one_of(
          cased('A', 'B', 'C', 'D'), st.sampled_from(['E', '', 'AB', 'X']))},
      duct),
    F('Eci', {'fcm': FCM, 'agg_type': cased(*AGG), 'EC0': num(
        15000, 30000, 21500)}, Eci, opt=['agg_type', 'EC0'], weight=2),
    F('Eci_t', {'beta_e': num(0, 1.3), 'Eci': num(1e4, 6e4)},
      lambda beta_e, Eci: beta_e * Eci, arrays=['beta_e']),
    F('beta_cc', {'time': T, 'fcm': FCM, 'cem_class': cased(*CEM)}, beta_cc,
      arrays=['time'], weight=3),
    F('beta_e', {'beta_cc': num(0, 1.5, 1)},
      lambda beta_cc: math.sqrt(beta_cc), arrays=['beta_cc']),
]

def grid():
    """Single-argument functions of the strength over all classes."""
    out = []
    for f in SPECS:
        if list(f.args) in (['fck'], ['fcm']):
            for i in range(8, 130):
                for x in (i, i + 0.5):
                    out.append((f.name, {list(f.args)[0]: x}))
    return out


SUBS = [make_sub('mc2010', SPECS), enum_sub('mc2010', SPECS, grid)]
