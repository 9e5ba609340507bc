"""EN 1992-1-1:2023 Section 5 materials and Annex B."""
import math

from hypothesis import strategies as st

from .. import core
from ..formula import (Bad, F, RULE, cased, cell_range, enum_sub, make_sub,  # noqa: F401
                       near, num)

ASSUMPTIONS = [
    'inputs that make the formula divide by zero are not generated',
    'Tables 5.2 and 5.3: exact on lines and columns of the table, inside a '
    'cell any piecewise linear value (either diagonal) is accepted',
    'the class Y1560 of the docstring is a misprint of Y1570 and not examined',
]


def bad_if(c, exc=ValueError):
    if c:
        raise Bad(exc)


def sdc(name):
    c = name.strip().upper()
    c = {'SLOW': 'CS', 'NORMAL': 'CN', 'RAPID': 'CR'}.get(c, c)
    bad_if(c not in ('CS', 'CN', 'CR'))
    return c


def atm(name):
    c = name.strip().lower()
    bad_if(c not in ('dry', 'humid'))
    return c


def fctm(fck):
    fck = abs(fck)
    return 0.3 * fck ** (2 / 3) if fck <= 50 else 1.1 * fck ** (1 / 3)


def Ecm(fcm, kE=9500):
    bad_if(fcm < 0 or kE < 5000 or kE > 13000)
    return kE * fcm ** (1 / 3)


def hn_(Ac, u):
    bad_if(Ac < 0 or u < 0)
    return 2 * Ac / u


HN = [100, 200, 500, 1000]


def interp(x, xs, ys):
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            f = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] * (1 - f) + ys[i + 1] * f
    raise AssertionError


def A_phi(hn, atm_conditions):
    bad_if(hn < 100 or hn > 1000)
    ys = {'dry': [.82, .79, .75, .72], 'humid': [.71, .68, .66, .64]}
    return interp(hn, HN, ys[atm(atm_conditions)])


def phi_corr(fck, A_exponent):
    bad_if(fck < 12 or fck > 100 or A_exponent < .64 or A_exponent > .82)
    return (35 / fck) ** A_exponent


PHI_T = {'CS': [3, 10, 32, 91, 365], 'CN': [1, 7, 28, 91, 365],
         'CR': [1, 3, 23, 91, 365]}
PHI_V = {'dry': [[4.2, 3.8, 3.4, 3.1], [3.1, 2.8, 2.5, 2.3],
                 [2.4, 2.2, 1.9, 1.8], [1.9, 1.7, 1.5, 1.4],
                 [1.4, 1.3, 1.1, 1.0]],
         'humid': [[3.0, 2.8, 2.6, 2.5], [2.2, 2.1, 2.0, 1.9],
                   [1.7, 1.6, 1.6, 1.5], [1.4, 1.3, 1.2, 1.2],
                   [1.0, 0.9, 0.9, 0.8]]}


def phi_50(t0, atm_conditions, hn, strength_dev_class):
    bad_if(t0 < 1)
    a, c = atm(atm_conditions), sdc(strength_dev_class)
    bad_if(hn < 100 or hn > 1000)
    for e in (PHI_T[c][0], PHI_T[c][-1]):
        if t0 != e:
            near(t0, e, 1e-7)  # the interpolation decides to its tolerance
    r = cell_range(PHI_T[c], HN, PHI_V[a], t0, hn)
    bad_if(r is None)
    return r


CS_F = {'CS': [20, 35, 50], 'CN': [20, 35, 50, 80], 'CR': [35, 50, 80]}
CS_V = {
    ('dry', 'CS'): [[.57, .56, .48, .36], [.53, .51, .45, .35],
                    [.49, .48, .43, .35]],
    ('dry', 'CN'): [[.67, .65, .56, .41], [.60, .59, .51, .39],
                    [.55, .54, .48, .37], [.48, .48, .43, .36]],
    ('dry', 'CR'): [[.76, .74, .65, .48], [.67, .66, .58, .44],
                    [.55, .54, .49, .39]],
    ('humid', 'CS'): [[.33, .32, .28, .21], [.31, .31, .27, .22],
                      [.30, .29, .27, .23]],
    ('humid', 'CN'): [[.38, .37, .32, .24], [.34, .34, .30, .24],
                      [.31, .31, .28, .23], [.30, .30, .28, .25]],
    ('humid', 'CR'): [[.42, .41, .36, .28], [.36, .35, .32, .26],
                      [.31, .30, .28, .25]],
}


def eps_cs(fck_28, atm_conditions, hn, strength_dev_class):
    bad_if(fck_28 < 20 or fck_28 > 80)
    a, c = atm(atm_conditions), sdc(strength_dev_class)
    bad_if(hn < 100 or hn > 1000)
    for e in (CS_F[c][0], CS_F[c][-1]):
        if fck_28 != e:
            near(fck_28, e, 1e-7)
    r = cell_range(CS_F[c], HN, CS_V[a, c], fck_28, hn)
    bad_if(r is None)
    return r


def in_range(got, exp, what):
    lo, hi = exp
    tol = 1e-9 * hi
    core.require(lo - tol <= float(got) <= hi + tol,
                 f'{what}: got {got!r}, expected {lo} to {hi}')


def eta_cc(fck, fck_ref=40):
    bad_if(fck < 12 or fck_ref <= 0)
    return min(1.0, (fck_ref / fck) ** (1 / 3))


def k_tc(t_ref, t0, strength_dev_class):
    bad_if(t_ref < 0 or t0 < 0)
    lim = 56 if sdc(strength_dev_class) == 'CS' else 28
    return 1.0 if t_ref <= lim and t0 > 90 else 0.85


def k_tt(t_ref, strength_dev_class):
    bad_if(t_ref < 0)
    lim = 56 if sdc(strength_dev_class) == 'CS' else 28
    return 0.8 if t_ref <= lim else 0.7


def fcd(fck, eta_cc, k_tc, gamma_c):
    bad_if(fck < 12 or eta_cc < 0 or eta_cc > 1 or gamma_c < 1)
    return eta_cc * k_tc * fck / gamma_c


def fctd(fctk_5, k_tt, gamma_c):
    bad_if(fctk_5 < 0 or gamma_c < 1)
    return k_tt * fctk_5 / gamma_c


def ec1(fcm):
    bad_if(fcm < 20)
    return 1e-3 * min(2.8, 0.7 * fcm ** (1 / 3))


def ecu1(fcm):
    bad_if(fcm < 20)
    return 1e-3 * min(3.5, 2.8 + 14 * (1 - fcm / 108) ** 4)


def k_sargin(Ecm, fcm, eps_c1):
    bad_if(Ecm <= 0 or fcm < 20 or eps_c1 <= 0)
    return 1.05 * Ecm * eps_c1 / fcm


def weight_c(concrete_type):
    s = concrete_type.strip().lower()
    bad_if(s not in ('nc', 'npc'))
    return {'nc': 25, 'npc': 24}[s]


def ratio(a, b):
    def f(**kw):
        bad_if(kw[a] < 0 or kw[b] < 1)
        return kw[a] / kw[b]
    return f


def sigma_s(eps, fy, k, eps_u, Es=200000):
    bad_if(eps < 0 or Es <= 0 or fy <= 0 or k < 1)
    bad_if(k > 1 and (eps_u <= 0 or eps > eps_u))
    ey = fy / Es
    if k > 1 and eps > ey:
        near(eps_u, ey, 1e-6)
    if eps <= ey:
        return eps * Es
    if k == 1:
        return fy
    return fy * (1 + (k - 1) * (eps - ey) / (eps_u - ey))


def sigma_p(eps, fpy, fpu, eps_u=0.035, Ep=190000):
    bad_if(eps < 0 or fpy <= 0 or fpu < fpy or eps_u <= 0 or Ep <= 0)
    bad_if(fpu != fpy and eps > eps_u)
    ey = fpy / Ep
    if fpu > fpy and eps > ey:
        near(eps_u, ey, 1e-6)
    if eps <= ey:
        return eps * Ep
    if fpu == fpy:
        return fpy
    return fpy + (fpu - fpy) * (eps - ey) / (eps_u - ey)


PS = {'W': {'Y1570': (1380, 1570), 'Y1670': (1470, 1670),
            'Y1770': (1550, 1770), 'Y1860': (1650, 1860)},
      'S': {'Y1770': (1560, 1770), 'Y1860': (1640, 1860),
            'Y1960': (1740, 1960), 'Y2060': (1830, 2060)},
      'B': {'Y1030': (835, 1030), 'Y1050': (950, 1050),
            'Y1100': (900, 1100), 'Y1230': (1080, 1230)}}


def p_steel(prestress_class, element):
    c, e = prestress_class.strip().upper(), element.strip().upper()
    bad_if(e not in PS or c not in PS[e])
    return PS[e][c]


def duct(fyk, ductility_class):
    t = {'A': (2.5e-2, 1.05), 'B': (5e-2, 1.08), 'C': (7.5e-2, 1.15)}
    c = ductility_class.upper()
    bad_if(c not in t)
    return {'epsuk': t[c][0], 'ftk': t[c][1] * fyk}


FCK = num(-110, 110, 0, 50, -50, 12)
FCM = st.one_of(num(20, 130, 20, 58, 108, 64), num(0, 130, 20))
SDC = st.one_of(cased('CS', 'CN', 'CR', 'slow', 'normal', 'rapid', pad=True),
                cased('CS', 'CN', 'CR', 'slow', 'normal', 'rapid'),
                st.sampled_from(['', 'C', 'medium', 'CX', 'N', 'R']))
ATM = st.one_of(cased('dry', 'humid', pad=True), cased('dry', 'humid'),
                st.sampled_from(['', 'wet', 'dryhumid']))
HNs = st.one_of(st.sampled_from(HN), num(100, 1000, 200, 500),
                num(50, 1200, 100, 1000))
T0 = st.one_of(st.sampled_from([1, 3, 7, 10, 23, 28, 32, 91, 365]),
               num(1, 365, 3, 7, 10, 23, 28, 32, 91, log=True),
               num(0.1, 500, 1, 365))
GAM = st.one_of(num(1, 2, 1.5, 1.15), num(0.3, 2, 1))

SPECS = [
    F('fcm', {'fck': FCK, 'delta_f': num(-12, 12, 8, 0)},
      lambda fck, delta_f=8: abs(fck) + abs(delta_f), opt=['delta_f']),
    F('fctm', {'fck': FCK}, fctm),
    F('fctk_5', {'fctm': num(-6, 6, 0)}, lambda fctm: 0.7 * abs(fctm)),
    F('fctk_95', {'fctm': num(-6, 6, 0)}, lambda fctm: 1.3 * abs(fctm)),
    F('Ecm', {'fcm': num(-20, 130, 0), 'kE': st.one_of(
        num(5000, 13000, 9500), num(3000, 15000, 5000, 13000))}, Ecm,
      opt=['kE'], weight=2),
    F('hn', {'Ac': num(-1e4, 1e7, 0), 'u': num(-1e3, 1e5)}, hn_),
    F('A_phi_correction_exp', {'hn': HNs, 'atm_conditions': ATM}, A_phi,
      weight=2),
    F('phi_correction_factor',
      {'fck': num(5, 120, 12, 35, 100), 'A_exponent': st.one_of(
          num(0.64, 0.82), num(0.5, 1, 0.64, 0.82))}, phi_corr, weight=2),
    F('phi_50y_t0', {'t0': T0, 'atm_conditions': ATM, 'hn': HNs,
                     'strength_dev_class': SDC}, phi_50, cmp=in_range,
      weight=3),
    F('eps_cs_50y', {'fck_28': st.one_of(
        st.sampled_from([20, 35, 50, 80]), num(20, 80, 35, 50),
        num(10, 100, 20, 80)), 'atm_conditions': ATM, 'hn': HNs,
        'strength_dev_class': SDC}, eps_cs, cmp=in_range, weight=3),
    F('eta_cc', {'fck': num(5, 110, 12, 40), 'fck_ref': st.one_of(
        num(20, 60, 40), num(-10, 60, 0))}, eta_cc, opt=['fck_ref'],
      weight=2),
    F('k_tc', {'t_ref': num(-5, 120, 0, 28, 56), 't0': num(-5, 200, 0, 90),
               'strength_dev_class': SDC}, k_tc, weight=3),
    F('fcd', {'fck': num(5, 110, 12, 40), 'eta_cc': st.one_of(
        num(0, 1), num(-0.2, 1.2, 0, 1)),
        'k_tc': st.one_of(st.sampled_from([0.85, 1, 1.0]), num(0, 1)),
        'gamma_c': GAM}, fcd, weight=2),
    F('k_tt', {'t_ref': num(-5, 120, 0, 28, 56), 'strength_dev_class': SDC},
      k_tt, weight=2),
    F('fctd', {'fctk_5': num(-1, 6, 0), 'k_tt': st.sampled_from([0.7, 0.8]),
               'gamma_c': GAM}, fctd),
    F('eps_c1', {'fcm': FCM}, ec1),
    F('eps_cu1', {'fcm': FCM}, ecu1, weight=2),
    F('k_sargin', {'Ecm': num(-1e3, 6e4, 0), 'fcm': FCM,
                   'eps_c1': num(-1e-3, 4e-3, 0, ints=False)}, k_sargin,
      weight=2),
    F('eps_c2', {}, lambda: 2e-3),
    F('eps_cu2', {}, lambda: 3.5e-3),
    F('n_parabolic_rectangular', {}, lambda: 2),
    F('weight_c', {'concrete_type': st.one_of(
        cased('nc', 'npc', pad=True), st.sampled_from(['', 'lc', 'n']))},
      weight_c),
    F('Es', {}, lambda: 200000),
    F('weight_s', {}, lambda: 78.5),
    F('fyd', {'fyk': num(-50, 800, 0), 'gamma_s': GAM},
      ratio('fyk', 'gamma_s')),
    F('eps_ud', {'eps_uk': num(-0.01, 0.1, 0, ints=False), 'gamma_s': GAM},
      ratio('eps_uk', 'gamma_s')),
    F('sigma_s', {'eps': st.one_of(num(0, 0.08, 0, 0.0025, 0.025, 0.05,
                                       ints=False),
                                   num(-0.001, 0.005, 0, 0.0025,
                                       ints=False)),
                  'fy': st.one_of(st.just(500), num(200, 800),
                                  num(-10, 800, 0)),
                  'k': st.one_of(num(1, 1.35, 1), num(0, 1.5, 1)),
                  'eps_u': st.one_of(st.sampled_from([0.025, 0.05, 0.075]),
                                     num(-0.01, 0.1, 0, 0.0025,
                                         ints=False)),
                  'Es': st.one_of(num(1.9e5, 2.1e5, 2e5),
                                  num(-1e3, 2.1e5, 0))}, sigma_s,
      opt=['Es'], weight=5),
    F('p_steel_stress_params',
      {'prestress_class': st.one_of(
          cased(*sorted({c for e in PS.values() for c in e}), pad=True),
          st.sampled_from(['', '1770', 'Y1000', 'Y17700'])),
       'element': st.one_of(cased('W', 'S', 'B', pad=True),
                            st.sampled_from(['', 'X', 'WS']))}, p_steel,
      weight=2),
    F('fpd', {'fp01k': num(-50, 2000, 0), 'gamma_P': GAM},
      ratio('fp01k', 'gamma_P')),
    F('sigma_p', {'eps': st.one_of(num(0, 0.04, 0, 0.035, ints=False),
                                   num(-0.001, 0.02, 0, ints=False)),
                  'fpy': st.one_of(num(800, 1900, 1560), num(-10, 1900, 0)),
                  'fpu': num(700, 2100, 1560, 1770),
                  'eps_u': st.one_of(num(0.01, 0.04, 0.035, ints=False),
                                     num(-0.01, 0.04, 0, ints=False)),
                  'Ep': st.one_of(num(1.8e5, 2.05e5, 1.9e5),
                                  num(-1e3, 2e5, 0))}, sigma_p,
      opt=['eps_u', 'Ep'], weight=5),
    F('reinforcement_duct_props',
      {'fyk': num(200, 800, 500), 'ductility_class': st.one_of(
          cased('A', 'B', 'C'), st.sampled_from(['D', '', 'AB', 'X']))},
      duct),
    F('alpha_c', {'fcm_28': num(8, 130, 88)},
      lambda fcm_28: max(1.0, 1 / (0.8 + 0.2 * fcm_28 / 88))),
]


def flat():
    """Horizontal branches, whose ultimate strain does not matter."""
    return st.tuples(
        st.sampled_from(['s', 'p']), num(0, 0.1, 0.0025, 0.01, ints=False),
        st.sampled_from([400, 500, 1000, 1900]),
        st.sampled_from([0.0025, 0.01, 0.002, 0.035, 0.005])).map(list)


def run_flat(case, rec):
    from structuralcodes.codes import ec2_2023 as m
    kind, eps, fy, eu = case
    rec.nt(eps > 0)
    if kind == 's':
        core.req_close(m.sigma_s(eps, fy, 1, eu), min(eps * 2e5, fy),
                       f'sigma_s{case}')
    else:
        core.req_close(m.sigma_p(eps, fy, fy, eu), min(eps * 1.9e5, fy),
                       f'sigma_p{case}')


# alpha_c_th() and alpha_s_th() have no input: they are run once per check as
# known findings (known_findings.txt), not by the search
THERMAL = make_sub('ec2_2023', [
    F('alpha_c_th', {}, lambda: 10e-6),
    F('alpha_s_th', {}, lambda: 10e-6),
], name='thermal', shards=1)
THERMAL.enumerate_cases = lambda: []



def grid():
    out = []
    for a in ('dry', 'humid'):
        for h in HN + [150, 350, 750]:
            out.append(('A_phi_correction_exp',
                        {'hn': h, 'atm_conditions': a}))
            for c in ('CS', 'CN', 'CR', 'slow', 'normal', 'rapid'):
                k = sdc(c)
                ts, fs = PHI_T[k], CS_F[k]
                for t in ts + ([(x + y) / 2 for x, y in zip(ts, ts[1:])]
                               if h in HN else []):
                    out.append(('phi_50y_t0', {
                        't0': t, 'atm_conditions': a, 'hn': h,
                        'strength_dev_class': c}))
                for f in fs + ([(x + y) / 2 for x, y in zip(fs, fs[1:])]
                               if h in HN else []):
                    out.append(('eps_cs_50y', {
                        'fck_28': f, 'atm_conditions': a, 'hn': h,
                        'strength_dev_class': c}))
    for e in PS:
        for c in sorted({c for t in PS.values() for c in t}):
            out.append(('p_steel_stress_params',
                        {'prestress_class': c, 'element': e}))
    for c in ('CS', 'CN', 'CR', 'slow', 'normal', 'rapid'):
        for t in (0, 27, 28, 28.5, 29, 55, 56, 56.5, 57, 100):
            out.append(('k_tt', {'t_ref': t, 'strength_dev_class': c}))
            for t0 in (0, 28, 56, 89, 90, 90.5, 91, 200):
                out.append(('k_tc', {'t_ref': t, 't0': t0,
                                     'strength_dev_class': c}))
    return out


SUBS = [
    make_sub('ec2_2023', SPECS),
    enum_sub('ec2_2023', SPECS, grid),
    THERMAL,
    core.Sub('horizontal', flat, run_flat, 1500, 20000,
             'positive strain on an elastic-perfectly plastic branch'),
]
