"""EN 1992-1-1:2023 Section 9 serviceability."""
import math

from hypothesis import strategies as st

from .. import core
from ..formula import F, RULE, make_sub, near, num  # noqa: F401

ASSUMPTIONS = [
    'dimensions, ratios and moduli are positive and bars lie inside of the '
    'tension zone (x + ay < h)',
    'the effective modulus uses alpha_c of Annex B, as documented in the '
    'repository',
]


def alpha_c(fcm):
    return max(1.0, 1 / (0.8 + 0.2 * fcm / 88))


def Ec_eff(fcm, phi, kE=9500):
    return alpha_c(fcm) * kE * fcm ** (1 / 3) / (1 + phi)


def kh(b, h):
    return min(0.8, max(0.5, 0.8 - 0.6 * (min(b, h) - 0.3)))


def As_min_y(NEd, b, h, fct_eff, fyk):
    N = NEd * 1e3  # N
    F1 = kh(b, h) * fct_eff * b * h * 1e6  # N
    a1 = max(0.0, min(0.3 * N + 0.2 * F1, 0.5 * F1)) / fyk  # mm2
    a2 = min(a1, max(0.0, N / fyk - a1))
    return a1 / 100, a2 / 100  # cm2


def k_1_r(h, x, ay):
    if h - ay - x <= 1e-6 * h:
        raise core.Reject
    return (h - x) / (h - x - ay)


def esm(sigma_s, kt, fct_eff, rho_eff, alphae, Es):
    return max(sigma_s - kt * fct_eff * (1 / rho_eff + alphae),
               (1 - kt) * sigma_s) / Es


def kfl(h, xg, hceff):
    if h - xg <= 1e-6 * h:
        raise core.Reject
    return max(0.5, 0.5 * (1 + (h - xg - hceff) / (h - xg)))


def srm(c, kfl_, kb, phi, rho_eff, kw, h, x):
    return min(1.5 * c + kfl_ * kb * phi / (7.2 * rho_eff),
               1.3 * (h - x) / kw)


def wk_cal(kw, h, xg, hc_eff, c, kb, phi, rho_eff, x, sigma_s, kt, fct_eff,
           alphae, Es):
    k1 = k_1_r(h, x, c + phi / 2)
    s = srm(c, kfl(h, xg, hc_eff), kb, phi, rho_eff, kw, h, x)
    e = esm(sigma_s, kt, fct_eff, rho_eff, alphae, Es)
    return kw * k1 * s * e, k1, s, e


def fctm(fck):
    return 0.3 * fck ** (2 / 3) if fck <= 50 else 1.1 * fck ** (1 / 3)


def delta(delta_loads, delta_shr, fck1, phi1, b1, h, d, As1, Mk):
    Mcr = fctm(fck1) * b1 * h ** 2 / 6 * 1e3  # kNm
    near(Mk, Mcr)
    rho = As1 / (b1 * d) / 1e4
    if Mk < Mcr:
        return delta_loads + delta_shr
    n = 2e5 / Ec_eff(fck1 + 8, phi1)
    ratio = 1 / (2.7 * (n * rho) ** 0.6 * (d / h) ** 3)
    z = 1 - 0.5 * (Mcr / Mk) ** 2
    kS = 455 * rho ** 2 - 35 * rho + 1.6
    return (z * ratio + 1 - z) * (delta_loads + kS * delta_shr)


B = num(0.05, 2, 0.3, 0.8, 0.55)
RHO = num(1e-3, 0.1, ints=False, log=True)
H = num(0.05, 3)
SIG = num(1, 600)
KT = st.one_of(st.sampled_from([0.4, 0.6]), num(0.2, 0.8))


class W(F):
    """Lengths inside of the section as fractions of its height."""

    FR = {'x': (0.0, 0.7), 'ay': (0.01, 0.25), 'xg': (0.2, 0.7),
          'hc_eff': (0.02, 0.9), 'hceff': (0.02, 0.9), 'c': (0.01, 0.15),
          'phi': (0.005, 0.05), 'd': (0.6, 0.98)}

    def strategy(self):
        @st.composite
        def s(draw):
            case = draw(F.strategy(self))
            h = case['a']['h']
            for k in case['a']:
                if k in self.FR:
                    case['a'][k] = float(
                        f'{draw(num(*self.FR[k], ints=False)) * h:.6g}')
            return case
        return s()


L = st.just(0.0)
NE = st.one_of(num(-2000, 3000, 0), num(-50, 50, 0), num(-1e5, 1e5))


class NN(F):
    """Axial force as a fraction of the cracking force."""

    def strategy(self):
        fr = num(-1.2, 2, 0, -2 / 3, 1, 0.5, 0.25)

        def fix(t):
            case, f = t
            a = case['a']
            a['NEd'] = f * kh(a['b'], a['h']) * a['fct_eff'] * a['b'] \
                * a['h'] * 1e3
            return case
        return st.one_of(super().strategy(),
                         st.tuples(super().strategy(), fr).map(fix))


class D(W):
    """Moment as a multiple of the cracking moment."""

    def strategy(self):
        def fix(t):
            case, f = t
            a = case['a']
            a['Mk'] = f * fctm(a['fck1']) * a['b1'] * a['h'] ** 2 / 6 * 1e3
            return case
        return st.tuples(super().strategy(), num(
            0.05, 6, 0.7, 0.99, 1.01, 1.4)).map(fix)


SPECS = [
    F('alpha_c', {'fcm_28': num(8, 130, 88)}, lambda fcm_28: alpha_c(fcm_28)),
    F('Ec_eff', {'fcm': num(10, 130, 88), 'phi': num(0, 5, 0),
                 'kE': num(5000, 13000, 9500)}, Ec_eff, opt=['kE'],
      weight=2),
    NN('As_min_y', {'NEd': NE, 'b': B, 'h': B, 'fct_eff': num(0.5, 6),
                    'fyk': num(200, 800, 500)}, As_min_y, atol=1e-9,
       weight=5),
    F('kh', {'b': B, 'h': B}, kh, weight=2),
    F('wk_cal2', {'kw': num(1, 2, 1.7, 1.3), 'k_1_r': num(1, 2),
                  'srm_cal': num(0.01, 500), 'epssm_epscm': num(
                      0, 5e-3, ints=False)},
      lambda kw, k_1_r, srm_cal, epssm_epscm:
      kw * k_1_r * srm_cal * epssm_epscm),
    W('k_1_r', {'h': H, 'x': L, 'ay': L}, k_1_r, weight=2),
    F('epssm_epscm', {'sigma_s': SIG, 'kt': KT, 'fct_eff': num(0.5, 6),
                      'rho_eff': RHO, 'alphae': num(3, 20),
                      'Es': num(1.9e5, 2.1e5, 2e5)}, esm, atol=1e-14,
      weight=4),
    W('kfl', {'h': H, 'xg': L, 'hceff': L}, kfl, weight=2),
    W('srm_cal', {'c': L, 'kfl_': num(0.5, 1), 'kb': num(0.5, 1.5),
                  'phi': L, 'rho_eff': RHO, 'kw': num(1, 2, 1.3, 1.7),
                  'h': H, 'x': L}, srm, weight=4),
    W('wk_cal', {'kw': num(1, 2, 1.3, 1.7), 'h': H, 'xg': L, 'hc_eff': L,
                 'c': L, 'kb': num(0.5, 1.5), 'phi': L, 'rho_eff': RHO,
                 'x': L, 'sigma_s': SIG, 'kt': KT, 'fct_eff': num(0.5, 6),
                 'alphae': num(3, 20), 'Es': num(1.9e5, 2.1e5, 2e5)},
      wk_cal, atol=1e-14, weight=6),
    D('delta_simpl', {'delta_loads': num(0, 50, 0), 'delta_shr': num(0, 20),
                      'fck1': num(12, 100, 50), 'phi1': num(0, 4, 0),
                      'b1': num(0.1, 2), 'h': H, 'd': L,
                      'As1': num(0.5, 200), 'Mk': L}, delta, atol=1e-12,
      weight=6),
]

SUBS = [make_sub('ec2_2023', SPECS)]
