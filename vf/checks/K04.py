"""EN 1992-1-1:2004 Section 6.2 shear."""
import math

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, make_sub, near, num, RULE  # noqa: F401

ASSUMPTIONS = [
    'geometric dimensions and material strengths are positive',
    'the strut angle is accepted from 21.8 to 45 degrees; angles outside '
    'whose cotangent rounds to the limit (two decimals) may be accepted too',
]


def kd(d):
    return min(2.0, 1 + math.sqrt(200 / d))


def sig(NEd, Ac, fcd):
    return min(0.2 * fcd, NEd / Ac)


def vmin(fck, d):
    return 0.035 * math.sqrt(kd(d) ** 3 * fck)


def VRdc(fck, d, Asl, bw, NEd, Ac, fcd, k1=0.15, gamma_c=1.5, CRdc=None):
    c = 0.18 / gamma_c if CRdc is None else CRdc
    rho = min(0.02, Asl / (bw * d))
    s = sig(NEd, Ac, fcd)
    a = c * kd(d) * (100 * rho * fck) ** (1 / 3)
    return max(0.0, (max(a, vmin(fck, d)) + k1 * s) * bw * d)


def VRdc_ps(Iy, bw, S, fctd, NEd, Ac, L_x=None, L_pt2=None):
    al = 1.0
    if L_x is not None and L_pt2 is not None:
        al = min(1.0, L_x / L_pt2)
    r = fctd ** 2 + al * NEd / Ac * fctd
    if r < 1e-9 * fctd ** 2:
        raise core.Reject  # cracked: no real solution
    return Iy * bw / S * math.sqrt(r)


def v(fck):
    return 0.6 * (1 - fck / 250)


def v1(fck):
    return 0.6 if fck <= 60 else max(0.5, 0.9 - fck / 200)


def theta_ok(theta):
    cot = 1 / math.tan(math.radians(theta))
    if 21.8 <= theta <= 45:
        return
    if cot > 2.506 or cot < 0.994:
        raise Bad
    raise core.Reject


def VRds(Asw, s, z, theta, fyk, alpha=90.0, gamma_s=1.15):
    theta_ok(theta)
    t, a = math.radians(theta), math.radians(alpha)
    return (Asw / s * z * fyk / gamma_s
            * (1 / math.tan(t) * math.sin(a) + math.cos(a)))


def Asw_s(Ved, z, theta, fywd, alpha=90.0):
    theta_ok(theta)
    t, a = math.radians(theta), math.radians(alpha)
    return Ved / (z * fywd * (math.sin(a) / math.tan(t) + math.cos(a)))


def alpha_cw(Ned, Ac, fcd):
    s = Ned / Ac
    if s != fcd:
        near(s, fcd)
    else:
        raise core.Reject
    if s > fcd:
        raise Bad
    if s <= 0:
        return 1.0
    if s <= 0.25 * fcd:
        return 1 + s / fcd
    if s <= 0.5 * fcd:
        return 1.25
    return 2.5 * (1 - s / fcd)


def VRdmax(bw, z, fck, theta, NEd, Ac, fcd, alpha=90.0, limit_fyd=False):
    theta_ok(theta)
    acw = alpha_cw(NEd, Ac, fcd)
    nu = v1(fck) if limit_fyd else v(fck)
    cot = 1 / math.tan(math.radians(theta))
    cota = 1 / math.tan(math.radians(alpha))
    return acw * bw * z * nu * fcd * (cot + cota) / (1 + cot ** 2)


def Asw_max(fcd, fck, bw, s, fywd, NEd, Ac, alpha=90.0):
    acw = alpha_cw(NEd, Ac, fcd)
    return (0.5 * acw * v(fck) * fcd * bw * s
            / (fywd * math.sin(math.radians(alpha))))


FCK = num(12, 110, 50, 60, 80, 90)
FCD = num(5, 80)
D = num(20, 3000, 200, 500)
BW = num(20, 2000)
AC = num(1e4, 5e6, log=True)
THETA = st.one_of(num(21.8, 45, 30, 40), num(21.8, 45),
                  num(10, 70, 21.8, 45))
ALPHA = st.one_of(num(45, 90), num(20, 90), num(90, 110))
# axial force tied to the concrete capacity, so that every branch is reached
FR = [-0.3, 0, 0.1, 0.19, 0.2, 0.21, 0.25, 0.26, 0.3, 0.5, 0.51, 0.7, 0.95,
      1.05, 1.5]


class N(F):
    """The axial force is NEd = fraction * Ac * fcd."""

    def strategy(self):
        key = 'Ned' if 'Ned' in self.args else 'NEd'
        fr = st.one_of(st.sampled_from(FR), num(-0.5, 1.3, 0, 0.2, 0.25, 0.5))

        def fix(t):
            case, f = t
            a = case['a']
            a[key] = f * a['Ac'] * a.get('fcd', a.get('fctd'))
            return case
        return st.tuples(super().strategy(), fr).map(fix)


SPECS = [
    N('VRdc', {'fck': FCK, 'd': D, 'Asl': num(0, 2e4, 0), 'bw': BW,
               'NEd': st.just(0.0), 'Ac': AC, 'fcd': FCD,
               'k1': num(0, 0.3, 0.15), 'gamma_c': num(1, 2, 1.5),
               'CRdc': st.one_of(num(0.05, 0.3), st.none())}, VRdc,
      opt=['k1', 'gamma_c', 'CRdc'], atol=1e-9, weight=5),
    F('vmin', {'fck': FCK, 'd': D}, vmin, mod='ec2_2004.shear'),
    N('VRdc_prin_stress',
      {'Iy': num(1e6, 1e12, log=True), 'bw': BW,
       'S': num(1e4, 1e9, log=True), 'fctd': num(0.5, 4),
       'NEd': st.just(0.0), 'Ac': AC, 'L_x': st.one_of(num(0, 3000),
                                                       st.none()),
       'L_pt2': st.one_of(num(1, 3000), st.none())}, VRdc_ps,
      opt=['L_x', 'L_pt2'], rtol=1e-7, weight=2),
    F('VEdmax_unreinf', {'bw': BW, 'd': D, 'fck': FCK, 'fcd': FCD},
      lambda bw, d, fck, fcd: 0.5 * bw * d * v(fck) * fcd),
    F('VRds', {'Asw': num(0, 5000, 0), 's': num(20, 1000),
               'z': num(20, 2500), 'theta': THETA, 'fyk': num(200, 800, 500),
               'alpha': ALPHA, 'gamma_s': num(1, 1.5, 1.15)}, VRds,
      opt=['alpha', 'gamma_s'], weight=3),
    F('Asw_s_required', {'Ved': num(0, 1e6), 'z': num(20, 2500),
                         'theta': THETA, 'fywd': num(150, 700),
                         'alpha': ALPHA}, Asw_s, opt=['alpha'], weight=2),
    N('VRdmax', {'bw': BW, 'z': num(20, 2500), 'fck': FCK, 'theta': THETA,
                 'NEd': st.just(0.0), 'Ac': AC, 'fcd': FCD, 'alpha': ALPHA,
                 'limit_fyd': st.booleans()}, VRdmax,
      opt=['alpha', 'limit_fyd'], weight=5),
    N('Asw_max', {'fcd': FCD, 'fck': FCK, 'bw': BW, 's': num(20, 1000),
                  'fywd': num(150, 700), 'NEd': st.just(0.0), 'Ac': AC,
                  'alpha': ALPHA}, Asw_max, opt=['alpha'], weight=3),
    N('alpha_cw', {'Ned': st.just(0.0), 'Ac': AC, 'fcd': FCD}, alpha_cw,
      mod='ec2_2004.shear', weight=3),
    F('v', {'fck': FCK}, v, mod='ec2_2004.shear'),
    F('v1', {'fck': FCK}, v1, mod='ec2_2004.shear'),
]

SUBS = [make_sub('ec2_2004', SPECS)]
