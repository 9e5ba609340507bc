"""fib Model Code 2010 shear, torsion and shear at casting interfaces."""
import math
import warnings

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, RULE, make_sub, near, num  # noqa: F401

ASSUMPTIONS = [
    'sizes, strengths, moduli and partial factors are positive; angles are '
    'between 10 and 80 degrees (stress field) and 20 and 120 degrees '
    '(stirrups)',
    'level III is compared as long as its angle 20 + 10000 eps_x stays '
    'below 89 degrees',
    'level III torsion takes k_eps at the minimum angle and the strut '
    'geometry at the given angle, as the function is written',
    'the second level of hollow core slabs is compared with the sigma_cpy '
    'contribution absent (no prestressing force at l_x), because the '
    'formula of sigma_cpy is a known finding',
]


def cot(d):
    return 1 / math.tan(math.radians(d))


def epsilon_x(E_s, As, z, loads):
    m, v, n, e = (loads[k] for k in ('Med', 'Ved', 'Ned', 'delta_e'))
    t = abs(m) / z + abs(v) + n * (0.5 + e / z)
    return max(t / (2 * E_s * As), 0.0)


def eta_fc(fck):
    return min(1.0, (30 / fck) ** (1 / 3))


def strut(k, fck, bw, theta, z, alpha, gamma_c):
    c = cot(theta)
    return (k * eta_fc(fck) * fck / gamma_c * bw * z * (c + cot(alpha))
            / (1 + c * c))


def k_eps(ex, theta):
    e1 = ex + (ex + 0.002) * cot(theta) ** 2
    return min(1 / (1.2 + 55 * e1), 0.65)


def theta_min(ex):
    t = 20 + 10000 * ex
    if t > 89:
        raise core.Reject
    return t


def v_rd_max_approx1(fck, bw, theta, z, alpha=90., gamma_c=1.5):
    return strut(0.55, fck, bw, theta, z, alpha, gamma_c)


def v_rd_max_approx2(fck, bw, theta, z, E_s, As, loads, alpha=90.,
                     gamma_c=1.5):
    k = k_eps(epsilon_x(E_s, As, z, loads), theta)
    return strut(k, fck, bw, theta, z, alpha, gamma_c)


def v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha=90., gamma_c=1.5):
    ex = epsilon_x(E_s, As, z, loads)
    t = theta_min(ex)
    return strut(k_eps(ex, t), fck, bw, t, z, alpha, gamma_c)


def v_rd_max(approx_lvl, fck, bw, theta, z, E_s=None, As=None, loads=None,
             alpha=90., gamma_c=1.5):
    if approx_lvl == 1:
        return v_rd_max_approx1(fck, bw, theta, z, alpha, gamma_c)
    if approx_lvl not in (2, 3):
        raise Bad
    if E_s is None or As is None or loads is None:
        raise core.Reject  # needed at these levels
    if approx_lvl == 2:
        return v_rd_max_approx2(fck, bw, theta, z, E_s, As, loads, alpha,
                                gamma_c)
    return v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha, gamma_c)


def root(fck):
    return min(math.sqrt(fck), 8.0)


def v_rdc_approx1(fck, z, bw, gamma_c=1.5):
    return 180 / (1000 + 1.25 * z) * root(fck) / gamma_c * z * bw


def v_rdc_approx2(fck, z, bw, dg, E_s, As, loads, gamma_c=1.5):
    d = 0 if fck > 70 else dg
    kdg = max(0.75, 32 / (16 + d))
    kv = 0.4 / (1 + 1500 * epsilon_x(E_s, As, z, loads)) \
        * 1300 / (1000 + kdg * z)
    return kv * root(fck) / gamma_c * z * bw


def v_rdc_3(fck, z, bw, E_s, As, loads, alpha, gamma_c):
    ex = epsilon_x(E_s, As, z, loads)
    m = v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha, gamma_c)
    if m <= 1e-6:
        raise core.Reject
    kv = max(0.0, 0.4 / (1 + 1500 * ex) * (1 - loads['Ved'] / m))
    return kv * root(fck) / gamma_c * z * bw


def v_rdc_approx3(approx_lvl, fck, z, bw, E_s, As, loads, alpha=90.,
                  gamma_c=1.5):
    return v_rdc_3(fck, z, bw, E_s, As, loads, alpha, gamma_c)


def v_rdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha=90.,
          gamma_c=1.5):
    if approx_lvl == 1:
        return v_rdc_approx1(fck, z, bw, gamma_c)
    if approx_lvl == 2:
        return v_rdc_approx2(fck, z, bw, dg, E_s, As, loads, gamma_c)
    if approx_lvl == 3:
        return v_rdc_3(fck, z, bw, E_s, As, loads, alpha, gamma_c)
    raise Bad


def v_rds(asw, sw, z, f_ywk, theta=45., alpha=90., gamma_s=1.15):
    return (asw / sw * z * f_ywk / gamma_s * (cot(theta) + cot(alpha))
            * math.sin(math.radians(alpha)))


def v_rd(approx_lvl, with_shear_reinforcment, fck, z, bw, dg, E_s, As, loads,
         asw=None, sw=None, f_ywk=None, theta=None, alpha=90., gamma_c=1.5,
         gamma_s=1.15):
    if not with_shear_reinforcment:
        return v_rdc(approx_lvl, fck, z, bw, dg, E_s, As, loads, alpha,
                     gamma_c)
    if None in (asw, sw, f_ywk, theta):
        raise core.Reject
    if approx_lvl not in (1, 2, 3):
        raise Bad
    s = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
    lvl = approx_lvl
    if lvl == 3:
        m = v_rd_max_approx3(fck, bw, z, E_s, As, loads, alpha, gamma_c)
        c = v_rdc_3(fck, z, bw, E_s, As, loads, alpha, gamma_c)
        near(c + s, m)
        if c + s < m:
            return c + s
        lvl = 2
    return min(s, v_rd_max(lvl, fck, bw, theta, z, E_s, As, loads, alpha,
                           gamma_c))


def hollow1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0):
    a = l_x / (1.2 * l_bd0)
    return 0.8 * i_c * b_w / s_c * math.sqrt(
        f_ctd ** 2 + a * sigma_cp * f_ctd)


def hollow2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c, A_c, A_cy, y_pt,
            f_p_lx, f_p_lx_dx):
    a = l_x / (1.2 * l_bd0)
    sig = (1 / A_c + (y_c - y) * (y_c - y_pt) / i_c) * f_p_lx
    tau = 1 / b_wy * (A_cy / A_c - S_cy * (y_c - y_pt) / i_c) * f_p_lx_dx
    arg = f_ctd ** 2 + a * sig * f_ctd
    if arg < 0:
        raise core.Reject
    return i_c * b_wy / S_cy * (math.sqrt(arg) - tau)


def v_rd_ct(approx_lvl_h, f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0, S_cy,
            b_wy, y, y_c, A_c, A_cy, y_pt, f_p_lx, f_p_lx_dx):
    if approx_lvl_h == 1:
        return hollow1(f_ctd, i_c, s_c, b_w, sigma_cp, l_x, l_bd0)
    if approx_lvl_h == 2:
        return hollow2(f_ctd, i_c, l_x, l_bd0, S_cy, b_wy, y, y_c, A_c, A_cy,
                       y_pt, f_p_lx, f_p_lx_dx)
    raise Bad


# ------------------------------------------------------------------ torsion
def t_rd_max(f_ck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads,
             gamma_c=1.5):
    if approx_lvl == 1:
        k = 0.55
    elif approx_lvl in (2, 3):
        ex = epsilon_x(E_s, As, z, loads)
        k = k_eps(ex, theta if approx_lvl == 2 else theta_min(ex))
    else:
        raise Bad(Exception)
    t = math.radians(theta)
    return (k * eta_fc(f_ck) * f_ck / gamma_c * d_k / 8 * 2 * a_k
            * math.sin(t) * math.cos(t))


def t_rd(t_ed, approx_lvl, fck, bw, theta, z, E_s, As, loads, d_k, a_k,
         alpha=90., gamma_c=1.5):
    a = t_rd_max(fck, d_k, a_k, theta, approx_lvl, z, E_s, As, loads,
                 gamma_c)
    b = v_rd_max(approx_lvl, fck, bw, theta, z, E_s, As, loads, alpha,
                 gamma_c)
    if abs(b) < 1e-6:
        raise core.Reject
    u = (t_ed / a) ** 2 + (loads['Ved'] / b) ** 2
    near(u, 1)
    return u <= 1


# ---------------------------------------------------------------- interface
def v_int(f_ck):
    return min(0.55, 0.55 * (30 / f_ck) ** (1 / 3))


def tau_no(c_a, f_ctd, mu, sigma_n, f_ck, f_cd):
    return min(c_a * f_ctd + mu * sigma_n, 0.5 * v_int(f_ck) * f_cd)


def tau_with(c_r, k1, k2, mu, ro, sigma_n, alpha, beta_c, f_ck, f_yd, f_cd):
    a = math.radians(alpha)
    r = (c_r * f_ck ** (1 / 3) + mu * sigma_n
         + k1 * ro * f_yd * (mu * math.sin(a) + math.cos(a))
         + k2 * ro * math.sqrt(f_yd * f_cd))
    return min(r, beta_c * v_int(f_ck) * f_cd)


FCK = num(12, 120, 30, 64, 70)
Z = num(50, 3000, 1000)
BW = num(20, 2000)
DG = num(0, 64, 16, 32, 26.6)
ES = num(180000, 220000, 200000)
AS = num(100, 50000, log=True)
LOADS = st.fixed_dictionaries({
    'Med': st.one_of(num(-5e9, 5e9, 0), num(-1e7, 1e7, 0)),
    'Ved': st.one_of(num(0, 3e6, 0), num(-1e6, 1e6, 0), num(0, 1e5)),
    'Ned': num(-2e6, 2e6, 0),
    'delta_e': num(0, 100, 0)})
THETA = num(10, 80, 20, 45)
ALPHA = num(20, 120, 45, 90)
GC = num(1, 2, 1.5, 1)
GS = num(1, 1.5, 1.15, 1)
LVL = st.sampled_from([1, 2, 3, 1, 2, 3, 2, 3, 0, 4])


class Quiet(F):
    """The warning about an unusual angle or level is not an error."""

    def call(self, fn, vals, pos):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return super().call(fn, vals, pos)


class Level3(Quiet):
    """Level 3 without shear reinforcement is announced as unsuitable."""

    def call(self, fn, vals, pos):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn_call(self, fn, vals, pos)
        n = sum(issubclass(x.category, UserWarning) for x in w)
        if not vals['with_shear_reinforcment']:
            core.require((n > 0) == (vals['approx_lvl'] == 3),
                         f'v_rd: {n} warnings without shear reinforcement '
                         f'at level {vals["approx_lvl"]}')
        return r


class Angle(Quiet):
    """Stress fields outside of 20 to 45 degrees are announced."""

    def call(self, fn, vals, pos):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn_call(self, fn, vals, pos)
        n = sum(issubclass(x.category, UserWarning) for x in w)
        th = vals.get('theta', 45)
        core.require((n > 0) == (th < 20 or th > 45),
                     f'v_rds: {n} warnings for theta={th!r}')
        return r


def fn_call(spec, fn, vals, pos):
    return F.call(spec, fn, vals, pos)


class Torsion(F):
    """Torsional moments next to the limit."""

    def strategy(self):
        def fix(t):
            case, r = t
            a = case['a']
            if r is None:
                return case
            k = {'alpha': a.get('alpha', 90.), 'gamma_c':
                 a.get('gamma_c', 1.5)}
            try:
                tm = t_rd_max(a['fck'], a['d_k'], a['a_k'], a['theta'],
                              a['approx_lvl'], a['z'], a['E_s'], a['As'],
                              a['loads'], k['gamma_c'])
                vm = v_rd_max(a['approx_lvl'], a['fck'], a['bw'], a['theta'],
                              a['z'], a['E_s'], a['As'], a['loads'], **k)
                u = 1 - (a['loads']['Ved'] / vm) ** 2
                if u > 0:
                    a['t_ed'] = r * tm * math.sqrt(u)
            except (core.Reject, ZeroDivisionError):
                pass
            return case
        return st.tuples(super().strategy(), st.one_of(
            st.none(), num(0.99, 1.01, ints=False),
            num(0.9, 1.1, ints=False))).map(fix)


MAX2 = {'fck': FCK, 'bw': BW, 'theta': THETA, 'z': Z, 'E_s': ES, 'As': AS,
        'loads': LOADS, 'alpha': ALPHA, 'gamma_c': GC}
HC = {'f_ctd': num(0.5, 5), 'i_c': num(1e7, 1e10, log=True),
      's_c': num(1e5, 1e8, log=True), 'b_w': num(50, 600),
      'sigma_cp': num(0, 20, 0), 'l_x': num(10, 2000),
      'l_bd0': num(50, 2000), 'S_cy': num(1e5, 1e8, log=True),
      'b_wy': num(50, 600), 'y': num(0, 400), 'y_c': num(50, 250),
      'A_c': num(1e4, 1e6, log=True), 'A_cy': num(1e3, 1e5, log=True),
      'y_pt': num(10, 400), 'f_p_lx': st.just(0.0),
      'f_p_lx_dx': num(-500, 2000, 0)}
L2 = [k for k in HC if k not in ('s_c', 'b_w', 'sigma_cp')]

TINT = num(-2e8, 2e8, 0)
SPECS = [
    Quiet('epsilon_x', {'E_s': ES, 'As': AS, 'z': Z, 'loads': LOADS},
          epsilon_x, atol=1e-14, weight=2),
    F('eta_fc', {'fck': FCK}, eta_fc),
    F('create_load_dict', {'Med': TINT, 'Ved': TINT, 'Ned': TINT,
                           'delta_e': num(0, 100)},
      lambda Med, Ved, Ned, delta_e: {'Med': Med, 'Ved': Ved, 'Ned': Ned,
                                      'delta_e': delta_e}),
    Level3('v_rd', {'approx_lvl': LVL, 'with_shear_reinforcment':
                   st.sampled_from([True, True, True, False]),
                   'fck': FCK, 'z': Z, 'bw': BW, 'dg': DG, 'E_s': ES,
                   'As': AS, 'loads': LOADS,
                   'asw': num(20, 5000, log=True), 'sw': num(50, 600),
                   'f_ywk': num(200, 700, 500), 'theta': THETA,
                   'alpha': ALPHA, 'gamma_c': GC, 'gamma_s': GS}, v_rd,
          opt=['alpha', 'gamma_c', 'gamma_s'], atol=1e-6, weight=8),
    Quiet('v_rdc', {'approx_lvl': LVL, 'fck': FCK, 'z': Z, 'bw': BW,
                    'dg': DG, 'E_s': ES, 'As': AS, 'loads': LOADS,
                    'alpha': ALPHA, 'gamma_c': GC}, v_rdc,
          opt=['alpha', 'gamma_c'], atol=1e-6, weight=4),
    F('v_rdc_approx1', {'fck': FCK, 'z': Z, 'bw': BW, 'gamma_c': GC},
      v_rdc_approx1, opt=['gamma_c'], mod='mc2010._concrete_shear'),
    F('v_rdc_approx2', {'fck': FCK, 'z': Z, 'bw': BW, 'dg': DG, 'E_s': ES,
                        'As': AS, 'loads': LOADS, 'gamma_c': GC},
      v_rdc_approx2, opt=['gamma_c'], weight=2),
    F('v_rdc_approx3', {'approx_lvl': st.sampled_from([3, 3, 2]), 'fck': FCK, 'z': Z,
                        'bw': BW, 'E_s': ES, 'As': AS, 'loads': LOADS,
                        'alpha': ALPHA, 'gamma_c': GC}, v_rdc_approx3,
      opt=['alpha', 'gamma_c'], atol=1e-6, weight=2),
    Angle('v_rds', {'asw': num(20, 5000, log=True), 'sw': num(50, 600),
                    'z': Z, 'f_ywk': num(200, 700, 500), 'theta': THETA,
                    'alpha': ALPHA, 'gamma_s': GS}, v_rds,
          opt=['theta', 'alpha', 'gamma_s'], atol=1e-6, weight=2),
    Quiet('v_rd_max', {'approx_lvl': LVL, **MAX2}, v_rd_max,
          opt=['alpha', 'gamma_c'], atol=1e-6, weight=4),
    F('v_rd_max_approx1', {'fck': FCK, 'bw': BW, 'theta': THETA, 'z': Z,
                           'alpha': ALPHA, 'gamma_c': GC},
      v_rd_max_approx1, opt=['alpha', 'gamma_c'], atol=1e-6),
    F('v_rd_max_approx2', MAX2, v_rd_max_approx2, opt=['alpha', 'gamma_c'],
      atol=1e-6, weight=2),
    F('v_rd_max_approx3', {k: v for k, v in MAX2.items() if k != 'theta'},
      v_rd_max_approx3, opt=['alpha', 'gamma_c'], atol=1e-6, weight=2),
    F('v_rd_ct', {'approx_lvl_h': st.sampled_from([1, 2, 1, 2, 0, 3]), **HC},
      v_rd_ct, weight=3, atol=1e-6),
    F('v_rd_ct_approx1', {k: HC[k] for k in (
        'f_ctd', 'i_c', 's_c', 'b_w', 'sigma_cp', 'l_x', 'l_bd0')}, hollow1),
    F('v_rd_ct_approx2', {k: HC[k] for k in L2}, hollow2, weight=2,
      atol=1e-6),
    F('v_ed_ti', {'t_ed': TINT, 'a_k': num(1e3, 1e6), 'z_i': num(50, 2000)},
      lambda t_ed, a_k, z_i: t_ed * z_i / (2 * a_k)),
    F('t_rd_max', {'f_ck': FCK, 'd_k': num(50, 1500), 'a_k': num(1e3, 1e6),
                   'theta': THETA, 'approx_lvl': LVL, 'z': Z, 'E_s': ES,
                   'As': AS, 'loads': LOADS, 'gamma_c': GC}, t_rd_max,
      opt=['gamma_c'], weight=3),
    Torsion('t_rd', {'t_ed': st.one_of(TINT, num(0, 2e6)), 'approx_lvl':
               st.sampled_from([1, 2, 3]), 'fck': FCK,
               'bw': BW, 'theta': THETA, 'z': Z, 'E_s': ES, 'As': AS,
               'loads': LOADS, 'd_k': num(50, 1500), 'a_k': num(1e3, 1e6),
               'alpha': ALPHA, 'gamma_c': GC}, t_rd,
      opt=['alpha', 'gamma_c'], weight=5),
    F('tau_edi', {'beta': num(0, 1), 'v_ed': num(0, 1e6), 'z': Z,
                  'b_i': BW},
      lambda beta, v_ed, z, b_i: beta * v_ed / (z * b_i)),
    F('tau_rdi_without_reinforcement', {
        'c_a': num(0, 0.5), 'f_ctd': num(0.5, 4), 'mu': num(0.5, 1.4),
        'sigma_n': num(0, 10), 'f_ck': FCK, 'f_cd': num(5, 80)}, tau_no,
      weight=2),
    F('tau_rdi_with_reinforcement', {
        'c_r': num(0, 0.2), 'k1': num(0, 1), 'k2': num(0, 1.5),
        'mu': num(0.5, 1.4), 'ro': num(0, 0.05, ints=False),
        'sigma_n': num(0, 10), 'alpha': num(20, 160, 45, 90),
        'beta_c': num(0.3, 0.5, ints=False), 'f_ck': FCK,
        'f_yd': num(200, 600), 'f_cd': num(5, 80)}, tau_with, weight=2,
      atol=1e-12),
]

# v_rd_ct_approx2 with prestress: executed for the known finding only
HOLLOW = make_sub('mc2010', [F('v_rd_ct_approx2', {
    k: HC[k] for k in L2}, hollow2)], name='hollow_core', shards=1)
HOLLOW.enumerate_cases = lambda: []

def s_hollow():
    return st.tuples(
        st.fixed_dictionaries({k: HC[k] for k in L2}),
        num(1e10, 1e13, log=True), num(0.2, 5, ints=False)).map(
            lambda t: [{**t[0], 'f_p_lx': t[1], 'y': 0.9 * t[0]['y_c']},
                       t[2]])


def run_hollow(case, rec):
    """Relations of level 2 that do not depend on the value of sigma_cpy."""
    from structuralcodes.codes.mc2010 import _concrete_shear as m

    a, f = case
    base = m.v_rd_ct_approx2(**a)
    zero = m.v_rd_ct_approx2(**{**a, 'f_p_lx': 0.0})
    rec.nt(abs(base - zero) > 1e-6 * abs(zero))
    core.require(base >= zero - 1e-9 * abs(zero),
                 f'v_rd_ct_approx2: {base} with and {zero} without '
                 f'compression for {a}')
    same = m.v_rd_ct_approx2(**{**a, 'l_x': f * a['l_x'],
                                'l_bd0': f * a['l_bd0']})
    tol = 1e-9 * (abs(base) + abs(a['f_p_lx_dx']) * 1e3 + abs(zero))
    core.req_close(same, base, f'v_rd_ct_approx2{case}: same l_x/l_bd0',
                   1e-9, tol)
    more = m.v_rd_ct_approx2(**{**a, 'l_x': f * a['l_x']})
    prop = m.v_rd_ct_approx2(**{**a, 'f_p_lx': f * a['f_p_lx']})
    core.req_close(more, prop, f'v_rd_ct_approx2{case}: l_x or force',
                   1e-9, tol)


SUBS = [
    make_sub('mc2010', SPECS),
    HOLLOW,
    core.Sub('hollow_relations', s_hollow, run_hollow, 2000, 40000,
             'the prestress has an effect', shards=2),
]
