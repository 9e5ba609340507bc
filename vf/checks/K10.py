"""fib Model Code 2010 punching."""
import math
import warnings

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, RULE, make_sub, near, num  # noqa: F401

ASSUMPTIONS = [
    'sizes, strengths, moduli and partial factors are positive; the moment '
    'is not below the decompression moment',
    'the eccentricity is given as a magnitude for edge columns with '
    'reinforcement parallel to the edge and for corner columns',
    'exactly one or none of the column positions is chosen',
]


def m_ed(v_ed, e_u, b_s, inner, edge_par, edge_per, corner):
    if inner:
        return v_ed * (1 / 8 + abs(e_u) / (2 * b_s))
    if edge_par:
        return max(v_ed * (1 / 8 + abs(e_u) / (2 * b_s)), v_ed / 4)
    if edge_per:
        return v_ed * (1 / 8 + e_u / b_s)
    if corner:
        return max(v_ed * (1 / 8 + abs(e_u) / b_s), v_ed / 2)
    raise Bad


def b_s(l_x, l_y):
    return min(1.5 * 0.22 * math.sqrt(l_x * l_y), l_x, l_y)


def r_s(l_x, l_y, x_direction, is_level_three_approximation=False,
        column_edge_or_corner=False, b_sr=None):
    r = 0.22 * (l_x if x_direction else l_y)
    if is_level_three_approximation and column_edge_or_corner:
        if b_sr is None:
            raise Bad
        return max(r, 0.67 * b_sr)
    return r


def psi2(r_s, f_yd, d_eff, e_s, m_ed, m_rd, m_Pd=0):
    # the strategy gives m_ed and m_rd relative to m_Pd
    if m_ed < m_Pd or m_rd <= m_Pd:
        raise core.Reject
    return (1.5 * r_s * f_yd / d_eff / e_s
            * ((m_ed - m_Pd) / (m_rd - m_Pd)) ** 1.5)


def psi(psi_punching_level_one, psi_punching_level_two,
        psi_punching_level_three, approx_lvl_p):
    t = {1: psi_punching_level_one, 2: psi_punching_level_two,
         3: psi_punching_level_three}
    if approx_lvl_p not in t:
        raise Bad
    return t[approx_lvl_p]


def sigma_swd(e_s, psi_punching, alpha, f_bd, d_eff, f_ywd, phi_w):
    a = math.radians(alpha)
    return min(f_ywd, e_s * psi_punching / 6 * (math.sin(a) + math.cos(a))
               * (math.sin(a) + f_bd / f_ywd * d_eff / phi_w))


def v_rds(f_ywd, e_u, b_u, alpha, sigma_swd, a_sw, v_ed):
    return (a_sw * sigma_swd * math.sin(math.radians(alpha))
            / (1 + e_u / b_u))


def v_rd_max(d_v, f_ck, d_head, stirrups_compression, b0_val, k_psi_val,
             gamma_c=1.5):
    k = 2.8 if d_head else 2.4 if stirrups_compression else 2.0
    return min(1.0, k * k_psi_val) * b0_val * d_v * math.sqrt(f_ck) / gamma_c


class M(F):
    """One column position."""

    def strategy(self):
        def fix(t):
            case, p = t
            for i, k in enumerate(('inner', 'edge_par', 'edge_per',
                                   'corner')):
                case['a'][k] = i == p
            if p in (1, 3):
                case['a']['e_u'] = abs(case['a']['e_u'])
            return case
        return st.tuples(super().strategy(), st.sampled_from(
            [0, 1, 2, 3, 1, 3, 4])).map(fix)


class P2(F):
    def strategy(self):
        def fix(t):
            case, a, b = t
            p = case['a'].get('m_Pd', 0)
            case['a']['m_rd'] = p + a
            case['a']['m_ed'] = p + a * b
            return case
        return st.tuples(super().strategy(), num(10, 1e6, log=True),
                         num(0, 3, 0, 1)).map(fix)


class Warn(F):
    """v_rds_punching warns about little deformation capacity."""

    def strategy(self):
        # shear forces next to the limit of the warning
        def fix(t):
            case, r = t
            a = case['a']
            if r is not None:
                a['v_ed'] = r * 2 * a['a_sw'] * a['f_ywd'] / (
                    1 + a['e_u'] / a['b_u'])
            return case
        return st.tuples(super().strategy(), st.one_of(
            st.none(), num(0.8, 1.2, 1, ints=False))).map(fix)

    def call(self, fn, vals, pos):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = super().call(fn, vals, pos)
        lhs = vals['a_sw'] * vals['f_ywd'] / (1 + vals['e_u'] / vals['b_u'])
        near(lhs, 0.5 * vals['v_ed'])
        n = sum(issubclass(x.category, UserWarning) for x in w)
        core.require((n > 0) == (lhs < 0.5 * vals['v_ed']),
                     f'{self.name}: {n} warnings for a_sw k_e f_ywd = {lhs} '
                     f'and V_Ed = {vals["v_ed"]}')
        return r


FCK = num(12, 120)
L = num(500, 20000, 1000, 5000)
ES = num(180000, 220000, 200000)
FYD = num(200, 700, 435)
D = num(50, 1500)
PSI = num(0, 0.2, 0, 0.01, ints=False)
B = st.booleans()
GC = num(1, 2, 1.5, 1)

SPECS = [
    F('b_0', {'v_ed': num(0, 1e7, 0), 'v_prep_d_max': num(1e-3, 1e4)},
      lambda v_ed, v_prep_d_max: v_ed / v_prep_d_max),
    F('b_s', {'l_x': L, 'l_y': L}, b_s, weight=2),
    M('m_ed', {'v_ed': num(0, 1e7), 'e_u': num(-3000, 3000, 0),
               'b_s': num(50, 5000), 'inner': B, 'edge_par': B,
               'edge_per': B, 'corner': B}, m_ed, weight=4),
    F('b_sr', {'l_x': L, 'l_y': L}, lambda l_x, l_y: min(l_x, l_y)),
    F('r_s', {'l_x': L, 'l_y': L, 'x_direction': B,
              'is_level_three_approximation': B, 'column_edge_or_corner': B,
              'b_sr': L}, r_s,
      opt=['is_level_three_approximation', 'column_edge_or_corner', 'b_sr'],
      weight=3),
    F('psi_punching_level_one', {'l_x': L, 'l_y': L, 'f_yd': FYD,
                                 'd_eff': D, 'e_s': ES},
      lambda l_x, l_y, f_yd, d_eff, e_s:
      1.5 * 0.22 * max(l_x, l_y) * f_yd / d_eff / e_s, weight=2),
    P2('psi_punching_level_two', {
        'r_s': num(50, 5000), 'f_yd': FYD, 'd_eff': D, 'e_s': ES,
        'm_ed': st.just(0.0), 'm_rd': st.just(1.0), 'm_Pd': num(0, 1e5, 0)},
       psi2, opt=['m_Pd'], rtol=1e-8, weight=2),
    F('psi_punching_level_three', {
        'psi_punching_level_two': PSI, 'is_uncracked_model': B,
        'is_moment_from_uncracked_model': B},
      lambda psi_punching_level_two, is_uncracked_model=False,
      is_moment_from_uncracked_model=False: psi_punching_level_two * (
          0.8 if is_uncracked_model and is_moment_from_uncracked_model
          else 1), opt=['is_uncracked_model',
                        'is_moment_from_uncracked_model']),
    F('psi_punching', {'psi_punching_level_one': PSI,
                       'psi_punching_level_two': PSI,
                       'psi_punching_level_three': PSI,
                       'approx_lvl_p': st.sampled_from(
                           [1, 2, 3, 1, 2, 3, 0, 4])}, psi),
    F('k_dg', {'d_g': num(0, 64, 16, 26.666666666666668, 32)},
      lambda d_g: max(0.75, 32 / (16 + d_g))),
    F('k_psi', {'k_dg': num(0.75, 2, ints=False), 'd_eff': D,
                'psi_punching': PSI},
      lambda k_dg, d_eff, psi_punching:
      min(0.6, 1 / (1.5 + 0.9 * k_dg * d_eff * psi_punching)), weight=2),
    F('v_rdc_punching', {'k_psi_val': num(0, 0.6, ints=False),
                         'b_0': num(100, 20000), 'd_v': D, 'f_ck': FCK,
                         'gamma_c': GC},
      lambda k_psi_val, b_0, d_v, f_ck, gamma_c=1.5:
      k_psi_val * math.sqrt(f_ck) / gamma_c * b_0 * d_v, opt=['gamma_c'],
      weight=2),
    F('f_ywd', {'f_ywk': num(200, 700), 'gamma_s': num(1, 1.5, 1.15)},
      lambda f_ywk, gamma_s: f_ywk / gamma_s,
      mod='mc2010._concrete_punching'),
    F('sigma_swd', {'e_s': ES, 'psi_punching': st.one_of(
        PSI, num(0, 0.01, ints=False)), 'alpha': num(20, 120, 45, 90),
        'f_bd': num(0.5, 8), 'd_eff': D, 'f_ywd': FYD,
        'phi_w': num(4, 40)}, sigma_swd, atol=1e-9, weight=3),
    Warn('v_rds_punching', {
        'f_ywd': FYD, 'e_u': num(0, 1000, 0), 'b_u': num(100, 5000),
        'alpha': num(20, 120, 45, 90), 'sigma_swd': num(0, 700),
        'a_sw': num(50, 50000, log=True), 'v_ed': num(0, 1e7, log=False)},
         v_rds, weight=3),
    F('v_rd_max_punching', {
        'd_v': D, 'f_ck': FCK, 'd_head': B, 'stirrups_compression': B,
        'b0_val': num(100, 20000), 'k_psi_val': num(0, 0.6, 0.5, ints=False),
        'gamma_c': GC}, v_rd_max, opt=['gamma_c'], weight=3),
    F('v_rd_punching', {'v_rd_c': num(0, 1e7), 'v_rd_s': num(0, 1e7),
                        'v_rd_max': num(0, 1e7)},
      lambda v_rd_c, v_rd_s, v_rd_max: min(v_rd_c + v_rd_s, v_rd_max)),
]

SUBS = [make_sub('mc2010', SPECS)]
