"""EN 1992-1-1:2004 Section 7.3 crack control, EN 1992-3 restraint."""
import math

from hypothesis import strategies as st

from .. import core
from ..formula import Bad, F, cased, make_sub, near, num, RULE  # noqa: F401

ASSUMPTIONS = [
    'inputs that make the formula divide by zero are not generated',
    'between the lines and columns of Tables 7.2N and 7.3N values are '
    'accepted when they are piecewise linear (either diagonal of a cell); '
    'cells with an empty corner may be in or out of scope inside the cell',
]


def bad_if(c, exc=ValueError):
    if c:
        raise Bad(exc)


def nz(*xs):
    if any(x == 0 for x in xs):
        raise core.Reject


# ------------------------------------------------------------ references
def w_max(exposure_class, load_combination):
    lc = load_combination.strip().lower()
    ec = exposure_class.strip().upper()
    low = ('X0', 'XC1')
    mid = ('XC2', 'XC3', 'XC4')
    if lc == 'f' and ec in low + mid:
        return 0.2
    if lc == 'qp' and ec in low:
        return 0.4
    if lc == 'qp' and ec in mid + ('XD1', 'XD2', 'XS1', 'XS2', 'XS3'):
        return 0.3
    raise Bad


def As_min(A_ct, sigma_s, fct_eff, k, kc):
    bad_if(k < 0.65 or k > 1 or kc < 0 or kc > 1 or A_ct < 0 or sigma_s < 0)
    nz(kc, sigma_s)
    bad_if(A_ct == 0)
    return kc * k * abs(fct_eff) * A_ct / sigma_s


def k(h):
    bad_if(h < 0)
    if h <= 300:
        return 1.0
    if h >= 800:
        return 0.65
    return 1 - 0.35 * (h - 300) / 500


def kc_rect(h, b, fct_eff, N_ed):
    bad_if(h < 0 or b < 0)
    nz(h, b)
    hs = h if h < 1000 else 1000
    k1 = 1.5 if N_ed >= 0 else 2 * hs / (3 * h)
    sc = N_ed * 1e3 / (b * h)
    v = 0.4 * (1 - sc / (k1 * (h / hs) * fct_eff))
    return min(1.0, max(0.0, v))


def kc_fl(f_cr, A_ct, fct_eff):
    bad_if(A_ct < 0)
    nz(A_ct)
    return max(0.5, 0.9 * abs(f_cr) * 1e3 / (A_ct * fct_eff))


def xi1(xi, phi_p, phi_s):
    bad_if(phi_p < 0 or phi_s < 0 or xi < 0.15 or xi > 0.8)
    bad_if(phi_p == 0)
    if phi_s == 0:
        return math.sqrt(xi)
    return math.sqrt(xi * phi_s / phi_p)


def hc_eff(h, d, x):
    bad_if(h < 0 or d < 0 or x < 0 or d > h or x > h)
    return min(2.5 * (h - d), (h - x) / 3, h / 2)


def As_min_p(A_ct, sigma_s, fct_eff, k, kc, Ap, phi_s, phi_p, xi, delta_s):
    bad_if(delta_s < 0 or Ap < 0)
    e1 = xi1(xi, phi_p, phi_s)
    bad_if(k < 0.65 or k > 1 or kc < 0 or kc > 1 or A_ct <= 0 or sigma_s < 0)
    nz(kc, sigma_s)
    return (kc * k * abs(fct_eff) * A_ct - e1 * Ap * delta_s) / sigma_s


def alpha_e(Es, Ecm):
    bad_if(Es < 0 or Ecm < 0)
    nz(Ecm)
    return Es / Ecm


def rho_p_eff(As, xi1, Ap, Ac_eff):
    bad_if(As < 0 or xi1 < 0 or Ap < 0 or Ac_eff < 0)
    nz(Ac_eff)
    return (As + xi1 ** 2 * Ap) / Ac_eff


def kt(load_type):
    bad_if(not isinstance(load_type, str), TypeError)
    s = load_type.strip().lower()
    bad_if(s not in ('short', 'long'))
    return {'short': 0.6, 'long': 0.4}[s]


def esm_ecm(sigma_s, alpha_e, rho_p_eff, kt, fct_eff, Es):
    bad_if(min(sigma_s, alpha_e, rho_p_eff, fct_eff, Es) < 0
           or kt not in (0.4, 0.6))
    nz(rho_p_eff, Es)
    a = sigma_s / Es - kt * fct_eff * (1 + alpha_e * rho_p_eff) / (
        rho_p_eff * Es)
    return max(a, 0.6 * sigma_s / Es)


def w_spacing(c, phi):
    bad_if(c < 0 or phi < 0)
    return 5 * c + 2.5 * phi


def phi_eq(n1, n2, phi1, phi2):
    bad_if(not isinstance(n1, int) or not isinstance(n2, int),
           (TypeError, ValueError))
    bad_if(n1 < 0 or n2 < 0 or phi1 < 0 or phi2 < 0)
    nz(n1 * phi1 + n2 * phi2)
    return (n1 * phi1 ** 2 + n2 * phi2 ** 2) / (n1 * phi1 + n2 * phi2)


def k1(bond_type):
    bad_if(not isinstance(bond_type, str), TypeError)
    s = bond_type.strip().lower()
    bad_if(s not in ('bond', 'plain'))
    return {'bond': 0.8, 'plain': 1.6}[s]


def k2(eps_r):
    bad_if(eps_r < 0 or eps_r > 1)
    return 0.5 + eps_r / 2


def sr_close(c, phi, rho_p_eff, k1, k2, k3=None, k4=None):
    k3 = 3.4 if k3 is None else k3
    k4 = 0.425 if k4 is None else k4
    bad_if(min(c, phi, rho_p_eff, k3, k4) < 0 or k1 not in (0.8, 1.6)
           or k2 < 0.5 or k2 > 1)
    nz(rho_p_eff)
    return k3 * c + k1 * k2 * k4 * phi / rho_p_eff


def sr_far(h, x):
    bad_if(x < 0 or h < 0 or x > h)
    return 1.3 * (h - x)


def sr_theta(sr_max_y, sr_max_z, theta):
    bad_if(sr_max_y < 0 or sr_max_z < 0 or theta < 0 or theta > math.pi / 2)
    nz(sr_max_y, sr_max_z)
    return 1 / (math.cos(theta) / sr_max_y + math.sin(theta) / sr_max_z)


def wk(sr_max, eps_sm_eps_cm):
    bad_if(sr_max < 0 or eps_sm_eps_cm < 0)
    return sr_max * eps_sm_eps_cm


def restraint(alpha_e, rho_p_eff, kc, k, fct_eff, Es):
    return (0.5 * alpha_e * kc * k * fct_eff / Es
            * (1 + 1 / (alpha_e * rho_p_eff)))


# ------------------------------------------------------- Tables 7.2N, 7.3N
WS = (0.4, 0.3, 0.2)
T72 = {160: (40, 32, 25), 200: (32, 25, 16), 240: (20, 16, 12),
       280: (16, 12, 8), 320: (12, 10, 6), 360: (10, 8, 5), 400: (8, 6, 4),
       450: (6, 5, None)}
T73 = {160: (300, 300, 200), 200: (300, 250, 150), 240: (250, 200, 100),
       280: (200, 150, 50), 320: (150, 100, None), 360: (100, 50, None)}


def table_range(tab, s, w):
    """(low, high, sure): admissible values, or None if out of scope."""
    ss = sorted(tab)
    if s < ss[0] or s > ss[-1] or w < WS[-1] or w > WS[0]:
        return None
    cells = []
    for i in range(len(ss) - 1):
        for j in range(2):
            if ss[i] <= s <= ss[i + 1] and WS[j + 1] <= w <= WS[j]:
                cells.append((i, j))
    i, j = cells[0]
    u = (s - ss[i]) / (ss[i + 1] - ss[i])
    v = (WS[j] - w) / (WS[j] - WS[j + 1])
    a, b = tab[ss[i]][j], tab[ss[i + 1]][j]
    c, d = tab[ss[i]][j + 1], tab[ss[i + 1]][j + 1]
    # on a grid line only the values of that line matter
    if v in (0, 1):
        p, q = (a, b) if v == 0 else (c, d)
        if u in (0, 1):
            x = q if u else p
            return (x, x, True) if x is not None else None
        if p is None or q is None:
            return None
        x = p + u * (q - p)
        return x, x, True
    if u in (0, 1):
        p, q = (a, c) if u == 0 else (b, d)
        if p is None or q is None:
            return None
        x = p + v * (q - p)
        return x, x, True
    out, sure = [], True
    # the two triangulations of the cell
    for tri in (1, 2):
        if tri == 1:  # diagonal b-c
            need = (a, b, c) if u + v <= 1 else (b, c, d)
            if None in need:
                sure = False
                continue
            x = (a + u * (b - a) + v * (c - a) if u + v <= 1
                 else d + (1 - u) * (c - d) + (1 - v) * (b - d))
        else:  # diagonal a-d
            need = (a, b, d) if u >= v else (a, c, d)
            if None in need:
                sure = False
                continue
            x = (a + u * (b - a) + v * (d - b) if u >= v
                 else a + v * (c - a) + u * (d - c))
        out.append(x)
    if not out:
        return None
    return min(out), max(out), sure


def s_table():
    @st.composite
    def s(draw):
        wk_ = draw(st.one_of(
            st.sampled_from([0.4, 0.3, 0.2, 0.4, 0.3, 0.2, 0.25, 0.35]),
            num(0.15, 0.45, 0.2, 0.3, 0.4, ints=False), num(-0.1, 1, 0)))
        c = {'wk': wk_,
             'sigma_s': draw(st.one_of(
                 st.sampled_from(sorted(T72)), num(150, 460, *sorted(T72)),
                 num(-100, 700, 0))),
             'fct_eff': draw(num(-1, 6, 0, 2.9)),
             'h_cr': draw(num(-50, 2000, 0)),
             'h': draw(num(50, 2000)), 'd': draw(num(-50, 2000, 0))}
        k = draw(st.integers(0, 3))
        if k == 0:
            c['delta_s'] = draw(num(-50, 300, 0))
        if k == 1:
            c['delta_s'] = draw(st.sampled_from([0, 40, 80, 120]))
        if draw(st.booleans()):
            c['kc'] = draw(st.one_of(num(-0.2, 1.3, 0, 1), st.none()))
        if draw(st.integers(0, 8)) == 0:
            c['h'] = -c['h']
        return c
    return s()


def run_table(case, rec):
    from structuralcodes.codes.ec2_2004 import As_min_2

    what = f'As_min_2({case})'
    a = dict(case)
    a.setdefault('delta_s', 0)
    kc = a.get('kc')
    s = a['sigma_s'] - a['delta_s']
    bad = min(a['wk'], a['fct_eff'], a['h_cr'], a['h'], a['d']) < 0 or (
        kc is not None and (kc < 0 or kc > 1))
    if bad:
        rec.label('rejects')
        rec.nt()
        core.must_raise(ValueError, lambda: As_min_2(**case), what)
        return
    if s <= 0:
        rec.label('no stress')
        got = As_min_2(**case)
        core.require(tuple(got) == (0, 0), f'{what}: {got}')
        return
    if a['h'] - a['d'] <= 1e-6 * abs(a['h']):
        raise core.Reject
    for m in sorted(T72):
        if s != m:
            near(s, m, 1e-7)
    for m in WS:
        if a['wk'] != m:
            near(a['wk'], m, 1e-7)
    rp, rs = table_range(T72, s, a['wk']), table_range(T73, s, a['wk'])
    if rp is None or rs is None:
        rec.label('out of scope')
        rec.nt()
        core.must_raise(ValueError, lambda: As_min_2(**case), what)
        return
    try:
        got = As_min_2(**case)
    except ValueError:
        core.require(not (rp[2] and rs[2]), f'{what}: rejected')
        rec.label('empty corner')
        return
    f = a['fct_eff'] / 2.9 * a['h_cr'] / (a['h'] - a['d'])
    f = f / 8 if kc is None else f * kc / 2
    core.require(len(got) == 2, f'{what}: {got}')
    for g, (lo, hi, _), name in ((got[0], (rp[0] * f, rp[1] * f, 0),
                                  'diameter'), (got[1], rs, 'spacing')):
        g = float(g)
        tol = 1e-9 * max(abs(lo), abs(hi))
        core.require(lo - tol <= g <= hi + tol,
                     f'{what}: {name} {g}, expected {lo} to {hi}')
    rec.label('line' if rs[0] == rs[1] else 'cell')
    rec.nt(got[0] != 0)


ACT = num(-1e4, 1e6, 0)
SIG = num(-50, 600, 0)
FCT = num(0.5, 6, 2.9)
K_ = st.one_of(num(0.65, 1), num(0.4, 1.2, 0.65, 1))
KC = st.one_of(num(0.01, 1), num(-0.2, 1.3, 0, 1))
RHO = st.one_of(num(1e-4, 0.1, ints=False), num(-0.01, 0.1, 0, ints=False))
KT = st.one_of(st.sampled_from([0.6, 0.4]),
               st.sampled_from([0.6, 0.4, 0.5, 0, 1, -0.6]))
XI = st.one_of(num(0.15, 0.8), num(0, 1, 0.15, 0.8))
EXPO = st.one_of(
    cased('X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2',
          'XS3', pad=True),
    st.sampled_from(['XD3', 'XF1', '', 'XC5', 'XC', 'dummy', 'XA1', 'X1',
                     'XS4', 'XC0']))

SPECS = [
    F('w_max', {'exposure_class': EXPO, 'load_combination': st.one_of(
        cased('f', 'qp', pad=True),
        cased('f', 'qp'), st.sampled_from(['', 'r', 'q', 'fqp', 'rare']))},
      w_max, weight=2),
    F('As_min', {'A_ct': ACT, 'sigma_s': SIG, 'fct_eff': num(-6, 6, 2.9),
                 'k': K_, 'kc': KC}, As_min, weight=2),
    F('k', {'h': num(-100, 2000, 0, 300, 800)}, k, weight=2),
    F('kc_tension', {}, lambda: 1),
    F('kc_rect_area', {'h': num(-50, 2500, 0, 1000), 'b': num(-50, 2000, 0),
                       'fct_eff': FCT, 'N_ed': num(-5000, 5000, 0)},
      kc_rect, atol=1e-12, weight=3),
    F('kc_flanges_area', {'f_cr': num(-3000, 3000, 0), 'A_ct': ACT,
                          'fct_eff': FCT}, kc_fl),
    F('xi1', {'xi': XI, 'phi_p': num(-5, 60, 0), 'phi_s': num(-5, 60, 0)},
      xi1, weight=2),
    F('hc_eff', {'h': num(-50, 1500, 0), 'd': num(-50, 1500, 0),
                 'x': num(-50, 1500, 0)}, hc_eff, weight=3),
    F('As_min_p', {'A_ct': ACT, 'sigma_s': SIG, 'fct_eff': num(-6, 6, 2.9),
                   'k': K_, 'kc': KC, 'Ap': num(-10, 5000, 0),
                   'phi_s': num(-2, 40, 0), 'phi_p': num(-2, 40, 0),
                   'xi': XI, 'delta_s': num(-10, 500, 0)},
      As_min_p, atol=1e-9, weight=4),
    F('alpha_e', {'Es': num(-1e4, 3e5, 0), 'Ecm': num(-1e4, 6e4, 0)},
      alpha_e),
    F('rho_p_eff', {'As': num(-100, 1e4, 0), 'xi1': num(-0.1, 2, 0),
                    'Ap': num(-100, 1e4, 0), 'Ac_eff': num(-100, 1e6, 0)},
      rho_p_eff),
    F('kt', {'load_type': st.one_of(
        cased('short', 'long', pad=True),
        st.sampled_from(['', 'medium', 'shortlong', None, 1, 0.6]))}, kt),
    F('eps_sm_eps_cm', {'sigma_s': num(-20, 600, 0),
                        'alpha_e': num(-1, 20, 0), 'rho_p_eff': RHO,
                        'kt': KT, 'fct_eff': num(-0.5, 6, 0),
                        'Es': num(-1e3, 2.1e5, 2e5)},
      esm_ecm, atol=1e-15, weight=4),
    F('w_spacing', {'c': num(-10, 100, 0), 'phi': num(-5, 40, 0)}, w_spacing),
    F('phi_eq', {'n1': st.one_of(st.integers(-2, 12), st.sampled_from(
        [1.5, 2.0])), 'n2': st.one_of(st.integers(-2, 12), st.sampled_from(
            [1.5, 2.0])), 'phi1': num(-5, 40, 0), 'phi2': num(-5, 40, 0)},
      phi_eq, weight=2),
    F('k1', {'bond_type': st.one_of(
        cased('bond', 'plain', pad=True),
        st.sampled_from(['', 'good', 'bondplain', None, 0.8, 1]))}, k1),
    F('k2', {'eps_r': num(-0.2, 1.2, 0, 1)}, k2),
    F('k3', {}, lambda: 3.4),
    F('k4', {}, lambda: 0.425),
    F('sr_max_close', {'c': num(-5, 100, 0), 'phi': num(-2, 40, 0),
                       'rho_p_eff': RHO, 'k1': st.one_of(
                           st.sampled_from([0.8, 1.6]), st.sampled_from(
                               [0.8, 1.6, 1.0, 0, 0.81])),
                       'k2': st.one_of(num(0.5, 1), num(0.3, 1.2, 0.5, 1)),
                       'k3': st.one_of(num(-1, 5, 0, 3.4), st.none()),
                       'k4': st.one_of(num(-.1, 1, 0, 0.425), st.none())},
      sr_close, opt=['k3', 'k4'], weight=4),
    F('sr_max_far', {'h': num(-50, 1500, 0), 'x': num(-50, 1500, 0)}, sr_far),
    F('sr_max_theta', {'sr_max_y': num(-50, 800), 'sr_max_z': num(-50, 800),
                       'theta': num(-0.3, 2, 0, math.pi / 2, math.pi / 4)},
      sr_theta, weight=2),
    F('wk', {'sr_max': num(-20, 800, 0),
             'eps_sm_eps_cm': num(-1e-3, 5e-3, 0, ints=False)}, wk),
    F('eps_sm_eps_cm_restraint_end',
      {'alpha_e': num(3, 20), 'rho_p_eff': num(1e-3, 0.1, ints=False),
       'kc': num(0.1, 1), 'k': num(0.65, 1), 'fct_eff': FCT,
       'Es': num(1e5, 2.2e5)}, restraint),
]

SUBS = [
    make_sub('ec2_2004', SPECS),
    core.Sub('tables', s_table, run_table, 6000, 100000,
             'table value compared, out-of-scope or invalid input rejected',
             shards=4),
]
