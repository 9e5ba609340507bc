"""G05: steel profiles report the properties of the polygon they describe."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from ..core import Sub, must_raise, req_close, require

RULE = ('every profile of every family once, plus random profiles with random '
        'sequences of property reads (with repeats, get_polygon calls in '
        'between); oracle: scan-line integrals over the polygon, exact areas '
        'of outlines rounded with the catalogue radii, bisection of the '
        'half-area axis; areas, second moments and masses of the '
        'designations; non-trivial: at least four different properties '
        'read')
ASSUMPTIONS = ['fillets are polygons: areas within 5 % of r^2 per fillet',
               'masses in designations are rounded (0.6 to 3 % by family)']

FAMILIES = ['HD', 'HE', 'HP', 'IPE', 'IPN', 'L', 'LI', 'U', 'UB', 'UBP', 'UC',
            'UPE', 'UPN', 'W']
PROPS = ['A', 'Iy', 'Iz', 'Iyz', 'Icsi', 'Ieta', 'theta', 'Wely', 'Welz',
         'Wply', 'Wplz', 'iy', 'iz']


def family(name):
    from structuralcodes.geometry import profiles

    return getattr(profiles, name)


def cases():
    res = []
    for f in FAMILIES:
        for i, n in enumerate(sorted(family(f).profiles())):
            order = list(PROPS)
            random.Random(f'{n}').shuffle(order)
            res.append({'f': f, 'n': n, 'reads': order + order[:4]})
    return res


@st.composite
def strategy(draw):
    f = draw(st.sampled_from(FAMILIES))
    n = draw(st.sampled_from(sorted(family(f).profiles())))
    return {'f': f, 'n': n, 'reads': draw(st.lists(
        st.sampled_from(PROPS + ['polygon', 'get_polygon', 'other']),
        min_size=1, max_size=20))}


# ----------------------------------------------------------- outline areas
def rounded(points, radii):
    """Area of a polygon (counter-clockwise) whose corners are rounded."""
    n = len(points)
    p = np.array(points, dtype=float)
    q = np.roll(p, -1, axis=0)
    area = 0.5 * float(np.sum(p[:, 0] * q[:, 1] - q[:, 0] * p[:, 1]))
    slack = 0.0
    for i, r in enumerate(radii):
        if not r:
            continue
        a = p[i - 1] - p[i]
        b = p[(i + 1) % n] - p[i]
        c = float(a @ b / np.hypot(*a) / np.hypot(*b))
        phi = math.acos(max(-1.0, min(1.0, c)))
        cut = r * r * (1 / math.tan(phi / 2) - (math.pi - phi) / 2)
        turn = -a[0] * b[1] + a[1] * b[0]
        area += -cut if turn > 0 else cut
        slack += 0.05 * r * r
    return area, slack


def outline(f, par):
    """(area, tolerance, b, h) from the catalogue values."""
    g = par.get
    h, b = g('h'), g('b')
    if f in ('L', 'LI'):
        t = g('t')
        pts = [(0, 0), (b, 0), (b, t), (t, t), (t, h), (0, h)]
        rad = [0, 0, g('r2'), g('r1'), g('r2'), 0]
    elif f in ('UPE', 'U'):
        tw, tf = g('tw'), g('tf')
        if f == 'U':
            return None
        pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, h - tf), (b, h - tf),
               (b, h), (0, h)]
        rad = [0, 0, 0, g('r'), g('r'), 0, 0, 0]
    elif f == 'UPN':
        tw, tf = g('tw'), g('tf')
        s, u = (0.08, b / 2) if h <= 300 else (0.05, (b - tw) / 2)
        e, w = tf - s * u, tf + s * (b - u - tw)
        pts = [(0, 0), (b, 0), (b, e), (tw, w), (tw, h - w), (b, h - e),
               (b, h), (0, h)]
        rad = [0, 0, g('r2'), g('r1'), g('r1'), g('r2'), 0, 0]
    elif f == 'IPN':
        tw, tf = g('tw'), g('tf')
        e, w = tf - b / 4 * 0.14, tf + (b / 4 - tw / 2) * 0.14
        x0, x1 = b / 2 - tw / 2, b / 2 + tw / 2
        pts = [(0, 0), (b, 0), (b, e), (x1, w), (x1, h - w), (b, h - e),
               (b, h), (0, h), (0, h - e), (x0, h - w), (x0, w), (0, e)]
        rad = [0, 0, g('r2'), g('r1'), g('r1'), g('r2'), 0, 0, g('r2'),
               g('r1'), g('r1'), g('r2')]
    else:
        tw, tf, r = g('tw'), g('tf'), g('r')
        x0, x1 = b / 2 - tw / 2, b / 2 + tw / 2
        pts = [(0, 0), (b, 0), (b, tf), (x1, tf), (x1, h - tf), (b, h - tf),
               (b, h), (0, h), (0, h - tf), (x0, h - tf), (x0, tf), (0, tf)]
        rad = [0, 0, 0, r, r, 0, 0, 0, 0, r, r, 0]
    a, s = rounded(pts, rad)
    return a, s


# ----------------------------------------------------------- designations
# areas (cm2) and second moments (cm4) about the strong axis as tabulated in
# EN 10365 and DIN 1025/1026 for the series known by their depth
TABLE = {
    'IPE': """80 7.64 80.1 100 10.3 171 120 13.2 318 140 16.4 541 160 20.1 869
        180 23.9 1317 200 28.5 1943 220 33.4 2772 240 39.1 3892 270 45.9 5790
        300 53.8 8356 330 62.6 11770 360 72.7 16270 400 84.5 23130
        450 98.8 33740 500 116 48200 550 134 67120 600 156 92080""",
    'HEA': """100 21.2 349 120 25.3 606 140 31.4 1033 160 38.8 1673
        180 45.3 2510 200 53.8 3692 220 64.3 5410 240 76.8 7763 260 86.8 10450
        280 97.3 13670 300 112.5 18260 320 124.4 22930 340 133.5 27690
        360 142.8 33090 400 159 45070 450 178 63720 500 197.5 86970
        550 211.8 111900 600 226.5 141200 650 241.6 175200 700 260.5 215300
        800 285.8 303400 900 320.5 422100 1000 346.8 553800""",
    'HEB': """100 26 450 120 34 864 140 43 1509 160 54.3 2492 180 65.3 3831
        200 78.1 5696 220 91 8091 240 106 11260 260 118.4 14920
        280 131.4 19270 300 149.1 25170 320 161.3 30820 340 170.9 36660
        360 180.6 43190 400 197.8 57680 450 218 79890 500 238.6 107200
        550 254.1 136700 600 270 171000 650 286.3 210600 700 306.4 256900
        800 334.2 359100 900 371.3 494100 1000 400 644700""",
    'HEM': """100 53.2 1143 120 66.4 2018 140 80.6 3291 160 97.1 5098
        180 113.3 7483 200 131.3 10640 220 149.4 14600 240 199.6 24290
        260 219.6 31310 280 240.2 39550 300 303.1 59200 320 312 68130
        340 315.8 76370 360 318.8 84870 400 325.8 104100 450 335.4 131500
        500 344.3 161900 550 354.4 198000 600 363.7 237400 650 373.7 281700
        700 383 329300 800 404.3 442600 900 423.6 570400 1000 444.2 722300""",
    'UPN': """50 7.12 26.4 65 9.03 57.5 80 11 106 100 13.5 206 120 17 364
        140 20.4 605 160 24 925 180 28 1350 200 32.2 1910 220 37.4 2690
        240 42.3 3600 260 48.3 4820 280 53.3 6280 300 58.8 8030
        320 75.8 10870 350 77.3 12840 380 80.4 15760 400 91.5 20350""",
    'IPN': """80 7.57 77.8 100 10.6 171 120 14.2 328 140 18.2 573 160 22.8 935
        180 27.9 1450 200 33.4 2140 220 39.5 3060 240 46.1 4250 260 53.3 5740
        280 61 7590 300 69 9800 320 77.7 12510 340 86.7 15700 360 97 19610
        380 107 24010 400 118 29210 450 147 45850 500 179 68740 550 212 99180
        600 254 139000""",
    'UPE': """80 10.1 107 100 12.5 207 120 15.4 364 140 18.4 600 160 21.7 911
        180 25.1 1350 200 29 1910 220 33.9 2680 240 38.5 3600 270 44.8 5250
        300 56.6 7820 330 67.8 11010 360 77.9 14830 400 91.9 20980""",
}
TABLE = {k: {int(d): (float(a), float(i)) for d, a, i in zip(
    *[iter(v.split())] * 3)} for k, v in TABLE.items()}
# families named by their mass per metre, which is a rounded value
MASS = {'HD': 0.006, 'HP': 0.015, 'UB': 0.022, 'UBP': 0.03, 'UC': 0.028,
        'W': 0.028}


def designation(f, n, par, ref):
    """The polygon is the section the name stands for."""
    d = n.lstrip('ABCDEHILMNPUW')
    if f in MASS:
        m = float(d.split('x')[-1].rstrip('#'))
        req_close(ref['A'] * 7.85e-3, m, f'{n}: mass per metre', MASS[f])
        for g in MASS:
            other = family(g).parameters.get(g + d)
            require(other is None or other == par,
                    f'{n}: {par}, but {g + d}: {other}')
    elif f in ('L', 'LI', 'U'):
        dims = [float(v) for v in d.split('x')]
        have = [par['h'], par['b']] + ([] if f == 'U' else [par['t']])
        require(dims == have, f'{n}: {have}')
    else:
        k = n.rstrip('0123456789')
        a, i = TABLE[k][int(n[len(k):])]
        req_close(ref['A'] / 1e2, a, f'{n}: area in cm2', 5e-3)
        req_close(ref['Iy'] / 1e4, i, f'{n}: second moment in cm4', 5e-3)


# ----------------------------------------------------------- polygon reference
def reference(poly):
    ring = [list(p) for p in poly.exterior.coords[:-1]]
    s = {'outer': ring, 'holes': [list(map(list, r.coords[:-1]))
                                  for r in poly.interiors]}
    A, Sx, Sy, Ixx, Ixy, Iyy = G.area_moments(s)
    xs = [p[0] for p in ring]
    ys = [p[1] for p in ring]
    d = {'A': A, 'Iy': Iyy, 'Iz': Ixx, 'Iyz': Ixy,
         'iy': math.sqrt(Iyy / A), 'iz': math.sqrt(Ixx / A),
         'Wely': Iyy / max(map(abs, ys)), 'Welz': Ixx / max(map(abs, xs))}
    m, h = (Iyy + Ixx) / 2, math.hypot((Iyy - Ixx) / 2, Ixy)
    d['Icsi'], d['Ieta'] = m + h, m - h
    for key, k, ext in (('Wply', (0.0, 1.0, 0.0), ys),
                        ('Wplz', (0.0, 0.0, -1.0), xs)):
        lo, hi = min(ext), max(ext)
        # strain = the coordinate; area below a level
        f = lambda c: G.scan(s, k, lambda e: 1.0 if e < c else 0.0, [c])[0]  # noqa: E731,E501
        for _ in range(45):
            c = (lo + hi) / 2
            if f(c)[0] < A / 2:
                lo = c
            else:
                hi = c
        c = (lo + hi) / 2
        o, t, g = G.scan(s, k, lambda e: abs(e - c), [c])
        d[key] = o[0]
    d['S'] = (Sx, Sy)
    d['bounds'] = (min(xs), min(ys), max(xs), max(ys))
    return d


_ref = {}


def run(case, rec):
    f, n = case['f'], case['n']
    cls = family(f)
    obj = cls(n)
    poly = obj.polygon
    wkb = poly.wkb
    require(poly.geom_type == 'Polygon' and poly.is_valid,
            f'{n}: polygon {poly.geom_type} valid={poly.is_valid}')
    require(poly.exterior.is_ccw, f'{n}: the polygon is not ccw')
    key = (f, n, wkb)
    if key not in _ref:
        _ref[key] = reference(poly)
    ref = _ref[key]
    par = cls.parameters[n]
    # shape
    x0, y0, x1, y1 = ref['bounds']
    tol = 2e-3 * max(par['h'], 1) if f == 'U' else 1e-6
    h, b = par['h'], par['b']
    if f == 'LI':
        h, b = max(h, b), min(h, b)
        H, B = max(x1 - x0, y1 - y0), min(x1 - x0, y1 - y0)
    else:
        H, B = y1 - y0, x1 - x0
    # rounded toes shorten nothing: flat faces remain on every side
    req_close(H, h, f'{n}: depth of the polygon', 0, tol)
    req_close(B, b, f'{n}: width of the polygon', 0, tol)
    designation(f, n, par, ref)
    for a in ('h', 'b', 'tw', 'tf', 't', 'r', 'r1', 'r2'):
        if a in par and hasattr(type(obj), a):
            require(getattr(obj, a) == par[a],
                    f'{n}: {a} = {getattr(obj, a)}, catalogue {par[a]}')
    o = outline(f, par)
    if o is not None:
        req_close(ref['A'], o[0], f'{n}: area against the outline', 1e-6,
                  o[1])
    # centroid at the origin
    for v, w in zip(ref['S'], 'yz'):
        require(abs(v) <= 1e-6 * ref['A'] * h, f'{n}: centroid {w} = '
                f'{v / ref["A"]}')
    # reads
    size = {'Iyz': ref['Icsi'] * 1e-9}
    for r in case['reads']:
        if r == 'polygon':
            require(obj.polygon.wkb == wkb, f'{n}: polygon changed')
            continue
        if r == 'get_polygon':
            p = cls.get_polygon(n)
            require(p.equals_exact(poly, 1e-9), f'{n}: get_polygon differs')
            continue
        if r == 'other':
            q = cls(n)
            require(q.polygon.wkb == wkb, f'{n}: a new object differs')
            continue
        v = getattr(obj, r)
        require(not isinstance(v, complex) and math.isfinite(v),
                f'{n}.{r} = {v}')
        if r == 'theta':
            require(abs(v) <= math.pi / 2 + 1e-9, f'{n}: theta {v}')
            c, s = math.cos(v), math.sin(v)
            i = ref['Iy'] * c * c + ref['Iz'] * s * s \
                - 2 * ref['Iyz'] * s * c
            req_close(i, ref['Icsi'], f'{n}: second moment about the axis at '
                      f'theta = {v}', 1e-9)
        else:
            req_close(v, ref[r], f'{n}.{r} after {case["reads"]}', 1e-7,
                      size.get(r, 0.0))
    require(obj.polygon.wkb == wkb, f'{n}: reading properties changed the '
            'polygon')
    rec.label(f)
    rec.nt(len(set(case['reads'])) >= 4)


# ----------------------------------------------------------- names
@st.composite
def names(draw):
    f = draw(st.sampled_from(FAMILIES))
    n = draw(st.sampled_from(sorted(family(f).profiles())))
    k = draw(st.sampled_from(['junk', 'lower', 'suffix', 'other', 'number']))
    return {'f': f, 'n': n, 'k': k, 'g': draw(st.sampled_from(FAMILIES)),
            'v': draw(st.integers(1, 2000)),
            'txt': draw(st.text(max_size=8))}


def run_names(case, rec):
    cls = family(case['f'])
    known = set(cls.profiles())
    rec.label(case['k'])
    if case['k'] == 'number':
        # families named by a single number accept it
        tail = case['n'][len(case['f']):]
        if case['f'] not in ('IPE', 'IPN', 'UPN', 'UPE') or \
                not tail.isdigit():
            return
        v = int(tail)
        for x in (v, float(v)):
            require(cls(x).polygon.equals(cls(case['n']).polygon),
                    f'{case["f"]}({x!r})')
            require(cls.get_polygon(x).equals(cls(case['n']).polygon),
                    f'{case["f"]}.get_polygon({x!r})')
        if f'{case["f"]}{case["v"]}' not in known:
            must_raise(ValueError, lambda: cls(case['v']),
                       f'{case["f"]}({case["v"]})')
        rec.nt()
        return
    name = {'junk': case['txt'], 'lower': case['n'].lower(),
            'suffix': case['n'] + 'z',
            'other': sorted(family(case['g']).profiles())[0]}[case['k']]
    if name in known:
        return
    must_raise(ValueError, lambda: cls(name), f'{case["f"]}({name!r})')
    must_raise(ValueError, lambda: cls.get_polygon(name),
               f'{case["f"]}.get_polygon({name!r})')
    rec.nt()


SUBS = [
    Sub('catalogue', None, run, 0, 0, 'every profile once', shards=8,
        enumerate_cases=cases),
    Sub('orders', strategy, run, 800, 8000, 'random reading orders', shards=6),
    Sub('names', names, run_names, 500, 5000, 'unknown and numeric names'),
]
