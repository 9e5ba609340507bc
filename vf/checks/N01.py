"""N01: marin_integration gives the area moments of a polygon."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from .. import geom as G
from ..core import Sub, require

RULE = ('simple polygons (convex, star-shaped, T/L/I/U/comb outlines, '
        'triangles) anywhere in the plane, orders m, n with m+n <= 8; '
        'oracle: exact rational line integral of Green\'s theorem along each '
        'edge; non-trivial: more than four vertices or m+n >= 2')
ASSUMPTIONS = ['closed vertex lists (first vertex repeated), as the function '
               'documents closed polygons']


def exact(ring, m, n):
    """(integral, sum of absolute edge terms) with rational arithmetic:
    int x^m y^n dA = 1/(m+1) * closed line integral of x^(m+1) y^n dy."""
    tot, mag = Fraction(0), Fraction(0)
    pts = [(Fraction(x), Fraction(y)) for x, y in ring]
    for (x1, y1), (x2, y2) in zip(pts, pts[1:] + pts[:1]):
        dx, dy = x2 - x1, y2 - y1
        if dy == 0:
            continue
        # x(t)^(m+1) * y(t)^n as polynomial in t
        p = [Fraction(1)]
        for base, slope, k in ((x1, dx, m + 1), (y1, dy, n)):
            for _ in range(k):
                q = [Fraction(0)] * (len(p) + 1)
                for i, c in enumerate(p):
                    q[i] += c * base
                    q[i + 1] += c * slope
                p = q
        s = sum(c / (i + 1) for i, c in enumerate(p)) * dy / (m + 1)
        tot += s
        mag += abs(s)
    return tot, mag


@st.composite
def strategy(draw):
    s = draw(G.surf_spec(holes=False, lo=draw(st.sampled_from([1, 60])),
                         hi=draw(st.sampled_from([70, 900]))))
    m = draw(st.integers(0, 8))
    n = draw(st.integers(0, 8 - m))
    return {'ring': s['outer'], 'm': m, 'n': n,
            'cut': draw(st.integers(1, 30)),
            'start': draw(st.integers(0, 30)),
            'type': draw(st.sampled_from(['list', 'array', 'tuple']))}


def call(ring, m, n, kind='list'):
    import numpy as np

    from structuralcodes.core._marin_integration import marin_integration

    y = [p[0] for p in ring] + [ring[0][0]]
    z = [p[1] for p in ring] + [ring[0][1]]
    conv = {'list': list, 'tuple': tuple,
            'array': lambda v: np.array(v, dtype=float)}[kind]
    return marin_integration(conv(y), conv(z), m, n)


def run(case, rec):
    ring, m, n = case['ring'], case['m'], case['n']
    want, mag = exact(ring, m, n)
    # rounding of the vertex-product form
    big = max(max(abs(x), abs(y)) for x, y in ring)
    r = max(float(mag), len(ring) * big ** (m + n + 2))
    tol = 1e-13 * r
    got = call(ring, m, n, case['type'])
    require(abs(float(got) - float(want)) <= tol,
            f'moment m={m} n={n} of {ring}: {got}, exact {float(want)}')
    rev = call(ring[::-1], m, n)
    require(abs(float(rev) + float(want)) <= tol,
            f'reversed ring: {rev}, expected {-float(want)}')
    k = case['start'] % len(ring)
    sh = call(ring[k:] + ring[:k], m, n)
    require(abs(float(sh) - float(want)) <= tol,
            f'start vertex {k}: {sh}, expected {float(want)}')
    if len(ring) > 3:
        # cut along a diagonal: signed moments add up for any diagonal
        c = 2 + case['cut'] % (len(ring) - 3)
        a = call(ring[:c + 1], m, n)
        b = call(ring[c:] + ring[:1], m, n)
        require(abs(float(a) + float(b) - float(want)) <= tol,
                f'cut 0-{c}: {a} + {b}, expected {float(want)}')
    # relative sharpness of this case
    rec.label(f'order{m + n}', 'sharp' if tol < 1e-6 * abs(float(want))
              else 'cancelling')
    rec.nt((len(ring) > 4 or m + n >= 2) and tol < 1e-6 * abs(float(want)))


SUBS = [Sub('moments', strategy, run, 6000, 150000,
            'one polygon and one pair of orders', shards=4)]
