"""G04: reinforcement helpers place exactly the documented bars."""
import math

from hypothesis import strategies as st

from .. import geom as G
from .. import gparts as P
from .. import laws as L
from ..core import Sub, must_raise, require

RULE = ('random lines and arcs, n and/or s, first/last flags, start/stop '
        'angles, on a surface or compound geometry; oracle: independently '
        'computed bar positions; non-trivial: at least three bars expected '
        'or a rejection')
ASSUMPTIONS = [
    'spacings within 1e-9 of an integer fraction of the length may give '
    'either number of bars',
]


@st.composite
def base(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    return {'parts': [draw(P.part(points=i > 0)) for i in range(n)],
            'wrap': draw(st.booleans()),
            'd': draw(st.sampled_from([8.0, 16.0, 25.5])),
            'mat': draw(st.sampled_from(['steel', 'generic'])),
            'group': draw(st.sampled_from([None, 'bars']))}


def make(case, mats):
    from structuralcodes.geometry import CompoundGeometry

    objs = [P.build(p, mats) for p in case['parts']]
    if len(objs) > 1 or case['wrap']:
        return CompoundGeometry(objs)
    return objs[0]


def verify(case, geo, new, expected, what, tol):
    """new = the parts of the case followed by bars at expected positions."""
    mats = case['_mats']
    old = [p for p in case['parts'] if p['t'] == 'point']
    surfs = [p for p in case['parts'] if p['t'] == 'surf']
    if not expected and not hasattr(new, 'geometries'):
        # nothing was added
        require(new is geo, f'{what}: no bars, but another object')
        return
    require(len(new.geometries) == len(surfs),
            f'{what}: {len(new.geometries)} surfaces, expected {len(surfs)}')
    for g, p in zip(new.geometries, surfs):
        P.check_surface(g, p, mats, 0.0, what)
    n = len(new.point_geometries) - len(old)
    require(n == len(expected), f'{what}: {n} bars added, expected '
            f'{len(expected)}')
    for g, p in zip(new.point_geometries, old):
        P.check_point(g, p, mats, 0.0, what)
    for g, e in zip(new.point_geometries[len(old):], expected):
        P.check_point(g, {'p': e, 'd': case['d'], 'mat': case['mat'],
                          'name': None, 'group': case['group']}, mats, tol,
                      what)


def counts(lo=1):
    few = st.integers(lo, 12)
    return st.one_of(few, few, few, few, few, st.integers(13, 80))


def near_fraction(ln):
    """Slightly more or less than an integer fraction of the length."""
    return st.tuples(counts(), st.sampled_from([-1, 1]),
                     L.fl(-7, -0.7)).map(
        lambda v: ln / v[0] * (1 + v[1] * 10 ** v[2]))


# ------------------------------------------------------------------- lines
@st.composite
def line(draw):
    c = draw(base())
    p = [float(draw(st.integers(-1000, 1000))) for _ in range(2)]
    ln = draw(st.one_of(st.integers(50, 2000).map(float),
                        L.fl(1.0, 3000.0)))
    th = draw(st.one_of(L.fl(-math.pi, math.pi),
                        st.sampled_from([0.0, math.pi / 2, math.pi])))
    k = draw(st.sampled_from(['n', 'n', 's', 's', 'ns', 'ns']))
    n = draw(counts()) if 'n' in k else None
    s = None
    if k == 's':
        s = draw(st.one_of(
            counts().map(lambda v: ln / v),
            near_fraction(ln), L.fl(ln / 15, ln * 1.5), st.just(ln)))
    elif k == 'ns':
        s = ln / max(n - 1, 1) * draw(st.sampled_from(
            [0.1, 0.5, 0.9, 0.999, 1.001, 1.5]))
    q = [p[0] + ln * math.cos(th), p[1] + ln * math.sin(th)]
    exact = k == 'ns' and draw(st.integers(0, 3)) == 0
    if exact:
        # fills the whole line, without any round-off
        s = float(draw(st.integers(1, 200)))
        d = draw(st.sampled_from([(1, 0), (0, 1), (-1, 0), (0, -1)]))
        q = [p[0] + d[0] * max(n - 1, 1) * s, p[1] + d[1] * max(n - 1, 1) * s]
    c.update(p=p, q=q, n=n, s=s, exact=exact, first=draw(st.sampled_from([True, True, False])),
             last=draw(st.sampled_from([True, True, False])),
             single=draw(st.integers(0, 9)) == 0)
    return c


def positions(length, n, s):
    """[distances] alternatives; [] when there is no room."""
    if n is not None and s is not None:
        d = (n - 1) * s
        if d > length * (1 + 1e-12):
            return None
        return [[(length - d) / 2 + i * s for i in range(n)]]
    if n is not None:
        if n == 1:
            return [[0.0]]
        return [[length * i / (n - 1) for i in range(n)]]
    res = []
    for k in {math.floor(length / s * (1 + 1e-9)) + 1,
              math.floor(length / s * (1 - 1e-9)) + 1}:
        d = (k - 1) * s
        res.append([(length - d) / 2 + i * s for i in range(k)])
    return res


def kwargs(case):
    kw = {}
    if case['n'] is not None:
        kw['n'] = case['n']
    if case['s'] is not None:
        kw['s'] = case['s']
    if not case['first']:
        kw['first'] = False
    if not case['last']:
        kw['last'] = False
    if case['group'] is not None:
        kw['group_label'] = case['group']
    return kw


def drop(pos, case):
    n = len(pos)
    return [x for i, x in enumerate(pos)
            if not (i == 0 and not case['first'])
            and not (i == n - 1 and not case['last'])]


def try_all(case, geo, new, alts, tol, what):
    from ..core import Violation

    err = None
    for exp in alts:
        try:
            verify(case, geo, new, exp, what, tol)
            return exp
        except Violation as v:
            err = v
    raise err


def run_line(case, rec):
    from structuralcodes.geometry import add_reinforcement, add_reinforcement_line

    mats = case['_mats'] = P.materials()
    geo = make(case, mats)
    before = P.snapshot(geo)
    p, q = case['p'], case['q']
    if case['single']:
        kw = {} if case['group'] is None else {'group_label': case['group']}
        new = add_reinforcement(geo, tuple(p), case['d'], mats[case['mat']],
                                **kw)
        verify(case, geo, new, [p], 'single bar', 1e-12)
        require(P.snapshot(geo) == before, 'the geometry was changed')
        case.pop('_mats')
        rec.label('single')
        return
    length = math.dist(p, q)
    alts = positions(length, case['n'], case['s'])
    if case['n'] and case['s'] and not case.get('exact') and abs(
            (case['n'] - 1) * case['s'] / length - 1) < 1e-9:
        case.pop('_mats')
        return  # fits within round-off only

    def go():
        return add_reinforcement_line(geo, tuple(p), tuple(q), case['d'],
                                      mats[case['mat']], **kwargs(case))

    what = f'line n={case["n"]} s={case["s"]} length={length}'
    if alts is None:
        must_raise(ValueError, go, what)
        rec.label('no-room')
        rec.nt()
    else:
        new = go()
        alts = [[[p[0] + (q[0] - p[0]) * x / length,
                  p[1] + (q[1] - p[1]) * x / length]
                 for x in drop(a, case)] for a in alts]
        exp = try_all(case, geo, new, alts, 1e-6, what)
        rec.label(f'bars{min(len(exp), 5)}')
        rec.nt(len(exp) > 2)
    require(P.snapshot(geo) == before, 'the geometry was changed')
    case.pop('_mats')


# ------------------------------------------------------------------- circles
@st.composite
def circle(draw):
    c = draw(base())
    r = draw(st.one_of(st.integers(50, 1000).map(float), L.fl(10, 2000)))
    whole = draw(st.booleans())
    if whole:
        a0 = draw(st.sampled_from([None, 0.0, 1.0, -math.pi / 2]))
        a1 = None if a0 is None else a0 + 2 * math.pi
    else:
        a0 = draw(L.fl(-7, 7))
        a1 = a0 + draw(st.one_of(
            L.fl(0.05, 6.2), st.sampled_from([math.pi, math.pi / 2]),
            # almost, but not, a whole circle
            L.fl(-2.5, 1.0).map(lambda v: 2 * math.pi - 10 ** v / r)))
    span = 2 * math.pi if a0 is None or whole else a1 - a0
    ln = r * span
    k = draw(st.sampled_from(['n', 'n', 's', 'ns']))
    n = draw(counts()) if 'n' in k else None
    s = None
    if k == 's':
        s = draw(st.one_of(counts(2).map(lambda v: ln / v),
                           near_fraction(ln).filter(lambda v: v < ln),
                           L.fl(ln / 15, ln * 0.99)))
    elif k == 'ns':
        s = ln / max(n - 1, 1) * draw(st.sampled_from(
            [0.1, 0.4, 0.8, 1.001, 1.5]))
    c.update(c=[float(draw(st.integers(-500, 500))) for _ in range(2)], r=r,
             a0=a0, a1=a1, whole=whole, n=n, s=s,
             first=draw(st.sampled_from([True, True, False])),
             last=draw(st.sampled_from([True, True, False])))
    return c


def run_circle(case, rec):
    from structuralcodes.geometry import add_reinforcement_circle

    mats = case['_mats'] = P.materials()
    geo = make(case, mats)
    before = P.snapshot(geo)
    a0 = case['a0'] if case['a0'] is not None else 0.0
    a1 = case['a1'] if case['a1'] is not None else 2 * math.pi
    r, n, s = case['r'], case['n'], case['s']
    if case['whole'] and a1 - a0 > 2 * math.pi:
        a1 = case['a1'] = math.nextafter(a1, 0.0)
        while a1 - a0 > 2 * math.pi:
            a1 = case['a1'] = math.nextafter(a1, -10.0)
    length = r * (a1 - a0)
    whole = case['whole']
    kw = kwargs(case)
    if case['a0'] is not None:
        kw.update(start_angle=a0, stop_angle=a1)

    def go():
        return add_reinforcement_circle(geo, tuple(case['c']), r, case['d'],
                                        mats[case['mat']], **kw)

    what = (f'circle r={r} from {a0} to {a1} n={n} s={s} '
            f'first={case["first"]} last={case["last"]}')
    centre = case['c']

    def at(x):
        return [centre[0] + r * math.cos(a0 + x / r),
                centre[1] + r * math.sin(a0 + x / r)]

    rec.label('whole' if whole else 'arc',
              'n' if s is None else 's' if n is None else 'ns')
    if n is not None and s is not None:
        need = (n if whole else n - 1) * s
        if abs(need / length - 1) < 1e-6:
            case.pop('_mats')
            return
        if need > length and (not whole or (n - 1) * s > length):
            must_raise(ValueError, go, what)
            rec.label('no-room')
            rec.nt()
            require(P.snapshot(geo) == before, 'the geometry was changed')
            case.pop('_mats')
            return
        if need > length:
            case.pop('_mats')
            return  # whole circle: last gap shorter than s, not documented
    new = go()
    if whole and n is not None and s is not None:
        # documented: n bars at spacing s on the circle; where they start
        # is not
        bars = new.point_geometries if hasattr(new, 'point_geometries') else []
        old = sum(p['t'] == 'point' for p in case['parts'])
        bars = bars[old:]
        k = n - (not case['first']) - (not case['last'] and
                                       (n > 1 or case['first']))
        require(len(bars) == k, f'{what}: {len(bars)} bars, expected {k}')
        for b in bars:
            require(abs(math.hypot(b.x - centre[0], b.y - centre[1]) - r)
                    <= 1e-9 * r + 1e-6, f'{what}: bar off the circle')
        for b, c in zip(bars, bars[1:]):
            ch = 2 * r * math.sin(s / r / 2)
            require(abs(math.hypot(b.x - c.x, b.y - c.y) - abs(ch))
                    <= 1e-6 * r, f'{what}: spacing')
        rec.nt(k > 2)
        exp = None
    elif whole and n is not None:
        exp = [[at(length * i / n) for i in range(n)]]
    elif whole:
        exp = []
        for pos in positions(length, None, s):
            gap = abs((len(pos) - 1) * s / length - 1)
            if gap < 1e-5:
                # the last would (almost) coincide with the first
                exp.append([at(x) for x in pos[:-1]])
            if gap > 1e-7:
                exp.append([at(x) for x in pos])
    else:
        exp = [[at(x) for x in a] for a in positions(length, n, s)]
    if exp is not None:
        exp = [drop(e, case) for e in exp]
        e = try_all(case, geo, new, exp, 1e-6 * r, what)
        rec.nt(len(e) > 2)
    require(P.snapshot(geo) == before, 'the geometry was changed')
    case.pop('_mats')


# ------------------------------------------------------------------- rejects
@st.composite
def bad(draw):
    c = draw(base())
    c['k'] = draw(st.sampled_from(['line0', 'circle0', 'neg', 'angle', 'big']))
    c['a0'] = draw(L.fl(-3, 3))
    c['da'] = draw(L.fl(0, 5))
    return c


def run_bad(case, rec):
    from structuralcodes.geometry import (
        add_reinforcement_circle,
        add_reinforcement_line,
    )

    mats = P.materials()
    geo = make(case, mats)
    m = mats[case['mat']]
    k = case['k']
    if k == 'line0':
        def fn():
            return add_reinforcement_line(geo, (0, 0), (100, 50), case['d'], m)
    elif k == 'circle0':
        def fn():
            return add_reinforcement_circle(geo, (0, 0), 100, case['d'], m)
    elif k == 'neg':
        def fn():
            return add_reinforcement_line(geo, (0, 0), (100, 50), case['d'],
                                          m, n=-3, s=-10)
    elif k == 'angle':
        def fn():
            return add_reinforcement_circle(
                geo, (0, 0), 100, case['d'], m, n=4, start_angle=case['a0'],
                stop_angle=case['a0'] - case['da'])
    else:
        def fn():
            return add_reinforcement_circle(
                geo, (0, 0), 100, case['d'], m, n=4, start_angle=case['a0'],
                stop_angle=case['a0'] + 2 * math.pi + 1e-3 + case['da'])
    must_raise(ValueError, fn, k)
    rec.label(k)
    rec.nt()


SUBS = [
    Sub('line', line, run_line, 2500, 40000, 'bars along a line', shards=4),
    Sub('circle', circle, run_circle, 2500, 40000, 'bars along a circle',
        shards=4),
    Sub('rejects', bad, run_bad, 200, 2000, 'contradictory arguments'),
]
