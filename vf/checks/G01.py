"""G01: rigid transformations preserve geometry and its attributes."""
import math

from hypothesis import strategies as st

from .. import gparts as P
from .. import laws as L
from ..core import Sub, require

RULE = ('surface, point and compound geometries with random attributes and '
        'sequences of 1-6 translate / rotate (radians or degrees, about a '
        'tuple or Point) / mirror operations; oracle: independent coordinate '
        'model; non-trivial: at least two operations, one of them a rotation '
        'or mirror')


def xy(draw):
    return [float(draw(st.one_of(st.integers(-3000, 3000),
                                 L.fl(-3000, 3000)))) for _ in range(2)]


@st.composite
def op(draw):
    k = draw(st.sampled_from(['t', 'r', 'r', 'm']))
    if k == 't':
        d = xy(draw)
        om = draw(st.sampled_from([None, None, 'dx', 'dy', 'both']))
        if om in ('dx', 'both'):
            d[0] = 0.0
        if om in ('dy', 'both'):
            d[1] = 0.0
        return {'k': 't', 'd': d, 'om': om}
    if k == 'r':
        deg = draw(st.booleans())
        a = draw(st.one_of(
            L.fl(-7, 7), st.sampled_from([0.0, math.pi / 2, math.pi,
                                          -math.pi / 2, 2 * math.pi])))
        if deg:
            a = draw(st.one_of(st.just(math.degrees(a)),
                               st.sampled_from([90, -90, 180, 45.0, 360])))
        return {'k': 'r', 'a': a, 'deg': deg,
                'o': draw(st.one_of(st.none(), st.just(xy(draw)))),
                'pt': draw(st.booleans()), 'kw': draw(st.booleans())}
    a = xy(draw)
    th = draw(st.one_of(L.fl(-math.pi, math.pi), st.sampled_from(
        [0.0, math.pi / 2, math.pi, -math.pi / 2])))
    ln = draw(st.sampled_from([1.0, 50.0, 1000.0]))
    return {'k': 'm', 'a': a, 'b': [a[0] + ln * math.cos(th),
                                    a[1] + ln * math.sin(th)]}


@st.composite
def strategy(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    return {'parts': [draw(P.part()) for _ in range(n)],
            'wrap': draw(st.booleans()),
            'ops': [draw(op()) for _ in range(draw(st.integers(1, 6)))]}


def model(o):
    if o['k'] == 't':
        return lambda p: [p[0] + o['d'][0], p[1] + o['d'][1]]
    if o['k'] == 'r':
        a = math.radians(o['a']) if o['deg'] else o['a']
        c, s = math.cos(a), math.sin(a)
        ox, oy = o['o'] or (0.0, 0.0)
        return lambda p: [ox + (p[0] - ox) * c - (p[1] - oy) * s,
                          oy + (p[0] - ox) * s + (p[1] - oy) * c]
    (ax, ay), (bx, by) = o['a'], o['b']
    ln = math.hypot(bx - ax, by - ay)
    ux, uy = (bx - ax) / ln, (by - ay) / ln

    def f(p):
        q = (p[0] - ax) * ux + (p[1] - ay) * uy
        return [2 * (ax + q * ux) - p[0], 2 * (ay + q * uy) - p[1]]
    return f


def apply(g, o):
    from shapely import LineString, Point

    if o['k'] == 't':
        # arguments left out are zero
        return {'dx': lambda: g.translate(dy=o['d'][1]),
                'dy': lambda: g.translate(o['d'][0]),
                'both': lambda: g.translate()}.get(
                    o.get('om'), lambda: g.translate(*o['d']))()
    if o['k'] == 'r':
        kw = {}
        if o['o'] is not None:
            kw['point'] = Point(o['o']) if o['pt'] else tuple(o['o'])
        if o['deg']:
            kw['use_radians'] = False
        elif o['kw']:
            kw['use_radians'] = True
        if o['a'] == 0 and o['kw']:
            return g.rotate(**kw)
        return g.rotate(o['a'], **kw)
    return g.mirror(LineString([o['a'], o['b']]))


def inverse(g, o):
    if o['k'] == 't':
        return g.translate(dx=-o['d'][0], dy=-o['d'][1])
    if o['k'] == 'r':
        return apply(g, dict(o, a=-o['a']))
    return apply(g, o)


def run(case, rec):
    from structuralcodes.geometry import CompoundGeometry

    mats = P.materials()
    parts = case['parts']
    objs = [P.build(p, mats) for p in parts]
    compound = len(objs) > 1 or case['wrap']
    g = CompoundGeometry(objs) if compound else objs[0]

    def verify(g, parts, tol, what):
        if compound:
            P.check_compound(g, parts, mats, tol, what)
            require(isinstance(g, CompoundGeometry), f'{what}: {type(g)}')
        else:
            P.check(g, parts[0], mats, tol, what)

    tol = 1e-9
    chain = [g]
    model_parts = parts
    for i, o in enumerate(case['ops']):
        before = P.snapshot(g)
        new = apply(g, o)
        require(P.snapshot(g) == before, f'step {i} ({o}) changed the '
                'original geometry')
        require(new is not g, f'step {i} ({o}) returned the original object')
        model_parts = [P.tr_part(p, model(o)) for p in model_parts]
        tol += 1e-8
        verify(new, model_parts, tol, f'after step {i} ({o})')
        g = new
        chain.append(g)
    if compound:
        a0 = sum(q.area for q in chain[0].geometries)
        require(abs(g.area - a0) <= 1e-9 * (a0 + 1e3),
                f'area {g.area}, before {a0}')
    for o in reversed(case['ops']):
        g = inverse(g, o)
        tol += 1e-8
    verify(g, parts, tol, 'after undoing all steps')
    rec.label(*{o['k'] for o in case['ops']},
              'compound' if compound else parts[0]['t'])
    rec.nt(len(case['ops']) > 1 and any(o['k'] != 't' for o in case['ops']))


SUBS = [Sub('motions', strategy, run, 3000, 60000,
            'a geometry and a sequence of motions', shards=6)]
