"""S12: section calculations do not depend on earlier calls."""
import dataclasses
import math
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from .. import sects as S
from ..core import Sub, fail, require
from .S03 import angles

RULE = ('sequences of 2-6 public calls on two sections that share geometry '
        'and materials, with invalid arguments, loads that cannot be carried '
        'and faults (exceptions, interrupts) injected into the k-th '
        'evaluation of a law; oracle: the same call on a fresh section '
        '(marin), on a fresh section after at most two of the earlier calls '
        '(fibre, whose mesh is made by the first call) and close to the one '
        'on a fresh section; non-trivial: at least two calls return numbers')
ASSUMPTIONS = [
    'helper methods that take a geometry (find_equilibrium_*, '
    'get_balanced_failure_strain) are not called',
    'fibre meshes of copies in another position differ: the comparison with '
    'a fresh section allows for 10 % of the acting forces',
]


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


def frac():
    return st.one_of(L.fl(0.05, 0.95), st.sampled_from([0.0, 1.0, -0.5,
                                                        1.7]))


@st.composite
def op(draw):
    k = draw(st.sampled_from(
        ['strength', 'strength', 'strength', 'mc', 'mc', 'integ', 'integ',
         'modulus', 'nm', 'nmm', 'mm', 'inverse', 'inverse', 'limit', 'nmin',
         'nmax', 'check', 'gross', 'cracked', 'transform']))
    o = {'op': k, 'sec': draw(st.sampled_from([0, 0, 0, 1]))}
    if k in ('strength', 'mc', 'nm', 'cracked', 'transform'):
        o['theta'] = draw(angles())
    if k in ('strength', 'mc', 'mm', 'check'):
        o['f'] = draw(frac())
    if k == 'mc':
        o['chi'] = draw(st.sampled_from([None, 'list', 'array']))
    if k in ('integ', 'modulus', 'inverse'):
        o['plane'] = [draw(L.fl(-1, 1)) for _ in range(3)]
        o['as'] = draw(st.sampled_from(['list', 'array', 'tuple']))
        o['scale'] = draw(st.sampled_from([1e-4, 1e-3, 1e-3, 1e-2]))
    if k == 'inverse':
        o['kw'] = draw(st.sampled_from([{}, {'initial': True}, {
            'max_iter': 1}, {'tol': 1e-9, 'max_iter': 30}]))
    if k in ('nm', 'nmm'):
        o['n'] = draw(st.sampled_from([None, 5, 12]))
        o['complete'] = draw(st.booleans())
        o['bad'] = draw(st.sampled_from([None, None, 'type']))
    if k in ('nmm', 'mm'):
        o['nt'] = draw(st.integers(2, 4))
    if draw(st.integers(0, 6)) == 0:
        o['fault'] = [draw(st.integers(0, 1)),
                      draw(st.one_of(st.integers(1, 6),
                                     st.integers(1, 120))),
                      draw(st.booleans())]
    if draw(st.integers(0, 9)) == 0 and k in ('integ', 'modulus'):
        o['bad'] = True
    return o


@st.composite
def strategy(draw, integ='marin'):
    s = draw(st.one_of(S.rc(), S.rc(), S.steel(), S.src(), S.rc2(),
                       S.mixed()))
    if len(s['surfs']) and draw(st.integers(0, 7)) == 0:
        s = dict(s, bars=[])
    return {'sec': s, 'integ': integ,
            'mesh': draw(st.sampled_from([None, 0.02, 0.05])),
            'mesh2': draw(st.sampled_from([None, 0.05, 0.1])),
            'ops': draw(st.lists(op(), min_size=2, max_size=6)),
            'spoil': draw(st.booleans())}


class Setup:
    """Two sections on the same geometry and materials."""

    def __init__(self, case):
        spec = case['sec']
        self.mats = [G.material(m) for m in spec['mats']]
        self.geo = G.geometry(spec, self.mats)
        self.secs = [G.section(spec, case['integ'], m, self.geo)
                     for m in (case['mesh'], case['mesh2'])]


def numbers(x):
    """Nested results as a flat list of numbers and texts."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        res = []
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            if f.name != 'section' and not hasattr(v, 'geometry'):
                res += numbers(v)
        return res
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in numbers(x[k])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in numbers(y)]
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.ravel()]
    if isinstance(x, (int, float, np.number, bool)):
        return [float(x)]
    if x is None or isinstance(x, str):
        return [str(x)]
    return [type(x).__name__]


class Args:
    """Arguments of a call that are compared after it."""

    def __init__(self):
        self.list = []

    def __call__(self, v, how):
        v = {'list': list, 'tuple': tuple, 'array': np.array}[how](v)
        self.list.append((v, [float(x) for x in v]))
        return v

    def check(self, o):
        for v, b in self.list:
            require([float(x) for x in v] == b,
                    f'{o} modified its argument: {b} -> {v}')


def perform(setup, o, info, spoil=False):
    """Result of the call as a list of numbers or ('exc', type)."""
    from structuralcodes.sections import calculate_elastic_cracked_properties

    sec = setup.secs[o['sec']]
    c = sec.section_calculator
    args = Args()
    k = o['op']
    n = None
    if 'f' in o:
        n = info['lo'] + o['f'] * (info['hi'] - info['lo'])
    if 'plane' in o:
        r, d = info['size']
        p = [o['plane'][0] * o['scale'], o['plane'][1] * o['scale'] / d,
             o['plane'][2] * o['scale'] / d]
        p[0] += p[2] * info['mid'][0] - p[1] * info['mid'][1]
    if 'fault' in o:
        arm(setup, o['fault'])
    try:
        if k == 'strength':
            res = c.calculate_bending_strength(o['theta'], n)
        elif k == 'mc':
            kw = {'num_pre_yield': 3, 'num_post_yield': 2}
            if o['chi'] is not None:
                d = info['size'][1]
                kw = {'chi': args([-1e-3 / d, -2e-3 / d], o['chi'])}
            res = c.calculate_moment_curvature(o['theta'], n, **kw)
        elif k == 'integ':
            res = c.integrate_strain_profile(
                args(p, o['as']), 'strain' if o.get('bad') else 'stress')
        elif k == 'modulus':
            res = c.integrate_strain_profile(
                args(p, o['as']), 'E' if o.get('bad') else 'modulus')
        elif k == 'inverse':
            res = c.calculate_strain_profile(*info['loads'](p), **o['kw'])
        elif k == 'nm':
            res = c.calculate_nm_interaction_domain(
                o['theta'], num=o['n'], complete_domain=o['complete'],
                **({'type_3': 'cubic'} if o['bad'] else {}))
        elif k == 'nmm':
            res = c.calculate_nmm_interaction_domain(
                o['nt'], num=o['n'], num_3=3, num_4=2,
                **({'type_4': 'cubic'} if o['bad'] else {}))
        elif k == 'mm':
            res = c.calculate_mm_interaction_domain(n, o['nt'])
        elif k == 'limit':
            res = c.calculate_limit_axial_load()
        elif k == 'nmin':
            res = c.n_min
        elif k == 'nmax':
            res = c.n_max
        elif k == 'check':
            res = c.check_axial_load(n)
        elif k == 'gross':
            res = sec.gross_properties
        elif k == 'cracked':
            res = calculate_elastic_cracked_properties(sec, o['theta'])
        elif k == 'transform':
            g = setup.geo.rotate(o['theta']).translate(10, -20)
            res = [*g.calculate_extents(), g.area]
        out = numbers(res)
        if spoil and k != 'gross':
            spoiled(res)
    except (Boom, Interrupt) as e:
        out = ['exc', type(e).__name__]
    except Exception as e:  # compared with that of the fresh section
        out = ['exc', type(e).__name__]
    finally:
        if 'fault' in o:
            disarm(setup)
    args.check(o)
    return out


def spoiled(res):
    """The caller may do what he wants with the arrays he got."""
    vals = res if isinstance(res, (list, tuple)) else (
        [res] if isinstance(res, np.ndarray) else
        [getattr(res, f.name) for f in dataclasses.fields(res)]
        if dataclasses.is_dataclass(res) else [])
    for v in vals:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 7.5


def arm(setup, fault):
    """The k-th evaluation of the law of a material raises."""
    which, k, interrupt = fault
    mat = setup.mats[which % len(setup.mats)]
    count = [0]
    law = mat.constitutive_law
    exc = Interrupt if interrupt else Boom

    def wrap(fn):
        def inner(*a, **kw):
            count[0] += 1
            if count[0] == k:
                raise exc('fault')
            return fn(*a, **kw)
        return inner

    for name in ('get_stress', 'get_tangent', '__marin__',
                 '__marin_tangent__'):
        if hasattr(law, name):
            object.__setattr__(law, name, wrap(getattr(law, name)))


def disarm(setup):
    for mat in setup.mats:
        for name in ('get_stress', 'get_tangent', '__marin__',
                     '__marin_tangent__'):
            mat.constitutive_law.__dict__.pop(name, None)


def snapshot(setup):
    """What is visible of the geometry and the materials."""
    res = []
    for g in setup.geo.geometries:
        res.append((g.polygon.wkb, g.name, g.group_label, g.concrete,
                    id(g.material), g.density))
    for p in setup.geo.point_geometries:
        res.append((p.x, p.y, p.diameter, p.area, p.name, p.group_label,
                    id(p.material)))
    e = np.linspace(-6e-3, 8e-3, 29)
    for m in setup.mats:
        law = m.constitutive_law
        res.append((m.density, m.name, np.asarray(law.get_stress(e)).tobytes(),
                    np.asarray(law.get_tangent(e)).tobytes(),
                    pickle.dumps(law.get_ultimate_strain())))
    return res


def same(a, b, rtol, small=0.0):
    if len(a) != len(b):
        return f'{len(a)} values instead of {len(b)}'
    num = [abs(v) for v in b if isinstance(v, float) and math.isfinite(v)]
    scale = max(num, default=0.0)
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return f'{x!r} instead of {y!r}'
        elif not (abs(x - y) <= rtol * abs(y) + 1e-12 * scale + small
                  or (math.isnan(x) and math.isnan(y)) or x == y):
            return f'value {i}: {x!r} instead of {y!r}'
    return None


def run(case, rec):
    spec = case['sec']
    s0 = Setup(case)
    fresh = s0.secs[0].section_calculator
    lo, hi = (float(v) for v in fresh.calculate_limit_axial_load())
    x0, x1, y0, y1 = G.extents(spec)

    def loads(p):
        # from exact integrals: the same for every mesh
        return [float(v) for v in G.resultants(spec, p)]

    info = {'lo': lo, 'hi': hi, 'size': G.size(spec), 'loads': loads,
            'mid': ((x0 + x1) / 2, (y0 + y1) / 2)}
    setup = Setup(case)
    before = snapshot(setup)
    fib = case['integ'] == 'fiber'
    good = 0
    for i, o in enumerate(case['ops']):
        got = perform(setup, o, info, case['spoil'])
        # strains of a zero load: only round-off
        small = 1e-15 if o['op'] == 'inverse' else 0.0
        # a call interrupted by a fault is only a disturbance
        if 'fault' not in o:
            ref = perform(Setup(case), o, info)
            if not fib:
                d = same(got, ref, 1e-9, small)
                require(d is None, f'call {i} ({o}) after '
                        f'{case["ops"][:i]} gives {d} of a fresh section')
            elif same(got, ref, 1e-6, small) is not None and i > 2:
                prev = case['ops'][:i]
                subs = [(q,) for q in prev] + [
                    (q, w) for k, q in enumerate(prev) for w in prev[k + 1:]]
                for sub in subs:
                    if len(sub) == i and i > 1:
                        continue
                    s = Setup(case)
                    for q in sub:
                        perform(s, q, info)
                    if same(got, perform(s, o, info), 1e-6,
                            small) is None:
                        break
                else:
                    fail(f'call {i} ({o}) after {case["ops"][:i]} gives '
                         f'{same(got, ref, 1e-6, small)} of a fresh section, and '
                         'differs from the same call after any one or two of '
                         'the previous calls')
                rec.label('other mesh')
            if fib and not o.get('bad') and (case['mesh2'] if o['sec'] else
                                           case['mesh']) in (None, 0.02):
                near(got, ref, o)
            if got[:1] != ['exc'] and o['op'] != 'transform':
                good += 1
        rec.label(o['op'], 'raised' if got[:1] == ['exc'] else 'returned')
        require(snapshot(setup) == before,
                f'call {i} ({o}) modifies the geometry or the materials')
    rec.nt(good >= 2)


def near(got, ref, o):
    """Roughly the numbers of the fresh section whatever the mesh."""
    if 'exc' in (got[:1] + ref[:1]):
        require(got[:1] == ref[:1] or o['op'] in ('strength', 'mc', 'mm',
                                                   'check', 'inverse'),
                f'{o}: {got[:3]} instead of {ref[:3]}')
        return
    parts = {'integ': [slice(0, 1), slice(1, 3)],
             'strength': [slice(2, 4)]}.get(o['op'], [])
    for q in parts:
        sc = max(abs(v) for v in ref[q]) + 1e-9
        rough = max(abs(x - y) for x, y in zip(got[q], ref[q])) / sc
        require(rough < 0.1 or sc < 1e3, f'{o}: {got} instead of {ref}')


SUBS = [
    Sub('marin', lambda: strategy(), run, 450, 9000, 'two results',
        shards=6),
    Sub('fiber', lambda: strategy('fiber'), run, 220, 5000, 'two results',
        shards=6),
]
