"""Table-driven checks of code formulas against independent references.

A spec F names a public function of a design code, gives a strategy for every
argument (including values outside of the documented domain), and a reference
implementation written from the code text.  The reference raises Bad where
the documentation promises an exception.
"""
import copy
import importlib
import math

import numpy as np
from hypothesis import strategies as st

from . import core


class Bad(Exception):
    """The documentation excludes this input."""

    def __init__(self, exc=ValueError):
        super().__init__(exc)
        self.exc = exc


def near(a, b, rtol=1e-9, atol=1e-12):
    """Reject cases where a computed quantity is at a discontinuity."""
    if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
        raise core.Reject


def _r(x, n=6):
    return float(f'{x:.{n}g}')


def num(lo, hi, *marks, ints=True, log=False):
    """Numbers in [lo, hi] with marks, their neighbours and integers."""
    lo, hi = float(lo), float(hi)
    scale = max(abs(lo), abs(hi))

    def inside(x):
        # no denormals: nearly zero relative to the range becomes zero
        return lo <= x <= hi and (x == 0 or abs(x) > 1e-13 * scale)

    alts = []
    if log:
        a, b = math.log10(lo), math.log10(hi)
        alts.append(st.floats(a, b).map(lambda e: _r(10.0 ** e))
                    .filter(inside))
    else:
        alts.append(st.floats(lo, hi).map(_r).filter(inside))
    alts.append(alts[0])
    if ints and math.floor(hi) >= math.ceil(lo):
        alts.append(st.integers(math.ceil(lo), math.floor(hi)))
    pts = []
    for m in list(marks) + [lo, hi]:
        m = float(m)
        d = abs(m) if m else scale
        up, dn = math.nextafter(m, math.inf), math.nextafter(m, -math.inf)
        if m == 0:
            up, dn = 1e-12 * scale, -1e-12 * scale
        for x in (m, m, m, up, dn, m + d * 1e-6, m - d * 1e-6,
                  m + d * 1e-2, m - d * 1e-2):
            if inside(x):
                pts.append(int(x) if ints and x == int(x) and len(pts) % 3 == 0
                           else x)
    if pts:
        alts.append(st.sampled_from(pts))
    return st.one_of(alts)


def cased(*names, pad=False):
    """The names in any letter case."""
    def mix(t):
        s, k = t
        s = ''.join(c.upper() if (k >> i) & 1 else c.lower()
                    for i, c in enumerate(s))
        return s

    base = st.tuples(st.sampled_from(names), st.integers(0, 2 ** 12)).map(mix)
    if pad:
        return st.one_of(base, base.map(lambda s: ' ' + s + '  '))
    return base


class F:
    """Spec of one function."""

    def __init__(self, name, args, ref, arrays=(), opt=(), mod=None,
                 rtol=1e-9, atol=0.0, kwonly=(), npscalar=True, cmp=None,
                 forms=('list', 'np', '2d', 'tuple'), weight=1):
        self.name = name
        self.args = args
        self.ref = ref
        self.arrays = tuple(arrays)
        self.opt = tuple(opt)
        self.mod = mod
        self.rtol = rtol
        self.atol = atol
        self.kwonly = set(kwonly)
        self.npscalar = npscalar
        self.cmp = cmp
        self.forms = forms
        self.weight = weight

    # ------------------------------------------------------------- cases
    def strategy(self):
        @st.composite
        def s(draw):
            case = {'f': self.name, 'a': {}}
            omit = set()
            for o in self.opt:
                if draw(st.integers(0, 2)) == 0:
                    omit.add(o)
            arr = []
            n = 0
            if self.arrays and draw(st.booleans()):
                arr = [a for a in self.arrays if a not in omit
                       and draw(st.booleans())]
                n = draw(st.integers(1, 5))
            for a, strat in self.args.items():
                if a in omit:
                    continue
                if a in arr:
                    case['a'][a] = draw(
                        st.lists(strat, min_size=n, max_size=n))
                else:
                    case['a'][a] = draw(strat)
            if arr:
                case['arr'] = arr
                case['form'] = draw(st.sampled_from(self.forms))
            # how many of the leading arguments are passed by position
            case['pos'] = draw(st.sampled_from([0, 0, 99, 99, 1, 2]))
            if self.npscalar and not arr:
                case['np'] = draw(st.integers(0, 4)) == 0
            return case

        return s()

    def func(self, default):
        mod = importlib.import_module(
            'structuralcodes.codes.' + (self.mod or default))
        f = getattr(mod, self.name, None)
        if f is None:
            core.fail(f'{mod.__name__}.{self.name} does not exist')
        return f

    # --------------------------------------------------------------- call
    def _actual(self, case):
        arr = case.get('arr', [])
        out = {}
        for a, v in case['a'].items():
            if a in arr:
                form = case['form']
                if form == 'np':
                    v = np.array(v)
                elif form == '2d':
                    v = np.array([v, v])
                elif form == 'tuple':
                    v = tuple(v)
                else:
                    v = list(v)
            elif case.get('np') and isinstance(v, float):
                v = np.float64(v)
            out[a] = v
        return out

    def call(self, fn, vals, pos):
        names = list(self.args)
        args, kw, ok = [], {}, True
        for i, a in enumerate(names):
            if a not in vals:
                ok = False
                continue
            if ok and i < pos and a not in self.kwonly:
                args.append(vals[a])
            else:
                ok = False
                kw[a] = vals[a]
        return fn(*args, **kw)

    def expected(self, case):
        """Reference value(s): scalar case -> value, array -> list."""
        arr = case.get('arr', [])
        if not arr:
            return self.ref(**copy.deepcopy(case['a']))
        n = len(case['a'][arr[0]])
        out = []
        for i in range(n):
            a = {k: (v[i] if k in arr else v) for k, v in case['a'].items()}
            out.append(self.ref(**a))
        return out

    def run(self, case, rec, default):
        fn = self.func(default)
        arr = case.get('arr', [])
        what = f'{self.name}({_show(case)})'
        rec.label(self.name)
        try:
            exp = self.expected(case)
        except Bad as b:
            rec.label(self.name + ':rejects')
            rec.nt()
            core.must_raise(
                b.exc, lambda: self.call(fn, self._actual(case), case['pos']),
                what)
            return
        except (ZeroDivisionError, OverflowError):
            raise core.Reject from None
        vals = self._actual(case)
        before = copy.deepcopy(vals)
        got = self.call(fn, vals, case['pos'])
        for k, v in vals.items():
            core.require(_same(v, before[k]),
                         f'{what}: argument {k} modified to {v!r}')
        keep = copy.deepcopy(got)
        if isinstance(got, dict):
            for k in list(got):
                got[k] = None  # a returned dict belongs to the caller
        elif isinstance(got, np.ndarray) and got.flags.writeable \
                and got.ndim > 0:
            shared = [k for k, v in vals.items()
                      if isinstance(v, np.ndarray)
                      and np.shares_memory(v, got)]
            if not shared:
                got[...] = 0
        again = self.call(fn, before, case['pos'])
        if not arr:
            self._compare(keep, exp, what)
            self._compare(again, exp, what + ' (second call)')
            if _nontrivial(exp):
                rec.nt()
            return
        rec.label(self.name + ':array')
        for g in (keep, again):
            core.require(not isinstance(g, (list, tuple)) or True, '')
            g = np.asarray(g)
            rows = [g]
            if case['form'] == '2d':
                core.require(g.shape == (2, len(exp)),
                             f'{what}: shape {g.shape} for a '
                             f'(2, {len(exp)}) argument')
                rows = [g[0], g[1]]
            for row in rows:
                core.require(row.shape == (len(exp),),
                             f'{what}: shape {row.shape} for {len(exp)} '
                             'values')
                for i, (x, e) in enumerate(zip(row, exp)):
                    self._compare(x, e, f'{what}[{i}]')
        if any(_nontrivial(e) for e in exp):
            rec.nt()

    def _compare(self, got, exp, what):
        if self.cmp is not None:
            self.cmp(got, exp, what)
            return
        compare(got, exp, what, self.rtol, self.atol)


def compare(got, exp, what, rtol=1e-9, atol=0.0):
    if isinstance(exp, dict):
        core.require(isinstance(got, dict) and set(got) == set(exp),
                     f'{what}: got {got!r}, expected {exp!r}')
        for k in exp:
            compare(got[k], exp[k], f'{what}[{k!r}]', rtol, atol)
    elif isinstance(exp, (tuple, list)):
        core.require(np.ndim(got) >= 1 and len(got) == len(exp),
                     f'{what}: got {got!r}, expected {exp!r}')
        for i, e in enumerate(exp):
            compare(got[i], e, f'{what}[{i}]', rtol, atol)
    elif exp is None or isinstance(exp, (str, bool)):
        core.require(got == exp and type(got) is type(exp)
                     or isinstance(exp, bool) and isinstance(got, np.bool_)
                     and bool(got) == exp,
                     f'{what}: got {got!r}, expected {exp!r}')
    elif isinstance(exp, float) and math.isnan(exp):
        core.require(math.isnan(float(got)), f'{what}: got {got!r}, not nan')
    else:
        if np.size(got) != 1 or got is None:
            core.fail(f'{what}: got {got!r}, expected {exp!r}')
        if isinstance(got, np.ndarray):
            core.require(got.ndim == 0, f'{what}: got array {got!r}')
        core.req_close(got, exp, what, rtol, atol)


def _nontrivial(e):
    if isinstance(e, dict):
        return any(_nontrivial(v) for v in e.values())
    if isinstance(e, (tuple, list)):
        return any(_nontrivial(v) for v in e)
    if isinstance(e, (int, float)):
        return math.isfinite(e) and e != 0
    return e is not None


def _same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(
            np.all(a == b))
    return type(a) is type(b) and a == b


def _show(case):
    s = ', '.join(f'{k}={v!r}' for k, v in case['a'].items())
    if case.get('form'):
        s += f' as {case["form"]}'
    return s[:400]


RULE = ('the call returned a finite non-zero value that was compared with '
        'the independent formula, or an input the documentation excludes was '
        'rejected')


def make_sub(code, specs, quick=60000, thorough=1200000, name='values',
             shards=8):
    table = {f.name: f for f in specs}
    assert len(table) == len(specs)

    def strategy():
        alts = []
        for f in specs:
            alts += [f.strategy()] * f.weight
        return st.one_of(alts)

    def run(case, rec):
        table[case['f']].run(case, rec, code)

    return core.Sub(name, strategy, run, quick, thorough, RULE,
                    shards=shards)


def cell_range(xs, ys, tab, x, y):
    """Range of piecewise linear interpolation in a rectangular table.

    tab[i][j] belongs to (xs[i], ys[j]).  Exact on grid lines; inside of a
    cell the two possible diagonals give the range.  None if out of scope.
    """
    if x < xs[0] or x > xs[-1] or y < ys[0] or y > ys[-1]:
        return None
    i = max(k for k in range(len(xs) - 1) if xs[k] <= x)
    j = max(k for k in range(len(ys) - 1) if ys[k] <= y)
    u = (x - xs[i]) / (xs[i + 1] - xs[i])
    v = (y - ys[j]) / (ys[j + 1] - ys[j])
    a, b = tab[i][j], tab[i + 1][j]
    c, d = tab[i][j + 1], tab[i + 1][j + 1]
    r = [a + u * (b - a) + v * (c - a) if u + v <= 1
         else d + (1 - u) * (c - d) + (1 - v) * (b - d),
         a + u * (b - a) + v * (d - b) if u >= v
         else a + v * (c - a) + u * (d - c)]
    return min(r), max(r)


def enum_sub(code, specs, calls, name='tables', shards=1):
    """Finite part of the domain: calls is a list of (function, arguments)."""
    table = {f.name: f for f in specs}

    def cases():
        return [{'f': f, 'a': a, 'pos': 0, 'np': False} for f, a in calls()]

    def run(case, rec):
        table[case['f']].run(case, rec, code)

    return core.Sub(name, None, run, 0, 0, RULE, shards=shards,
                    enumerate_cases=cases)
