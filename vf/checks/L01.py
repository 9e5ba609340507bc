"""L01: laws give the documented stress at every strain."""
from hypothesis import strategies as st

from .. import laws as L
from ..core import Sub, req_close, require

RULE = ('random law parameters and strains (break points, neighbourhoods of '
        'break points, interior and far strains over-represented); '
        'non-trivial: the strain is strictly inside a branch with non-zero '
        'stress or within 1e-4 of a branch limit')
ASSUMPTIONS = ['strains within 1e-6 + 1e-5*|limit| of an ultimate limit may '
               'be treated as the limit (documented snapping)']


def strategy(kind):
    @st.composite
    def s(draw):
        spec = draw(kind)
        return {'law': spec,
                'eps': [draw(L.strain_for(spec)) for _ in range(6)]}
    return s


def run(case, rec):
    spec = case['law']
    law = L.build(spec)
    sc = L.scale(spec)
    rec.label(spec['t'])
    for e in case['eps']:
        if L.far(spec, e):
            continue
        if spec['t'] == 'ud' and spec.get('eps_u') is not None:
            lo, hi = L.ult(spec)
            if not lo <= e <= hi:
                continue
        got = law.get_stress(e)
        opts = L.stress_options(spec, e)
        tol = 1e-12 * sc + 1e-9 * max(abs(o) for o in opts)
        require(not isinstance(got, complex) and
                any(abs(float(got) - o) <= tol for o in opts),
                lambda: f'stress of {spec} at {e!r}: got {got!r}, '
                        f'expected one of {opts}')
        if spec['t'] in ('pr', 'bl', 'sargin', 'pop'):
            require(float(got) <= 1e-9 * sc,
                    f'{spec} carries tension {got!r} at {e!r}')
        d = min([abs(e - b) for b in L.breaks(spec)] + [1.0])
        rec.nt(opts[0] != 0 or d < 1e-4)
        if len(opts) > 1:
            rec.label('snap-zone')
        elif d < 1e-9:
            rec.label('at-break')
        elif opts[0] == 0:
            rec.label('zero-stress')
        else:
            rec.label('interior')


def sub(name, kind, q):
    return Sub(name, strategy(kind), run, q, q * 20,
               'law of this type, six strains', shards=1)


# constructor: (class, required, [(optional, documented default, key)], name)
CTORS = {
    'ep': ('ElasticPlastic', ['E', 'fy'],
           [('Eh', 0.0, 'Eh'), ('eps_su', None, 'eps_su')]),
    'pr': ('ParabolaRectangle', ['fc'],
           [('eps_0', -0.002, 'eps_0'), ('eps_u', -0.0035, 'eps_u'),
            ('n', 2.0, 'n')]),
    'bl': ('BilinearCompression', ['fc', 'eps_c', 'eps_cu'], []),
    'sargin': ('Sargin', ['fc'],
               [('eps_c1', -0.0023, 'eps_c1'), ('eps_cu1', -0.0035,
                                                 'eps_cu1'),
                ('k', 2.04, 'k')]),
    'pop': ('Popovics', ['fc'],
            [('eps_c', -0.002, 'eps_c'), ('eps_cu', -0.0035, 'eps_cu'),
             ('Ec', None, 'Ec')]),
    'elastic': ('Elastic', ['E'], []),
}


@st.composite
def s_ctor(draw):
    spec = draw(st.one_of(L.ep(), L.pr(), L.bl(), L.sargin(), L.pop(),
                          L.elastic(with_eps_u=False)))
    opts = CTORS[spec['t']][2]
    keep = draw(st.integers(0, len(opts)))
    mode = draw(st.sampled_from(['positional', 'keyword', 'none']))
    if mode == 'none':
        keep = 0
    full = dict(spec)
    drop = []
    for i, (arg, default, key) in enumerate(opts):
        if mode == 'keyword' and not draw(st.booleans()) or (
                mode != 'keyword' and i >= keep):
            drop.append(arg)
            full[key] = default
    name = draw(st.sampled_from([None, 'my law']))
    e = [draw(L.strain_for(full)) for _ in range(4)]
    return {'law': full, 'drop': drop, 'mode': mode, 'eps': e, 'name': name}


def sargin_ok(spec):
    """No pole of the formula, and no tension, between zero and eps_cu1."""
    h = abs(spec['eps_cu1'] / spec['eps_c1'])
    return 1 + (spec['k'] - 2) * h > 1e-3 and h <= spec['k']


def run_ctor(case, rec):
    """Arguments by position or keyword, documented defaults, name."""
    from structuralcodes.materials import constitutive_laws as cl

    spec = case['law']
    cname, req, opts = CTORS[spec['t']]
    # peak strain beyond the ultimate one: not a documented use
    if spec['t'] in ('pr', 'sargin', 'pop'):
        k = {'pr': ('eps_0', 'eps_u'), 'sargin': ('eps_c1', 'eps_cu1'),
             'pop': ('eps_c', 'eps_cu')}[spec['t']]
        if abs(spec[k[0]]) > abs(spec[k[1]]):
            return
    if spec['t'] == 'pop' and (spec['Ec'] or 5000 * abs(spec['fc']) ** 0.5) \
            < 1.02 * abs(spec['fc'] / spec['eps_c']):
        return  # the modulus must exceed the secant modulus at the peak
    if spec['t'] == 'sargin' and not sargin_ok(spec):
        return
    args = [spec[k] for k in req]
    kw = {}
    for a, _, key in opts:
        if a in case['drop']:
            continue
        if case['mode'] == 'positional':
            args.append(spec[key])
        else:
            kw[a] = spec[key]
    if case['name'] is not None:
        kw['name'] = case['name']
    law = getattr(cl, cname)(*args, **kw)
    want = case['name'] or f'{cname}Law'
    require(law.name == want, f'name of {cname}: {law.name!r}, not {want!r}')
    sc = L.scale(spec)
    for e in case['eps']:
        got = float(law.get_stress(e))
        o = L.stress_options(spec, e)
        require(any(abs(got - w) <= 1e-12 * sc + 1e-9 * max(map(abs, o))
                    for w in o),
                lambda: f'{cname}(*{args}, **{kw}): stress at {e!r} is '
                        f'{got!r}, expected one of {o}')
        rec.nt(o[0] != 0)
    got = law.get_ultimate_strain()
    w = L.ult(spec)
    require(all(abs(float(a) - b) <= 1e-12 * abs(b) for a, b in zip(got, w)),
            f'{cname}(*{args}, **{kw}): limits {got}, expected {w}')
    rec.label(spec['t'], case['mode'], 'defaults' if case['drop'] else 'all')


SUBS = [
    Sub('constructor', s_ctor, run_ctor, 1500, 30000,
        'arguments by position or keyword, some left at the default'),
    sub('elastic', L.elastic(), 300),
    sub('elasticplastic', L.ep(), 1200),
    sub('parabolarectangle', L.pr(), 1200),
    sub('bilinear', L.bl(), 1000),
    sub('sargin', L.sargin(), 1200),
    sub('popovics', L.pop(), 1200),
    sub('userdefined', L.ud(), 1600),
]
