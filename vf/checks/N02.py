"""N02: Marin integration gives the true stress resultants."""
import math

from hypothesis import strategies as st

from .. import geom as G
from .. import laws as L
from ..core import Reject, Sub, require

RULE = ('random sections (1-3 surfaces with holes, 0-5 bars, 1-3 materials of '
        'any law incl. Parallel/InitialStrain, anywhere in the plane) and '
        'strain planes; oracle: independent scan-line Gauss quadrature split '
        'at vertices and branch limits; non-trivial: at least one non-zero '
        'reference resultant and the section has more than one part, a hole, '
        'bars, or a branch limit inside')
ASSUMPTIONS = [
    'bars whose strain is within round-off (1e-5 relative) of an ultimate '
    'limit may carry the stress of either side',
    'laws that are not piecewise polynomial: 1.5x the error of a ten-segment '
    'linear interpolation',
]


@st.composite
def strategy(draw, **kw):
    s = draw(G.any_section(**kw))
    return {'sec': s, 'plane': draw(G.plane_for(s))}


def allowance(spec, plane):
    """Ambiguity (N, M) of materials at their ultimate limits."""
    dn = dm = 0.0
    uniform = plane[1] == 0 and plane[2] == 0
    for b in spec.get('bars', []):
        law = spec['mats'][b['mat']]['law']
        e = G.strain_at(plane, b['p'])
        o = L.stress_options(law, e) + [L.raw(law, e)[0]]
        if L.smooth_distance(law, e) < 1e-11:
            o += [L.raw(law, e - 1e-10)[0], L.raw(law, e + 1e-10)[0]]
        d = (max(o) - min(o)) * G.bar_area(b)
        dn += d
        dm += d * max(abs(v) for v in b['p'])
    if uniform:
        for s in spec['surfs']:
            law = spec['mats'][s['mat']]['law']
            o = L.stress_options(law, plane[0]) + [L.raw(law, plane[0])[0]]
            m = G.area_moments(s)
            d = max(o) - min(o)
            dn += d * m[0]
            dm += d * max(abs(m[1]), abs(m[2]))
    return dn, dm


def law_error(spec, plane, idx=0):
    """(N, M) error of the linearised laws."""
    dn = dm = 0.0
    for s in spec['surfs']:
        law = spec['mats'][s['mat']]['law']
        err = L.marin_err(law)[idx]
        if err:
            m = G.area_moments(s)
            r = max(max(abs(p[0]), abs(p[1])) for p in s['outer'])
            dn += err * m[0]
            dm += err * m[0] * r
    return dn, dm


def rounding(spec, plane):
    """Round-off of exact arithmetic in coordinates far from the origin."""
    r, d = G.size(spec)
    k = math.hypot(plane[1], plane[2])
    e0 = abs(plane[0])
    amp = 1.0
    for m in spec['mats']:
        bs = [abs(b) for b in L.breaks(m['law']) if 1e-4 < abs(b) < 1]
        amp = max(amp, ((e0 + k * r) / min(bs or [1e-3])) ** 2)
    # positions of the branch limits when the strain is nearly uniform
    pos = 2e-15 * (e0 + k * r + 1e-3) / (k * d) if k else 0.0
    return 1e-9 + 2e-15 * (1 + r / d) ** 3 * amp + pos


def run(case, rec):
    spec, plane = case['sec'], case['plane']
    if G.far(spec, plane):
        raise Reject
    sec = G.section(spec)
    ref = G.resultants(spec, plane)
    got = sec.section_calculator.integrate_strain_profile(list(plane))
    require(len(got) == 3, f'{len(got)} resultants')
    F = G.force_scale(spec, plane)
    r, d = G.size(spec)
    rel = rounding(spec, plane)
    an, am = allowance(spec, plane)
    en, em = law_error(spec, plane)
    tn = rel * F + an + en
    tm = rel * F * r + am + em
    for k, (name, tol) in enumerate((('N', tn), ('My', tm), ('Mz', tm))):
        require(abs(float(got[k]) - ref[k]) <= tol,
                lambda: f'{name} = {float(got[k])!r}, expected {ref[k]!r} '
                        f'(tolerance {tol:.3g}) at plane {plane}; all '
                        f'{[float(g) for g in got]} vs {list(ref)}')
    case_q = max(abs(float(got[0]) - ref[0]) / max(tn, 1e-300),
                 abs(float(got[1]) - ref[1]) / max(tm, 1e-300))
    rec.label('uniform' if plane[1] == plane[2] == 0 else 'bent',
              'sharp' if rel < 1e-7 and an == 0 else 'loose',
              f'surfs{len(spec["surfs"])}', f'q<1e{math.ceil(math.log10(case_q + 1e-12))}')
    inside = any(min(e) < b < max(e) for e in [[
        G.strain_at(plane, p) for s in spec['surfs'] for p in s['outer']]]
        for m in spec['mats'] for b in L.breaks(m['law']))
    rec.nt(any(abs(v) > 0 for v in ref) and rel < 1e-6 and (
        inside or len(spec['surfs']) > 1 or bool(spec['bars'])
        or any(s['holes'] for s in spec['surfs'])))
    if inside:
        rec.label('branch-inside')


SUBS = [
    Sub('marin', lambda: strategy(), run, 3000, 60000,
        'a section and a strain plane', shards=6),
    Sub('basic', lambda: strategy(law=G.sect_law(0), max_surf=2), run, 2000,
        40000, 'basic laws only', shards=4),
]
