"""L06: materials with an initial strain or stress."""
import itertools
import warnings

import math

from . import mat_lib as ml
from .core import Exc, call
from .m01 import check_law
from .ref_laws import Ref, lib_law

RULE = (
    'State: one material (kind, code, law, preload kind and value, strain compatibility) with the strain applied to it. '
    'Transition: construction, one stress/tangent evaluation at one strain, or one reading of a reported value. Trace: one material whose '
    'reported preload, stress at zero strain, whole stress curve and limits are compared with the reference of the base law shifted by '
    'the preload, or whose rejection is checked. The product of all material kinds, laws, preload grids (inside, at and beyond every limit) '
    'and compatibility options is enumerated, and every order of creating two materials from one shared law object.'
)
ASSUMPTIONS = [
    'A stress is reachable when it lies on the branch of the curve that starts at zero strain and rises to the first extreme.',
    'A law whose stiffness at zero is larger on the side of the preload may be rejected (the search for the strain starts with the other stiffness).',
    'The reinforcement is not deducted from the concrete (as in all integrations of the library).',
    'Rejection may be any ValueError or RuntimeError.',
]


def build(kind, **kw):
    """(material or exception, spec of its base law)."""
    from structuralcodes.materials import basic

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind[0] == 'concrete':
            _, code, fck, law = kind
            spec = ml.ref_concrete(code, fck)[1][law]
            return call(ml.classes(code)[0], fck, constitutive_law=law, **kw), spec
        if kind[0] == 'steel':
            _, code, fy, law = kind
            spec = ml.ref_steel(code, fy, 200000.0, fy * 1.08, 0.05)[1][law]
            return call(ml.classes(code)[1], fy, 200000.0, fy * 1.08, 0.05, constitutive_law=law, **kw), spec
        if kind[0] == 'elastic':
            _, E, eu = kind
            return call(basic.ElasticMaterial, E, 1000.0, ultimate_strain=eu, **kw), ('Elastic', E, eu)
        if kind[0] == 'elasticplastic':
            _, E, fy, Eh, su = kind
            return call(basic.ElasticPlasticMaterial, E, fy, 1000.0, Eh, su, **kw), ('ElasticPlastic', E, fy, Eh, su)
        spec = kind[1]
        return call(basic.GenericMaterial, 1000.0, lib_law(spec), **kw), spec


def kinds(tier):
    K = []
    for c in ml.CODES:
        for fck in (30.0, 70.0) if tier == 'quick' else (20.0, 30.0, 45.0, 70.0, 90.0):
            for law in ml.LAWS_C:
                if not (law == 'bilinearcompression' and c == 'ec2_2023'):
                    K.append(('concrete', c, fck, law))
        for fy in (500.0, 1600.0):
            for law in ml.LAWS_S:
                K.append(('steel', c, fy, law))
    for eu in (None, 0.01, (-0.002, 0.02), (0.02, -0.002), 1):
        K.append(('elastic', 31000.0, eu))
    K += [('elastic', 2.1e8, None), ('elasticplastic', 2e5, 400.0, 0.0, None), ('elasticplastic', 2e5, 400.0, 1000.0, 0.04), ('elasticplastic', 2.1e5, 355, 0, 0.02)]
    K += [('generic', s) for s in (
        ('Elastic', 2e4, None), ('Sargin', 38.0, 0.0023, 0.0035, 2.04), ('Popovics', 38.0, 0.0023, 0.0035, 33e3),
        ('UserDefined', (0.0, 0.002, 0.02), (0.0, 400.0, 600.0), 1, None),
        ('UserDefined', (-0.01, -0.001, 0.0, 0.0001), (-20.0, -18.0, 0.0, 2.0), 0, None),
        ('Parallel', (('Elastic', 1e4, None), ('ElasticPlastic', 2e5, 400.0, 0.0, 0.05)), (0.5, 0.5)),
        ('InitialStrain', ('ElasticPlastic', 2e5, 400.0, 1000.0, 0.05), 0.0005, True),
    )]
    return K


def branch(ref, sign):
    """Stress reached on the branch from zero strain to the first extreme."""
    lim = ref.lim[1] if sign > 0 else ref.lim[0]
    s0 = ref.stress(0.0)
    if abs(lim) > 10:
        fin = [abs(k) for k in ref.allkinks() if 1e-9 < abs(k) < 10 and k * sign > 0]
        lim = sign * (2 * max(fin) if fin else 0.02)
    best, prev = 0.0, s0
    n = 4000
    for i in range(1, n + 1):
        e = lim * i / n
        s = ref.stress(e)
        if (s - prev) * sign <= 0:
            break
        best, prev = (s - s0), s
    return s0, best


COMPAT = (None, True, False)


def verify(R, key, m, spec, e0, s0, compat):
    """The material behaves as the base law shifted by e0."""
    c = True if compat is None else compat
    base = Ref(spec)
    law = m.constitutive_law
    R.eq(m.initial_strain, e0, f'{key} reported strain', rtol=1e-6, atol=1e-12)
    R.eq(m.initial_stress, base.stress(e0) if s0 is None else s0, f'{key} reported stress', rtol=1e-9, atol=1e-9)
    R.true(m.strain_compatibility is compat or (compat is None and m.strain_compatibility is True), f'{key} compatibility', f'{m.strain_compatibility}')
    want = base.stress(e0) if s0 is None else s0
    R.eq(call(law.get_stress, 0.0), want, f'{key} stress at zero strain', rtol=1e-9, atol=1e-8)
    ref, pts = ml.law_points(('InitialStrain', spec, e0, c), 2)
    scale = max(1.0, abs(want))
    edges = base.allkinks()
    for e in pts:
        # away from the strains at which the curve jumps
        if any(abs(e + e0 - k) < 2e-6 + 2e-5 * abs(k) for k in edges) and s0 is not None:
            continue
        got = call(law.get_stress, e)
        R.step()
        w = ref.stress(e)
        if isinstance(got, Exc) or abs(float(got) - w) > (1e-8 if s0 is None else 2e-5) * max(scale, abs(w)):
            R.fail(f'{key} stress', f'stress at {e} is {got}, expected {w}')
            return
    if c:
        for yl in (False, True):
            lim, want = call(law.get_ultimate_strain, yielding=yl), (ref.yld if yl else ref.lim)
            if isinstance(lim, Exc) or any(abs(w) < 50 and abs(g - w) > 1e-6 for g, w in zip(lim, want)):
                R.fail(f'{key} limits', f'{lim}, expected {want}')
    else:
        t = call(law.get_tangent, 0.0)
        t0 = abs(base.slope(0.0, -1)) + abs(base.slope(0.0, 1))
        R.true(not isinstance(t, Exc) and abs(float(t)) <= 1e-4 * max(t0, 1.0), f'{key} tangent', f'{t!r}')


def run_kind(R, kind, tier):
    plain, spec = build(kind)
    base = Ref(spec)
    if isinstance(plain, Exc):
        R.fail(f'{kind} plain', str(plain))
        return
    check_law(R, f'{kind} plain', plain.constitutive_law, spec, 3)
    R.true(plain.initial_strain is None and plain.initial_stress is None, f'{kind} plain reports', f'{plain.initial_strain} {plain.initial_stress}')
    R.state((kind,))
    R.trace()
    # initial strains
    es = {0.0, 1e-5, -1e-5, 5e-4, -5e-4, 0.004, -0.003}
    for k in base.allkinks():
        if abs(k) < 1:
            es |= {0.5 * k, k * 1.001 + 1e-5, k * 0.999}
    for e0, compat in itertools.product(sorted(es), COMPAT):
        m, _ = build(kind, initial_strain=e0, strain_compatibility=compat)
        key = f'{kind} strain {e0:.6g} compat {compat}'
        R.state((kind, 'e', e0, compat))
        R.trace()
        if isinstance(m, Exc):
            R.fail(f'{key} construct', str(m))
            continue
        verify(R, key, m, spec, e0, None, compat)
    # initial stresses
    start, up = branch(base, 1)
    _, dn = branch(base, -1)
    for part, compat in itertools.product((0.0, 1e-4, 0.1, 0.37, 0.6, 0.85, 0.97), COMPAT):
        for amp in (up, dn):
            s0 = start + part * amp
            if amp == 0 and part:
                continue
            m, _ = build(kind, initial_stress=s0, strain_compatibility=compat)
            key = f'{kind} stress {s0:.6g} compat {compat}'
            R.state((kind, 's', s0, compat))
            R.trace()
            if isinstance(m, Exc):
                stiffer = base.slope(0.0, 1 if amp > 0 else -1) > base.slope(0.0, -1 if amp > 0 else 1) * (1 + 1e-9) > 0
                if not (stiffer and issubclass(m.type, (ValueError, RuntimeError))):
                    R.fail(f'{key} construct', str(m))
                continue
            e0 = m.initial_strain
            if e0 is None or not abs(base.stress(e0) - s0) <= 1e-7 * max(1.0, abs(s0)):
                R.fail(f'{key} strain', f'initial strain {e0} has stress {base.stress(e0) if e0 is not None else None}')
                continue
            verify(R, key, m, spec, e0, s0, compat)
    # stresses the law never reaches
    hi = lo = start
    kk = [k for k in base.allkinks() if abs(k) < 1]
    unbounded = not base.cuts() and not (spec[0] == 'ElasticPlastic' and not spec[3])
    if spec[0] in ('UserDefined', 'Parallel', 'InitialStrain'):
        unbounded = True  # handled by the base kinds
    if not unbounded:
        for i in range(-4000, 4001):
            s = base.stress(i / 4000 * (max(abs(k) for k in kk) * 1.01))
            hi, lo = max(hi, s), min(lo, s)
        span = max(hi - lo, 1.0)
        for s0 in (hi + 0.02 * span, hi + span, lo - 0.02 * span, lo - span, hi + 20 * span, lo - 20 * span):
            for compat in COMPAT:
                m, _ = build(kind, initial_stress=s0, strain_compatibility=compat)
                R.state((kind, 'x', s0, compat))
                R.trace()
                ok = isinstance(m, Exc) and issubclass(m.type, (ValueError, RuntimeError))
                R.true(ok, f'{kind} unreachable stress {s0:.6g} {compat}', f'{getattr(m, "initial_strain", m)!r}')
    # both
    for e0, s0, compat in itertools.product((0.0, 1e-4), (0.0, 1.0), COMPAT):
        m, _ = build(kind, initial_strain=e0, initial_stress=s0, strain_compatibility=compat)
        R.state((kind, 'both', e0, s0, compat))
        R.trace()
        R.true(isinstance(m, Exc) and issubclass(m.type, ValueError), f'{kind} both {e0} {s0} {compat}', f'{m!r}')


def shared(R, tier):
    """Materials made from one law object: every order of creation, reading
    in between; the law given by the user stays untouched."""
    from structuralcodes.materials import basic
    from structuralcodes.materials.reinforcement import ReinforcementEC2_2004

    specs = [('ElasticPlastic', 2e5, 400.0, 1000.0, 0.05), ('Elastic', 2e5, None)]
    loads = [{}, {'initial_strain': 5e-4}, {'initial_stress': 120.0}, {'initial_strain': -3e-4, 'strain_compatibility': False}, {'initial_stress': -80.0, 'strain_compatibility': False}]
    for spec in specs:
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for seq in itertools.product(range(len(loads)), repeat=n):
                law = lib_law(spec)
                ms = []
                for j, i in enumerate(seq):
                    if j % 2:
                        m = call(basic.GenericMaterial, 1.0, law, **loads[i])
                    else:
                        m = call(ReinforcementEC2_2004, 460.0, 2e5, 500.0, 0.05, constitutive_law=law, **loads[i])
                    ms.append(m)
                    if not isinstance(m, Exc):
                        call(m.constitutive_law.get_stress, 0.001)
                    R.step()
                R.state((spec, seq))
                R.trace()
                ref = Ref(spec)
                for e in (-0.0011, 0.0, 0.0004, 0.003):
                    R.eq(call(law.get_stress, e), ref.stress(e), f'shared law {spec} {seq}: the law itself at {e}')
                    for m, i in zip(ms, seq):
                        L = loads[i]
                        if isinstance(m, Exc):
                            R.fail(f'shared law {spec} {seq}', str(m))
                            return
                        e0 = L.get('initial_strain', L.get('initial_stress', 0.0) / 2e5)
                        r = Ref(('InitialStrain', spec, e0, L.get('strain_compatibility', True))) if L else ref
                        R.eq(call(m.constitutive_law.get_stress, e), r.stress(e), f'shared law {spec} {seq}: {L} at {e}', atol=1e-9)


def section(R, tier):
    """At zero strain a section carries exactly the preload of its parts."""
    from structuralcodes.geometry import RectangularGeometry, add_reinforcement
    from structuralcodes.sections import GenericSection

    for code, integ, (k1, v1), (k2, v2), c2 in itertools.product(
        ml.CODES, ('marin', 'fiber'), ((None, None), ('initial_strain', -2e-4)),
        (('initial_strain', 0.001), ('initial_stress', 200.0), ('initial_stress', -150.0)), (None, False)):
        C, S = ml.classes(code)
        kw = {k1: v1} if k1 else {}
        con = C(30.0, **kw)
        st = call(S, 500.0, 200000.0, 540.0, 0.05, strain_compatibility=c2, **{k2: v2})
        key = f'section {code} {integ} concrete {k1}={v1} steel {k2}={v2} {c2}'
        R.state(key)
        R.trace()
        if isinstance(st, Exc):
            R.fail(key, str(st))
            continue
        geo = RectangularGeometry(200.0, 400.0, con)
        ys = (-150.0, 150.0, -150.0)
        zs = (-60.0, 0.0, 60.0)
        for y, z in zip(zs, ys):
            geo = add_reinforcement(geo, (y, z), 20.0, st)
        sec = GenericSection(geo, integrator=integ)
        got = call(sec.section_calculator.integrate_strain_profile, [0.0, 0.0, 0.0])
        if isinstance(got, Exc):
            R.fail(key, str(got))
            continue
        sc = Ref(ml.ref_concrete(code, 30.0)[1]['parabolarectangle']).stress(v1 or 0.0)
        ss = v2 if k2 == 'initial_stress' else 200000.0 * v2
        ss = max(-500 / 1.15, min(500 / 1.15, ss))
        A = math.pi * 100.0
        N = sc * 200.0 * 400.0 + sum(ss * A for _ in ys)
        My = sum(ss * A * z for z in ys)
        R.eq(float(got[0]), N, f'{key} N', rtol=1e-6, atol=1.0)
        R.eq(float(got[1]), My, f'{key} My', rtol=1e-6, atol=200.0)
    # an elastic copy takes the initial tangent
    from structuralcodes.materials import basic

    for kind in kinds('quick'):
        m, spec = build(kind)
        if isinstance(m, Exc):
            continue
        c = call(basic.ElasticMaterial.from_material, m)
        R.state(('from_material', kind))
        R.trace()
        if isinstance(c, Exc):
            R.fail(f'elastic copy of {kind}', str(c))
            continue
        r = Ref(spec)
        ok = any(abs(c.E - r.slope(0.0, s)) <= 1e-6 * abs(c.E) for s in (-1, 1)) and c.E > 0
        R.true(ok and c.density == m.density, f'elastic copy of {kind}', f'E {c.E}, slopes {r.slope(0.0, -1)} {r.slope(0.0, 1)}')


def jobs(tier):
    return [('kind', k, tier) for k in kinds(tier)] + [('shared', None, tier), ('section', None, tier)]


def run(job, R):
    kind, k, tier = job
    if kind == 'kind':
        run_kind(R, k, tier)
    else:
        globals()[kind](R, tier)
    R.outcome((kind, k))
    R.sample({'kind': kind, 'material': str(k)})
