import math

import numpy as np

from . import seclib as sl
from .core import Exc, call

RULE = '''State = (section, integrator, neutral axis angle, axial load) for every combination of the catalogue (also with several
concretes and steels of different ductility) and of all pairs of a list of laws (surfaces and bars), angles over the full turn (axes, oblique, negative, more than a turn) and axial loads
from one limit to the other including both limits themselves. Transition = one calculate_bending_strength; trace = the returned
state checked as a certificate: inclination and side, equilibrium, moments equal to the exact integral, no point beyond the
ultimate strain of its material, one point exactly at it; and equality with the M-M domain for the same request.'''
ASSUMPTIONS = [
    'equilibrium within the force tolerance of the solver (1e-2 N between the ends of the last interval), strains at the limit within 1e-6 relative; axial loads nearer than 1e-4 to a limit but not at it are left out: the laws take strains within a rounding band as ultimate, so the axial force is not continuous there',
    'fibre integrator: forces compared with its own integration (C-A02 ties that to the exact integral)',
]
THETAS = {
    'quick': [0.0, math.pi / 2, math.pi, -math.pi / 2, 0.3, 1.2, 2.0, 3.9, -0.8, 5.5, 7.1, math.pi / 4],
    'thorough': [i * math.pi / 18 for i in range(-18, 40)] + [0.01, 1e-6, -1e-9, 0.123456, 2.345],
}
FR = {'quick': [-1.0, -0.999, -0.8, -0.5, -0.25, -0.05, 0.0, 0.1, 0.5, 0.9, 0.999, 1.0], 'thorough': [i / 20 for i in range(-20, 21)] + [-0.9999, 0.9999, 0.001, -0.001]}
PT = {'quick': [0.0, 2.0, -0.8, math.pi], 'thorough': [i * math.pi / 6 for i in range(12)]}
PF = {'quick': [-0.8, -0.3, 0.0, 0.6], 'thorough': [-1.0, -0.95, -0.8, -0.6, -0.4, -0.2, -0.05, 0.0, 0.05, 0.2, 0.4, 0.6, 0.8, 0.95, 1.0]}
MULTI = {
    # materials of different ultimate strains away from the extreme points
    'two_concretes': [('S', (sl.rect(300, 600), sl.rect(150, 200)), sl.C, True), ('S', (sl.rect(150, 200),), ('ParabolaRectangle', 50.0, 0.0024, 0.0027, 2.0), True)]
    + sl.bars([(-100, -250), (100, -250), (-100, 250)], 20, sl.S),
    'two_steels': [('S', (sl.rect(300, 600),), sl.C, True)] + sl.bars([(-100, -250), (100, -250)], 20, sl.SH)
    + sl.bars([(-100, -50), (100, 50), (90, 250)], 16, ('ElasticPlastic', 200000.0, 500.0, 0.0, 0.01)),
    'steel_core': [('S', (sl.rect(400, 400),), sl.C, True), ('S', (sl.rect(40, 100, 300, 0),), ('ElasticPlastic', 210000.0, 300.0, 100.0, 0.003), False)]
    + sl.bars([(-150, -150), (150, -150), (150, 150), (-150, 150)], 16, sl.SH),
}
NAMES = [n for n in sl.SECTIONS if n not in ('elastic', 'sargin', 'wrapped')] + list(MULTI)


LAWS = [sl.C, sl.C2, sl.CB, sl.S, sl.SH, sl.ST, sl.SP, sl.EU, ('ElasticPlastic', 200000.0, 300.0, 100.0, 0.0016), ('ParabolaRectangle', 50.0, 0.0024, 0.0027, 2.0),
        ('InitialStrain', sl.S, -0.002, False), ('Elastic', 200000.0, (-0.02, 0.001))]


def pair(a, b):
    return [('S', (sl.rect(200, 300, 10, -20),), a, a[0] in ('ParabolaRectangle', 'BilinearCompression', 'UserDefined'))] + sl.bars([(-60, -140), (50, 90)], 20, b) + [('S', (sl.rect(40, 40, 190, 30),), b, False)]


def parts_of(name):
    if isinstance(name, tuple):
        return pair(LAWS[name[0]], LAWS[name[1]])
    return MULTI[name] if name in MULTI else sl.SECTIONS[name]


def jobs(tier):
    out = [(tier, s, 'marin', i) for s in NAMES for i in range(0, len(THETAS[tier]), 4)]
    out += [(tier, s, 'fiber', i) for s in NAMES for i in range(0, len(THETAS[tier]), 4)]
    return out + [(tier, (a, b), w, i) for a in range(len(LAWS)) for b in range(len(LAWS)) for w in (('marin',) if tier == 'quick' else ('marin', 'fiber')) for i in range(0, len(PT[tier]), 4)]


def limits(parts):
    """Independent limits: largest uniform strains of all materials."""
    lims = [sl.law_limits(p[3] if p[0] == 'B' else p[2]) for p in parts]
    lo, hi = max(v[0] for v in lims), min(v[1] for v in lims)
    return sl.resultants(parts, (lo, 0, 0))[0], sl.resultants(parts, (hi, 0, 0))[0], lo, hi


def check_state(R, lab, parts, strain, forces, theta, n, integ, own, fs, size, n_tol=0.03, tol=1e-8):
    """The certificate of one ultimate state."""
    ea, ky, kz = strain
    k = ky * math.cos(theta) + kz * math.sin(theta)
    off = -ky * math.sin(theta) + kz * math.cos(theta)
    ext = max(abs(ea), math.hypot(ky, kz) * size, 1e-6)
    R.true(abs(off) * size <= 1e-9 * ext, f'{lab} inclination', f'curvature {ky, kz} is not along theta')
    R.true(k * size <= 1e-9 * ext, f'{lab} side', f'curvature {k} compresses the wrong side')
    u, w = sl.utilisation(parts, strain)
    R.true(u <= 1 + 1e-6, f'{lab} beyond', f'strain {w} beyond the ultimate strain (ratio {u})')
    R.true(u >= 1 - 1e-6, f'{lab} boundary', f'no point at its ultimate strain (largest ratio {u} at {w})')
    if integ == 'marin':
        ex = sl.resultants(parts, strain)
    else:
        ex = np.array(own(list(strain)), dtype=float)
    # a point at its limit within rounding can fall on either side for single laws: forces of the reported state
    R.true(abs(ex[0] - n) <= n_tol + tol * fs, f'{lab} equilibrium', f'integrated N {ex[0]} for n={n}')
    R.true(abs(forces[1] - ex[1]) <= 1e-2 + tol * fs * size and abs(forces[2] - ex[2]) <= 1e-2 + tol * fs * size,
           f'{lab} moments', f'moments {forces[1:]} but the stresses give {ex[1:]}')


def run(job, R):
    tier, name, integ, i0 = job
    parts = parts_of(name)
    fs, size = sl.force_scale(parts), sl.size(parts)
    calc = sl.section(parts, integ, mesh_size=0.02).section_calculator
    own = sl.section(parts, integ, mesh_size=0.02).section_calculator.integrate_strain_profile
    nlo, nhi, elo, ehi = limits(parts)
    if integ == 'fiber':
        nlo, nhi = own([elo, 0, 0])[0], own([ehi, 0, 0])[0]
    R.sample({'section': name, 'integrator': integ, 'n_min': float(nlo), 'n_max': float(nhi)})
    two = isinstance(name, tuple)
    if not (np.isfinite(nlo) and np.isfinite(nhi)):
        return
    for th in (PT if two else THETAS)[tier][i0:i0 + 4]:
        for f in (PF if two else FR)[tier]:
            n = -f * nlo if f < 0 else f * nhi
            if two:  # the range need not contain zero
                n = nlo + (f + 1) / 2 * (nhi - nlo)
            n = float(n) if abs(f) != 1 else float(calc.n_min if f < 0 else calc.n_max)
            lab = f'{name} {integ} theta={th:.6g} n={f}'
            R.state((name, integ, th, f))
            r = call(calc.calculate_bending_strength, th, n)
            R.step()
            R.trace()
            if isinstance(r, Exc):
                R.fail(lab, f'n={n} within [{nlo}, {nhi}]: {r}')
                continue
            st = (float(r.eps_a), float(r.chi_y), float(r.chi_z))
            R.true(abs(r.n - n) <= 0.03 + (1e-8 if abs(f) < 1 else 1e-6) * fs, f'{lab} n', f'reported n {r.n} for n={n}')
            R.true(r.theta == th, f'{lab} theta', f'reported theta {r.theta}')
            check_state(R, lab, parts, st, (r.n, r.m_y, r.m_z), th, n, integ, own, fs, size, tol=1e-8 if abs(f) < 1 else 1e-6)
            R.outcome((round(st[0], 7), round(r.m_y / fs / size, 6)))
    # the same state by the other route
    if i0 == 0 and not two:
        for f in (-0.5, 0.0, 0.5):
            n = float(-f * nlo if f < 0 else f * nhi)
            for num in (1, 2, 5, 8):
                d = call(sl.section(parts, integ, mesh_size=0.02).section_calculator.calculate_mm_interaction_domain, n, num)
                R.step()
                if isinstance(d, Exc):
                    R.fail(f'{name} {integ} mm n={f} num={num}', f'{d}')
                    continue
                R.eq(np.asarray(d.theta, dtype=float), np.linspace(0, 2 * np.pi, num), f'{name} {integ} mm num={num} angles', 'angles', atol=1e-12)
                for i, th in enumerate(d.theta):
                    r = calc.calculate_bending_strength(float(th), n)
                    R.state((name, integ, 'mm', f, num, i))
                    R.step()
                    R.eq(np.asarray(d.forces[i], dtype=float), np.array([n, r.m_y, r.m_z]), f'{name} {integ} mm n={f} num={num} i={i} forces', 'forces', rtol=1e-6, atol=1e-6 * fs * size)
                    R.eq(np.asarray(d.strains[i], dtype=float), np.array([r.eps_a, r.chi_y, r.chi_z]), f'{name} {integ} mm n={f} num={num} i={i} strains', 'strains', rtol=1e-6, atol=1e-10)
                R.trace()
