import math

import numpy as np

from . import seclib as sl
from .core import Exc, call

RULE = '''State = (section, mesh size) for the discretisation and (section, mesh size, strain plane) for the integration, all
combinations of the section catalogue, the mesh sizes and an alphabet of planes (every branch point of the laws at both extreme
edges, several directions, uniform). Transition = one triangulation or integration; trace = one of them compared with the
reference (conserved area and first moments, size bound, fibre inside the surface, sum over the fibres, distance to the exact
integral).'''
ASSUMPTIONS = ['convergence bound: error <= 2*mesh_size^0.75 of the force scale for planes without a stress jump']

MESH = {'quick': (1.0, 0.2, 0.03, 0.01, 0.002), 'thorough': (1.0, 0.5, 0.2, 0.1, 0.05, 0.03, 0.02, 0.01, 0.005, 0.002, 0.001, 0.0003)}
EXTRA = {
    # several holes, thin parts, tiny and huge units
    'holes': [('S', (sl.rect(600, 400), sl.rect(100, 100, -200, 0), sl.ngon(60, 7, 0, 50, 0.1), tuple((y + 190, z) for y, z in sl.U_HOLE)), sl.C, True)],
    # ducts that are small compared to the section
    'ducts': [('S', (sl.rect(2000, 1000), sl.rect(25, 25, -950, -460), sl.rect(6, 6, 900, 470), sl.ngon(20, 5, 960, -450, 0.2)), sl.C2, True), ('S', (sl.rect(6, 6, 900, 470),), sl.ST, False)]
    + sl.bars([(-900, -400), (900, 300)], 20, sl.S),
    'metres': [('S', (sl.rect(0.3, 0.5, 0.1, 0.2), sl.rect(0.1, 0.2, 0.1, 0.2)), sl.C, True)] + sl.bars([(0.0, 0.0), (0.2, 0.4)], 0.02, sl.S),
    'tiny': [('S', (sl.rect(0.003, 0.002),), sl.EL, True)],
    'far': [('S', (sl.rect(300, 500, 8000, -5000),), sl.C, True)] + sl.bars([(8000, -5200)], 20, sl.S),
    'huge': [('S', (sl.rect(30000.0, 9000.0),), sl.ST, False)],
}


def parts_of(name):
    return EXTRA[name] if name in EXTRA else sl.SECTIONS[name]


def jobs(tier):
    names = list(sl.SECTIONS) + list(EXTRA)
    return [(tier, n, m) for n in names for m in MESH[tier]] + [(tier, 'reject', 0)]


def planes(parts):
    ks = sl.kink_strains(parts)
    lo, hi = min(ks + [-0.001]), max(ks + [0.001])
    al = [(lo, hi), (hi, lo), (lo / 2, lo / 2.5), (0.0, lo * 0.9), (hi * 1.1, lo * 1.2), (min(k for k in ks + [1] if k > 0), 0.0) if any(k > 0 for k in ks) else (0.001, 0.0)]
    out = []
    for d in (math.pi / 2, 0.0, 0.6, -2.2):
        out += [sl.plane(parts, d, a, b) for a, b in al]
    return out + [(e, 0.0, 0.0) for e in (lo, lo * 0.99, hi * 0.5, 0.0, -0.0005)]


def has_jump(parts, strain):
    for p in parts:
        if p[0] != 'S':
            continue
        lo, hi = sl.law_limits(p[2])
        es = [sl.strain_at(strain, y, z) for y, z in p[1][0]]
        if min(es) < lo * (1 - 1e-3) or max(es) > hi * (1 - 1e-3) or min(es) > hi:
            return True
    return False


def run(job, R):
    from shapely import Point, Polygon

    from structuralcodes.sections import FiberIntegrator

    tier, name, mesh = job
    if name == 'reject':
        geo = sl.build(sl.SECTIONS['rect'])
        for bad in (0, 0.0, -0.01, -1, 1.0000001, 1.5, 100):
            R.state(bad)
            R.step()
            got = call(lambda: sl.section(sl.SECTIONS['rect'], 'fiber', mesh_size=bad).section_calculator.integrate_strain_profile([0, 1e-6, 0]))
            R.true(isinstance(got, Exc) and got.type is ValueError, f'mesh {bad}', f'mesh size {bad} accepted: {got}')
            got = call(FiberIntegrator().triangulate, geo, bad)
            R.true(isinstance(got, Exc) and got.type is ValueError, f'triangulate mesh {bad}', f'mesh size {bad} accepted: {got}')
        for good in (1, 1.0, 0.999, 1e-3):
            R.state(good)
            R.step()
            got = call(FiberIntegrator().triangulate, geo, good)
            R.true(not isinstance(got, Exc), f'triangulate mesh {good}', f'mesh size {good}: {got}')
        for bad in ('area', 'Stress', None):
            for integ in ('marin', 'fiber'):
                R.state((bad, integ))
                R.step()
                got = call(sl.section(sl.SECTIONS['rect'], integ).section_calculator.integrate_strain_profile, [0, 1e-6, 0], bad)
                R.true(isinstance(got, Exc) and got.type is ValueError, f'integrate={bad} {integ}', f'unknown quantity {bad} accepted: {got}')
        R.trace()
        return
    parts = parts_of(name)
    mats = sl.Mats()
    geo = sl.build(parts, mats)
    data = call(FiberIntegrator().triangulate, geo, mesh)
    R.state((name, mesh))
    R.step()
    if isinstance(data, Exc):
        R.fail(f'{name} mesh={mesh}', f'triangulation: {data}')
        return
    size = sl.size(parts)
    bars = [(p[1], sl.bar_area(p)) for p in parts if p[0] == 'B']
    groups = {}
    for x, y, a, law in data:
        x, y, a = np.atleast_1d(x), np.atleast_1d(y), np.atleast_1d(a)
        groups.setdefault(id(law), []).append((x, y, a))
    # sums per law
    specs = {(p[3], False) if p[0] == 'B' else (p[2], p[3]) for p in parts}
    allf = []
    for spec, conc in specs:
        law = mats.get(spec, conc).constitutive_law
        mine = [p for p in parts if ((p[3], False) if p[0] == 'B' else (p[2], p[3])) == (spec, conc)]
        A = Sy = Sz = 0.0
        big = 0.0
        for p in mine:
            if p[0] == 'B':
                a = sl.bar_area(p)
                A, Sy, Sz = A + a, Sy + a * p[1][1], Sz + a * p[1][0]
            else:
                m = sl.area_moments(p[1])
                A, Sy, Sz = A + m[0], Sy + m[1], Sz + m[2]
                big = max(big, m[0])
        g = groups.pop(id(law), [])
        x = np.concatenate([q[0] for q in g]) if g else np.zeros(0)
        y = np.concatenate([q[1] for q in g]) if g else np.zeros(0)
        a = np.concatenate([q[2] for q in g]) if g else np.zeros(0)
        allf.append((spec, x, y, a))
        R.eq(float(a.sum()), A, f'{name} mesh={mesh} area {spec[0]}', 'area of the fibres', rtol=1e-9)
        R.eq(float((a * y).sum()), Sy, f'{name} mesh={mesh} Sy {spec[0]}', 'first moment of the fibres', rtol=1e-9, atol=1e-9 * A * size)
        R.eq(float((a * x).sum()), Sz, f'{name} mesh={mesh} Sz {spec[0]}', 'first moment of the fibres', rtol=1e-9, atol=1e-9 * A * size)
        R.true(bool((a > 0).all()), f'{name} mesh={mesh} positive {spec[0]}', 'fibre without area')
        polys = [Polygon(p[1][0], p[1][1:]) for p in mine if p[0] == 'S']
        isbar = np.zeros(len(a), bool)
        for (by, bz), ba in bars:
            isbar |= (np.abs(x - by) < 1e-9 * size) & (np.abs(y - bz) < 1e-9 * size) & (np.abs(a - ba) < 1e-9 * ba)
        nb = sum(1 for p in mine if p[0] == 'B')
        R.eq(int(isbar.sum()), nb, f'{name} mesh={mesh} bars {spec[0]}', 'number of point fibres')
        R.true(bool((a[~isbar] <= mesh * big * (1 + 1e-9)).all()), f'{name} mesh={mesh} size {spec[0]}',
               f'largest fibre {a[~isbar].max() if (~isbar).any() else 0} exceeds {mesh}*{big}')
        if (~isbar).sum() <= 400:
            bad = [(px, py) for px, py in zip(x[~isbar], y[~isbar]) if not any(q.distance(Point(px, py)) < 1e-9 * size for q in polys)]
            R.true(not bad, f'{name} mesh={mesh} inside {spec[0]}', f'fibres outside of the surface: {bad[:3]}')
    R.true(not groups, f'{name} mesh={mesh} extra', 'fibres with a law that is not in the section')
    R.trace()
    # integration
    fs = sl.force_scale(parts)
    calc = sl.section(parts, 'fiber', mats, mesh_size=mesh).section_calculator
    R.sample({'section': name, 'mesh': mesh, 'fibres': int(sum(len(f[3]) for f in allf))})
    for strain in planes(parts):
        R.state((name, mesh, strain))
        got = call(calc.integrate_strain_profile, list(strain))
        R.step()
        R.trace()
        if isinstance(got, Exc):
            R.fail(f'{name} mesh={mesh} plane={strain}', f'{got}')
            continue
        want = np.zeros(3)
        mag = 0.0
        for spec, x, y, a in allf:
            r = sl.ref_law(spec)
            e = strain[0] + strain[1] * y - strain[2] * x
            s = np.array([r.stress(float(v)) for v in e]) * a
            amb = [k for k in r.lim if abs(k) < 50 and np.any(np.abs(np.abs(e - k) - (1e-6 + 1e-5 * abs(k))) < 1e-9)]
            if amb:
                break
            want += np.array([s.sum(), (s * y).sum(), -(s * x).sum()])
            mag += np.abs(s).sum()
        else:
            tol = 1e-9 * (mag + 1e-9 * fs)
            ok = all(abs(g - w) <= tol * f for g, w, f in zip(got, want, (1, size, size)))
            R.true(ok, f'{name} mesh={mesh} sum plane={strain}', f'got {tuple(map(float, got))}, sum over the fibres {tuple(want)}')
        R.outcome((name, mesh, tuple(np.round(np.array(got) / fs, 3))))
        if not has_jump(parts, strain) and name != 'metres':
            ex = sl.resultants(parts, strain)
            cen = max(size, 1e-9)
            err = max(abs(got[0] - ex[0]) / fs, abs(got[1] - ex[1]) / fs / cen, abs(got[2] - ex[2]) / fs / cen)
            R.true(err <= 2 * mesh**0.75, f'{name} mesh={mesh} convergence plane={strain}', f'distance {err:.3g} to the exact integral {ex}')
