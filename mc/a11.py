import math

import numpy as np

from . import seclib as sl
from .core import Exc, call

RULE = '''State = (section, rigid motion, bending direction, integrator). Transition = one calculate_elastic_cracked_properties; trace =
every field compared with the closed-form cracked linear section (concrete above the neutral axis found by bisection of the exact
first moment, all reinforcement and steel), the returned geometry compared with the clipped surfaces, and the section object
compared before and after (properties, limits, geometry).'''
ASSUMPTIONS = [
    'as documented the concrete area is not reduced by the bars',
    'fibre integrator: the neutral axis is that of the fibres (within the mesh size of the exact one), properties those of the fibre section of the returned geometry',
]
MORE = {
    'deep': [('S', (sl.rect(200, 900),), sl.C, True)] + sl.bars([(-70, -420), (0, -420), (70, -420)], 28, sl.S),
    'offset': [('S', (sl.rect(300, 300, 900, -700),), sl.C2, True)] + sl.bars([(800, -820), (1000, -820), (1000, -600)], 16, sl.S),
    'tworegions': [('S', (((-300.0, 0.0), (-300.0, 400.0), (-150.0, 400.0), (-150.0, 150.0), (150.0, 150.0), (150.0, 400.0), (300.0, 400.0), (300.0, 0.0)),), sl.C, True)]
    + sl.bars([(-220, 40), (0, 40), (220, 40)], 16, sl.S),
    # concrete around a steel shape, no bars
    'encased': [('S', (sl.rect(300, 500), sl.rect(120, 60, 20, -170)), sl.C, True), ('S', (sl.rect(120, 60, 20, -170),), sl.S, False)],
}
RC = ['rect', 'L', 'T', 'hollow', 'circle', 'composite', 'two', 'prestressed', 'disjoint', 'sargin', 'elastic'] + list(MORE)
NOT = ['steel', 'steel2', 'tube', 'wrapped']
TH = {'quick': [0.0, math.pi / 2, math.pi, -math.pi / 2, 0.4, 1.9, -2.5, 5.6], 'thorough': [i * math.pi / 20 for i in range(-20, 41)] + [0.4, 1e-3, -2.5]}
MOTIONS = {'id': lambda p: p, 'rot': lambda p: sl.rotated(p, 0.7), 'move': lambda p: sl.moved(p, 130, -310), 'reverse': lambda p: [('S', tuple(r[::-1] for r in q[1]), *q[2:]) if q[0] == 'S' else q for q in p][::-1],
           'scaled': lambda p: sl.scaled(p, 0.1), 'ten': lambda p: sl.scaled(p, 10.0)}


def parts_of(name, motion):
    p = {**sl.SECTIONS, **MORE}[name]
    q = MOTIONS[motion](p)
    return [x for x in q if x[0] == 'S'] + [x for x in q if x[0] == 'B']


def jobs(tier):
    out = [(tier, n, m, i) for n in RC for m in MOTIONS for i in ('marin', 'fiber') if i == 'marin' or m in ('id', 'rot')]
    return out + [(tier, n, 'id', 'marin') for n in NOT]


def clipped(rings, c, s, t0):
    """Moments (A, Sy, Sz, Iyy, Izz, Iyz) of the part of the surface with t > t0; t = c*z - s*y."""
    T, W, m0, m1, m2 = sl.slab_points(rings, -s, c, [t0])
    ok = T > t0
    T, W, m0, m1, m2 = T[ok], W[ok], m0[ok], m1[ok], m2[ok]
    gy, gz = -s, c
    a = (W * m0).sum()
    t1, s1 = (W * T * m0).sum(), (W * m1).sum()
    tt, ts, ss = (W * T * T * m0).sum(), (W * T * m1).sum(), (W * m2).sum()
    return np.array([a, gz * t1 + gy * s1, gy * t1 - gz * s1, gz * gz * tt + 2 * gz * gy * ts + gy * gy * ss,
                     gy * gy * tt - 2 * gy * gz * ts + gz * gz * ss, gy * gz * tt + (gy * gy - gz * gz) * ts - gy * gz * ss])


def point(p):
    y, z = p[1]
    return sl.bar_area(p) * np.array([1, z, y, z * z, y * y, y * z])


def cracked(parts, E, c, s):
    """Neutral axis position t0 of the cracked linear section."""
    ts = [c * z - s * y for p in parts if p[0] == 'S' for y, z in p[1][0]]

    def first(t0):
        f = 0.0
        for p, e in zip(parts, E):
            m = point(p) if p[0] == 'B' else (clipped(p[1], c, s, t0) if p[3] else sl.area_moments(p[1]))
            f += e * (c * m[1] - s * m[2] - t0 * m[0])
        return f

    lo, hi = min(ts) - 10 * (max(ts) - min(ts)), max(ts) + (max(ts) - min(ts))
    for _ in range(200):
        mid = (lo + hi) / 2
        if first(mid) > 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2, max(ts) - min(ts)


def run(job, R):
    from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

    tier, name, motion, integ = job
    if name in NOT:
        sec = sl.section(sl.SECTIONS[name], integ)
        for th in TH[tier]:
            r = call(calculate_elastic_cracked_properties, sec, th)
            R.state((name, th))
            R.step()
            R.true(r is None, f'{name} not rc', f'section that is not reinforced concrete gives {r}')
            r = call(calculate_elastic_cracked_properties, sec, th, True)
            R.step()
            R.true(r is None, f'{name} not rc', f'section that is not reinforced concrete gives {r}')
        R.trace()
        return
    parts = parts_of(name, motion)
    size = sl.size(parts)
    mats = sl.Mats()
    mesh = 0.01
    new = lambda: sl.section(parts, integ, mats, mesh_size=mesh)
    E, rho = [], []
    for p in parts:
        m = mats.get(p[2], p[3]) if p[0] == 'S' else mats.get(p[3], False)
        e = float(np.real(m.constitutive_law.get_tangent(0)))
        r = sl.ref_law(p[3] if p[0] == 'B' else p[2])
        R.true(any(abs(e - r.slope(0.0, s)) <= 1e-6 * abs(e) + 1e-9 for s in (1, -1)), f'{name} tangent', f'initial tangent {e} of {r.spec[0]}')
        E.append(e)
        rho.append(m.density)
    sec = new()
    R.sample({'section': name, 'motion': motion, 'integrator': integ})
    for th in TH[tier]:
        lab = f'{name} {motion} {integ} theta={th:.4g}'
        before = (sec.geometry.geometries[0].polygon.wkt, len(sec.geometry.geometries), len(sec.geometry.point_geometries),
                  [g.material for g in sec.geometry.geometries + sec.geometry.point_geometries], tuple(sec.section_calculator.integrate_strain_profile([-1e-4, -1e-7, 0])))
        out = call(calculate_elastic_cracked_properties, sec, th, True)
        only = call(calculate_elastic_cracked_properties, sec, th)
        R.step(2)
        R.state((name, motion, integ, th))
        R.trace()
        if isinstance(out, Exc) or not isinstance(out, tuple):
            R.fail(lab, f'{out}')
            continue
        after = (sec.geometry.geometries[0].polygon.wkt, len(sec.geometry.geometries), len(sec.geometry.point_geometries),
                 [g.material for g in sec.geometry.geometries + sec.geometry.point_geometries], tuple(sec.section_calculator.integrate_strain_profile([-1e-4, -1e-7, 0])))
        R.true(before[:4] == after[:4] and np.allclose(before[4], after[4], rtol=1e-9, atol=1e-9 * sl.force_scale(parts) * size), f'{lab} section changed', 'the section differs after the analysis')
        gp, geom = out
        R.true(not isinstance(only, Exc) and gp.isclose(only, rtol=1e-12), f'{lab} flag', 'result without the geometry differs')
        c, s = math.cos(th), math.sin(th)
        t0, h = cracked(parts, E, c, s)
        # the geometry
        tcut = t0
        if integ == 'fiber':
            # lowest point of the retained concrete
            steel = [sl.area_moments(p[1])[:3] for p in parts if p[0] == 'S' and not p[3]]
            own_m = lambda g: (g.polygon.area, g.polygon.area * g.polygon.centroid.y, g.polygon.area * g.polygon.centroid.x)
            conc = [g for g in geom.geometries if not any(np.allclose(own_m(g), q, rtol=1e-6, atol=1e-6 * q[0] * size) for q in steel)]
            ts = [c * z - s * y for g in conc for y, z in g.polygon.exterior.coords]
            tcut = min(ts) if ts else t0
            top = max(c * z - s * y for p in parts if p[0] == 'S' and p[3] for y, z in p[1][0])
            R.true(bool(ts) or t0 > top - 0.06 * h, f'{lab} concrete', 'no concrete in compression')
            lowest = min(c * z - s * y for p in parts if p[0] == 'S' and p[3] for y, z in p[1][0])
            R.true(abs(tcut - max(t0, lowest)) <= 0.06 * h, f'{lab} neutral axis', f'cut at {tcut}, exact neutral axis {t0}')
        geo, egeo, area, ar, mass = np.zeros(6), np.zeros(6), 0.0, 0.0, 0.0
        for p, e, d in zip(parts, E, rho):
            if p[0] == 'B':
                m = point(p)
                ar += m[0]
            else:
                m = clipped(p[1], c, s, tcut) if p[3] else sl.area_moments(p[1])
                area += m[0]
            mass += m[0] * d * 1e-9
            geo += m
            egeo += e * m
        # the neutral axis is found within the force tolerance of the solver (1e-2 N at a curvature of 1e-5)
        rt = 2e-6 + 10 * 0.02 / (egeo[0] * 1e-5) / h
        got_area = sum(g.polygon.area for g in geom.geometries)
        R.eq(got_area, area, f'{lab} geometry area', 'area of the returned surfaces', rtol=rt)
        bars = sorted((round(g.x, 6), round(g.y, 6), round(g.diameter, 9)) for g in geom.point_geometries)
        want = sorted((round(p[1][0], 6), round(p[1][1], 6), round(p[2], 9)) for p in parts if p[0] == 'B')
        R.true(np.allclose(bars, want, atol=2e-6), f'{lab} bars', f'bars {bars}')
        ts = [c * z - s * y for g in geom.geometries for y, z in g.polygon.exterior.coords]
        if all(p[0] == 'B' or p[3] for p in parts):
            R.true(min(ts) >= tcut - 1e-5 * h, f'{lab} tension', f'concrete at {min(ts)} below the neutral axis {tcut}')
        R.outcome((round(tcut / h, 6), round(egeo[3], 0)))

        def chk(f, v, atol, rtol=rt):
            R.eq(float(getattr(gp, f)), float(v), f'{lab} {f}', f, rtol=rtol, atol=atol)

        A, EA = geo[0], egeo[0]
        chk('area', area, 0)
        chk('area_reinforcement', ar, 0)
        chk('mass', mass, 0)
        chk('ea', EA, 0)
        if integ == 'fiber':
            own = GenericSection(geom, integrator='fiber', mesh_size=mesh).gross_properties
            R.true(own.isclose(gp, rtol=1e-9, atol=1e-9), f'{lab} fibre properties', 'differ from those of the returned geometry')
            rt = 0.05
        for f, v in zip(('sy', 'sz'), geo[1:3]):
            chk(f, v, rt * A * size, rt)
        for f, v in zip(('e_sy', 'e_sz'), egeo[1:3]):
            chk(f, v, rt * EA * size, rt)
        for f, v in zip(('iyy', 'izz', 'iyz'), geo[3:]):
            chk(f, v, rt * A * size**2, rt)
        for f, v in zip(('e_iyy', 'e_izz', 'e_iyz'), egeo[3:]):
            chk(f, v, rt * EA * size**2, rt)
        cy, cz = egeo[2] / EA, egeo[1] / EA
        chk('cy', cy, rt * size)
        chk('cz', cz, rt * size)
        # zero axial force: the neutral axis runs through the centroid of the cracked section
        if integ == 'marin':
            tc = c * float(gp.cz) - s * float(gp.cy)
            R.true(abs(tc - t0) <= rt * max(h, size), f'{lab} balance', f'centroid of the cracked section at {tc}, neutral axis {t0}')
            for pre, m in (('', geo), ('e_', egeo)):
                i = (m[3] - 2 * cz * m[1] + cz * cz * m[0], m[4] - 2 * cy * m[2] + cy * cy * m[0], m[5] - cy * m[1] - cz * m[2] + cy * cz * m[0])
                for f, v in zip(('iyy_c', 'izz_c', 'iyz_c'), i):
                    chk(pre + f, v, 3 * rt * (abs(m[3]) + abs(m[4])))
                avg, rad = (i[0] + i[1]) / 2, math.hypot((i[0] - i[1]) / 2, i[2])
                chk(pre + 'i11', avg + rad, 3 * rt * (abs(m[3]) + abs(m[4])))
                chk(pre + 'i22', avg - rad, 3 * rt * (abs(m[3]) + abs(m[4])))
