import copy
import dataclasses
import math

import numpy as np

from . import seclib as sl
from .a02 import EXTRA
from .core import Exc, call

RULE = '''State = (section of the catalogue, rigid motion / vertex orientation / mirror / unit scale, integrator). Transition = reading
gross_properties of a newly built section; trace = one such object of which every field is compared with its defining integral
(closed-form polygon moments plus points), principal moments and angles through the transformation law.'''
ASSUMPTIONS = [
    'second moments without E count surfaces and points once each; area counts surfaces only; the perimeter is the length of the outer boundary of connected sections',
    'fibre integrator: moments equal those lumped in the fibres of the same mesh, and the exact ones within 2*mesh^0.75',
]
MORE = {
    'angle': [('S', (sl.L_SHAPE,), sl.ST, False)],
    'square': [('S', (sl.rect(200, 200),), sl.EL, False)],
    'zed': [('S', (((-80.0, 100.0), (-80.0, 90.0), (-5.0, 90.0), (-5.0, -100.0), (80.0, -100.0), (80.0, -90.0), (5.0, -90.0), (5.0, 100.0)),), sl.ST, False)],
    'points': [('S', (sl.rect(10, 10, -3, 8),), sl.EL, True)] + sl.bars([(100, 100), (-100, -150)], 20, sl.S),
    'touching': [('S', (sl.rect(100, 100, 0, 0),), sl.C, True), ('S', (sl.rect(100, 300, 100, 100),), sl.ST, False)] + sl.bars([(130, 180)], 40, sl.SP),
}
MOTIONS = ['id', 'rot0.5', 'rot90', 'rot-2.3', 'mirror', 'reverse', 'move', 'moverot', 'swapyz', 'reorder', 'half']
DENS = {'rot90': (2500.0, 0.0), 'mirror': (0.0, 7850.0), 'move': (1.0, 1e-3), 'half': (0.0, 0.0), 'reverse': (1e5, 2e4)}  # densities of the two kinds of material


def parts_of(name, motion):
    P = {**sl.SECTIONS, **EXTRA, **MORE}[name]
    if motion == 'rot0.5':
        return sl.rotated(P, 0.5)
    if motion == 'rot90':
        return sl.map_parts(P, lambda y, z: (-z, y))
    if motion == 'rot-2.3':
        return sl.rotated(P, -2.3)
    if motion == 'mirror':
        return sl.map_parts(P, lambda y, z: (-y, z))
    if motion == 'swapyz':
        return sl.map_parts(P, lambda y, z: (z, y))
    if motion == 'reverse':
        return [('S', tuple(r[::-1] for r in p[1]), *p[2:]) if p[0] == 'S' else p for p in P]
    if motion == 'move':
        k = sl.size(P)
        return sl.moved(P, 1.7 * k, -0.9 * k)
    if motion == 'moverot':
        k = sl.size(P)
        return sl.rotated(sl.moved(P, -0.6 * k, 2.2 * k), 1.1)
    if motion == 'reorder':
        s = [p for p in P if p[0] == 'S'][::-1]
        return [p for p in P if p[0] == 'B'][::-1] + s
    if motion == 'half':
        return sl.scaled(P, 0.5)
    return P


def jobs(tier):
    names = list(sl.SECTIONS) + list(EXTRA) + list(MORE)
    out = [(n, m, 'marin', 0.01) for n in names for m in MOTIONS]
    meshes = (0.02,) if tier == 'quick' else (0.1, 0.02, 0.005)
    out += [(n, m, 'fiber', h) for n in names for m in MOTIONS for h in meshes if tier == 'thorough' or m in ('id', 'moverot', 'mirror')]
    return out


def run(job, R):
    import shapely

    name, motion, integ, mesh = job
    parts = parts_of(name, motion)
    lab = f'{name} {motion} {integ}'
    mats = sl.Mats(DENS.get(motion))
    sec = sl.section(parts, integ, mats, mesh_size=mesh)
    gp = call(lambda: sec.gross_properties)
    R.state(job)
    R.step()
    R.trace()
    if isinstance(gp, Exc):
        R.fail(lab, f'gross properties: {gp}')
        return
    size = sl.size(parts)

    def E_of(spec, conc):
        law = mats.get(spec, conc).constitutive_law
        E = float(np.real(law.get_tangent(0)))
        r = sl.ref_law(spec)
        if spec[0] == 'InitialStrain' and not spec[3]:
            return E
        R.true(any(abs(E - r.slope(0.0, s)) <= 1e-6 * abs(E) + 1e-9 for s in (1, -1)), f'{lab} tangent {spec[0]}', f'initial tangent {E}')
        return E

    def rho(spec, conc):
        d = DENS.get(motion)
        return mats.get(spec, conc).density if d is None else d[0 if conc else 1]

    geo = np.zeros(6)
    egeo = np.zeros(6)
    area = ar = mass = 0.0
    for p in parts:
        if p[0] == 'S':
            m = sl.area_moments(p[1])
            area += m[0]
            e = E_of(p[2], p[3])
            mass += m[0] * rho(p[2], p[3]) * 1e-9
        else:
            a = sl.bar_area(p)
            y, z = p[1]
            m = a * np.array([1, z, y, z * z, y * y, y * z])
            ar += a
            e = E_of(p[3], False)
            mass += a * rho(p[3], False) * 1e-9
        geo += m
        egeo += e * m

    def chk(field, want, atol, rtol=1e-9):
        got = float(getattr(gp, field))
        R.eq(got, float(want), f'{lab} {field}', field, rtol=rtol, atol=atol)
        R.outcome((field, round(got, 6)))

    if integ == 'fiber':
        # the same integrals over the fibres
        from structuralcodes.sections import FiberIntegrator

        fs = FiberIntegrator().triangulate(sl.build(parts, mats), mesh)
        laws = {id(m.constitutive_law): m for m in mats.d.values()}
        lump, elump = np.zeros(6), np.zeros(6)
        for x, y, a, law in fs:
            m = np.array([np.sum(a), np.sum(a * y), np.sum(a * x), np.sum(a * y * y), np.sum(a * x * x), np.sum(a * x * y)])
            lump += m
            elump += float(np.real(laws[id(law)].constitutive_law.get_tangent(0))) * m
        tolm = 2 * mesh**0.75
        R.true(bool((np.abs(lump - geo) <= tolm * geo[0] * np.array([1e-7, size, size, size**2, size**2, size**2])).all()), f'{lab} lumped', 'lumped moments far from the exact ones')
        geo2, egeo2 = lump, elump
        rt = 1e-6
    else:
        geo2, egeo2, rt = geo, egeo, 1e-8
    A, EA = geo[0], egeo[0]
    chk('area', area, 0)
    chk('area_reinforcement', ar, 0)
    chk('mass', mass, 0)
    chk('ea', EA, 0)
    u = shapely.union_all([shapely.Polygon(p[1][0], p[1][1:]).buffer(0) for p in parts if p[0] == 'S'], grid_size=1e-6)
    if u.geom_type == 'Polygon':
        chk('perimeter', u.exterior.length, 1e-4, 1e-9)
    for f, v in zip(('sy', 'sz'), geo2[1:3]):
        chk(f, v, 1e-9 * A * size, rt)
    for f, v in zip(('e_sy', 'e_sz'), egeo2[1:3]):
        chk(f, v, 1e-9 * EA * size, rt)
    for f, v in zip(('iyy', 'izz', 'iyz'), geo2[3:]):
        chk(f, v, 1e-9 * A * size**2, rt)
    for f, v in zip(('e_iyy', 'e_izz', 'e_iyz'), egeo2[3:]):
        chk(f, v, 1e-9 * EA * size**2, rt)
    cy, cz = egeo[2] / EA, egeo[1] / EA
    chk('cy', cy, 1e-8 * size, 1e-8)
    chk('cz', cz, 1e-8 * size, 1e-8)
    # steiner
    def central(m):
        return (
            m[3] - 2 * cz * m[1] + cz * cz * m[0],
            m[4] - 2 * cy * m[2] + cy * cy * m[0],
            m[5] - cy * m[1] - cz * m[2] + cy * cz * m[0],
        )

    # a mesh of the translated section may be another one: bound by the mesh size
    ft = 0.0 if integ == 'marin' else 2 * mesh**0.75
    own = max(abs(geo[3]), abs(geo[4]))
    for pre, m, A0 in (('', geo, A), ('e_', egeo, EA)):
        c = central(m)
        sc = abs(c[0]) + abs(c[1])
        for f, v in zip(('iyy_c', 'izz_c', 'iyz_c'), c):
            chk(pre + f, v, 2e-8 * A0 * own / geo[0] + ft * sc, 1e-8)
        i11, i22 = float(getattr(gp, pre + 'i11')), float(getattr(gp, pre + 'i22'))
        th = float(getattr(gp, pre + 'theta'))
        iyy, izz, iyz = (float(getattr(gp, pre + f)) for f in ('iyy_c', 'izz_c', 'iyz_c'))
        s = abs(iyy) + abs(izz)
        cc, ss = math.cos(th), math.sin(th)
        R.true(i11 >= i22 - 1e-9 * s, f'{lab} {pre}order', f'i11={i11} < i22={i22}')
        R.eq(i11, cc * cc * iyy - 2 * cc * ss * iyz + ss * ss * izz, f'{lab} {pre}i11 at theta', f'theta={th} i11', rtol=1e-9, atol=1e-8 * s)
        R.eq(i22, ss * ss * iyy + 2 * cc * ss * iyz + cc * cc * izz, f'{lab} {pre}i22 at theta', f'theta={th} i22', rtol=1e-9, atol=1e-8 * s)
        R.eq(cc * ss * (iyy - izz) + (cc * cc - ss * ss) * iyz, 0.0, f'{lab} {pre}product at theta', f'theta={th} product moment', atol=1e-7 * s)
    R.true(call(lambda: sec.gross_properties) is gp or gp.isclose(sec.gross_properties, rtol=0, atol=0), f'{lab} again', 'read twice differs')
    if motion in ('id', 'moverot'):
        record(R, lab, gp)
    R.sample({'section': name, 'motion': motion, 'iyy': geo[3]})


def record(R, lab, gp):
    """The record of the properties: compared and printed value by value."""
    names = [f.name for f in dataclasses.fields(gp)]
    same = copy.copy(gp)
    R.true(gp.isclose(same) is True or bool(gp.isclose(same)), f'{lab} close to itself', 'not close')
    for f in names:
        v = float(getattr(gp, f))
        for far, d in ((False, 0.5), (True, 3.0), (True, -3.0), (False, -0.5)):
            for rtol, atol in ((1e-5, 1e-8), (1e-2, 0.0), (0.0, 1e-3)):
                step = d * (atol + rtol * abs(v))
                if abs(v + step - v) < 0.9 * abs(step) or step == 0 or (far and abs(step) <= atol + rtol * abs(v + step)):
                    continue
                other = copy.copy(gp)
                setattr(other, f, v + step)
                kw = {} if (rtol, atol) == (1e-5, 1e-8) else {'rtol': rtol, 'atol': atol}
                R.true(bool(gp.isclose(other, **kw)) is (not far), f'{lab} {f} {d} {rtol} {atol}', f'{f}={v} against {v + step}: close={not far} expected')
    for spec in ('', '.3f', '.5e'):
        lines = (str(gp) if not spec else format(gp, spec)).split('\n')
        for fd in dataclasses.fields(gp):
            R.true(f"{fd.metadata['description']}: {getattr(gp, fd.name):{spec}}" in lines, f'{lab} text {spec}', f'{fd.name} is not shown')
    for other in (1.0, None, 'x'):
        r = call(gp.isclose, other)
        R.true(r is NotImplemented or isinstance(r, Exc), f'{lab} other kind', f'{other}: {r}')
