import math

import numpy as np

from . import seclib as sl
from .a05 import MULTI, limits
from .core import Exc, call

RULE = '''State = (section, integrator, sequence of transformations of length 1 (quick, plus chosen pairs) or 2 (thorough)): rotations,
mirrors, translations, re-ordering, division of every surface in pieces, scaling of stresses and of lengths, applied to the
coordinates and, for rotations and translations, also through the library methods. Transition = one analysis of the transformed
section; trace = the results of all analyses (limits, gross and cracked properties, integration, stiffness, bending strength,
N-M domain, moment-curvature, strain profile) compared with the transformed results of the original section.'''
ASSUMPTIONS = [
    'results of solvers agree within their force tolerance (1e-2 N) propagated to moments and strains',
    'fibre integrator: the mesh of a transformed section is another one: agreement within the discretisation (mesh 0.002: 3% of the section resultants), exactly for re-ordering of separate parts',
    'scaling of lengths and stresses is compared for integrations, domains and properties (the solver has an absolute force tolerance)',
]
SECT = {k: sl.SECTIONS[k] for k in ('rect', 'L', 'T', 'hollow', 'circle', 'steel2', 'composite', 'two', 'prestressed', 'disjoint', 'elastic', 'wrapped', 'deep', 'metres')}
SECT['two_steels'] = MULTI['two_steels']
FIB = ('L', 'hollow', 'composite')


def pieces(parts, cy, cz):
    import shapely

    out = []
    big = 1e5
    for p in parts:
        if p[0] == 'B':
            out.append(p)
            continue
        poly = shapely.Polygon(p[1][0], p[1][1:])
        for a in ((-big, cy), (cy, big)):
            for b in ((-big, cz), (cz, big)):
                q = poly.intersection(shapely.box(a[0], b[0], a[1], b[1]))
                for g in getattr(q, 'geoms', [q]):
                    if g.geom_type == 'Polygon' and g.area > 1e-9:
                        out.append(('S', (tuple(g.exterior.coords)[:-1],) + tuple(tuple(i.coords)[:-1] for i in g.interiors), *p[2:]))
    return [p for p in out if p[0] == 'S'] + [p for p in out if p[0] == 'B']


def stress_scaled(spec, k):
    kind = spec[0]
    if kind == 'Elastic':
        return (kind, spec[1] * k, spec[2])
    if kind == 'ElasticPlastic':
        return (kind, spec[1] * k, spec[2] * k, spec[3] * k, spec[4])
    if kind in ('ParabolaRectangle', 'BilinearCompression', 'Sargin'):
        return (kind, spec[1] * k) + spec[2:]
    if kind == 'UserDefined':
        return (kind, spec[1], tuple(v * k for v in spec[2])) + spec[3:]
    if kind == 'InitialStrain':
        return (kind, stress_scaled(spec[1], k)) + spec[2:]
    if kind == 'Parallel':
        return (kind, tuple(stress_scaled(s, k) for s in spec[1]), spec[2])
    raise KeyError(kind)


class T:
    """A transformation of parts with its action on angles, forces and strains."""

    def __init__(self, name, parts, theta=lambda t: t, lin=((1, 0), (0, 1)), off=(0, 0), fs=1.0, ls=1.0, lib=None):
        self.name, self.parts, self.theta, self.L, self.off, self.fs, self.ls, self.lib = name, parts, theta, np.array(lin, dtype=float), off, fs, ls, lib

    def force(self, f):
        n = f[0] * self.fs * self.ls**2
        m = self.L @ (np.array(f[1:], dtype=float) * self.fs * self.ls**3)
        return np.array([n, m[0] + n * self.off[1], m[1] - n * self.off[0]])

    def strain(self, e):
        k = self.L @ (np.array(e[1:], dtype=float) / self.ls)
        return np.array([e[0] - k[0] * self.off[1] + k[1] * self.off[0], k[0], k[1]])


def move(name, dy, dz):
    return T(name, lambda p: sl.moved(p, dy, dz), off=(dy, dz), lib=lambda g: g.translate(dy, dz))


def rot(a):
    c, s = math.cos(a), math.sin(a)
    return T(f'rot({a:.4g})', lambda p: sl.rotated(p, a), lambda t: t + a, ((c, -s), (s, c)), lib=lambda g: g.rotate(a))


def ordered(parts):
    s = [p for p in parts if p[0] == 'S'][::-1]
    return s + [p for p in parts if p[0] == 'B'][::-1]


TRANS = [
    rot(math.pi / 2), rot(0.35), rot(-2.4), rot(math.pi),
    T('mirror y', lambda p: sl.map_parts(p, lambda y, z: (-y, z)), lambda t: -t, ((1, 0), (0, -1))),
    T('mirror z', lambda p: sl.map_parts(p, lambda y, z: (y, -z)), lambda t: math.pi - t, ((-1, 0), (0, 1))),
    T('swap', lambda p: sl.map_parts(p, lambda y, z: (z, y)), lambda t: -math.pi / 2 - t, ((0, -1), (-1, 0))),
    move('move', 37.5, -210.0),
    move('far', -2500.0, 6500.0),
    T('reorder', ordered),
    T('pieces', lambda p: pieces(p, 7.0, -13.0)),
    T('stress x3', lambda p: [(q[0], q[1], stress_scaled(q[2], 3.0), q[3]) if q[0] == 'S' else (*q[:3], stress_scaled(q[3], 3.0)) for q in p], fs=3.0),
    T('length x2', lambda p: sl.scaled(p, 2.0), ls=2.0),
]

# the same for coordinates in metres
METRES = [
    {'move': move('move', 0.0375, -0.21), 'far': move('far', -2.5, 1.8), 'pieces': T('pieces', lambda p: pieces(p, 0.007, 0.413))}.get(t.name, t) for t in TRANS
]


def compose(ts):
    if len(ts) == 1:
        return ts[0]
    a, b = ts
    t = T(f'{a.name} then {b.name}', lambda p: b.parts(a.parts(p)), lambda x: b.theta(a.theta(x)), fs=a.fs * b.fs, ls=a.ls * b.ls,
          lib=(lambda g: b.lib(a.lib(g))) if a.lib and b.lib else None)
    t.force = lambda f: b.force(a.force(f))
    t.strain = lambda e: b.strain(a.strain(e))
    return t


def jobs(tier):
    n = len(TRANS)
    seqs = [(i,) for i in range(n)]
    if tier == 'quick':
        seqs += [(1, 7), (7, 1), (4, 2), (10, 1)]
    else:
        seqs += [(i, j) for i in range(n) for j in range(n)]
    out = [(tier, s, 'marin', seqs[i::4]) for s in SECT for i in range(4)]
    return out + [(tier, s, 'fiber', [q]) for s in FIB for q in seqs[:12]]


def analyses(calc, sec, n, th, tt, solver, fs, sz):
    """All results of one section for the request given in its own frame."""
    from structuralcodes.sections import calculate_elastic_cracked_properties

    out = {}
    out['limits'] = (float(calc.n_min), float(calc.n_max))
    for i, e in enumerate(tt['strains']):
        out[f'force {i}'] = np.array(calc.integrate_strain_profile(list(e)), dtype=float)
    out['stiff'] = np.array(calc.integrate_strain_profile(list(tt['strains'][0]), 'modulus'), dtype=float)
    d = calc.calculate_nm_interaction_domain(th, num_1=1, num_2=1, num_3=2, num_4=2, num_5=1, num_6=2)
    out['nm'] = (np.asarray(d.strains, dtype=float), np.asarray(d.forces, dtype=float), list(d.field_num))
    if solver:
        r = calc.calculate_bending_strength(th, n)
        out['bending'] = (np.array([r.eps_a, r.chi_y, r.chi_z], dtype=float), np.array([r.n, r.m_y, r.m_z], dtype=float))
        m = call(calc.calculate_moment_curvature, th, n, num_pre_yield=3, num_post_yield=2)
        out['mc'] = m if isinstance(m, Exc) else (np.column_stack((m.eps_axial, m.chi_y, m.chi_z)), np.column_stack((np.full(len(m.m_y), n), m.m_y, m.m_z)))
        # given curvatures, also beyond the ultimate one (with failed materials)
        k = r.chi_y * math.cos(th) + r.chi_z * math.sin(th)
        for key, q in (('mc given', n), ('mc given n=0', 0.0)):
            m = call(calc.calculate_moment_curvature, th, q, chi=[0.3 * k, 1.25 * k, 0.7 * k])
            out[key] = m if isinstance(m, Exc) else (np.column_stack((m.eps_axial, m.chi_y, m.chi_z)), np.column_stack((np.full(len(m.m_y), q), m.m_y, m.m_z)))
        try:
            p = calc.calculate_strain_profile(*[float(v) for v in tt['load']], max_iter=40, tol=1e-9)
        except (StopIteration, ValueError, np.linalg.LinAlgError) as e:
            p = Exc(e)
        out['profile'] = p if isinstance(p, Exc) else np.array(p, dtype=float)
    g = sec.gross_properties
    out['gross'] = g
    out['cracked'] = call(calculate_elastic_cracked_properties, sec, th) if solver else None
    return out


def run(job, R):
    from structuralcodes.sections import GenericSection

    tier, name, integ, seqs = job
    base = SECT[name]
    fs0, sz0 = sl.force_scale(base), sl.size(base)
    mesh = 0.002 if integ == 'fiber' else 0.01
    lo, hi, *_ = limits(base)
    mats = sl.Mats()
    b_sec = sl.section(base, integ, mats, mesh_size=mesh)
    strains = [np.array(sl.plane(base, 0.7, -0.0017, 0.0012)), np.array(sl.plane(base, -2.0, -0.0031, 0.011)), np.array([-0.0011, 0, 0])]
    for th, f in ((0.45, -0.2), (math.pi / 2, 0.1)):
        n = float(-f * lo if f < 0 else f * hi)
        load = np.array(b_sec.section_calculator.integrate_strain_profile(list(np.array(sl.plane(base, 0.4, -0.0009, 0.0004)))), dtype=float)
        ref = analyses(b_sec.section_calculator, b_sec, n, th, {'strains': strains, 'load': load}, True, fs0, sz0)
        for seq in seqs:
            ts = [(METRES if name == 'metres' else TRANS)[i] for i in seq]
            t = compose(ts)
            solver = t.fs == 1 and t.ls == 1
            parts = t.parts(base)
            ways = [('', sl.section(parts, integ, mats if solver else None, mesh_size=mesh))]
            if t.lib:
                ways.append((' by the library', GenericSection(t.lib(sl.build(base, mats)), integrator=integ, mesh_size=mesh)))
            for w, sec in ways:
                lab = f'{name} {integ} {t.name}{w} theta={th:.3g}'
                R.state((name, integ, t.name, w, th))
                size = max(sz0 * t.ls, sl.size(parts))
                fs = fs0 * t.fs * t.ls**2
                got = call(analyses, sec.section_calculator, sec, float(n * t.fs * t.ls**2), t.theta(th), {'strains': [t.strain(e) for e in strains], 'load': t.force(load)}, solver, fs, size)
                R.step(8 if solver else 5)
                R.trace()
                if isinstance(got, Exc):
                    R.fail(lab, f'{got}')
                    continue
                compare(R, lab, integ, t, ref, got, fs, size, solver, (name, seq), sec.section_calculator, n)
                R.outcome((name, round(float(got['limits'][0]), 1), round(float(got['force 1'][1]), 0)))
    R.sample({'section': name, 'integrator': integ, 'sequences': [[TRANS[i].name for i in s] for s in seqs[:4]]})


def compare(R, lab, integ, t, ref, got, fs, size, solver, seq, calc, nn):
    fib = integ == 'fiber'
    rt = 3e-2 if fib else 1e-7
    mv = np.array([1.0, size, size])

    def forces(key, a, b, tol=0.0):
        d = np.abs(np.atleast_2d(b) - np.array([t.force(x) for x in np.atleast_2d(a)]))
        R.true(d.shape == np.atleast_2d(b).shape and bool(np.all(d <= (rt * fs + tol) * mv)), f'{lab} {key}', f'{key} {b} expected {[t.force(x) for x in np.atleast_2d(a)]}')

    def strains(key, a, b, tol):
        w = np.array([t.strain(x) for x in np.atleast_2d(a)])
        b = np.atleast_2d(b)
        # compare the strains over the section
        if not R.true(w.shape == b.shape, f'{lab} {key}', f'{b.shape} profiles'):
            return
        d = np.abs(b - w)
        R.true(bool(np.all(d[:, 0] <= tol * (1 + max(map(abs, t.off))) ) and np.all(d[:, 1:] <= tol / (size / 50))) or bool(np.all(d <= 1e-6 * np.abs(w) + 1e-12)), f'{lab} {key}', f'{key} {b} expected {w}')

    k = t.fs * t.ls**2
    for i, w in enumerate(('n_min', 'n_max')):
        R.true(abs(got['limits'][i] - ref['limits'][i] * k) <= 1e-9 * fs, f'{lab} {w}', f'{w} {got["limits"][i]} expected {ref["limits"][i] * k}')
    for i in range(3):
        forces(f'force {i}', ref[f'force {i}'], got[f'force {i}'])
    # stiffness: K' = F K S^-1 for force map F and strain map S
    F = np.array([t.force(e) for e in np.eye(3)]).T
    S = np.array([t.strain(e) for e in np.eye(3)]).T
    want = F @ ref['stiff'] @ np.linalg.inv(S)
    sc = np.outer(mv, mv) * abs(want[0, 0]) + 1e-30
    R.true(bool(np.all(np.abs(got['stiff'] - want) <= (0.1 if fib else 1e-6) * sc)), f'{lab} stiffness', f'stiffness {got["stiff"]} expected {want}')
    strains('N-M strains', ref['nm'][0], got['nm'][0], 1e-9)
    R.true(ref['nm'][2] == got['nm'][2], f'{lab} N-M fields', f'{got["nm"][2]}')
    forces('N-M forces', ref['nm'][1], got['nm'][1])
    if solver and not fib:
        strains('bending strains', ref['bending'][0], got['bending'][0], 1e-7)
        forces('bending', ref['bending'][1], got['bending'][1], 0.05 + 1e-7 * fs)
        for key, lab2 in (('mc', 'moment-curvature'), ('mc given', 'moment-curvature for given curvatures'), ('mc given n=0', 'moment-curvature for given curvatures, n=0')):
            a, b = ref[key], got[key]
            if isinstance(a, Exc) or isinstance(b, Exc):
                R.true(isinstance(a, Exc) and isinstance(b, Exc), f'{lab} {lab2}', f'{b} but the original gives {a}')
            else:
                w = np.array([t.strain(x) for x in a[0]])
                if w.shape == b[0].shape:
                    strains(f'{lab2} strains', a[0], b[0], 2e-7)
                    forces(lab2, a[1], b[1], 0.05 + 1e-6 * fs)
                else:
                    R.fail(f'{lab} {lab2}', f'{len(b[0])} points instead of {len(w)}')
        a, b = ref['profile'], got['profile']
        if isinstance(a, Exc) or isinstance(b, Exc):
            R.true(isinstance(a, Exc) == isinstance(b, Exc), f'{lab} profile', f'{b} but the original gives {a}')
        else:
            strains('profile', a, b, 2e-8)
    gross(R, f'{lab} gross', t, ref['gross'], got['gross'], size, 3e-2 if fib else 1e-7, seq)
    if solver and not fib:
        a, b = ref['cracked'], got['cracked']
        if a is None or isinstance(a, Exc):
            R.true((b is None) == (a is None), f'{lab} cracked', f'{b} expected {a}')
        elif R.true(b is not None and not isinstance(b, Exc), f'{lab} cracked', f'{b}'):
            gross(R, f'{lab} cracked', t, a, b, size, 2e-5, seq, False)


def gross(R, lab, t, a, b, size, rt, seq, perimeter=True):
    l, f = t.ls, t.fs
    F = lambda g, p: np.array([[getattr(g, p + 'iyy_c'), getattr(g, p + 'iyz_c')], [getattr(g, p + 'iyz_c'), getattr(g, p + 'izz_c')]], dtype=float)

    def chk(key, got, want, scale):
        R.true(abs(float(got) - float(want)) <= rt * abs(scale), f'{lab} {key}', f'{key} {got} expected {want}')

    chk('area', b.area, a.area * l**2, a.area * l**2)
    chk('area_reinforcement', b.area_reinforcement, a.area_reinforcement * l**2, a.area * l**2)
    chk('mass', b.mass, a.mass * l**2, a.mass * l**2)
    chk('ea', b.ea, a.ea * l**2 * f, a.ea * l**2 * f)
    if perimeter:
        R.true(abs(b.perimeter - a.perimeter * l) <= rt * a.perimeter * l + 5e-6, f'{lab} perimeter', f'perimeter {b.perimeter} expected {a.perimeter * l}')
    # the centroid moves as a point: image of (0, cz, -cy) under the force map of a unit axial force there
    w = t.force([1.0, a.cz, -a.cy]) / (f * l * l)
    chk('cz', b.cz, w[1], size)
    chk('cy', b.cy, -w[2], size)
    A = a.area + a.area_reinforcement
    for p, s in (('', l**4), ('e_', l**4 * f)):
        # moments about axes: vector (My, Mz) of a unit gradient turns as a tensor
        want = F(a, p)
        L = t.L if not hasattr(t, '_L') else t._L
        # (z, -y) transforms with L, iyy=zz, izz=yy, iyz=yz -> tensor of (z,-y) has -iyz
        M = np.array([[want[0, 0], -want[0, 1]], [-want[0, 1], want[1, 1]]])
        Lm = np.array([t.force([0, 1, 0])[1:], t.force([0, 0, 1])[1:]]).T / (t.fs * t.ls**3)
        M = Lm @ M @ Lm.T * s
        sc = (abs(a.iyy_c) + abs(a.izz_c)) * l**4 if not p else (abs(a.e_iyy_c) + abs(a.e_izz_c)) * s
        # rounding of the shift to the centroid of a section far from the origin
        sc2 = sc * (1 + (size**2) * 1e-4 * A * l * l / ((abs(a.iyy_c) + abs(a.izz_c)) * l**4 + 1e-30))
        chk(p + 'iyy_c', getattr(b, p + 'iyy_c'), M[0, 0], sc2)
        chk(p + 'izz_c', getattr(b, p + 'izz_c'), M[1, 1], sc2)
        chk(p + 'iyz_c', getattr(b, p + 'iyz_c'), -M[0, 1], sc2)
        chk(p + 'i11', getattr(b, p + 'i11'), getattr(a, p + 'i11') * s, sc2)
        chk(p + 'i22', getattr(b, p + 'i22'), getattr(a, p + 'i22') * s, sc2)
