"""Sections as plain data, their real counterparts and an independent reference.

A *part* is one of

    ('S', rings, lawspec, concrete)        surface, rings = (outer, hole, ...)
    ('B', (y, z), diameter, lawspec)       point reinforcement

and a section is a list of parts.  ``build`` makes the real geometry from it;
everything else in this module integrates the parts directly (slab by slab
with Gauss points, even-odd rule) without any code of the library.
"""
import math

import numpy as np

from .ref_laws import Ref, lib_law

# ------------------------------------------------------------------ materials
C = ('ParabolaRectangle', 17.0, 0.002, 0.0035, 2.0)
C2 = ('ParabolaRectangle', 34.0, 0.002, 0.0035, 2.0)
CB = ('BilinearCompression', 20.0, 0.00175, 0.0035)
CU = ('UserDefined', (-0.0035, -0.002, -0.0007, 0.0, 0.0001, 0.0004), (-28.0, -30.0, -20.0, 0.0, 2.5, 0.0), 0, None)
CS = ('Sargin', 38.0, 0.0023, 0.0035, 2.0)
S = ('ElasticPlastic', 200000.0, 435.0, 0.0, 0.025)
SH = ('ElasticPlastic', 200000.0, 450.0, 900.0, 0.05)
SP = ('InitialStrain', ('ElasticPlastic', 195000.0, 1400.0, 2000.0, 0.035), 0.005, True)
ST = ('ElasticPlastic', 210000.0, 355.0, 0.0, 0.15)
EL = ('Elastic', 30000.0, None)
ELS = ('Elastic', 200000.0, None)
EU = ('Elastic', 70000.0, (-0.004, 0.006))


def rect(w, h, y0=0.0, z0=0.0):
    return ((y0 - w / 2, z0 - h / 2), (y0 + w / 2, z0 - h / 2), (y0 + w / 2, z0 + h / 2), (y0 - w / 2, z0 + h / 2))


def ngon(r, n, y0=0.0, z0=0.0, a0=0.0):
    return tuple((y0 + r * math.cos(a0 + 2 * math.pi * i / n), z0 + r * math.sin(a0 + 2 * math.pi * i / n)) for i in range(n))


def bars(pts, d, law):
    return [('B', (float(y), float(z)), float(d), law) for y, z in pts]


def i_shape(h, b, tw, tf, y0=0.0, z0=0.0):
    p = [(-b / 2, -h / 2), (b / 2, -h / 2), (b / 2, -h / 2 + tf), (tw / 2, -h / 2 + tf), (tw / 2, h / 2 - tf), (b / 2, h / 2 - tf),
         (b / 2, h / 2), (-b / 2, h / 2), (-b / 2, h / 2 - tf), (-tw / 2, h / 2 - tf), (-tw / 2, -h / 2 + tf), (-b / 2, -h / 2 + tf)]
    return tuple((y0 + y, z0 + z) for y, z in p)


L_SHAPE = ((0.0, 0.0), (400.0, 0.0), (400.0, 160.0), (150.0, 160.0), (150.0, 520.0), (0.0, 520.0))
T_SHAPE = ((-300.0, 200.0), (-300.0, 80.0), (-110.0, 80.0), (-110.0, -380.0), (90.0, -380.0), (90.0, 80.0), (340.0, 80.0), (340.0, 200.0))
U_HOLE = ((-60.0, -80.0), (-60.0, 80.0), (-30.0, 80.0), (-30.0, -40.0), (30.0, -40.0), (30.0, 80.0), (60.0, 80.0), (60.0, -80.0))

SECTIONS = {
    # one layer more at the bottom, symmetric about z only
    'rect': [('S', (rect(300, 500),), C, True)]
    + bars([(-105, -205), (0, -205), (105, -205)], 20, S) + bars([(-105, 208), (105, 208)], 12, S),
    # everything asymmetric, origin at a vertex, two steels
    'L': [('S', (L_SHAPE,), C2, True)]
    + bars([(45, 45), (140, 45), (250, 45), (355, 45)], 22, S) + bars([(45, 475), (105, 475)], 16, SH) + bars([(355, 115)], 14, S),
    'T': [('S', (T_SHAPE,), CB, True)]
    + bars([(-65, -340), (-10, -340), (45, -340), (-65, -290)], 25, SH) + bars([(-250, 160), (0, 160), (290, 160)], 10, SH),
    # excentric non convex hole
    'hollow': [('S', (rect(500, 420, 30, -20), tuple((y + 70, z - 35) for y, z in U_HOLE)), C, True)]
    + bars([(-180, -190), (80, -190), (240, -190), (240, 150), (-180, 150)], 18, S),
    'circle': [('S', (ngon(250, 20),), C, True)] + bars(ngon(205, 7, 0, 0, 0.3), 20, S),
    # welded steel shape, no concrete
    'steel': [('S', (i_shape(300, 150, 8, 12),), ST, False)],
    'steel2': [('S', (i_shape(300, 150, 8, 12, 20.0, 45.0),), SH, False), ('S', (rect(90, 20, 20.0, -115.0),), SH, False)],
    # steel shape under a concrete slab with bars
    'composite': [('S', (rect(900, 120, 0, 210),), C, True), ('S', (i_shape(300, 150, 8, 12, 0, 0),), S, False)]
    + bars([(-400, 240), (-130, 240), (130, 240), (400, 240)], 12, S),
    # two materials of concrete in two touching surfaces, one split shape
    'two': [('S', (rect(300, 200, 0, 150),), C2, True), ('S', (rect(300, 300, 0, -100),), C, True)]
    + bars([(-110, -210), (110, -210), (-110, 215), (110, 215)], 16, S),
    'prestressed': [('S', (T_SHAPE,), C2, True)]
    + bars([(-60, -330), (40, -330)], 16, SP) + bars([(-250, 160), (290, 160)], 12, SH),
    'disjoint': [('S', (rect(150, 400, -250, 20),), CU, True), ('S', (ngon(110, 6, 200, 0, 0.2),), CU, True)]
    + bars([(-290, -150), (-210, 190), (200, 60), (230, -50)], 18, SH),
    'elastic': [('S', (L_SHAPE,), EL, True)] + bars([(45, 45), (355, 45), (45, 475)], 25, ELS),
    'tube': [('S', (rect(200, 300, 10, 0), rect(180, 276, 12, 3)), EU, False)],
    # laws with initial strain on surfaces, combined laws
    'wrapped': [('S', (rect(240, 300, -150, 30),), ('InitialStrain', C, -0.0004, True), False),
                ('S', (L_SHAPE,), ('InitialStrain', ST, 0.0012, True), False),
                ('S', (rect(100, 150, 300, -40),), ('InitialStrain', C2, -0.0005, False), False),
                ('S', (ngon(90, 5, -300, -200, 0.3),), ('Parallel', (('ElasticPlastic', 100000.0, 200.0, 100.0, 0.02), ('ElasticPlastic', 50000.0, 250.0, 0.0, 0.02)), (1.0, 0.5)), False)]
    + bars([(-200, 100), (100, 60)], 30, ('Parallel', (S, SH), None)) + bars([(50, -200)], 30, ('InitialStrain', SH, 0.001, False)),
    # laws that differ from each other in a single parameter
    'twins': [('S', (rect(200, 300, -100, 0),), C, True), ('S', (rect(200, 300, 100, 0),), ('ParabolaRectangle', 23.0, 0.002, 0.0035, 2.0), True),
              ('S', (rect(200, 100, -100, 200),), ('ParabolaRectangle', 17.0, 0.0017, 0.0035, 2.0), True), ('S', (rect(200, 100, 100, 200),), ('ParabolaRectangle', 17.0, 0.002, 0.0032, 2.0), True)]
    + bars([(-150, -120), (30, 220)], 20, S) + bars([(-50, -120)], 20, ('ElasticPlastic', 200000.0, 520.0, 0.0, 0.025))
    + bars([(50, -120)], 20, ('ElasticPlastic', 200000.0, 435.0, 700.0, 0.025)) + bars([(150, -120)], 20, ('ElasticPlastic', 180000.0, 435.0, 0.0, 0.025))
    + bars([(150, 100)], 20, ('ElasticPlastic', 200000.0, 435.0, 0.0, 0.03)),
    # fins of very different widths on both sides
    'comb': [('S', (((-200.0, -150.0), (-200.0, -250.0), (-197.0, -250.0), (-197.0, -150.0), (120.0, -150.0), (120.0, -210.0), (200.0, -210.0), (200.0, 150.0),
                     (196.0, 150.0), (196.0, 80.0), (-60.0, 80.0), (-60.0, 240.0), (-110.0, 240.0), (-110.0, 80.0), (-195.0, 80.0), (-195.0, 190.0), (-200.0, 190.0)),), C2, True)]
    + bars([(160, -180), (-198.5, -100), (-85, 200)], 18, S),
    # a bridge girder
    'deep': [('S', (tuple((12 * y, 12 * z) for y, z in T_SHAPE),), C2, True)]
    + bars([(-800, -4100), (-100, -4100), (500, -4100), (-800, -3500)], 200, SH) + bars([(-3000, 1900), (0, 1900), (3400, 1900)], 140, S),
    # metres and Pascal
    'metres': [('S', (tuple((y / 1000, z / 1000) for y, z in L_SHAPE),), ('ParabolaRectangle', 34.0e6, 0.002, 0.0035, 2.0), True)]
    + bars([(0.045, 0.045), (0.14, 0.045), (0.25, 0.045), (0.355, 0.045)], 0.022, ('ElasticPlastic', 200000.0e6, 435.0e6, 0.0, 0.025))
    + bars([(0.045, 0.475), (0.105, 0.475), (0.355, 0.115)], 0.016, ('ElasticPlastic', 200000.0e6, 450.0e6, 900.0e6, 0.05)),
    'sargin': [('S', (rect(250, 450),), CS, True)] + bars([(-80, -190), (80, -190), (0, 190)], 20, SH),
}


# ------------------------------------------------------------------ transforms
def map_parts(parts, f, scale=1.0):
    out = []
    for p in parts:
        if p[0] == 'S':
            out.append(('S', tuple(tuple(f(*q) for q in r) for r in p[1]), p[2], p[3]))
        else:
            out.append(('B', tuple(f(*p[1])), p[2] * scale, p[3]))
    return out


def rotated(parts, a):
    c, s = math.cos(a), math.sin(a)
    return map_parts(parts, lambda y, z: (c * y - s * z, s * y + c * z))


def moved(parts, dy, dz):
    return map_parts(parts, lambda y, z: (y + dy, z + dz))


def scaled(parts, k):
    return map_parts(parts, lambda y, z: (k * y, k * z), k)


# ------------------------------------------------------------------ real objects
class Mats:
    """Materials of one build: one object per law specification."""

    def __init__(self, density=None):
        self.d = {}
        self.density = density  # (concrete materials, other materials), None for the default

    def get(self, spec, concrete):
        from structuralcodes.materials.basic import GenericMaterial
        from structuralcodes.materials.concrete import create_concrete

        key = (spec, concrete)
        if key not in self.d:
            if concrete:
                kw = {} if self.density is None else {'density': self.density[0]}
                m = create_concrete(fck=30.0, design_code='ec2_2004', constitutive_law=lib_law(spec), **kw)
            else:
                m = GenericMaterial(density=7850 if self.density is None else self.density[1], constitutive_law=lib_law(spec))
            self.d[key] = m
        return self.d[key]


def build(parts, mats=None):
    """The real CompoundGeometry of the parts."""
    from shapely import Polygon

    from structuralcodes.geometry import CompoundGeometry, PointGeometry, SurfaceGeometry

    mats = mats or Mats()
    out = []
    for p in parts:
        if p[0] == 'S':
            out.append(SurfaceGeometry(Polygon(p[1][0], p[1][1:]), mats.get(p[2], p[3]), concrete=p[3]))
        else:
            out.append(PointGeometry(p[1], p[2], mats.get(p[3], False)))
    return CompoundGeometry(out)


def section(parts, integrator='marin', mats=None, **kw):
    from structuralcodes.sections import GenericSection

    return GenericSection(build(parts, mats), integrator=integrator, **kw)


# ------------------------------------------------------------------ reference
_REF = {}


def ref_law(spec, snap=True):
    """Reference law; snap=False removes the tolerance at the ultimate strains."""
    key = (spec, snap)
    if key not in _REF:
        r = Ref(spec)
        if not snap:
            todo = [r]
            while todo:
                q = todo.pop()
                q.snap = lambda e: e
                todo += [q.b] if q.kind == 'InitialStrain' else []
                todo += q.parts if q.kind == 'Parallel' else []
        _REF[key] = r
    return _REF[key]


GX, GW = np.polynomial.legendre.leggauss(6)


def edges_of(rings):
    E = []
    for r in rings:
        for i in range(len(r)):
            E.append((*r[i], *r[(i + 1) % len(r)]))
    return np.array(E, dtype=float)


def slab_points(rings, gy, gz, cuts):
    """Gauss points of the slabs perpendicular to the unit vector (gy, gz).

    Returns t, weight, and per point the integrals of 1, s, s^2 over the chord.
    """
    E = edges_of(rings)
    t1 = gy * E[:, 0] + gz * E[:, 1]
    t2 = gy * E[:, 2] + gz * E[:, 3]
    s1 = -gz * E[:, 0] + gy * E[:, 1]
    s2 = -gz * E[:, 2] + gy * E[:, 3]
    lo, hi = t1.min(), t1.max()
    br = np.unique(np.concatenate((t1, [c for c in cuts if lo < c < hi])))
    keep = np.concatenate(([True], np.diff(br) > 1e-11 * (hi - lo)))
    br = br[keep]
    br[-1] = max(br[-1], hi)
    a, b = br[:-1], br[1:]
    T = ((a + b) / 2)[:, None] + ((b - a) / 2)[:, None] * GX[None, :]
    W = ((b - a) / 2)[:, None] * GW[None, :]
    T, W = T.ravel(), W.ravel()
    # crossings
    tt = T[:, None]
    crosses = (t1[None, :] < tt) != (t2[None, :] < tt)
    with np.errstate(all='ignore'):
        sc = s1 + (tt - t1) / (t2 - t1) * (s2 - s1)
    sc = np.where(crosses, sc, np.inf)
    sc.sort(axis=1)
    n = crosses.sum(axis=1)
    m0 = np.zeros_like(T)
    m1 = np.zeros_like(T)
    m2 = np.zeros_like(T)
    for j in range(0, int(n.max()) if n.size else 0, 2):
        ok = n > j + 1
        x, y = sc[ok, j], sc[ok, j + 1]
        m0[ok] += y - x
        m1[ok] += (y**2 - x**2) / 2
        m2[ok] += (y**3 - x**3) / 3
    return T, W, m0, m1, m2


def area_moments(rings):
    """A, Sy=int z, Sz=int y, Iyy=int z^2, Izz=int y^2, Iyz=int y z."""
    out = np.zeros(6)
    for i, r in enumerate(rings):
        y = np.array([p[0] for p in r])
        z = np.array([p[1] for p in r])
        y2, z2 = np.roll(y, -1), np.roll(z, -1)
        c = y * z2 - y2 * z
        v = np.array([
            c.sum() / 2,
            ((z + z2) * c).sum() / 6,
            ((y + y2) * c).sum() / 6,
            ((z * z + z * z2 + z2 * z2) * c).sum() / 12,
            ((y * y + y * y2 + y2 * y2) * c).sum() / 12,
            ((y * z2 + 2 * y * z + 2 * y2 * z2 + y2 * z) * c).sum() / 24,
        ])
        v *= math.copysign(1.0, v[0])
        out += v if i == 0 else -v
    return out


def bar_area(p):
    return math.pi * p[2] ** 2 / 4


def strain_at(strain, y, z):
    return strain[0] + strain[1] * z - strain[2] * y


def resultants(parts, strain):
    """Exact N, My, Mz of the strain plane (ea, chi_y, chi_z)."""
    N = My = Mz = 0.0
    ea, ky, kz = strain
    k = math.hypot(ky, kz)
    for p in parts:
        if p[0] == 'B':
            y, z = p[1]
            f = ref_law(p[3]).stress(strain_at(strain, y, z)) * bar_area(p)
            N += f
            My += f * z
            Mz -= f * y
        elif k == 0:
            sg = ref_law(p[2]).stress(ea)
            A, Sy, Sz = area_moments(p[1])[:3]
            N += sg * A
            My += sg * Sy
            Mz -= sg * Sz
        else:
            r = ref_law(p[2], False)
            gy, gz = -kz / k, ky / k
            cuts = [(e - ea) / k for e in r.allkinks()]
            T, W, m0, m1, _ = slab_points(p[1], gy, gz, cuts)
            sg = np.array([r.stress(ea + k * t) for t in T]) * W
            n0 = float((sg * m0).sum())
            mt = float((sg * T * m0).sum())
            ms = float((sg * m1).sum())
            # p = t*g + s*h with h = (-gz, gy)
            N += n0
            My += gz * mt + gy * ms
            Mz -= gy * mt - gz * ms
    return np.array([N, My, Mz])


def stiffness(parts, strain, side=1):
    """Exact derivative of the resultants (no stress jump inside the section)."""
    K = np.zeros((3, 3))
    ea, ky, kz = strain
    k = math.hypot(ky, kz)

    def add(E, A, Sy, Sz, Iyy, Izz, Iyz):
        K[0, 0] += E * A
        K[0, 1] += E * Sy
        K[0, 2] -= E * Sz
        K[1, 1] += E * Iyy
        K[1, 2] -= E * Iyz
        K[2, 2] += E * Izz

    for p in parts:
        if p[0] == 'B':
            y, z = p[1]
            A = bar_area(p)
            add(ref_law(p[3]).slope(strain_at(strain, y, z), side), A, A * z, A * y, A * z * z, A * y * y, A * y * z)
        elif k == 0:
            add(ref_law(p[2]).slope(ea, side), *area_moments(p[1]))
        else:
            r = ref_law(p[2], False)
            gy, gz = -kz / k, ky / k
            cuts = [(e - ea) / k for e in r.allkinks()]
            T, W, m0, m1, m2 = slab_points(p[1], gy, gz, cuts)
            E = np.array([r.slope(ea + k * t, 1) for t in T]) * W
            a = (E * m0).sum()
            t1, s1 = (E * T * m0).sum(), (E * m1).sum()
            tt, ts, ss = (E * T * T * m0).sum(), (E * T * m1).sum(), (E * m2).sum()
            Sy, Sz = gz * t1 + gy * s1, gy * t1 - gz * s1
            Iyy = gz * gz * tt + 2 * gz * gy * ts + gy * gy * ss
            Izz = gy * gy * tt - 2 * gy * gz * ts + gz * gz * ss
            Iyz = gy * gz * tt + (gy * gy - gz * gz) * ts - gy * gz * ss
            add(1.0, a, Sy, Sz, Iyy, Izz, Iyz)
    K[1, 0], K[2, 0], K[2, 1] = K[0, 1], K[0, 2], K[1, 2]
    return K


def points_of(parts):
    """(y, z, law) of every vertex of every surface and every bar."""
    out = []
    for p in parts:
        if p[0] == 'B':
            out.append((p[1][0], p[1][1], p[3]))
        else:
            for r in p[1]:
                out += [(q[0], q[1], p[2]) for q in r]
    return out


def size(parts):
    pts = points_of(parts)
    return max(max(abs(y), abs(z)) for y, z, _ in pts)


def extents(parts, gy, gz, surfaces_only=False):
    ts = []
    for p in parts:
        if p[0] == 'S':
            ts += [gy * y + gz * z for y, z in p[1][0]]
        elif not surfaces_only:
            ts.append(gy * p[1][0] + gz * p[1][1])
    return min(ts), max(ts)


def force_scale(parts):
    """Sum of area times largest stress."""
    f = 0.0
    for p in parts:
        spec = p[3] if p[0] == 'B' else p[2]
        r = ref_law(spec)
        es = [e for e in r.allkinks() if abs(e) < 1] + [-0.003, 0.003]
        s = max(abs(r.stress(e)) for e in es)
        f += s * (bar_area(p) if p[0] == 'B' else abs(area_moments(p[1])[0]))
    return f


def kink_strains(parts):
    out = set()
    for p in parts:
        r = ref_law(p[3] if p[0] == 'B' else p[2])
        out |= {e for e in r.allkinks() if abs(e) < 1}
    return sorted(out)


def plane(parts, ang, e_lo, e_hi):
    """Plane with gradient direction ang and given strains at both extreme surface points."""
    gy, gz = math.cos(ang), math.sin(ang)
    lo, hi = extents(parts, gy, gz, True)
    k = (e_hi - e_lo) / (hi - lo)
    return (e_lo - k * lo, k * gz, -k * gy)


def law_limits(spec):
    return ref_law(spec).lim


def utilisation(parts, strain):
    """Largest ratio strain/limit over all points (1 = at the ultimate strain), and its location."""
    best, where = -1.0, None
    for y, z, spec in points_of(parts):
        e = strain_at(strain, y, z)
        lo, hi = law_limits(spec)
        u = e / hi if e > 0 else (e / lo if lo < 0 else (0.0 if e == 0 else math.inf))
        if u > best:
            best, where = u, (y, z, e, spec)
    return best, where
