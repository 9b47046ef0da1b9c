import itertools
import math

import numpy as np

from .core import Exc, call

RULE = '''State = (geometry kind, sequence of transformations). Kinds: point, surface with holes, rectangle, circle, compound with bars,
compound of compounds, geometry made by subtraction. Transformations: translations (positional, keyword and default arguments),
rotations (default origin, tuple and Point origin, radians and degrees), mirrors (horizontal, vertical, oblique, both directions).
Explored: every sequence up to length 2 (thorough: 3) on every kind, and every transformation followed by its inverse. Transition = one library call;
trace = one sequence: after each call all coordinates (in order), attributes and classifications are compared with the exact image
computed with 3x3 matrices, and the geometry it was called on with its serialised form before.'''
ASSUMPTIONS = ['coordinates agree to 1e-9 of the distance to the origin']


def rot(a, p=(0.0, 0.0)):
    c, s = math.cos(a), math.sin(a)
    x, y = p
    return np.array([[c, -s, x - c * x + s * y], [s, c, y - s * x - c * y], [0, 0, 1]])


def tr(dx, dy):
    return np.array([[1, 0, dx], [0, 1, dy], [0, 0, 1.0]])


def mir(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = math.hypot(dx, dy)
    ux, uy = dx / n, dy / n
    R = np.array([[2 * ux * ux - 1, 2 * ux * uy], [2 * ux * uy, 2 * uy * uy - 1]])
    t = np.array(a, dtype=float) - R @ np.array(a, dtype=float)
    return np.array([[R[0, 0], R[0, 1], t[0]], [R[1, 0], R[1, 1], t[1]], [0, 0, 1]])


def transforms():
    from shapely import LineString, Point

    L = lambda a, b: (lambda g: g.mirror(LineString([a, b])), mir(a, b))
    d = math.radians
    T = {
        'translate(30,-70.5)': (lambda g: g.translate(30, -70.5), tr(30, -70.5)),
        'translate(dx)': (lambda g: g.translate(dx=-12.25), tr(-12.25, 0)),
        'translate(dy)': (lambda g: g.translate(dy=1e4), tr(0, 1e4)),
        'translate()': (lambda g: g.translate(), tr(0, 0)),
        'rotate(0.4)': (lambda g: g.rotate(0.4), rot(0.4)),
        'rotate()': (lambda g: g.rotate(), rot(0)),
        'rotate(-90 deg)': (lambda g: g.rotate(-90, use_radians=False), rot(d(-90))),
        'rotate(pi, point)': (lambda g: g.rotate(math.pi, (40.0, -25.0)), rot(math.pi, (40, -25))),
        'rotate(-2.5, Point)': (lambda g: g.rotate(angle=-2.5, point=Point(-300, 110)), rot(-2.5, (-300, 110))),
        'rotate(400 deg, point)': (lambda g: g.rotate(400, point=(7.0, 0.0), use_radians=False), rot(d(400), (7, 0))),
        'mirror y axis': L((0, -10), (0, 10)),
        'mirror x axis': L((5, 0), (-5, 0)),
        'mirror oblique': L((10, 20), (60, 140)),
        'mirror oblique back': L((-30, 50), (-90, 20)),
        'translate tiny': (lambda g: g.translate(3e-6, -2e-6), tr(3e-6, -2e-6)),
        'rotate tiny': (lambda g: g.rotate(1e-7), rot(1e-7)),
    }
    inverse = {
        'translate(30,-70.5)': lambda g: g.translate(-30, 70.5), 'translate(dx)': lambda g: g.translate(12.25), 'translate(dy)': lambda g: g.translate(dy=-1e4),
        'rotate(0.4)': lambda g: g.rotate(-0.4), 'rotate(-90 deg)': lambda g: g.rotate(90, use_radians=False), 'rotate(pi, point)': lambda g: g.rotate(-math.pi, (40.0, -25.0)),
        'rotate(-2.5, Point)': lambda g: g.rotate(2.5, (-300, 110)), 'rotate(400 deg, point)': lambda g: g.rotate(-400, (7.0, 0.0), False),
    }
    return T, inverse


def kinds():
    from shapely import Point, Polygon

    from structuralcodes import geometry as G
    from structuralcodes.materials.basic import ElasticMaterial, GenericMaterial
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.constitutive_laws import ElasticPlastic
    from structuralcodes.materials.reinforcement import create_reinforcement

    c = create_concrete(30, design_code='ec2_2004')
    c2 = create_concrete(50, design_code='mc2010', density=2500.0)
    r = create_reinforcement(500, 2e5, 550, 0.05, design_code='ec2_2023')
    e = ElasticMaterial(1e4, 123.0)
    g = GenericMaterial(7850, ElasticPlastic(2e5, 300))
    hole = Polygon([(0, 0), (400, 10), (380, 300), (120, 260)], [[(100, 50), (150, 50), (150, 90)], [(200, 100), (210, 200), (300, 150)]])
    out = {
        'point': G.PointGeometry((12.5, -40), 16, r, name='Bar 1', group_label='Top Layer (B1)'),
        'unnamed point': G.PointGeometry(Point(0, 0), 8.5, e),
        'surface': G.SurfaceGeometry(hole, g, concrete=True, name=' Web_ö', group_label='Steel-S355'),
        'plain surface': G.SurfaceGeometry(Polygon([(0, 0), (1, 0), (0, 1)]), e),
        'rectangle': G.RectangularGeometry(200, 400, c, name='', group_label='', origin=(10, 20)),
        'circle': G.CircularGeometry(300, c2, n_points=8, name='C'),
    }
    rc = G.add_reinforcement_line(out['rectangle'], (-50, -100), (60, -100), 20, r, n=3, group_label='bottom')
    out['compound'] = rc
    out['nested'] = G.CompoundGeometry([rc, out['surface'], out['point'], out['circle'].translate(400, 0)]) + out['unnamed point']
    out['subtraction'] = (out['rectangle'] - out['circle'].translate(110, 100)) + out['point']
    out['steel only'] = G.CompoundGeometry([out['plain surface'], out['plain surface'].translate(5, 5)])
    return out


def flat(g):
    """[(kind, coordinates, attributes)] of a geometry."""
    if hasattr(g, 'point_geometries'):
        return [x for p in list(g.geometries) + list(g.point_geometries) for x in flat(p)]
    if hasattr(g, 'polygon'):
        p = g.polygon
        return [('S', [np.array(x.coords)[:, :2] for x in [p.exterior, *p.interiors]], (id(g.material), g.density, g.name, g.group_label, g.concrete))]
    return [('P', [np.array([[g.x, g.y]])], (id(g.material), g.density, g.name, g.group_label, g.diameter, g.area))]


def wkb(g):
    return repr([(k, [a.tobytes() for a in c], at) for k, c, at in flat(g)])


def base(g):
    for n in ('PointGeometry', 'SurfaceGeometry', 'CompoundGeometry'):
        if any(c.__name__ == n for c in type(g).__mro__):
            return n
    return type(g).__name__


def compare(R, lab, orig, new, M):
    if isinstance(new, Exc):
        return R.fail(lab, f'{new}')
    R.true(base(orig) == base(new), f'{lab} kind', f'{type(orig).__name__} became {type(new).__name__}')
    a, b = flat(orig), flat(new)
    if not R.true(len(a) == len(b), f'{lab} parts', f'{len(b)} parts instead of {len(a)}'):
        return
    for i, ((k1, c1, a1), (k2, c2, a2)) in enumerate(zip(a, b)):
        if not R.true(k1 == k2 and a1 == a2, f'{lab} attributes {i}', f'{a2} instead of {a1}'):
            continue
        if not R.true(len(c1) == len(c2), f'{lab} holes {i}', f'{len(c2) - 1} holes'):
            continue
        for x, y in zip(c1, c2):
            want = (np.c_[x, np.ones(len(x))] @ M.T)[:, :2]
            ok = want.shape == y.shape
            if ok:
                tol = 1e-9 * (1 + max(np.abs(want).max(), np.abs(x).max(), np.abs(M).max()))
                ok = bool(np.abs(want - y).max() <= tol)
                if not ok and len(y) > 2 and want.shape == y.shape:
                    # the start and the direction of a ring do not matter
                    w, v = want[:-1], y[:-1]
                    ok = any(np.abs(np.roll(u, s, axis=0) - w).max() <= tol for u in (v, v[::-1]) for s in range(len(v)))
            R.true(ok, f'{lab} coordinates {i}', f'{y.tolist()} expected {want.tolist()}')
    if base(orig) == 'CompoundGeometry':
        R.true(orig.reinforced_concrete == new.reinforced_concrete, f'{lab} classification', 'reinforced_concrete changed')
        R.true(abs(orig.area - new.area) <= 1e-9 * orig.area, f'{lab} area', f'{new.area} instead of {orig.area}')


def jobs(tier):
    return [(tier, k, i) for k in range(10) for i in range(16)]


def run(job, R):
    tier, ki, first = job
    name = list(kinds())[ki]
    T, inv = transforms()
    names = list(T)
    n = 2 if tier == 'quick' else 3
    g0 = kinds()[name]
    w0 = wkb(g0)
    f0 = names[first]
    for length in range(1, n + 1):
        for rest in itertools.product(names, repeat=length - 1):
            g, M = g0, np.eye(3)
            seq = (f0,) + rest
            for t in seq:
                before = wkb(g)
                new = call(T[t][0], g)
                R.step()
                if isinstance(new, Exc):
                    R.fail(f'{name} {" > ".join(seq)}', f'{t}: {new}')
                    break
                R.true(wkb(g) == before, f'{name} {" > ".join(seq)} original', f'{t} changed the geometry it was called on')
                M = T[t][1] @ M
                g = new
            else:
                compare(R, f'{name} {" > ".join(seq)}', g0, g, M)
                R.state((name, seq))
                R.trace()
                last = flat(g)[0][1][0][0]
                R.outcome((name, round(float(last[0]), 6), round(float(last[1]), 6)))
    if f0 in inv:
        compare(R, f'{name} {f0} and back', g0, call(lambda: inv[f0](T[f0][0](g0))), np.eye(3))
        R.state((name, f0, 'inverse'))
        R.step(2)
    elif f0.startswith('mirror'):
        compare(R, f'{name} {f0} twice', g0, call(lambda: T[f0][0](T[f0][0](g0))), np.eye(3))
        R.state((name, f0, 'inverse'))
        R.step(2)
    for bad in ([(0, 0), (1, 1)], (0.0, 1.0), None, 0.5):
        r = call(g0.mirror, bad)
        R.step()
        R.true(isinstance(r, Exc) and r.type is TypeError, f'{name} mirror about {bad!r}', f'{r}')
    R.true(wkb(g0) == w0, f'{name} original', 'the geometry changed')
    R.sample({'kind': name, 'first': f0, 'length': n})
