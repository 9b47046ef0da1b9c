import itertools
import math
import warnings

import numpy as np

from . import seclib as sl
from .core import Exc, call
from .g01 import flat, wkb

RULE = '''State = (constructor, argument combination). Rectangles: widths x heights x origins in every accepted form x materials x concrete flag, and
non-positive sizes; circles: diameters x numbers of points 3..41 x origins; points: coordinates in every accepted form x diameters; surfaces with and
without holes; compounds: every list of up to 3 (thorough: 4) members of a pool of surfaces, points and compounds, and MultiPolygons with one or several
materials; from_geometry of every kind with and without new material; wrong types everywhere. Transition = one construction, trace = one construction
compared with the requested dimensions, closed-form area, centroid, extents, density, labels and classification.'''
ASSUMPTIONS = ['a circle is the regular polygon inscribed in it with the number of points rounded to a multiple of 4', 'concrete flags set by hand are not required to survive from_geometry']


def mats():
    from structuralcodes.materials.basic import ElasticMaterial, ElasticPlasticMaterial, GenericMaterial
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.constitutive_laws import create_constitutive_law
    from structuralcodes.materials.reinforcement import create_reinforcement

    return {
        'concrete': (create_concrete(30, design_code='ec2_2004'), True),
        'concrete 2010': (create_concrete(60, design_code='mc2010', density=1900.0, name='light'), True),
        'steel': (create_reinforcement(500, 2e5, 550, 0.05, design_code='ec2_2023', density=7800), False),
        'elastic': (ElasticMaterial(1e4, 700), False),
        'generic': (GenericMaterial(2100, create_constitutive_law('parabolarectangle', create_concrete(40, design_code='ec2_2023'))), False),
        'plastic': (ElasticPlasticMaterial(2.1e5, 355, 7850, name='s355'), False),
    }


ORIGINS = [None, (0, 0), (10.5, -20), [100, 250.0], np.array([-1e4, 3e4]), (0, 7)]


def cyc_equal(got, want, tol):
    if len(got) != len(want):
        return False
    for v in (got, got[::-1]):
        for s in range(len(v)):
            if np.abs(np.roll(v, s, axis=0) - want).max() <= tol:
                return True
    return False


def common(R, lab, g, area, cen, ext, mat, conc, name, gl):
    sz = 1 + max(abs(e) for e in ext)
    R.eq(g.area, area, f'{lab} area', 'area', 1e-9)
    R.eq(np.array(g.centroid), np.array(cen), f'{lab} centroid', 'centroid', 1e-9, 1e-9 * sz)
    R.eq(np.array(g.calculate_extents()), np.array(ext), f'{lab} extents', 'extents', 1e-9, 1e-9 * sz)
    R.true(g.material is mat and g.density == mat.density, f'{lab} material', f'{g.material} {g.density}')
    R.true(g.concrete == conc, f'{lab} concrete', f'concrete is {g.concrete}')
    R.true((g.name == name if name is not None else isinstance(g.name, str) and g.name) and g.group_label == gl, f'{lab} labels', f'{g.name!r} {g.group_label!r}')
    R.trace()


def raises(R, lab, f, types):
    r = call(f)
    R.step()
    R.state(lab)
    R.true(isinstance(r, Exc) and issubclass(r.type, types), lab, f'{r if isinstance(r, Exc) else "accepted"}')


def run_rect(job, R):
    from structuralcodes import geometry as G

    M = mats()
    _, mn = job
    m, isc = M[mn]
    for w, h, (oi, o), c, nm in itertools.product((1, 200.0, 0.35, 1e4), (1, 450, 0.6, 2.5e3), enumerate(ORIGINS), (False, True), (None, 'N', '')):
        for form in (0, 1):
            lab = f'rectangle {w}x{h} origin {oi} {mn} {c} {nm} {form}'
            o_copy = None if o is None else list(o)
            if form:
                g = call(lambda: G.RectangularGeometry(w, h, m, c, o, nm, nm and 'gl'))
            else:
                kw = {k: v for k, v in (('concrete', c), ('origin', o), ('name', nm), ('group_label', nm and 'gl')) if v is not None and v is not False}
                g = call(lambda: G.RectangularGeometry(width=w, height=h, material=m, **kw))
            R.step()
            R.state(lab)
            if isinstance(g, Exc):
                R.fail(lab, f'{g}')
                continue
            x, y = (0, 0) if o is None else o
            common(R, lab, g, w * h, (x, y), (x - w / 2, x + w / 2, y - h / 2, y + h / 2), m, isc or c, nm, nm and 'gl')
            R.true(g.width == w and g.height == h, f'{lab} size', f'{g.width} {g.height}')
            pts = np.array(g.polygon.exterior.coords)[:-1]
            want = np.array([(x - w / 2, y - h / 2), (x + w / 2, y - h / 2), (x + w / 2, y + h / 2), (x - w / 2, y + h / 2)], float)
            R.true(cyc_equal(pts, want, 1e-9 * (1 + np.abs(want).max())) and not g.polygon.interiors, f'{lab} vertices', f'{pts.tolist()}')
            R.true(isinstance(g, G.SurfaceGeometry), f'{lab} kind', 'not a surface')
            R.true(o is None or list(o) == o_copy, f'{lab} origin', 'origin changed')
    for w, h in ((0, 1), (1, 0), (-1, 2), (2, -3.5), (0.0, 0.0), (-0.001, 5)):
        raises(R, f'rectangle {w}x{h} {mn}', lambda: G.RectangularGeometry(w, h, m), ValueError)
    for o in ((1,), (1, 2, 3), [], [1, 2, 3, 4]):
        raises(R, f'rectangle origin {o} {mn}', lambda: G.RectangularGeometry(1, 2, m, origin=o), ValueError)
        raises(R, f'circle origin {o} {mn}', lambda: G.CircularGeometry(1, m, origin=o), ValueError)
    for bad in (None, 3.0, 'concrete', m.constitutive_law):
        raises(R, f'rectangle material {type(bad).__name__} {mn}', lambda: G.RectangularGeometry(1, 2, bad), TypeError)
        raises(R, f'circle material {type(bad).__name__} {mn}', lambda: G.CircularGeometry(1, bad), TypeError)
        raises(R, f'point material {type(bad).__name__} {mn}', lambda: G.PointGeometry((0, 0), 1, bad), TypeError)
    R.sample({'material': mn})


def run_circle(job, R):
    from structuralcodes import geometry as G

    M = mats()
    _, mn = job
    m, isc = M[mn]
    for d in (0, -1, -0.5, 0.0):
        raises(R, f'circle {d} {mn}', lambda: G.CircularGeometry(d, m), ValueError)
    for d, (oi, o), n in itertools.product((1, 300.0, 0.8, 2000), enumerate(ORIGINS), [None] + list(range(3, 42))):
        c, nm = (n or 0) % 2 == 1, None if (n or 0) % 3 else 'C'
        lab = f'circle {d} origin {oi} points {n} {mn}'
        kw = {k: v for k, v in (('n_points', n), ('concrete', c or None), ('origin', o), ('name', nm), ('group_label', nm and 'gl')) if v is not None}
        g = call(lambda: G.CircularGeometry(d, m, **kw))
        R.step()
        R.state(lab)
        if isinstance(g, Exc):
            R.fail(lab, f'{g}')
            continue
        x, y = (0, 0) if o is None else o
        pts = np.array(g.polygon.exterior.coords)[:-1]
        k = len(pts)
        q = (20 if n is None else n) / 4
        R.true(k % 4 == 0 and abs(k / 4 - q) <= 0.5, f'{lab} points', f'{k} vertices')
        r = d / 2
        common(R, lab, g, k / 2 * r * r * math.sin(2 * math.pi / k), (x, y), (x - r, x + r, y - r, y + r), m, isc or c, nm, nm and 'gl')
        R.true(g.radius == r and g.diameter == d, f'{lab} size', f'{g.radius} {g.diameter}')
        want = np.array([(x + r * math.cos(2 * math.pi * i / k), y + r * math.sin(2 * math.pi * i / k)) for i in range(k)])
        R.true(cyc_equal(pts, want, 1e-9 * (1 + np.abs(want).max())) and not g.polygon.interiors, f'{lab} vertices', f'{pts.tolist()}')


def run_point(job, R):
    from shapely import Point

    from structuralcodes import geometry as G

    M = mats()
    _, mn = job
    m, isc = M[mn]
    for (x, y), f, d, nm in itertools.product([(0, 0), (-12.5, 1e4), (3, 4)], (tuple, list, np.array, lambda p: Point(*p), lambda p: np.array(p, dtype=float)), (1, 16, 25.5, 0.012), (None, 'bar', '')):
        lab = f'point {(x, y)} {d} {nm} {mn}'
        g = call(lambda: G.PointGeometry(f((x, y)), d, m, nm, nm and 'gl'))
        R.step()
        R.state(lab)
        if isinstance(g, Exc):
            R.fail(lab, f'{g}')
            continue
        R.true((g.x, g.y) == (x, y) and (g.point.x, g.point.y) == (x, y), f'{lab} position', f'{g.x} {g.y}')
        R.eq(g.area, math.pi * d * d / 4, f'{lab} area', 'area', 1e-12)
        R.true(g.diameter == d and g.material is m and g.density == m.density, f'{lab} attributes', f'{g.diameter}')
        R.true((g.name == nm if nm is not None else bool(g.name)) and g.group_label == (nm and 'gl'), f'{lab} labels', f'{g.name} {g.group_label}')
        R.trace()
    for d in (0, 0.0, -1, -16.0):
        raises(R, f'point of diameter {d} {mn}', lambda: G.PointGeometry((0, 0), d, m), ValueError)
    for bad in ((1,), [2.0], 5, np.array([1])):
        raises(R, f'point at {bad!r} {mn}', lambda: G.PointGeometry(bad, 10, m), ValueError)
    for c in ((1, 2, 3), [4, 5, 6, 7]):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            g = call(lambda: G.PointGeometry(c, 10, m))
        R.step()
        R.true(not isinstance(g, Exc) and (g.x, g.y) == tuple(c[:2]) and len(ws) > 0, f'point at {c} {mn}', f'{g if isinstance(g, Exc) else (g.x, g.y)} with {len(ws)} warnings') if len(c) == 3 else None
    names = [G.PointGeometry((0, 0), 1, m).name for _ in range(5)] + [G.RectangularGeometry(1, 1, m).name for _ in range(5)]
    R.true(len(set(names)) == 10, f'generated names {mn}', f'{names}')


POLY = {
    'triangle': [((0.0, 0.0), (120.0, 30.0), (40.0, 150.0))],
    'clockwise': [((0.0, 0.0), (0.0, 50.0), (70.0, 50.0), (70.0, 0.0))],
    'L': [sl.L_SHAPE],
    'frame': [sl.rect(300, 300, 40, 10), sl.rect(100, 140, 20, -10)],
    'holes': [((0.0, 0.0), (400.0, 10.0), (380.0, 300.0), (120.0, 260.0)), ((100.0, 50.0), (150.0, 50.0), (150.0, 90.0)), ((200.0, 100.0), (210.0, 200.0), (300.0, 150.0))],
}


def run_surface(job, R):
    from shapely import LineString, MultiPolygon, Point, Polygon

    from structuralcodes import geometry as G

    M = mats()
    _, mn = job
    m, isc = M[mn]
    for (pn, rings), c, nm in itertools.product(POLY.items(), (False, True), (None, 'S', '')):
        P = Polygon(rings[0], rings[1:])
        lab = f'surface {pn} {mn} {c} {nm}'
        g = call(lambda: G.SurfaceGeometry(P, m, c, nm, nm and 'gl'))
        R.step()
        R.state(lab)
        if isinstance(g, Exc):
            R.fail(lab, f'{g}')
            continue
        a = sl.area_moments(rings)
        xs, ys = zip(*rings[0])
        common(R, lab, g, a[0], (a[2] / a[0], a[1] / a[0]), (min(xs), max(xs), min(ys), max(ys)), m, isc or c, nm, nm and 'gl')
        R.true(g.polygon.equals(P), f'{lab} polygon', 'another polygon')
    P = Polygon(POLY['triangle'][0])
    for bad in (None, Point(0, 0), LineString([(0, 0), (1, 1)]), MultiPolygon([P]), [(0, 0), (1, 0), (0, 1)], 'p'):
        raises(R, f'surface of {type(bad).__name__} {mn}', lambda: G.SurfaceGeometry(bad, m), TypeError)
    for bad in (None, 3.0, m.constitutive_law, type(m)):
        raises(R, f'surface material {type(bad).__name__} {mn}', lambda: G.SurfaceGeometry(P, bad), TypeError)


def pool():
    from shapely import Polygon

    from structuralcodes import geometry as G

    M = mats()
    m = {k: v[0] for k, v in M.items()}
    out = {
        'conc': G.RectangularGeometry(200, 300, m['concrete'], name='a', group_label='x'),
        'elastic': G.SurfaceGeometry(Polygon(POLY['frame'][0], POLY['frame'][1:]), m['elastic'], name='b'),
        'flagged': G.CircularGeometry(100, m['generic'], concrete=True, origin=(500, 20), name='c'),
        'bar': G.PointGeometry((900, -900), 16, m['steel'], 'p', 'bars'),
    }
    out['rc'] = G.CompoundGeometry([out['bar'], out['conc'].translate(10, 0), out['bar'].translate(1, 1)])
    out['nested'] = G.CompoundGeometry([G.CompoundGeometry([out['elastic'].translate(-700, 0), out['bar']]), out['elastic']])
    return out, m


def run_compound(job, R):
    from structuralcodes import geometry as G

    _, n, first = job
    P, m = pool()
    names = list(P)
    for k in range(0, n):
        for rest in itertools.product(names, repeat=k):
            seq = (names[first],) + rest
            lab = f'compound of {list(seq)}'
            lst = [P[s] for s in seq]
            w = [wkb(x) for x in lst]
            g = call(lambda: G.CompoundGeometry(lst))
            R.step()
            R.state(seq)
            if isinstance(g, Exc):
                R.fail(lab, f'{g}')
                continue
            fl = [x for s in lst for x in flat(s)]
            S = [x for x in fl if x[0] == 'S']
            B = [x for x in fl if x[0] == 'P']
            ser = lambda l: repr([(a, [c.tobytes() for c in b], t) for a, b, t in l])
            R.true(ser([x for x in flat(g) if x[0] == 'S']) == ser(S) and ser([x for x in flat(g) if x[0] == 'P']) == ser(B), f'{lab} members', f'{len(g.geometries)} surfaces and {len(g.point_geometries)} points instead of {len(S)} and {len(B)}')
            R.true(g.reinforced_concrete is any(x[2][4] for x in S), f'{lab} classification', f'reinforced_concrete is {g.reinforced_concrete}')
            ar = sum(sl.area_moments([c[:-1] for c in x[1]])[0] for x in S)
            R.eq(g.area, ar, f'{lab} area', 'area', 1e-9, 1e-12)
            if S:
                q = np.vstack([x[1][0] for x in S])
                R.eq(np.array(g.calculate_extents()), np.array([q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max()]), f'{lab} extents', 'extents', 1e-12)
            R.true([wkb(x) for x in lst] == w and [id(x) for x in lst] == [id(P[s]) for s in seq], f'{lab} inputs', 'the list or its members changed')
            R.trace()
            R.outcome((len(S), len(B), g.reinforced_concrete))
    R.sample({'first': names[first], 'length': n})


def run_multi(job, R):
    from shapely import MultiPolygon, Polygon

    from structuralcodes import geometry as G

    M = mats()
    _, mn = job
    polys = [Polygon([(x + dx, y) for x, y in r[0]], [[(x + dx, y) for x, y in h] for h in r[1:]]) for dx, r in zip(range(0, 5000, 1000), POLY.values())]
    ms = list(M)
    for k in range(1, 6):
        mp = MultiPolygon(polys[:k])
        for how in ['one'] + [f'list{j}' for j in range(len(ms))]:
            j = ms.index(mn)
            sel = [M[mn][0]] * k if how == 'one' else [M[ms[(j + i * int(how[4:])) % len(ms)]][0] for i in range(k)]
            lab = f'{k} polygons {mn} {how}'
            g = call(lambda: G.CompoundGeometry(mp, M[mn][0] if how == 'one' else sel))
            R.step()
            R.state(lab)
            if isinstance(g, Exc):
                R.fail(lab, f'{g}')
                continue
            ok = len(g.geometries) == k and not g.point_geometries and all(a.material is b and a.polygon.equals(p) for a, b, p in zip(g.geometries, sel, polys))
            R.true(ok, f'{lab} members', 'polygons or materials differ')
            conc = {id(v[0]): v[1] for v in M.values()}
            R.true(g.reinforced_concrete == any(conc[id(x)] for x in sel), f'{lab} classification', f'{g.reinforced_concrete}')
            R.true(all(a.concrete == conc[id(x)] for a, x in zip(g.geometries, sel)), f'{lab} concrete', 'flags differ')
            R.eq(g.area, sum(p.area for p in polys[:k]), f'{lab} area', 'area', 1e-9)
            R.trace()
        # equal polygons keep their own material
        sel = [M[ms[i % len(ms)]][0] for i in range(k)]
        g = call(lambda: G.CompoundGeometry(MultiPolygon([Polygon(polys[0]) for _ in range(k)]), sel))
        R.step()
        R.state(f'{k} equal polygons')
        R.true(not isinstance(g, Exc) and len(g.geometries) == k and all(a.material is b for a, b in zip(g.geometries, sel)), f'{k} equal polygons', f'{g!r}')
        for wrong in {0, k - 1, k + 1, 2 * k} - {k}:
            raises(R, f'{k} polygons {wrong} materials {mn}', lambda: G.CompoundGeometry(mp, [M[mn][0]] * wrong), ValueError)
        for bad in (None, 3.0, 'concrete', M[mn][0].constitutive_law, [None] * k, ['concrete'] * k):
            raises(R, f'{k} polygons material {bad!r:.40} {mn}', lambda: G.CompoundGeometry(mp, bad), TypeError)
    # whatever is not a geometry is refused, not left out
    ok = G.SurfaceGeometry(polys[0], M[mn][0])
    for i, bad in enumerate((polys[0], None, 3.0, 'x', M[mn][0], MultiPolygon(polys[:1]), [ok], (1, 2))):
        for lst in ([bad], [ok, bad], [bad, ok]):
            raises(R, f'compound of a list with {type(bad).__name__} {len(lst)} {lst[0] is bad} {mn}', lambda: G.CompoundGeometry(lst), TypeError)
    for bad in (polys[0], ok, None, 3.0, 'x'):
        raises(R, f'compound of {type(bad).__name__} {mn}', lambda: G.CompoundGeometry(bad), TypeError)
        if bad is not ok:
            raises(R, f'surface plus {type(bad).__name__} {mn}', lambda: ok + bad, TypeError)
            raises(R, f'compound plus {type(bad).__name__} {mn}', lambda: G.CompoundGeometry([ok]) + bad, TypeError)


def run_from(job, R):
    from structuralcodes import geometry as G

    _, mn = job
    P, m = pool()
    new = mats()[mn]
    M = mats()
    P['all'] = G.CompoundGeometry(list(P.values()))
    P['plain'] = G.SurfaceGeometry(P['elastic'].polygon, M[mn][0])
    P['dot'] = G.PointGeometry((1, 2), 8, M[mn][0])
    for name, g in P.items():
        cls = [c for c in (G.PointGeometry, G.SurfaceGeometry, G.CompoundGeometry) if isinstance(g, c)][0]
        w = wkb(g)
        for nm in (new[0], None):
            lab = f'from_geometry {name} {mn if nm else "elastic"}'
            r = call(lambda: cls.from_geometry(g, nm) if nm else cls.from_geometry(geo=g))
            R.step()
            R.state((lab, mn))
            if isinstance(r, Exc):
                R.fail(lab, f'{r}')
                continue
            R.true(isinstance(r, cls), f'{lab} kind', type(r).__name__)
            a, b = flat(g), flat(r)
            old = [g] if cls is not G.CompoundGeometry else list(g.geometries) + list(g.point_geometries)
            neu = [r] if cls is not G.CompoundGeometry else list(r.geometries) + list(r.point_geometries)
            if not R.true(len(a) == len(b), f'{lab} members', f'{len(b)} instead of {len(a)}'):
                continue
            for i, (x, y, o, q) in enumerate(zip(a, b, old, neu)):
                R.true(x[0] == y[0] and all(np.array_equal(c, d) for c, d in zip(x[1], y[1])) and len(x[1]) == len(y[1]), f'{lab} shape {i}', 'coordinates differ')
                R.true((o.name, o.group_label) == (q.name, q.group_label), f'{lab} labels {i}', f'{q.name} {q.group_label}')
                if x[0] == 'P':
                    R.true(o.diameter == q.diameter and o.area == q.area, f'{lab} bar {i}', f'{q.diameter} {q.area}')
                if nm:
                    R.true(q.material is nm, f'{lab} material {i}', f'{q.material}')
                    if x[0] == 'S' and (new[1] or not o.concrete):
                        R.true(q.concrete == new[1], f'{lab} concrete {i}', f'{q.concrete}')
                else:
                    R.true(q.density == o.density, f'{lab} density {i}', f'{q.density}')
                    E = o.material.constitutive_law.get_tangent(eps=0)
                    law = q.material.constitutive_law
                    for e in (-0.01, -1e-4, 0.0, 2e-3, 0.5):
                        R.eq(float(law.get_stress(e)), float(E) * e, f'{lab} stress {i}', f'stress at {e}', 1e-12)
                        R.eq(float(law.get_tangent(e)), float(E), f'{lab} tangent {i}', f'tangent at {e}', 1e-12)
            R.trace()
            R.true(wkb(g) == w, f'{lab} original', 'the geometry changed')
        for other in (G.PointGeometry, G.SurfaceGeometry, G.CompoundGeometry):
            if other is not cls:
                raises(R, f'{other.__name__}.from_geometry({name}) {mn}', lambda: other.from_geometry(g, new[0]), TypeError)
        for bad in (3.0, 'x', new[0].constitutive_law):
            raises(R, f'from_geometry {name} material {type(bad).__name__}', lambda: cls.from_geometry(g, bad), TypeError)


def jobs(tier):
    ms = ['concrete', 'concrete 2010', 'steel', 'elastic', 'generic', 'plastic']
    out = [(k, m) for k in ('rect', 'circle', 'point', 'surface', 'multi', 'from') for m in ms]
    return out + [('compound', 4 if tier == 'quick' else 5, i) for i in range(6)]


def run(job, R):
    {'rect': run_rect, 'circle': run_circle, 'point': run_point, 'surface': run_surface, 'multi': run_multi, 'from': run_from, 'compound': run_compound}[job[0]](job, R)
