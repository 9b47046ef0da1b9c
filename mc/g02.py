import itertools
import math

import numpy as np

from . import seclib as sl
from .core import Exc, call
from .g01 import flat, wkb

RULE = '''(a) Cell algebra: surfaces are sets of cells of an integer grid (solid, L, U, ring, comb shapes); state = (shape, history of
additions and subtractions); every shape minus every rectangle of a 6x6 grid, and every sequence of additions and subtractions of a pool of
points, surfaces and compounds up to depth 3 (thorough: 4), the model being exact set algebra on the cells plus the ordered list of attributes.
(b) Splitting: state = (shape, cutting line); lines = both directions of every line through two vertices, every horizontal, vertical and oblique
line through vertices, midway between and outside, given as LineString and as point and angle; parts above and below compared with exact half-plane
clipping (area, first and second moments) and each part must lie on its own side. (c) Two lines: every pair of parallel lines of a family, against the
exact slab. Transition = one library call, trace = one compared history.'''
ASSUMPTIONS = ['areas and moments agree to 1e-7 of those of the surface', 'lines given as LineString extend beyond the surface', 'the side of an exactly vertical line given by point and angle is not prescribed']

O = (0, 0)


def cells(*rects):
    out = set()
    for x0, y0, x1, y1 in rects:
        out |= {(x, y) for x in range(x0, x1) for y in range(y0, y1)}
    return frozenset(out)


CELLS = {
    'solid': cells((0, 0, 4, 4)),
    'ell': cells((0, 0, 4, 1), (0, 0, 1, 4)),
    'u': cells((0, 0, 4, 4)) - cells((1, 1, 3, 4)),
    'ring': cells((0, 0, 4, 4)) - cells((1, 1, 3, 3)),
    'comb': cells((0, 0, 4, 1), (0, 0, 1, 3), (3, 0, 4, 4)) | cells((2, 1, 3, 2)),
    'cross': cells((1, 0, 3, 4), (0, 1, 4, 3)),
}
CELLS6 = {'two holes': cells((0, 0, 5, 4)) - cells((1, 1, 2, 3), (3, 1, 4, 2)), 'bar': cells((-1, 2, 6, 3))}


def polygon(cs, k=1.0):
    """A shapely polygon of a connected set of cells, built without overlay operations."""
    from shapely import Polygon

    edges = {}
    for x, y in cs:
        for a, b, nb in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)), ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in cs:
                edges.setdefault(a, []).append(b)
    rings = []
    while edges:
        a = min(edges)
        ring = [a]
        b = edges[a].pop()
        if not edges[a]:
            del edges[a]
        while b != ring[0]:
            ring.append(b)
            nxt = edges[b].pop()
            if not edges[b]:
                del edges[b]
            b = nxt
        rings.append(ring)
    rings.sort(key=lambda r: -abs(sl.area_moments([r])[0]))
    rings = [[(k * x, k * y) for x, y in r] for r in rings]
    return Polygon(rings[0], rings[1:])


def rings_of(p):
    if p.is_empty:
        return []
    return [np.array(r.coords)[:-1, :2] for r in [p.exterior, *p.interiors]]


def inside(rings, x, y):
    c = False
    for r in rings:
        n = len(r)
        for i in range(n):
            (x1, y1), (x2, y2) = r[i], r[(i + 1) % n]
            if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
                c = not c
    return c


def cells_of(p, k=1.0):
    """(cells covered, area)"""
    rings = rings_of(p)
    if not rings:
        return frozenset(), 0.0
    got = set()
    for x in range(-3, 9):
        for y in range(-3, 9):
            if inside(rings, k * (x + 0.5), k * (y + 0.5)):
                got.add((x, y))
    return frozenset(got), sl.area_moments(rings)[0] / k ** 2


# ------------------------------------------------------------------ splitting
SHAPES = {
    'rectangle': [sl.rect(200, 400, 30, -50)],
    'triangle': [((0.0, 0.0), (120.0, 30.0), (40.0, 150.0))],
    'L': [sl.L_SHAPE],
    'T': [sl.T_SHAPE],
    'U': [sl.U_HOLE],
    'octagon': [sl.ngon(150, 8, 10, 20, 0.2)],
    'frame': [sl.rect(300, 300), sl.rect(100, 140, 20, -10)],
    'two holes': [((0.0, 0.0), (400.0, 10.0), (380.0, 300.0), (120.0, 260.0)), ((100.0, 50.0), (150.0, 50.0), (150.0, 90.0)), ((200.0, 100.0), (210.0, 200.0), (300.0, 150.0))],
    'comb': [((0.0, 0.0), (50.0, 0.0), (50.0, 10.0), (40.0, 10.0), (40.0, 40.0), (30.0, 40.0), (30.0, 10.0), (20.0, 10.0), (20.0, 30.0), (10.0, 30.0), (10.0, 10.0), (0.0, 10.0))],
    'clockwise': [sl.rect(100, 60)[::-1]],
    'star': [tuple((math.cos(math.pi * i / 5) * (100 if i % 2 else 45), math.sin(math.pi * i / 5) * (100 if i % 2 else 45)) for i in range(10))],
}


def clip(ring, a, u, sign=1):
    """Sutherland-Hodgman: the part of the ring on the left (right) of the line."""
    n = np.array([-u[1], u[0]]) * sign
    out = []
    d = [(p[0] - a[0]) * n[0] + (p[1] - a[1]) * n[1] for p in ring]
    for i in range(len(ring)):
        p, q, dp, dq = ring[i], ring[(i + 1) % len(ring)], d[i], d[(i + 1) % len(ring)]
        if dp >= 0:
            out.append(p)
        if (dp > 0) != (dq > 0) and dp != dq and dp != 0 and dq != 0:
            t = dp / (dp - dq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def raw(ring):
    if len(ring) < 3:
        return np.zeros(6)
    s = math.copysign(1.0, sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(ring, list(ring[1:]) + [ring[0]])))
    m = sl.area_moments([ring])
    return m if s else m


def half(rings, a, u, sign):
    out = np.zeros(6)
    for i, r in enumerate(rings):
        c = clip([tuple(p) for p in r], a, u, sign)
        if len(c) > 2:
            out += (1 if i == 0 else -1) * sl.area_moments([c])
    return out


def lines_for(rings, tier):
    """[(point, direction)] of the cutting lines."""
    pts = [tuple(map(float, p)) for r in rings for p in r]
    out = {}

    def add(p, u, tag):
        n = math.hypot(*u)
        if n > 1e-9:
            u = (u[0] / n, u[1] / n)
            out.setdefault((round(p[0], 6), round(p[1], 6), round(u[0], 9), round(u[1], 9)), (p, u, tag))

    for p, q in itertools.permutations(pts, 2):
        add(p, (q[0] - p[0], q[1] - p[1]), 'through two vertices')
    dirs = [(1, 0), (0, 1), (1, 0.3), (-0.4, 1), (1, -2), (-1, 0), (0, -1), (-1, -0.7)] + ([(math.cos(a), math.sin(a)) for a in np.arange(0.1, 6.2, 0.37)] if tier == 'thorough' else [])
    for u in dirs:
        n = (-u[1], u[0])
        ts = sorted({round(p[0] * n[0] + p[1] * n[1], 9) for p in pts})
        base = min(pts)
        for p in pts:
            add(p, u, 'through a vertex')
        nn = n[0] ** 2 + n[1] ** 2
        for t1, t2 in zip([ts[0] - 40] + ts, ts + [ts[-1] + 40]):
            t = (t1 + t2) / 2 / nn
            add((t * n[0], t * n[1]), u, 'between vertices')
        for t1 in (ts[0], ts[-1]):
            for e in (1e-3, -1e-3):
                t = (t1 + e * math.sqrt(nn)) / nn
                add((t * n[0], t * n[1]), u, 'beside a vertex')
    return list(out.values())


def judge(R, lab, rings, a, u, above, below, swap_ok=False):
    tot = sl.area_moments(rings)
    L = max(abs(c) for r in rings for p in r for c in p) + 1
    scale = np.array([1, L, L, L * L, L * L, L * L]) * tot[0]
    m = []
    for ps in (above, below):
        s = np.zeros(6)
        for p in ps:
            if not p.is_empty:
                s += sl.area_moments(rings_of(p))
        m.append(s)
    wa, wb = half(rings, a, u, 1), half(rings, a, u, -1)
    err = max(np.max(np.abs(m[0] - wa) / scale), np.max(np.abs(m[1] - wb) / scale))
    if swap_ok:
        err2 = max(np.max(np.abs(m[1] - wa) / scale), np.max(np.abs(m[0] - wb) / scale))
        if err2 < err:
            err, above, below = err2, below, above
    R.true(err <= 1e-7, f'{lab} partition', f'areas above/below {m[0][0]:.6f}/{m[1][0]:.6f}, expected {wa[0]:.6f}/{wb[0]:.6f} (moments off by {err:.2e})')
    for sgn, ps in ((1, above), (-1, below)):
        for p in ps:
            for r in rings_of(p):
                d = sgn * ((r[:, 0] - a[0]) * -u[1] + (r[:, 1] - a[1]) * u[0])
                R.true(d.min() >= -1e-6 * L, f'{lab} sides', f'a part on the wrong side of the line by {-d.min():.3e}')


def run_split(job, R):
    from shapely import LineString, MultiLineString, Point, Polygon

    from structuralcodes.geometry import SurfaceGeometry
    from structuralcodes.materials.basic import ElasticMaterial

    _, tier, name = job
    rings = SHAPES[name]
    g = SurfaceGeometry(Polygon(rings[0], rings[1:]), ElasticMaterial(1e4, 1), name='n', group_label='g')
    w = wkb(g)
    L = 3 * max(abs(c) for r in rings for p in r for c in p) + 500
    for i, (a, u, tag) in enumerate(lines_for(rings, tier)):
        lab = f'{name} split {tag} {np.round(a, 3).tolist()} dir {np.round(u, 4).tolist()}'
        ext = LineString([(a[0] - L * u[0], a[1] - L * u[1]), (a[0] + L * u[0], a[1] + L * u[1])])
        before = ext.wkb
        r = call(g.split, ext)
        R.step()
        R.state((name, i, 'line'))
        if isinstance(r, Exc):
            R.fail(lab, f'{r}')
        else:
            judge(R, f'{lab} LineString', rings, a, u, *r)
            R.trace()
            R.outcome((name, len(r[0]), len(r[1])))
        R.true(ext.wkb == before, f'{lab} line', 'the line was modified')
        th = math.atan2(u[1], u[0])
        v = u if (u[0] > 0 or (u[0] == 0 and u[1] > 0)) else (-u[0], -u[1])
        for p in (a, Point(*a)) if i % 7 == 0 else (a,):
            r = call(g.split, (p, th)) if not isinstance(p, Point) else call(g.split, ((p.x, p.y), th))
            R.step()
            R.state((name, i, 'angle'))
            if isinstance(r, Exc):
                R.fail(f'{lab} angle', f'{r}')
            else:
                judge(R, f'{lab} angle', rings, a, v, *r, swap_ok=abs(u[0]) <= 1e-6)
                R.trace()
    # two parallel lines
    pts = np.array([p for r in rings for p in r])
    for ang in (0.0, 0.5, math.pi / 2, 2.2, math.pi, -0.8, 1.5708, 3 * math.pi / 4):
        u = (math.cos(ang), math.sin(ang))
        n = (-u[1], u[0])
        ts = sorted({round(float(t), 9) for t in pts @ n})
        pos = sorted(set(ts + [(t1 + t2) / 2 for t1, t2 in zip(ts, ts[1:])] + [ts[0] - 15, ts[-1] + 15]))
        if tier == 'quick' and len(pos) > 14:
            pos = pos[:5] + pos[5:-5:2] + pos[-5:]
        for t1, t2 in itertools.combinations(pos, 2):
            lab = f'{name} two lines {ang:.4f} between {t1:.3f} and {t2:.3f}'
            ls = [LineString([(t * n[0] - s * L * u[0], t * n[1] - s * L * u[1]), (t * n[0] + s * L * u[0], t * n[1] + s * L * u[1])]) for t, s in ((t1, 1), (t2, -1))]
            want = half(rings, (t1 * n[0], t1 * n[1]), u, 1) - half(rings, (t2 * n[0], t2 * n[1]), u, 1)
            tot = sl.area_moments(rings)
            sc = np.array([1, L, L, L * L, L * L, L * L]) * tot[0]
            for form, arg in (('tuple', (ls[0], ls[1])), ('swapped', (ls[1], ls[0])), ('multi', MultiLineString(ls))):
                r = call(g.split_two_lines, arg)
                R.step()
                R.state((name, ang, t1, t2, form))
                if isinstance(r, Exc):
                    R.fail(f'{lab} {form}', f'{r}')
                    continue
                # slabs that only touch the surface may give points or lines
                ps = [p for p in getattr(r, 'geoms', [r]) if p.geom_type == 'Polygon']
                if not R.true(ps or want[0] < 1e-7 * tot[0], f'{lab} {form} type', f'{r.geom_type}'):
                    continue
                got = sum((sl.area_moments(rings_of(p)) for p in ps if not p.is_empty), np.zeros(6))
                R.trace()
                R.true(np.max(np.abs(got - want) / sc) <= 1e-7, f'{lab} {form}', f'area {got[0]:.6f} expected {want[0]:.6f}')
                for p in ps:
                    for q in rings_of(p):
                        d = q @ np.array(n)
                        R.true(d.min() >= t1 - 1e-6 * L and d.max() <= t2 + 1e-6 * L, f'{lab} {form} inside', f'reaches {d.min()} .. {d.max()}')
    for bad in ((ext,), (ext, ext, ext)):
        r = call(g.split_two_lines, bad)
        R.step()
        R.true(isinstance(r, Exc) and r.type is RuntimeError, f'{name} {len(bad)} lines', f'{r}')
    R.true(wkb(g) == w, f'{name} original', 'splitting changed the geometry')
    R.sample({'shape': name, 'last': lab})


# ------------------------------------------------------------------ cell algebra
def pool():
    from structuralcodes import geometry as G
    from structuralcodes.materials.basic import ElasticMaterial, GenericMaterial
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.constitutive_laws import Elastic

    m = [ElasticMaterial(1e4, 1), GenericMaterial(2, Elastic(5.0)), create_concrete(30, design_code='ec2_2004')]
    mk = lambda cs, i, n, gl=None, c=False: ([(frozenset(cs), (id(m[i]), m[i].density, n, gl, c or i == 2))], [], G.SurfaceGeometry(polygon(cs), m[i], c, n, gl))
    pt = lambda x, y, d, i, n: ([], [((x, y), (id(m[i]), m[i].density, n, 'bars', d, math.pi * d * d / 4))], G.PointGeometry((x, y), d, m[i], n, 'bars'))
    out = {
        'solid': mk(CELLS['solid'], 2, 'solid', 'c'),
        'ring': mk(CELLS['ring'], 0, 'ring', 'r', True),
        'bar': mk(CELLS6['bar'], 1, 'bar'),
        'corner': mk(cells((3, 2, 6, 6)), 0, 'corner', 'k'),
        'P': pt(1.5, 1.5, 2.0, 0, 'P'),
    }
    a, b, p = mk(cells((0, 0, 2, 5)), 1, 'A', 'x'), mk(cells((1, 3, 5, 4)), 2, 'B'), pt(4, 4, 1.0, 1, 'Q')
    out['compound'] = (a[0] + b[0], p[1], G.CompoundGeometry([p[2], a[2], b[2]]))
    return out, m


def check(R, lab, surf, pts, got):
    """Compare a geometry with the model: ordered groups of surfaces by attributes, points."""
    if isinstance(got, Exc):
        R.fail(lab, f'{got}')
        return
    fl = flat(got)
    gp = [(tuple(c[0][0]), at) for k, c, at in fl if k == 'P']
    R.true(gp == pts, f'{lab} points', f'{gp} expected {pts}')
    want = [(c, at) for c, at in surf if c]
    parts = list(got.geometries) if hasattr(got, 'geometries') else [got] if hasattr(got, 'polygon') else []
    i, group = 0, []
    groups = []
    for p in parts:
        at = (id(p.material), p.density, p.name, p.group_label, p.concrete)
        cs, ar = cells_of(p.polygon)
        if not R.true(abs(ar - len(cs)) < 1e-7 and p.polygon.is_valid, f'{lab} cells', f'a part of area {ar} covering {len(cs)} cells'):
            return
        R.true(abs(p.area - ar) < 1e-7, f'{lab} area', f'reports {p.area} instead of {ar}')
        if cs:
            groups.append((cs, at))
    # consecutive parts belong to the model surfaces in order
    j = 0
    for cs, at in want:
        acc = set()
        n = 0
        while j < len(groups) and groups[j][1] == at and groups[j][0] <= cs and not (groups[j][0] & acc) and len(acc) < len(cs):
            acc |= groups[j][0]
            n += 1
            j += 1
        if not R.true(acc == set(cs), f'{lab} surface {at[2]}', f'covers {sorted(acc)} instead of {sorted(cs)}; parts {[(len(c), a[2]) for c, a in groups]}'):
            return
    R.true(j == len(groups), f'{lab} extra parts', f'{len(groups) - j} unexpected parts')
    if hasattr(got, 'reinforced_concrete'):
        R.true(not any(p.polygon.is_empty for p in parts), f'{lab} empty parts', f'{sum(p.polygon.is_empty for p in parts)} of the surfaces are empty')
        R.true(got.reinforced_concrete == any(at[4] for c, at in want), f'{lab} classification', f'reinforced_concrete is {got.reinforced_concrete}')
        R.true(abs(got.area - sum(len(c) for c, at in want)) < 1e-6, f'{lab} total area', f'{got.area}')
    R.trace()


def run_cells(job, R):
    from structuralcodes import geometry as G
    from structuralcodes.materials.basic import ElasticMaterial

    _, name = job
    cs = {**CELLS, **CELLS6}[name]
    m = ElasticMaterial(1e4, 1)
    at = (id(m), m.density, 'n', 'g', True)
    for x0, x1 in itertools.combinations(range(-1, 6), 2):
        for y0, y1 in itertools.combinations(range(-1, 6), 2):
            b = cells((x0, y0, x1, y1))
            A = G.SurfaceGeometry(polygon(cs), m, True, 'n', 'g')
            B = G.SurfaceGeometry(polygon(b), m)
            w = wkb(A), wkb(B)
            r = call(lambda: A - B)
            R.step()
            R.state((name, x0, x1, y0, y1))
            check(R, f'{name} minus rectangle {(x0, y0, x1, y1)}', [(cs - b, at)], [], r)
            R.true((wkb(A), wkb(B)) == w, f'{name} minus rectangle {(x0, y0, x1, y1)} operands', 'changed')
            if not isinstance(r, Exc):
                R.outcome((name, len(cs - b), type(r).__name__))
    R.sample({'shape': name, 'cells': len(cs)})


def run_seq(job, R):
    _, depth, start, o1 = job
    P, keep = pool()
    names = list(P)
    ops = [('+', n) for n in names] + [('-', n) for n in names] + [('r+', n) for n in names]
    first = ops[o1]

    def apply(op, state):
        s, p, g = state
        k, n = op
        s2, p2, g2 = P[n]
        if k == '+':
            return s + s2, p + p2, (lambda: g + g2)
        if k == 'r+':
            return s2 + s, p2 + p, (lambda: g2 + g)
        if not hasattr(g, 'polygon') and not hasattr(g, 'geometries'):
            return None
        gone = frozenset().union(*[c for c, _ in s2]) if s2 else frozenset()
        return [(c - gone, at) for c, at in s], p, (lambda: g - g2)

    def walk(state, hist, d):
        for op in ops if d else [first]:
            nx = apply(op, state)
            if nx is None:
                continue
            s, p, f = nx
            w = wkb(state[2]), wkb(P[op[1]][2])
            g = call(f)
            h = hist + ' ' + op[0] + op[1]
            R.step()
            R.state(h)
            check(R, h, s, p, g)
            R.true((wkb(state[2]), wkb(P[op[1]][2])) == w, f'{h} operands', 'an operand changed')
            if isinstance(g, Exc):
                continue
            R.outcome((len(s), len(p), sum(len(c) for c, _ in s)))
            if d + 1 < depth and sum(1 for c, _ in s if not c) == 0:
                walk((s, p, g), h, d + 1)

    walk(P[start], start, 0)
    R.sample({'start': start, 'first': list(first), 'depth': depth})


def jobs(tier):
    out = [('split', tier, n) for n in SHAPES]
    out += [('cells', n) for n in {**CELLS, **CELLS6}]
    out += [('seq', 2 if tier == 'quick' else 3, s, o) for s in ('solid', 'ring', 'bar', 'corner', 'P', 'compound') for o in range(18)]
    return out


def run(job, R):
    {'split': run_split, 'cells': run_cells, 'seq': run_seq}[job[0]](job, R)
