import itertools
import math

import numpy as np

from .core import Exc, call
from .g01 import flat, wkb

RULE = '''State = (host geometry, sequence of additions of reinforcement). Additions: single bars; lines (direction x length x number of bars 0..5 x
spacings below, at and above what fits x first x last); circles and arcs (whole circle from different starts, arcs of different lengths, also beyond
2 pi in absolute angle x number x spacing x first x last). Explored: every single addition on every host, and every sequence of two (thorough: three)
additions of a representative subset. Transition = one call; trace = one history: the resulting bars (order, positions, diameter, material, label) are
compared with the positions from the definition, all parts of the host must be kept in order and the host unchanged.'''
ASSUMPTIONS = ['positions agree to 1e-9 of the size', 'bars that fill the length up to rounding (1e-13) fit; when length/spacing is within 1e-7 of an integer otherwise either number of bars is accepted',
               'bars are listed along the line or with increasing angle']
D, LAB = 16, 'layer'


def positions_line(p, q, n, s, first, last):
    """List of admissible position lists, or ValueError."""
    p, q = np.array(p, float), np.array(q, float)
    d = float(np.linalg.norm(q - p))
    v = (q - p) / d
    if n > 0 and s > 0:
        fit = fits((n - 1) * s, d)
        if not fit or fit is ValueError:
            return fit
        cand = [(n, s, (d - (n - 1) * s) / 2)]
    elif n > 0:
        cand = [(n, d / (n - 1) if n > 1 else 0.0, 0.0)]
    elif s > 0:
        cand = [(k, s, (d - (k - 1) * s) / 2) for k in counts(d, s)]
    else:
        return ValueError
    out = []
    for n, s, o in cand:
        out.append([tuple(p + v * (o + s * i)) for i in range(n) if not (i == 0 and not first) and not (i == n - 1 and not last)])
    return out


ROUND = 1e-13


def fits(need, length):
    """True, ValueError, or None where the excess is neither rounding nor clear."""
    if need <= length * (1 + ROUND):
        return True
    return None if need <= length * (1 + 1e-7) else ValueError


def counts(d, s):
    """Admissible numbers of bars; bars that fill the length up to rounding do fit."""
    r = d / s
    k = math.floor(r) + 1
    f = r - round(r)
    if abs(f) <= ROUND * r:
        return [round(r) + 1]
    if abs(f) < 1e-7 * r:
        return sorted({round(r) + 1, round(r)})
    return [k]


def positions_circle(c, rad, n, s, first, last, a0, a1):
    da = a1 - a0
    if da <= 0 or da > 2 * math.pi:
        return ValueError
    length = rad * da
    whole = abs(length - 2 * math.pi * rad) < 1e-4
    if n > 0 and s > 0:
        need = n * s if whole else (n - 1) * s
        fit = fits(need, length)
        if not fit or fit is ValueError:
            return fit
        cand = [(n, s / rad, (length - need) / 2 / rad)]
    elif n > 0:
        cand = [(n, da / n if whole else da / (n - 1) if n > 1 else 0.0, 0.0)]
    elif s > 0:
        cand = []
        for k in counts(length, s):
            need = (k - 1) * s
            same = whole and abs(need - length) <= 1e-9 * length
            cand.append((k - 1 if same else k, s / rad, (length - need) / 2 / rad))
    else:
        return ValueError
    out = []
    for n, st, o in cand:
        ph = [a0 + o + st * i for i in range(n)]
        out.append([(c[0] + rad * math.cos(f), c[1] + rad * math.sin(f)) for i, f in enumerate(ph) if not (i == 0 and not first) and not (i == n - 1 and not last)])
    return out


def hosts():
    from shapely import Polygon

    from structuralcodes import geometry as G
    from structuralcodes.materials.basic import ElasticMaterial
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.reinforcement import create_reinforcement

    c = create_concrete(30, design_code='ec2_2004')
    r = create_reinforcement(500, 2e5, 550, 0.05, design_code='ec2_2004')
    e = ElasticMaterial(2e5, 7850)
    R = G.RectangularGeometry(400, 600, c, name='web', group_label='conc')
    plate = G.SurfaceGeometry(Polygon([(0, 0), (50, 0), (0, 60)], []), e, name='plate')
    return {
        'rectangle': R,
        'circle': G.CircularGeometry(500, c, n_points=12),
        'compound': G.CompoundGeometry([R, plate]),
        'reinforced': G.CompoundGeometry([G.PointGeometry((1, 2), 8, e, 'old', 'oldlab'), plate, R]),
    }, r, e


def line_cases():
    out = []
    for (p, q), k in itertools.product([((0, 0), (300, 0)), ((-100.0, 50.0), (-100.0, -250.0)), ((10, 20), (10 + 180, 20 + 240)), ((150, -150), (-90, 30))], [1.0]):
        d = math.dist(p, q)
        for n, s in itertools.product((0, 1, 2, 3, 5), (0, d / 7.3, d / 4, d / 2.5, 0.9 * d, 1.4 * d)):
            for f, l in itertools.product((True, False), repeat=2):
                out.append(('line', p, q, n, s, f, l))
    for p, q, s in (((0, 0), (1, 0), 0.1), ((0, 0), (0.3, 0), 0.1), ((0, 0), (600, 0), 200), ((0, 0), (600, 0), 150.0)):
        for f, l in itertools.product((True, False), repeat=2):
            out.append(('line', p, q, 0, s, f, l))
    # length over spacing just below, at and above whole numbers; many bars
    for (p, q), k, f in itertools.product([((0, 0), (300, 0)), ((20.0, -35.0), (-0.15, 0.3))], (1, 2, 3, 5, 12), (-0.05, -0.02, -1e-3, -1e-5, 1e-5, 1e-3, 0.02, 0.05, 0.5)):
        d = math.dist(p, q)
        out += [('line', p, q, 0, d / (k + f), True, True), ('line', p, q, 0, d / (k + f), False, True), ('line', p, q, k + 1, d / (k + f), True, True), ('line', p, q, k + 1, d / (k + f), True, False)]
    out += [('line', (0, 0), (0, 300), n, 0, f, l) for n in (10, 25) for f, l in itertools.product((True, False), repeat=2)]
    out += [('line', p, q, n, s, f, l) for p, q in (((100000.123, -3e5 + 0.1), (100300.123, -3e5 + 0.1)), ((0.1, 0.7), (0.1 + 1 / 3, 0.2)))
            for n, s in ((1, 0), (3, 0), (0, 0.11)) for f, l in itertools.product((True, False), repeat=2) if n or p[0] < 1]
    out += [('line', (0, 0), (300, 0), n, s, True, True) for n, s in ((4, 100), (2, 300), (3, 150), (7, 50), (4, 100.001), (2, 300.1), (-1, 0), (0, -5), (-2, 100), (3, -1))]
    # bars that fill the length up to rounding
    for p, q in (((0, 0), (0.3, 0)), ((0, 0), (0, 0.7)), ((0.1, 0.2), (0.1, 2.5)), ((-1.1, 0.35), (2.2, -0.7)), ((-150, 20), (160.3, 20))):
        d = math.dist(p, q)
        for k in (1, 2, 3, 6, 7, 11, 23):
            out += [('line', p, q, 0, d / k, True, True), ('line', p, q, k + 1, d / k, True, k % 2 == 0)]
    out += [('line', (0, 0), (L, 0), n, s, True, True) for L, s, k in ((0.3, 0.1, 3), (0.6, 0.2, 3), (0.7, 0.1, 7), (1.2, 0.4, 3), (1.1, 0.1, 11)) for n in (0, k + 1)]
    out += [('line', (-100, 40), (-100, -160), n, s, f, l) for n, s in ((2, 200), (3, 100), (5, 50)) for f, l in itertools.product((True, False), repeat=2)]
    return out


def circle_cases():
    pi = math.pi
    out = []
    arcs = [(None, None), (0.0, 2 * pi), (pi / 3, pi / 3 + 2 * pi), (0, pi / 2), (-pi / 4, 1.1), (2.0, 5.5), (6.0, 7.5), (-7.0, -6.5), (0.3, 0.3 + 2 * pi - 0.02)]
    for c, rad in (((0, 0), 200.0), ((-30.5, 60), 75), ((100000.123, -3e5 + 0.1), 1 / 3)):
        for a0, a1 in arcs:
            L = rad * (2 * pi if a0 is None else a1 - a0)
            for n, s in itertools.product((0, 1, 2, 3, 6), (0, L / 6.4, L / 4, L / 2.2, 0.8 * L, 1.3 * L)):
                fl = itertools.product((True, False), repeat=2) if n in (0, 3) or s == 0 else [(True, True)]
                for f, l in fl:
                    out.append(('circle', c, rad, n, s, f, l, a0, a1))
    for (a0, a1), k, f in itertools.product(((None, None), (0.4, 2.9)), (2, 3, 5, 12), (-0.05, -0.02, -1e-3, -1e-5, 1e-5, 1e-3, 0.02, 0.05, 0.5)):
        L = 150.0 * (2 * pi if a0 is None else a1 - a0)
        m = k + (a0 is not None)
        out += [('circle', (10, 20), 150.0, 0, L / (k + f), True, True, a0, a1), ('circle', (10, 20), 150.0, 0, L / (k + f), True, False, a0, a1),
                ('circle', (10, 20), 150.0, m, L / (k + f), True, True, a0, a1), ('circle', (10, 20), 150.0, m, L / (k + f), False, True, a0, a1)]
    for rad, (a0, a1) in itertools.product((100.0, 0.35, 133.7), ((None, None), (0.4, 2.9), (-1.0, 2 * pi - 1.0))):
        whole = a0 != 0.4
        L = rad * (2 * pi if a0 is None else a1 - a0)
        for k in (2, 3, 5, 6, 7, 11, 12, 24):
            out += [('circle', (0, 0), rad, 0, L / k, True, True, a0, a1), ('circle', (0, 0), rad, k + (not whole), L / k, True, k % 2 == 0, a0, a1)]
    out += [('circle', (0, 0), 100.0, n, 0, f, l, *a) for n in (10, 25) for a in arcs[:4] for f, l in itertools.product((True, False), repeat=2)]
    out += [('circle', (0, 0), 100.0, 4, 0, True, True, a0, a1) for a0, a1 in ((1.0, 1.0), (2.0, 1.0), (0.0, 7.0), (0.0, 2 * pi + 1e-3), (-pi, pi), (pi, 3 * pi))]
    return out


def bars_cases():
    return [('bar', (0, 0)), ('bar', (-12.5, 1e3)), ('bar', (3, 4)), ('bar', [7.0, -8.0]), ('bar', np.array([1, 2]))]


def cases(kind):
    return {'bar': bars_cases, 'line': line_cases, 'circle': circle_cases}[kind]()


def apply(G, geo, case, mat, style):
    kw = {} if style == 0 else {'group_label': LAB}
    if case[0] == 'bar':
        return G.add_reinforcement(geo, case[1], D, mat, **kw)
    if case[0] == 'line':
        _, p, q, n, s, f, l = case
        if style == 0:
            return G.add_reinforcement_line(geo, p, q, D, mat, n, s, f, l)
        k = {a: b for a, b, z in (('n', n, 0), ('s', s, 0), ('first', f, True), ('last', l, True)) if b != z}
        return G.add_reinforcement_line(geo, coords_i=p, coords_j=q, diameter=D, material=mat, **k, **kw)
    _, c, rad, n, s, f, l, a0, a1 = case
    if style == 0:
        pos = (n, s, f, l) + (() if a0 is None else (a0, a1))
        return G.add_reinforcement_circle(geo, c, rad, D, mat, *pos)
    k = {a: b for a, b, z in (('n', n, 0), ('s', s, 0), ('first', f, True), ('last', l, True), ('start_angle', a0, None), ('stop_angle', a1, None)) if b != z}
    return G.add_reinforcement_circle(geo, center=c, radius=rad, diameter=D, material=mat, **k, **kw)


def expected(case):
    if case[0] == 'bar':
        return [[tuple(float(x) for x in case[1])]]
    if case[0] == 'line':
        return positions_line(*case[1:])
    _, c, rad, n, s, f, l, a0, a1 = case
    return positions_circle(c, rad, n, s, f, l, 0.0 if a0 is None else a0, 2 * math.pi if a1 is None else a1)


def split_parts(geo):
    fl = flat(geo)
    surf = [(k, [a.tobytes() for a in c], at) for k, c, at in fl if k == 'S']
    pts = [(tuple(c[0][0]), at) for k, c, at in fl if k == 'P']
    return surf, pts


def judge(R, lab, host, got, wants, mat, style):
    """Compare; returns the new geometry or None."""
    if wants is None:
        return None
    if wants is ValueError:
        R.true(isinstance(got, Exc) and got.type is ValueError, lab, f'{"accepted" if not isinstance(got, Exc) else got} instead of ValueError')
        return None
    if isinstance(got, Exc):
        R.fail(lab, f'{got}')
        return None
    hs, hp = split_parts(host)
    gs, gp = split_parts(got)
    R.true(gs == hs, f'{lab} surfaces', 'the surfaces of the host are not kept')
    R.true(gp[:len(hp)] == hp, f'{lab} points', 'the points of the host are not kept')
    new = gp[len(hp):]
    ok = False
    for w in wants:
        tol = 1e-9 * (1 + max([abs(c) for p in w for c in p], default=0))
        if len(w) == len(new) and all(math.dist(a, b[0]) <= tol for a, b in zip(w, new)):
            ok = True
    R.true(ok, f'{lab} positions', f'{[tuple(np.round(b[0], 6)) for b in new]} expected {[[tuple(np.round(a, 6)) for a in w] for w in wants]}')
    names = [b[1][2] for b in new]
    for pos, at in new:
        good = at[0] == id(mat) and at[1] == mat.density and at[3] == (LAB if style else None) and at[4] == D and abs(at[5] - math.pi * D * D / 4) < 1e-9
        R.true(good, f'{lab} attributes', f'{at}')
    R.true(len(set(names)) == len(names), f'{lab} names', 'bars share a generated name')
    for (a, _), (b, _) in itertools.combinations(new, 2):
        R.true(math.dist(a, b) > 1e-7, f'{lab} coincident bars', f'two bars at {a}')
    return got


def run_single(job, R):
    from structuralcodes import geometry as G

    _, host, kind, style = job
    H, mat, e = hosts()
    h = H[host]
    w = wkb(h)
    for i, case in enumerate(cases(kind)):
        got = call(apply, G, h, case, mat, style)
        R.step()
        R.state((host, i, kind, style))
        lab = f'{kind} {case[1:]!r} on {host}'
        want = expected(case)
        judge(R, lab, h, got, want, mat, style)
        R.trace()
        R.outcome((kind, want is ValueError, len(want[0]) if isinstance(want, list) else -1))
        R.true(wkb(h) == w, f'{lab} host', 'the host geometry changed')
    R.sample({'host': host, 'last case': lab})


SUB = [('bar', (5, 5)), ('line', (0, 0), (300, 0), 3, 0, True, True), ('line', (10, 20), (190, 260), 0, 70.0, True, False), ('line', (10, 20), (190, 260), 3, 0, False, False),
       ('circle', (0, 0), 200.0, 4, 0, True, True, None, None), ('circle', (0, 0), 200.0, 0, 90.0, False, True, 0.2, 2.0), ('line', (0, 0), (1, 0), 9, 5, True, True)]


def run_seq(job, R):
    from structuralcodes import geometry as G

    _, depth, host, first = job
    H, mat, e = hosts()

    def walk(g, hist, d):
        for i in ([first] if d == 0 else range(len(SUB))):
            m, st = (mat, 1) if i % 2 else (e, 0)
            w = wkb(g)
            got = call(apply, G, g, SUB[i], m, st)
            R.step()
            R.state((host, hist, i))
            lab = f'{host} additions {hist + (i,)}'
            nx = judge(R, lab, g, got, expected(SUB[i]), m, st)
            R.trace()
            R.true(wkb(g) == w, f'{lab} host', 'the host geometry changed')
            if nx is not None and d + 1 < depth:
                R.true(nx.area == H[host].area, f'{lab} area', f'{nx.area}')
                R.true(nx.reinforced_concrete is True, f'{lab} classification', 'not reinforced concrete')
                walk(nx, hist + (i,), d + 1)

    walk(H[host], (), 0)


def jobs(tier):
    out = [('single', h, k, s) for h in ('rectangle', 'circle', 'compound', 'reinforced') for k in ('bar', 'line', 'circle') for s in (0, 1)]
    out += [('seq', 3 if tier == 'quick' else 4, h, i) for h in ('rectangle', 'compound', 'reinforced') for i in range(len(SUB))]
    return out


def run(job, R):
    (run_single if job[0] == 'single' else run_seq)(job, R)
