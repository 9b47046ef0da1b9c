import json
import math
import os

import numpy as np

from .core import Exc, call
from . import seclib as sl
from .g02 import clip, rings_of

RULE = '''State = (profile, property read first / order of reading). Every profile of every catalogue is built with every property read first on a new
object and then all properties twice; for representatives of every family every ordered triple (thorough: of every profile every ordered pair) of
properties. Transition = one property read; trace = one object whose every value is compared with the integral over its polygon (own closed forms and
half-plane clipping) and with the values of the other orders. The polygon is compared with an independently constructed outline with fillets and the
table of dimensions kept in mc/data/profiles.json. Unknown names are enumerated for every catalogue.'''
ASSUMPTIONS = ['integrals over the polygon agree to 1e-6, those of the ideal outline to 5e-4 (fillets are polygons)',
               'theta is the angle from y to the axis of the larger principal moment, with second moments transforming accordingly (sign as in Iyz)']
PROPS = ['A', 'Iy', 'Iz', 'Iyz', 'Icsi', 'Ieta', 'theta', 'Wely', 'Welz', 'Wply', 'Wplz', 'iy', 'iz']
TABLE = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'profiles.json')))
I = {'HE', 'HP', 'HD', 'IPE', 'UB', 'UBP', 'UC', 'W'}


def outline(cat, d):
    """[(corner, fillet radius)] counterclockwise."""
    if cat in I:
        h, b, tw, tf, r = (d[k] for k in ('h', 'b', 'tw', 'tf', 'r'))
        q = [((b / 2, -h / 2), 0), ((b / 2, -h / 2 + tf), 0), ((tw / 2, -h / 2 + tf), r)]
        q += [((x, -y), f) for (x, y), f in q[::-1]]
        return q + [((-x, y), f) for (x, y), f in q[::-1]]
    if cat == 'IPN':
        h, b, tw, tf, r1, r2 = (d[k] for k in ('h', 'b', 'tw', 'tf', 'r1', 'r2'))
        s = 0.14
        q = [((b / 2, -h / 2), 0), ((b / 2, -h / 2 + tf - b / 4 * s), r2), ((tw / 2, -h / 2 + tf + (b / 4 - tw / 2) * s), r1)]
        q += [((x, -y), f) for (x, y), f in q[::-1]]
        return q + [((-x, y), f) for (x, y), f in q[::-1]]
    if cat == 'UPE':
        h, b, tw, tf, r = (d[k] for k in ('h', 'b', 'tw', 'tf', 'r'))
        q = [((0, -h / 2), 0), ((b, -h / 2), 0), ((b, -h / 2 + tf), 0), ((tw, -h / 2 + tf), r)]
        return q + [((x, -y), f) for (x, y), f in q[::-1]]
    if cat in ('UPN', 'U'):
        h, b, tw, tf, r1, r2 = (d[k] for k in ('h', 'b', 'tw', 'tf', 'r1', 'r2'))
        s, u = (0.08, b / 2) if h <= 300 else (0.05, (b - tw) / 2)
        q = [((0, -h / 2), 0), ((b, -h / 2), 0), ((b, -h / 2 + tf - s * u), r2), ((tw, -h / 2 + tf + s * (b - u - tw)), r1)]
        return q + [((x, -y), f) for (x, y), f in q[::-1]]
    h, b, t, r1, r2 = (d[k] for k in ('h', 'b', 't', 'r1', 'r2'))
    return [((0, 0), 0), ((b, 0), 0), ((b, t), r2), ((t, t), r1), ((t, h), r2), ((0, h), 0)]


def filleted(pts, n=48):
    out = []
    N = len(pts)
    for i in range(N):
        p, r = np.array(pts[i][0], float), pts[i][1]
        if r == 0:
            out.append(p)
            continue
        a, b = np.array(pts[i - 1][0], float) - p, np.array(pts[(i + 1) % N][0], float) - p
        a /= np.linalg.norm(a)
        b /= np.linalg.norm(b)
        half = math.acos(np.clip(a @ b, -1, 1)) / 2
        c = p + (a + b) / np.linalg.norm(a + b) * r / math.sin(half)
        s, e = p + a * r / math.tan(half) - c, p + b * r / math.tan(half) - c
        f0 = math.atan2(s[1], s[0])
        df = (math.atan2(e[1], e[0]) - f0 + math.pi) % (2 * math.pi) - math.pi
        out += [c + r * np.array([math.cos(f0 + df * k / n), math.sin(f0 + df * k / n)]) for k in range(n + 1)]
    return np.array(out)


def plastic(ring, axis):
    """Plastic modulus about the axis 0 (y) or 1 (z) that halves the area."""
    pts = [tuple(p) for p in ring]
    k = 1 - axis
    lo, hi = min(p[k] for p in pts), max(p[k] for p in pts)
    u = (1, 0) if axis == 0 else (0, -1)
    tot = sl.area_moments([pts])[0]

    def part(c):
        cl = clip(pts, (0, c) if axis == 0 else (c, 0), u, 1)
        return sl.area_moments([cl]) if len(cl) > 2 else np.zeros(6)

    for _ in range(60):
        m = (lo + hi) / 2
        if part(m)[0] > tot / 2:
            lo = m
        else:
            hi = m
    c = (lo + hi) / 2
    S = 1 if axis == 0 else 2
    M = sl.area_moments([pts])
    up = part(c)
    return (up[S] - c * up[0]) - ((M[S] - up[S]) - c * (M[0] - up[0]))


def wanted(poly):
    ring = rings_of(poly)[0]
    A, Sy, Sz, Iyy, Izz, Iyz = sl.area_moments([ring])
    mid, dif = (Iyy + Izz) / 2, math.hypot((Iyy - Izz) / 2, Iyz)
    return {
        'A': A, 'Iy': Iyy, 'Iz': Izz, 'Iyz': Iyz, 'Icsi': mid + dif, 'Ieta': mid - dif,
        'Wely': Iyy / np.abs(ring[:, 1]).max(), 'Welz': Izz / np.abs(ring[:, 0]).max(),
        'Wply': plastic(ring, 0), 'Wplz': plastic(ring, 1),
        'iy': math.sqrt(Iyy / A), 'iz': math.sqrt(Izz / A),
    }, (Sy / A, Sz / A)


def check(R, lab, name, val, W):
    if isinstance(val, Exc):
        return R.fail(f'{lab} {name}', f'{val}')
    if name == 'theta':
        c, s = math.cos(val), math.sin(val)
        I1 = c * c * W['Iy'] + s * s * W['Iz'] - 2 * c * s * W['Iyz']
        R.eq(I1, W['Icsi'], f'{lab} theta', f'moment about the axis at {val}', 1e-6)
        R.true(-math.pi / 2 - 1e-6 <= val <= math.pi / 2 + 1e-6, f'{lab} theta range', f'{val}')
        return
    R.eq(val, W[name], f'{lab} {name}', name, 1e-6, 1e-8 * W['Icsi'] if name == 'Iyz' else 0)


def run_profile(job, R):
    from structuralcodes.geometry import profiles

    _, cat, name, orders = job[:4]
    C = getattr(profiles, cat)
    d = TABLE[cat][name]
    lab = f'{cat} {name}'
    p = call(C, name)
    R.step()
    R.state((cat, name))
    if isinstance(p, Exc):
        return R.fail(lab, f'{p}')
    for k, v in d.items():
        if hasattr(p, k):
            R.true(getattr(p, k) == v, f'{lab} {k}', f'{getattr(p, k)} instead of {v}')
    for k in ('h', 'b') + (('t',) if 't' in d else ('tf', 'r1' if 'r1' in d else 'r')) + (('tw',) if cat not in ('IPN', 'UPN', 'U', 'L', 'LI') else ()):
        R.true(hasattr(p, k), f'{lab} has {k}', 'missing')
    w0 = p.polygon.wkb
    g = call(C.get_polygon, name)
    R.true(not isinstance(g, Exc) and g.equals_exact(p.polygon, 1e-9), f'{lab} get_polygon', f'{g if isinstance(g, Exc) else "differs from the polygon of the profile"}')
    W, cen = wanted(p.polygon)
    R.true(p.polygon.is_valid and not p.polygon.interiors and max(abs(c) for c in cen) < 1e-6 * d['h'], f'{lab} centred', f'centroid {cen}')
    # outline
    ref = filleted(outline(cat, d))
    M = sl.area_moments([ref])
    ref = ref - np.array([M[2] / M[0], M[1] / M[0]])
    V, _ = wanted(_Poly(ref))
    for k in PROPS:
        if k in ('theta', 'Icsi', 'Ieta', 'iy', 'iz'):
            continue
        R.eq(W[k], V[k], f'{lab} outline {k}', f'{k} of the polygon and of the outline', 5e-4, 5e-4 * V['Ieta'] if k == 'Iyz' else 0)
    b = np.array(p.polygon.bounds)
    R.true(np.abs(b - np.r_[ref.min(0), ref.max(0)]).max() < 2e-3 * d['b'] and abs(b[2] - b[0] - d['b']) < 1e-6 * d['b'] and abs(b[3] - b[1] - d['h']) < 1e-6 * d['h'],
           f'{lab} dimensions', f'{b.tolist()}')
    # orders of reading
    first = {}
    for order in orders_for(orders):
        q = C(name)
        for k in order:
            v = call(getattr, q, k)
            R.step()
            if k not in first:
                check(R, f'{lab} read {order[0]} first', k, v, W)
                first[k] = v
            R.true(not isinstance(v, Exc) and (v == first[k] or abs(v - first[k]) <= 1e-9 * max(abs(v), W['Ieta'] * 1e-3 if k == 'Iyz' else 0)) or (k == 'theta' and not isinstance(v, Exc) and abs(abs(v) - abs(first[k])) < 1e-6 and (abs(v) < 1e-6 or abs(abs(v) - math.pi / 2) < 1e-6)),
                   f'{lab} {k} after {order}', f'{v} instead of {first[k]}')
        R.true(q.polygon.equals_exact(p.polygon, 1e-9 * d['h']), f'{lab} polygon after {order}', 'the polygon changed')
        R.state((cat, name, order))
        R.trace()
    R.true(p.polygon.wkb == w0, f'{lab} polygon', 'changed')
    R.outcome((cat, round(W['A'], 3)))


class _Poly:
    is_empty = False
    interiors = ()

    def __init__(self, pts):
        self.exterior = self
        self.coords = np.vstack([pts, pts[:1]])


def orders_for(kind):
    if kind == 'first':
        for i, k in enumerate(PROPS):
            rest = PROPS[i + 1:] + PROPS[:i]
            yield (k, *rest, k, *rest)
    elif kind == 'pairs':
        for a in PROPS:
            for b in PROPS:
                rest = tuple(x for x in PROPS if x not in (a, b))
                yield (a, b, *rest, a, b)
    else:
        for a in PROPS:
            for b in PROPS:
                for c in PROPS:
                    yield (a, b, c, a)


def run_names(job, R):
    from structuralcodes.geometry import profiles

    _, cat = job
    C = getattr(profiles, cat)
    R.true(set(TABLE[cat]) <= set(C.profiles()), f'{cat} catalogue', f'{set(TABLE[cat]) - set(C.profiles())} missing')
    good = next(iter(TABLE[cat]))
    others = [next(iter(t)) for c, t in TABLE.items() if c != cat]
    for bad in ['', 'XYZ', good + '0000', good.lower(), ' ' + good, None, 12345, 0] + [o for o in others if o not in TABLE[cat]]:
        for f, n in ((C, 'constructor'), (C.get_polygon, 'get_polygon')):
            r = call(f, bad)
            R.step()
            R.state((cat, bad, n))
            R.true(isinstance(r, Exc) and r.type is ValueError, f'{cat} {n}({bad!r})', f'{r if isinstance(r, Exc) else "accepted"}')
    if cat in ('IPE', 'IPN', 'UPE', 'UPN'):
        for n in TABLE[cat]:
            for num in (int(n[3:]), float(n[3:])):
                r, s = call(C, num), call(C.get_polygon, num)
                R.step(2)
                ok = not isinstance(r, Exc) and not isinstance(s, Exc) and r.polygon.equals_exact(C(n).polygon, 1e-9) and s.equals_exact(C(n).polygon, 1e-9)
                R.true(ok, f'{cat} number {num!r}', f'{r} {s}')
    R.trace()


REPS = [('HE', 'HEB200'), ('IPN', 'IPN200'), ('UPN', 'UPN320'), ('UPE', 'UPE200'), ('L', 'L100x100x10'), ('LI', 'L120x80x10'), ('U', 'U40x20')]


def jobs(tier):
    out = [('names', c) for c in TABLE]
    for c, t in TABLE.items():
        for n in t:
            out.append(('profile', c, n, 'first' if tier == 'quick' else 'pairs'))
    out += [('profile', c, n, 'triples', 1) for c, n in (REPS if tier == 'thorough' else REPS[4:6])]
    return out


def run(job, R):
    (run_names if job[0] == 'names' else run_profile)(job, R)
