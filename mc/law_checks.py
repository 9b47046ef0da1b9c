"""Step functions shared by the constitutive law explorers."""
import numpy as np

from .core import Exc, call, close
from .ref_laws import Ref, lib_law, near, strain_grid

SNAP = {'ElasticPlastic', 'ParabolaRectangle', 'BilinearCompression', 'Sargin', 'Popovics', 'UserDefined'}


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [(i, i + k) for i in range(0, len(seq), k)]


def scale_of(ref, grid):
    return max([abs(ref.stress(e)) for e in grid] + [1e-12])


def jumps(ref):
    """Strains at which the stress may be discontinuous (ultimate strains)."""
    if ref.kind == 'InitialStrain':
        return [v - ref.e0 for v in jumps(ref.b)] if ref.compat else []
    if ref.kind == 'Parallel':
        return [v for p in ref.parts for v in jumps(p)]
    out = [v for v in ref.lim if abs(v) < 50]
    if ref.kind == 'UserDefined':
        out += [ref.x[0], ref.x[-1], 100 * ref.x[0], 100 * ref.x[-1]]
    if ref.kind == 'ParabolaRectangle' and ref.kind:
        out += []
    return out


def ambiguous(ref, e, cs):
    """Within rounding of the edge of the snapping band or of a jump of a shifted law."""
    for k in cs:
        band = 1e-6 + 1e-5 * abs(k)
        if abs(abs(e - k) - band) < 0.02 * band:
            return True
    return False


def edge(ref, e, js):
    """e is within rounding of a jump but, because of a shift, maybe not on it."""
    if ref.kind in ('InitialStrain', 'Parallel'):
        return False
    return False


def check_stress(R, spec, forms=True):
    ref = Ref(spec)
    law = lib_law(spec)
    grid = strain_grid(ref)
    js = jumps(ref)
    grid = [e for e in grid if not ambiguous(ref, e, js)]
    sc = scale_of(ref, grid)
    want = [ref.stress(e) for e in grid]
    name = spec
    R.sample({'law': repr(spec), 'strains': grid[:6], 'reference': want[:6]})
    for e, w in zip(grid, want):
        R.state((spec, e))
        g = law.get_stress(e)
        R.step()
        R.outcome((spec[0], round(float(np.real(w)) / sc, 3)))
        if not np.isscalar(g):
            R.fail((name, e, 'scalar type'), f'get_stress of a scalar returned {type(g)}')
        R.eq(g, w, f'{name} stress scalar eps={e!r}', 'get_stress', atol=1e-10 * sc)
    R.trace()
    if not forms:
        return
    # second walk, reversed, on the same object (no hidden state)
    for e, w in zip(reversed(grid), reversed(want)):
        g = law.get_stress(np.float64(e))
        R.step()
        R.eq(g, w, f'{name} stress np.float64 eps={e!r}', 'get_stress', atol=1e-10 * sc)
    R.trace()
    n = len(grid)
    shapes = {
        'list': (list(grid), want),
        'array': (np.array(grid), want),
        'reversed array': (np.array(grid)[::-1], want[::-1]),
        'array 2d': (np.array(grid[: n // 2 * 2]).reshape(2, -1), np.array(want[: n // 2 * 2]).reshape(2, -1)),
        'strided': (np.array(grid)[::3], want[::3]),
    }
    for fname, (x, w) in shapes.items():
        keep = np.array(x, dtype=float, copy=True)
        g = call(law.get_stress, x)
        R.step()
        R.trace()
        if isinstance(g, Exc):
            R.fail(f'{name} stress {fname}', f'get_stress({fname}) {g}')
            continue
        g = np.asarray(g)
        w = np.asarray(w)
        if g.shape != w.shape:
            R.fail(f'{name} stress {fname} shape', f'shape {g.shape} expected {w.shape}')
            continue
        bad = ~np.isclose(np.real(g), w, rtol=1e-9, atol=1e-10 * sc)
        for i in np.argwhere(bad)[:3]:
            i = tuple(i)
            R.fail(f'{name} stress {fname} eps={keep[i]!r}', f'{fname}: got {g[i]} expected {w[i]} at eps={keep[i]!r}')
    for fname, x in (('int list', [0, 0]), ('int array', np.array([0, 1, -1]))):
        g = call(law.get_stress, x)
        R.step()
        w = np.array([ref.stress(float(v)) for v in x])
        if isinstance(g, Exc) or not close(g, w, 1e-9, 1e-10 * sc):
            R.fail(f'{name} stress {fname}', f'got {g} expected {w}')


def tangent_ok(ref, e, g, sc, atol):
    cand = {ref.slope(e, -1), ref.slope(e, 1)}
    for k in ref.allkinks():
        if abs(e - k) <= 1.3e-6 + 1.3e-5 * abs(k):
            cand |= {ref.slope(k, -1), ref.slope(k, 1)}
            # a shifted law evaluates the base law within rounding of its kink
            d = 4e-15 * (1 + abs(k))
            cand |= {ref.slope(k - d, -1), ref.slope(k + d, 1)}
            cand |= {ref.slope(e - d, -1), ref.slope(e + d, 1)}
    return any(abs(g - c) <= 1e-7 * abs(c) + atol for c in cand), cand


def check_tangent(R, spec):
    ref = Ref(spec)
    law = lib_law(spec)
    grid = strain_grid(ref)
    slopes = [abs(ref.slope(e, 1)) for e in grid if abs(e) < 1]
    atol = 1e-9 * max([s for s in slopes if np.isfinite(s)] + [1e-12])
    compat = not (spec[0] == 'InitialStrain' and not spec[3])
    R.sample({'law': repr(spec), 'strain': grid[3], 'slope': ref.slope(grid[3], 1)})
    scal = []
    for e in grid:
        R.state((spec, e))
        g = law.get_tangent(e)
        R.step()
        scal.append(g)
        if compat:
            ok, cand = tangent_ok(ref, e, np.real(g), 1, atol)
            if not ok:
                R.fail(f'{spec} tangent eps={e!r}', f'get_tangent {g} expected one of {sorted(cand)}')
        R.outcome((spec[0], np.round(float(np.real(g)) / (max(slopes) + 1e-9), 3)))
    R.trace()
    for fname, x, idx in (
        ('list', list(grid), None),
        ('array', np.array(grid), None),
        ('reversed', np.array(grid[::-1]), 'rev'),
        ('2d', np.array(grid[: len(grid) // 2 * 2]).reshape(2, -1), '2d'),
    ):
        g = call(law.get_tangent, x)
        R.step()
        R.trace()
        w = np.real(np.array(scal))
        w = w[::-1] if idx == 'rev' else w
        w = w[: len(grid) // 2 * 2].reshape(2, -1) if idx == '2d' else w
        if isinstance(g, Exc) or np.shape(g) != w.shape:
            R.fail(f'{spec} tangent {fname}', f'got {g if isinstance(g, Exc) else np.shape(g)} for shape {w.shape}')
            continue
        g = np.asarray(g)
        bad = ~np.isclose(np.real(g), w, rtol=1e-9, atol=atol)
        for i in np.argwhere(bad)[:3]:
            i = tuple(i)
            R.fail(
                f'{spec} tangent {fname} eps={np.asarray(x)[i]!r}',
                f'array tangent {g[i]} differs from scalar tangent {w[i]} at eps={np.asarray(x)[i]!r}',
            )
    g = call(law.get_tangent, [0, 0])
    R.step()
    w = law.get_tangent(0.0)
    if isinstance(g, Exc) or not close(np.real(g), [w, w], 1e-9, atol):
        R.fail(f'{spec} tangent int list', f'got {g} expected {w}')
    # secant
    sec = call(law.get_secant, np.array(grid))
    R.step()
    if isinstance(sec, Exc):
        R.fail(f'{spec} secant array', f'{sec}')
        return
    seclist = call(law.get_secant, list(grid))
    R.step()
    for i, e in enumerate(grid):
        s = law.get_secant(e)
        R.step()
        w = law.get_tangent(e) if e == 0 else law.get_stress(e) / e
        tol = 1e-9 * abs(w) + atol
        for nm, v in (('scalar', s), ('array', sec[i]), ('list', None if isinstance(seclist, Exc) else seclist[i])):
            if v is None or not abs(v - w) <= tol:
                R.fail(f'{spec} secant {nm} eps={e!r}', f'get_secant {v} expected {w}')
    R.trace()


def check_limits(R, spec):
    ref = Ref(spec)
    law = lib_law(spec)
    R.state((spec, 'lim'))
    lim = law.get_ultimate_strain()
    yld = call(law.get_ultimate_strain, yielding=True)
    R.step(2)
    R.sample({'law': repr(spec), 'ultimate': lim, 'yield': yld})
    R.eq(tuple(lim), ref.lim, f'{spec} ultimate strain', 'get_ultimate_strain()', rtol=1e-12, atol=1e-15)
    R.eq(yld if isinstance(yld, Exc) else tuple(yld), ref.yld, f'{spec} yield strain',
         'get_ultimate_strain(yielding=True)', rtol=1e-12, atol=1e-15)
    R.true(isinstance(lim, tuple) and lim[0] <= lim[1], f'{spec} ordered', f'limits {lim} not ordered')
    grid = strain_grid(ref)
    sc = scale_of(ref, grid)
    # just inside / at / just outside each limit, by scalar and by array
    for j, k in enumerate(ref.lim):
        if abs(k) > 50:
            continue
        band = 1e-6 + 1e-5 * abs(k)
        out = -1 if j == 0 else 1
        for d in (0.0, 1e-12, 0.3 * band, 0.9 * band, 2 * band, 10 * band, 100 * band):
            for sgn in (1, -1):
                e = k + sgn * out * d
                R.state((spec, e))
                w = ref.stress(e)
                for nm, g in (('scalar', law.get_stress(e)), ('array', law.get_stress(np.array([e]))[0])):
                    R.step()
                    R.eq(np.real(g), w, f'{spec} limit {nm} eps={e!r}', f'stress near ultimate strain {k} ({nm})', atol=1e-10 * sc)
                    R.outcome((j, d, sgn, abs(w) > 0))
    R.trace()


# ---------------------------------------------------------------- Marin form
def poly_at(coeff, z):
    return sum(c * z**i for i, c in enumerate(coeff))


def is_poly(ref):
    if ref.kind == 'ParabolaRectangle':
        return ref.n == 2
    if ref.kind in ('Sargin', 'Popovics'):
        return False
    if ref.kind == 'InitialStrain':
        return (not ref.compat) or is_poly(ref.b)
    if ref.kind == 'Parallel':
        return all(is_poly(p) for p in ref.parts)
    return True


def defined_range(ref):
    """Strain range in which the Marin form must reproduce the stress."""
    if ref.kind == 'Elastic':
        return (-1e9, 1e9)
    if ref.kind == 'ElasticPlastic':
        return (-1e9, 1e9) if ref.su is not None else ref.lim
    if ref.kind == 'InitialStrain':
        if not ref.compat:
            return (-1e9, 1e9)
        r = defined_range(ref.b)
        return (r[0] - ref.e0, r[1] - ref.e0)
    if ref.kind == 'Parallel':
        rs = [defined_range(p) for p in ref.parts]
        return (max(r[0] for r in rs), min(r[1] for r in rs))
    return (-1e9, 1e9)


def disc_tol(ref, e):
    """Error bound h^2/8*max|s''| of a linear interpolation with 9 equal steps."""
    if ref.kind == 'InitialStrain':
        return disc_tol(ref.b, e + ref.e0 if ref.compat else ref.e0)
    if ref.kind == 'Parallel':
        return sum(abs(w) * disc_tol(p, e) for w, p in zip(ref.w, ref.parts))
    if is_poly(ref) or e > 0 or e < ref.lim[0]:
        return 0.0
    h = -ref.lim[0] / 9
    lo, hi = max(e - h, ref.lim[0]), min(e + h, 0.0)
    d = (hi - lo) / 200
    smin = 0.0
    for i in range(1, 200):
        x = lo + i * d
        # variation of the slope = second derivative, kinks included
        smin = max(smin, abs(ref.slope(x + d * 0.99, -1) - ref.slope(x - d * 0.99, 1)) / d)
    return min(h * h / 8 * smin, h * max(abs(ref.slope(lo + i * d, 1)) for i in range(200))) * 1.1 + 1e-3 * ref.fc


def tangent_const(spec):
    """Tangent of an InitialStrain law without compatibility (documented tiny value)."""
    return spec[0] == 'InitialStrain' and not spec[3]


def has_incompat(ref):
    if ref.kind == 'InitialStrain':
        return (not ref.compat) or has_incompat(ref.b)
    if ref.kind == 'Parallel':
        return any(has_incompat(p) for p in ref.parts)
    return False


LOST = (
    'Parallel polynomial form: a member without strain limits is dropped '
    'outside the limits of the other members'
)


def piece_range(ref):
    """Strain range of the polynomial pieces of a law (None: no limits)."""
    if ref.kind == 'Elastic':
        return None
    if ref.kind == 'InitialStrain':
        r = piece_range(ref.b) if ref.compat else None
        return r and (r[0] - ref.e0, r[1] - ref.e0)
    if ref.kind == 'Parallel':
        rs = [r for r in map(piece_range, ref.parts) if r]
        return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
    if ref.kind == 'UserDefined':
        f = 100 if ref.flag else 1
        return (f * ref.x[0], f * ref.x[-1])
    return (ref.lim[0], 0.0 if ref.lim[1] > 50 else ref.lim[1])


def lost(ref, e):
    """Strains at which the known finding LOST applies."""
    if ref.kind == 'InitialStrain':
        return ref.compat and lost(ref.b, e + ref.e0)
    if ref.kind == 'Parallel':
        rs = [piece_range(p) for p in ref.parts]
        lim = [r for r in rs if r]
        if lim and None in rs:
            lo, hi = min(r[0] for r in lim), max(r[1] for r in lim)
            if not lo <= e <= hi:
                return True
        return any(lost(p, e) for p in ref.parts)
    return False


def check_marin(R, spec, slopes):
    ref = Ref(spec)
    law = lib_law(spec)
    exact = is_poly(ref)
    grid = strain_grid(ref, dense=24)
    sc = scale_of(ref, [e for e in grid if abs(e) < 1])
    E0 = max(abs(ref.slope(e, 1)) for e in grid if abs(e) < 1)
    E0 = E0 if np.isfinite(E0) else sc / 1e-3
    rng = defined_range(ref)
    kinks = ref.allkinks()
    js = jumps(ref)
    base_tol = 1e-8 * sc
    tt = has_incompat(ref)

    def clear(e, ks, f=1.5):
        return all(abs(e - k) > f * (1e-6 + 1e-5 * abs(k)) for k in ks)

    def inside(e):
        return rng[0] < e < rng[1]

    R.sample({'law': repr(spec), 'planes': [(grid[2], 0.0), (grid[5], 1e-5)]})
    # uniform strains
    for e in grid:
        if abs(e) > 50 or not inside(e) or ambiguous(ref, e, js):
            continue
        R.state((spec, e, 0.0))
        plane = [e, 0.0]
        lim, co = law.__marin__(strain=plane)
        limt, cot = law.__marin_tangent__(strain=[e, 0.0])
        R.step(2)
        if plane != [e, 0.0]:
            R.fail(f'{spec} marin plane modified', f'strain plane changed to {plane}')
        if lim is not None or limt is not None or len(co) != 1 or len(cot) != 1:
            R.fail(f'{spec} marin uniform eps={e!r}', f'limits {lim} {limt} for a uniform strain')
            continue
        g = poly_at(co[0], 0.7)
        w = ref.stress(e)
        tol = base_tol + (0 if exact else disc_tol(ref, e))
        if exact or clear(e, js):
            R.eq(g, w, f'{spec} marin uniform eps={e!r}', 'uniform stress', atol=tol)
        gt = poly_at(cot[0], 0.7)
        if exact and clear(e, kinks) and not tt:
            R.eq(gt, ref.slope(e, 1), f'{spec} marin tangent uniform eps={e!r}', 'uniform tangent', rtol=1e-8, atol=1e-9 * E0)
        elif exact and not tt:
            ok, cand = tangent_ok(ref, e, gt, 1, 1e-9 * E0)
            R.true(ok, f'{spec} marin tangent uniform eps={e!r}', f'uniform tangent {gt} expected one of {cand}')
        elif exact:
            R.eq(gt, law.get_tangent(e), f'{spec} marin tangent uniform eps={e!r}', 'uniform tangent', rtol=1e-7, atol=1e-9 * E0)
    R.trace()
    for eps0, eps1 in slopes:
        R.state((spec, eps0, eps1))
        plane = [eps0, eps1]
        lim, co = law.__marin__(strain=plane)
        limt, cot = law.__marin_tangent__(strain=(eps0, eps1))
        R.step(2)
        R.trace()
        if plane != [eps0, eps1]:
            R.fail(f'{spec} marin plane modified', f'strain plane changed to {plane}')
        key = f'{spec} marin plane=({eps0!r},{eps1!r})'
        if lim is not None:
            if len(lim) != len(co):
                R.fail(key, 'limits and coefficients of different length')
                continue
            srt = sorted((min(a), max(a)) for a in lim)
            for a, b in zip(srt, srt[1:]):
                if a[1] > b[0] + 1e-12:
                    R.fail(key + ' overlap', f'strain ranges overlap: {srt}')
        for e in grid:
            if abs(e) > 50 or not inside(e) or not clear(e, kinks):
                continue
            z = (e - eps0) / eps1
            R.state((spec, eps0, eps1, e))
            R.step()

            def value(lim, co):
                if lim is None:
                    return poly_at(co[0], z)
                # pieces may share their end point (overlaps are checked above)
                hit = [
                    poly_at(c, z)
                    for (a, b), c in zip(lim, co)
                    if min(a, b) <= e <= max(a, b)
                ]
                return hit[0] if hit else 0.0

            g, w = value(lim, co), ref.stress(e)
            tol = base_tol + (0 if exact else disc_tol(ref, e))
            if g == 0.0 and lost(ref, e):
                R.fail(LOST, f'{key} eps={e!r}: got 0 expected {w}')
                continue
            if exact or clear(e, js, 3):
                R.eq(g, w, key + f' eps={e!r}', 'polynomial stress', rtol=1e-7, atol=tol)
            if exact:
                gt = value(limt, cot)
                wt = ref.slope(e, 1) if not tt else law.get_tangent(e)
                R.eq(gt, wt, key + f' tangent eps={e!r}', 'polynomial tangent', rtol=1e-7, atol=1e-8 * E0)
        if not exact:
            # tangent coefficients are the derivative of the stress coefficients
            pairs = sorted(zip([None] if lim is None else lim, co), key=lambda t: repr(t[0]))
            pairst = sorted(zip([None] if limt is None else limt, cot), key=lambda t: repr(t[0]))
            ok = len(pairs) == len(pairst)
            for (a, c), (b, d) in zip(pairs, pairst):
                ok = ok and close(a if a is None else tuple(a), b if b is None else tuple(b), 1e-9, 1e-12)
                dc = [i * c[i] / eps1 for i in range(1, len(c))]
                dc += [0.0] * (len(d) - len(dc))
                dd = list(d) + [0.0] * (len(dc) - len(d))
                ok = ok and close(dc, dd, 1e-6, 1e-6 * E0)
            if not tt:
                R.true(ok, key + ' tangent', 'tangent coefficients are not the derivative of the stress coefficients')


PLANES = [
    (0.0, 1e-5), (0.0, -1e-5), (-0.001, 2e-5), (-0.001, -2e-5), (0.0012, 7e-6),
    (0.0012, -7e-6), (-0.004, 3e-5), (0.02, -1e-4), (-0.0035, 1e-6), (0.0, 3e-7),
    (-0.002, 5e-4), (0.001, 1e-2),
]
