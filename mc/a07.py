import math

import numpy as np

from . import seclib as sl
from . import a05
from .a05 import limits
from .core import Exc, call

RULE = '''State = (section, integrator, angle, axial load, options). Options: the full grid of numbers of points before and after
yielding and first curvatures (both signs, larger than the yield curvature), and every list of up to three curvatures of a set
(both signs, repeated, zero, integers, decreasing, numpy arrays). Transition = one calculate_moment_curvature; trace = the
returned arrays checked point by point: inclination, requested curvatures, equilibrium, moments of the strain state; without a
list: start, spacing, yield point exactly at a yield strain, last point the state of the bending strength. No state with a failed material is accepted
where there is an equilibrium without one.'''
ASSUMPTIONS = [
    'equilibrium within the force tolerance of the solver (1e-2 N between the ends of the last interval)',
    'requests for which the solver reports that no equilibrium was found (ValueError) are counted but hold no curve to check; they are only accepted for given curvatures for which there is no equilibrium without failure of a material',
]
MORE = {
    # rupture of the reinforcement governs
    'light': [('S', (sl.rect(300, 500),), sl.C, True)] + sl.bars([(-100, -210), (100, -210), (0, 200)], 6, sl.SH),
    'brittle': [('S', (sl.rect(300, 500, 150, 250),), sl.C, True)] + sl.bars([(40, 40), (260, 40), (150, 460)], 20, ('ElasticPlastic', 200000.0, 435.0, 700.0, 0.004)),
    # far from the origin
    'far': sl.moved([('S', (sl.rect(300, 600),), sl.C, True)] + sl.bars([(-100, -250), (100, -250), (-100, 250)], 20, sl.S), -700, 21000),
}
NAMES = a05.NAMES + list(MORE)
TH = {'quick': [0.0, 0.6, -2.1], 'thorough': [i * math.pi / 8 for i in range(-8, 17)] + [0.6, -2.1]}
FR = {'quick': [-0.5, -0.2, 0.0, 0.3], 'thorough': [-0.8, -0.6, -0.5, -0.3, -0.2, -0.1, 0.0, 0.1, 0.3, 0.6]}


def parts_of(name):
    return MORE[name] if name in MORE else a05.parts_of(name)


def jobs(tier):
    return [(tier, s, i, t) for s in NAMES for i in ('marin', 'fiber') for t in range(len(TH[tier]))]


def yield_limits(parts):
    """Per part the strains that end the pre-yield range (concrete peak, steel yield)."""
    rc = any(p[0] == 'B' for p in parts) and any(p[0] == 'S' and p[3] for p in parts)
    out = []
    for p in parts:
        spec = p[3] if p[0] == 'B' else p[2]
        r = sl.ref_law(spec)
        y = r.yld
        conc = p[0] == 'S' and p[3]
        out.append(((y if (conc or not rc) else r.lim)[0], y[1]))
    return out


def unfailed(parts, ky, kz):
    """Range of the axial strain for which no point is strained beyond the limits of its material."""
    lo, hi = -math.inf, math.inf
    for y, z, spec in sl.points_of(parts):
        a, b = sl.law_limits(spec)
        d = ky * z - kz * y
        lo, hi = max(lo, a - d), min(hi, b - d)
    return lo, hi


def reachable(parts, integ, own, n, ky, kz):
    """There is an equilibrium for which nothing has failed."""
    lo, hi = unfailed(parts, ky, kz)
    if lo >= hi:
        return False
    a, b = ((sl.resultants(parts, (e, ky, kz)) if integ == 'marin' else own([e, ky, kz]))[0] - n for e in (lo, hi))
    return a <= 0 <= b


def verify(R, lab, parts, integ, own, fs, size, th, n, chi, res, tol=0.011):
    m = len(chi)
    arrs = {k: np.asarray(getattr(res, k)) for k in ('chi_y', 'chi_z', 'eps_axial', 'm_y', 'm_z')}
    for k, a in arrs.items():
        if not R.true(a.shape == (m,), f'{lab} length {k}', f'{k} has shape {a.shape} for {m} curvatures'):
            return
    R.true(res.theta == th and res.n == n, f'{lab} request', f'theta {res.theta} n {res.n}')
    c, s = math.cos(th), math.sin(th)
    cs = max(max(abs(x) for x in chi), 1e-12)
    for i, k in enumerate(chi):
        ky, kz = float(arrs['chi_y'][i]), float(arrs['chi_z'][i])
        R.true(abs(ky - k * c) <= 1e-12 * cs and abs(kz - k * s) <= 1e-12 * cs, f'{lab} curvature {i}', f'curvature {ky, kz} for chi={k} theta={th}')
        st = (float(arrs['eps_axial'][i]), ky, kz)
        ex = sl.resultants(parts, st) if integ == 'marin' else np.array(own(list(st)), dtype=float)
        rt = 1e-8
        lo, hi = unfailed(parts, ky, kz)
        if not lo - 2e-6 <= st[0] <= hi + 2e-6:
            # something failed: only if there is no equilibrium without failure
            R.true(not reachable(parts, integ, own, n, ky, kz), f'{lab} failed {i}', f'axial strain {st[0]} at chi={k} beyond {lo, hi} although there is an equilibrium within')
        R.true(abs(ex[0] - n) <= tol + rt * fs, f'{lab} equilibrium {i}', f'N={ex[0]} at chi={k} for n={n}')
        R.true(abs(arrs['m_y'][i] - ex[1]) <= 1e-2 + rt * fs * size and abs(arrs['m_z'][i] - ex[2]) <= 1e-2 + rt * fs * size,
               f'{lab} moments {i}', f'{arrs["m_y"][i], arrs["m_z"][i]} but the stresses give {ex[1:]}')


def run(job, R):
    tier, name, integ, ti = job
    th = TH[tier][ti]
    parts = parts_of(name)
    fs, size = sl.force_scale(parts), sl.size(parts)
    new = lambda: sl.section(parts, integ, mesh_size=0.1).section_calculator
    calc, own = new(), new().integrate_strain_profile
    lo, hi, elo, ehi = limits(parts)
    c, s = math.cos(th), math.sin(th)
    ylim = yield_limits(parts)
    for f in FR[tier]:
        n = float(-f * lo if f < 0 else f * hi)
        lab0 = f'{name} {integ} theta={th:.5g} n={f}'
        ult = call(calc.calculate_bending_strength, th, n)
        if isinstance(ult, Exc):
            R.fail(lab0, f'{ult}')
            continue
        kult = ult.chi_y * c + ult.chi_z * s
        first = None
        opts = [(10, 10, 1e-8), (2, 1, 1e-8), (3, 0, -1e-8), (5, 4, 1e-7), (4, 3, 1.0), (4, 3, -1.0), (1, 1, 1e-8), (7, 2, -5e-7)]
        if tier == 'quick':  # every option with every section, angle and load, spread over the integrators
            opts = [(10, 10, 1e-8)] + opts[1 + (ti + FR[tier].index(f) + (integ == 'fiber')) % 2::2]
        for pre, post, k1 in opts:
            lab = f'{lab0} pre={pre} post={post} first={k1}'
            r = call(calc.calculate_moment_curvature, th, n, k1, pre, post)
            R.step()
            R.state((name, integ, th, f, pre, post, k1))
            if isinstance(r, Exc):
                R.fail(lab, f'{r}')
                continue
            chi = np.asarray(r.chi_y, dtype=float) * c + np.asarray(r.chi_z, dtype=float) * s
            m = len(chi)
            if not R.true(m in (pre, pre + post), f'{lab} number', f'{m} points for {pre}+{post}'):
                continue
            R.true(bool(np.all(chi * size <= 1e-15)), f'{lab} direction', f'curvatures {chi}')
            verify(R, lab, parts, integ, own, fs, size, th, n, chi, r)
            R.trace()
            if m == pre + post and post:
                # the last state is the one of the bending strength
                R.true(abs(r.eps_axial[-1] - ult.eps_a) <= 1e-6 + 1e-9 * abs(kult) * size, f'{lab} last', f'axial strain {r.eps_axial[-1]} at the ultimate curvature, bending strength {ult.eps_a}')
            # the yield point
            ky = chi[pre - 1] if not (m == pre + post and pre == 1) else chi[0]
            i = pre - 1
            st = (float(r.eps_axial[i]), float(r.chi_y[i]), float(r.chi_z[i]))
            best = -1.0
            for p, (ylo, yhi) in zip(parts, ylim):
                for y, z, _ in sl.points_of([p]):
                    e = sl.strain_at(st, y, z)
                    best = max(best, e / yhi if e > 0 else e / ylo)
            if pre > 1 or m == pre + post:
                R.true(abs(best - 1) <= 1e-4, f'{lab} yield point', f'largest ratio of the yield strain {best} at the yield curvature {ky}')
            if first is None:
                first = ky
            R.true(abs(ky - first) <= 1e-9 * abs(first) or (pre == 1 and m == pre), f'{lab} same yield', f'{ky} vs {first}')
            # spacing
            start = -abs(k1) if abs(k1) < abs(first) else first / pre
            if m == pre:
                R.true(abs(kult) <= abs(first) * (1 + 1e-9) + 1e-8 or post == 0, f'{lab} plastic', f'no plastic branch, ultimate {kult} yield {first}')
                want = np.linspace(start, first, pre)
                if post == 0 and abs(kult) > abs(first) + 1e-8:
                    want = None
            else:
                want = np.concatenate((np.linspace(start, first, pre - 1, endpoint=False), np.linspace(first, kult, post + 1)))
            if want is not None:
                R.eq(chi, want, f'{lab} spacing', 'curvatures', rtol=1e-7, atol=1e-14)
            elif pre > 1:
                R.eq(chi, np.concatenate((np.linspace(start, first, pre - 1, endpoint=False), [first])), f'{lab} spacing', 'curvatures', rtol=1e-7, atol=1e-14)
            R.outcome((round(float(r.m_y[-1]) / fs / size, 6), m))
        # given curvatures
        k = kult
        vals = [0.1 * k, 0.6 * k, 0.3 * k, -0.05 * k, 0.0]
        pairs = [[a, b] for a in vals for b in vals]
        lists = [[a] for a in vals] + (pairs if tier == 'thorough' else pairs[(ti + FR[tier].index(f)) % 4::4]) + [[vals[0], vals[2], vals[1]], [vals[1], vals[0], vals[2]]]
        lists = [(x, 'list') for x in lists] + [(np.array(lists[-1]), 'array'), (tuple(lists[-1]), 'tuple'), ([0], 'int'), (np.array([0, 0]), 'int array'), ([0, vals[0]], 'mixed')]
        for ch, ty in lists:
            lab = f'{lab0} chi={[round(float(x / k), 3) for x in ch]} {ty}'
            keep = list(ch)
            r = call(calc.calculate_moment_curvature, th, n, chi=ch)
            R.step()
            R.state((name, integ, th, f, ty, tuple(float(x) for x in ch)))
            if isinstance(r, Exc):
                R.true(r.type is ValueError and not all(reachable(parts, integ, own, n, float(x) * c, float(x) * s) for x in ch), lab, f'{r}')
                continue
            R.true(list(ch) == keep, f'{lab} input', 'list of curvatures modified')
            verify(R, lab, parts, integ, own, fs, size, th, n, [float(x) for x in ch], r)
            R.trace()
    R.sample({'section': name, 'integrator': integ, 'theta': th, 'fractions of the limit load': FR[tier]})
