import itertools
import math

import numpy as np

from . import seclib as sl
from .a05 import MULTI, NAMES, limits, parts_of
from .core import Exc, call

RULE = '''State = (section, integrator, method, tolerance, iteration limit, requested forces). Forces: the resultants of every strain
plane of a grid (direction x strain level x axial strain, elastic, cracked, yielded, near ultimate) and every combination of a
ladder of loads from zero to far beyond the strength. Transition = one calculate_strain_profile; trace = the outcome checked:
a returned profile reproduces the forces within the tolerance (in the norm of the initial stiffness), linear sections give the
exact linear solution, an exception is raised exactly when the Newton iteration of the documented method (run independently on
exact resultants) does not converge within the limit.'''
ASSUMPTIONS = [
    'tolerance of the documented convergence test: norm of the last increment of the strain plane',
    'the iteration limit is judged with a margin: requests that the independent iteration settles within 3 steps of the limit may go either way',
    'sections with a stress jump or softening are checked for soundness of returned profiles only',
]
DIRS = {'quick': [0.0, 2.5], 'thorough': [i * math.pi / 10 for i in range(20)]}
NM = [n for n in NAMES if n not in ('disjoint',)] + ['elastic', 'wrapped']


def jobs(tier):
    return [(tier, n, i, m) for n in NM for i in ('marin', 'fiber') for m in (False, True)]


def newton(res, stiff, loads, initial, tol, itmax):
    """The documented iteration; number of steps taken or None."""
    x = np.zeros(3)
    K0 = stiff(x)
    for it in range(1, itmax + 1):
        r = loads - res(x)
        try:
            dx = np.linalg.solve(K0 if initial else stiff(x), r)
        except np.linalg.LinAlgError:
            return None, x
        x = x + dx
        if not np.all(np.isfinite(x)):
            return None, x
        if np.linalg.norm(dx) < tol:
            return it, x
    return None, x


def run(job, R):
    tier, name, integ, initial = job
    parts = parts_of(name)
    fs, size = sl.force_scale(parts), sl.size(parts)
    new = lambda: sl.section(parts, integ, mesh_size=0.05).section_calculator
    calc, own = new(), new()
    if integ == 'marin':
        res = lambda x: sl.resultants(parts, tuple(x))
        stiff = lambda x: sl.stiffness(parts, tuple(x), 1 if np.any(x) else -1)
    else:
        res = lambda x: np.array(own.integrate_strain_profile(list(x)), dtype=float)
        stiff = lambda x: np.array(own.integrate_strain_profile(list(x), 'modulus'), dtype=float)
    K0 = np.array(stiff(np.zeros(3)))
    K0i = np.linalg.inv(K0)
    lmax = float(np.max(np.linalg.eigvalsh((K0 + K0.T) / 2)))
    linear = name == 'elastic'
    off = res(np.zeros(3))
    # requested forces
    reqs = []
    lims = [sl.law_limits(p[3] if p[0] == 'B' else p[2]) for p in parts]
    lo, hi = max(v[0] for v in lims), min(v[1] for v in lims)
    lo, hi = max(lo, -0.004), min(hi, 0.03)
    for a in DIRS[tier]:
        for e1, e2 in [(0.1 * lo, 0.05 * lo), (0.3 * lo, 0.02 * hi), (0.5 * lo, 0.1 * lo), (0.8 * lo, 0.1 * hi), (0.97 * lo, 0.5 * hi), (0.4 * lo, 0.4 * lo), (0.05 * hi, 0.01 * hi)]:
            reqs.append((f'plane {a:.3g} {e1:.5g} {e2:.5g}', tuple(res(np.array(sl.plane(parts, a, e1, e2))))))
    nlo, nhi = abs(res(np.array([lo, 0, 0]))[0]), abs(res(np.array([hi, 0, 0]))[0])
    m = 0.02 * fs * size
    for n, my, mz in itertools.product((0.0, -0.1 * nlo, -0.5 * nlo, -3 * nlo, 0.3 * nhi, 5 * nhi), (0.0, -m, 60 * m), (0.0, 0.7 * m)):
        reqs.append((f'loads {n:.5g} {my:.5g} {mz:.5g}', (n, my, mz)))
    variants = [(1e-6, 10), (1e-8, 60), (1e-11, 200)] if initial else [(1e-6, 10), (1e-9, 30), (1e-6, 2)]
    for (rl, loads), (tol, itmax) in itertools.product(reqs, variants):
        loads = np.array(loads, dtype=float)
        lab = f'{name} {integ} initial={initial} tol={tol} max_iter={itmax} {rl}'
        R.state((name, integ, initial, tol, itmax, rl))
        kw = {} if (tol, itmax) == (1e-6, 10) else {'tol': tol, 'max_iter': itmax}
        try:
            got = calc.calculate_strain_profile(*[float(v) for v in loads], initial=initial, **kw)
        except (StopIteration, np.linalg.LinAlgError, ValueError) as e:
            got = Exc(e)
        R.step()
        R.trace()
        if isinstance(got, Exc):
            R.outcome('raises')
            if linear or name in SMOOTH:
                k, _ = newton(res, stiff, loads, initial, tol * 0.5, itmax - 3)
                R.true(k is None, f'{lab} raised', f'the iteration converges in {k} steps but: {got}')
            continue
        x = np.array(got, dtype=float)
        if not R.true(isinstance(got, list) and x.shape == (3,) and bool(np.all(np.isfinite(x))), f'{lab} profile', f'returned {got}'):
            continue
        r = loads - res(x)
        R.outcome((round(float(x[0]), 6), round(float(x[1] * size), 6)))
        if linear:
            ex = np.linalg.solve(K0, loads - off)
            R.eq(x, ex, f'{lab} linear', 'linear solution', rtol=1e-7, atol=1e-12)
            continue
        # residual in the norm of the initial stiffness, against the largest one the tolerance allows
        norm = math.sqrt(abs(float(r @ K0i @ r)))
        R.true(norm <= 1.01 * tol * math.sqrt(lmax) + 1e-7 * math.sqrt(abs(float(loads @ K0i @ loads))) + 1e-9, f'{lab} residual', f'forces of the profile {loads - r}, requested {loads}, norm {norm}')
        if name in SMOOTH:
            k, y = newton(res, stiff, loads, initial, tol, itmax + 3)
            if k is not None:
                d = x - y
                R.true(abs(d[0]) + (abs(d[1]) + abs(d[2])) * size <= 3 * tol * (size if initial else 0.02) + 1e-7, f'{lab} state', f'profile {x}, independent iteration {y}')
    R.sample({'section': name, 'integrator': integ, 'initial': initial, 'requests': len(reqs)})


# sections whose iteration is reproducible (no stress jumps, no discretised laws)
SMOOTH = {'rect', 'L', 'T', 'hollow', 'circle', 'steel', 'steel2', 'composite', 'two', 'prestressed', 'tube', 'two_steels'}
