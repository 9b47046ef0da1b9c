import numpy as np

from . import seclib as sl
from .a05 import MULTI, NAMES, limits, parts_of
from .core import Exc, call

RULE = '''State = (section, integrator, history of the calculator, request). Sections: the catalogue, sections of several
materials and every ordered pair of laws of a list of laws with different limits in one section. Histories: every order of
reading n_min, n_max, calculate_limit_axial_load, check_axial_load and of preceding analyses. Requests: axial loads on a
ladder on both sides of both limits given to every analysis taking one. Trace = limits equal the exact resultants of the
largest uniform strains, loads outside raise ValueError, loads inside are accepted, every point of the domains lies between.'''
ASSUMPTIONS = [
    'the bound of the domains is checked for the points whose strains all lie between the two uniform limit strains (monotone laws: a theorem); other points may carry more',
]
LAWS = [sl.C, sl.C2, sl.CB, sl.S, sl.SH, sl.ST, sl.SP, sl.EU, ('InitialStrain', sl.C, -0.0004, True),
        ('ElasticPlastic', 200000.0, 300.0, 100.0, 0.0016), ('ParabolaRectangle', 50.0, 0.0024, 0.0027, 2.0),
        ('Parallel', (('ElasticPlastic', 100000.0, 200.0, 100.0, 0.02), ('ElasticPlastic', 50000.0, 250.0, 0.0, 0.02)), (1.0, 0.5)),
        ('InitialStrain', sl.S, -0.002, False), sl.CU, ('Elastic', 30000.0, None), ('Elastic', 1200.0, (-0.05, 0.3))]
MONOTONE = {sl.C, sl.C2, sl.CB, sl.S, sl.SH, sl.ST, sl.SP, sl.EU}


def pair(a, b):
    return [('S', (sl.rect(200, 300, 10, -20),), a, a[0] in ('ParabolaRectangle', 'BilinearCompression', 'UserDefined'))] + sl.bars([(-60, -140), (50, 90)], 20, b) + [('S', (sl.rect(40, 40, 190, 30),), b, False)]


def jobs(tier):
    out = [(tier, 'cat', n, i) for n in NAMES for i in ('marin', 'fiber')]
    return out + [(tier, 'pair', k, i) for k in range(len(LAWS)) for i in ('marin', 'fiber')]


ACTIONS = {
    'n_min': lambda c: float(c.n_min),
    'n_max': lambda c: float(c.n_max),
    'limits': lambda c: tuple(float(v) for v in c.calculate_limit_axial_load()),
    'check': lambda c: c.check_axial_load(n=0.0),
    'bending': lambda c: c.calculate_bending_strength(0.4, 0.0),
    'integrate': lambda c: c.integrate_strain_profile([-0.001, -1e-6, 2e-6]),
    'stiffness': lambda c: c.integrate_strain_profile([0, 0, 0], 'modulus'),
    'nm': lambda c: c.calculate_nm_interaction_domain(1.0, num=10),
}


def same_limits(R, lab, got, want, tol):
    for w, g, e in (('n_min', got[0], want[0]), ('n_max', got[1], want[1])):
        R.true(abs(float(g) - e) <= tol, f'{lab} {w}', f'{w} {g}, largest uniform strain gives {e}')


def check_limits(R, lab, parts, integ, fs, quick=False):
    lo, hi, elo, ehi = limits(parts)
    tol = 1e-9 * fs
    acts = ['n_min', 'n_max', 'limits', 'check'] if quick else list(ACTIONS)
    hists = [()] + [(a,) for a in acts] + [(a, b) for a in acts for b in acts if a != b]
    for h in hists:
        c = sl.section(parts, integ, mesh_size=0.05).section_calculator
        for a in h:
            r = call(ACTIONS[a], c)
            R.step()
            if a == 'n_min':
                R.true(abs(r - lo) <= tol, f'{lab} {h} first', f'n_min {r} expected {lo}')
            elif a == 'n_max':
                R.true(abs(r - hi) <= tol, f'{lab} {h} first', f'n_max {r} expected {hi}')
            elif a == 'limits':
                same_limits(R, f'{lab} {h} first', r, (lo, hi), tol)
            elif isinstance(r, Exc) and not (a == 'check' and not lo <= 0 <= hi) and a != 'bending':
                R.fail(f'{lab} {h}', f'{a}: {r}')
        same_limits(R, f'{lab} after {h}', (c.n_min, c.n_max), (lo, hi), tol)
        got = call(c.calculate_limit_axial_load)
        R.step(3)
        R.trace()
        R.state((lab, h))
        if isinstance(got, Exc):
            R.fail(f'{lab} after {h}', f'calculate_limit_axial_load {got}')
        else:
            same_limits(R, f'{lab} after {h} call', got, (lo, hi), tol)
    R.outcome((lab, round(lo), round(hi)))
    return lo, hi, elo, ehi


def run(job, R):
    tier, kind, what, integ = job
    if kind == 'pair':
        for b in LAWS:
            parts = pair(LAWS[what], b)
            lab = f'pair {what} {LAWS.index(b)} {integ}'
            lo, hi, *_ = limits(parts)
            if not (np.isfinite(lo) and np.isfinite(hi)):
                continue
            check_limits(R, lab, parts, integ, sl.force_scale(parts) + abs(lo) + abs(hi), quick=True)
        return
    parts = parts_of(what)
    fs = sl.force_scale(parts)
    lab = f'{what} {integ}'
    lo, hi, elo, ehi = check_limits(R, lab, parts, integ, fs)
    R.sample({'section': what, 'n_min': lo, 'n_max': hi})
    # the gate
    c = sl.section(parts, integ, mesh_size=0.05).section_calculator
    used = sl.section(parts, integ, mesh_size=0.05).section_calculator
    used.calculate_bending_strength(0.4, 0.0)
    lo, hi = float(c.n_min), float(c.n_max)
    rel = [1e-9, 1e-6, 1e-3, 0.1, 1.0, 1e3]
    analyses = {
        'check': lambda q, n: q.check_axial_load(n),
        'bending': lambda q, n: q.calculate_bending_strength(n=n),
        'bending theta': lambda q, n: q.calculate_bending_strength(2.3, n),
        'mc': lambda q, n: q.calculate_moment_curvature(n=n, num_pre_yield=2, num_post_yield=1),
        'mc chi': lambda q, n: q.calculate_moment_curvature(1.0, n, chi=[-1e-7]),
        'mm': lambda q, n: q.calculate_mm_interaction_domain(n, 2),
    }
    for f in rel:
        for n, side in ((lo - f * abs(lo) - 1e-3, 'below'), (hi + f * abs(hi) + 1e-3, 'above')):
            for a, fn in analyses.items():
                for q, w in ((sl.section(parts, integ, mesh_size=0.05).section_calculator, 'fresh'), (used, 'used')):
                    r = call(fn, q, n)
                    R.step()
                    R.state((lab, a, w, side, f))
                    R.true(isinstance(r, Exc) and r.type is ValueError, f'{lab} {a} {side} {f} {w}', f'n={n} outside [{lo}, {hi}]: {r}')
        R.trace()
    for f in (0.0, 1e-3, 0.2, 0.5, 0.9):
        for n in (lo * (1 - f), hi * (1 - f)):
            for a in ('check', 'bending', 'bending theta', 'mm'):
                r = call(analyses[a], used, n)
                R.step()
                R.state((lab, a, 'inside', f, n < 0))
                R.true(not isinstance(r, Exc), f'{lab} {a} inside {f} {n < 0}', f'n={n} inside [{lo}, {hi}]: {r}')
        R.trace()
    # the domains
    laws = {p[3] if p[0] == 'B' else p[2] for p in parts}
    if laws <= MONOTONE or what in MULTI:
        doms = [(c.calculate_nm_interaction_domain(th, num=20, complete_domain=True), f'nm {th}') for th in (0.0, 0.7, 2.2)]
        doms.append((c.calculate_nmm_interaction_domain(6, num=20), 'nmm'))
        pts = sl.points_of(parts)
        for d, w in doms:
            R.step()
            for st, fo in zip(d.strains, d.forces):
                es = [sl.strain_at(st, y, z) for y, z, _ in pts]
                R.state((lab, w, tuple(st)))
                if min(es) >= elo - 1e-9 and max(es) <= ehi + 1e-9:
                    R.true(lo - 1e-7 * fs <= fo[0] <= hi + 1e-7 * fs, f'{lab} {w} bound {st}', f'N={fo[0]} outside [{lo}, {hi}]')
            R.trace()
