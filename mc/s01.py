import copy
import dataclasses
import itertools
import math

import numpy as np

from . import seclib as sl
from .a05 import limits
from .core import Exc, call

RULE = '''State = (section, integrator, history of public operations). Operations: bending strength (two angles and loads, one
infeasible), axial limits, stress and stiffness integration, N-M, M-M and N-M-M domains, moment-curvature (full, given curvatures,
one infeasible), strain profiles (tangent and initial stiffness), gross and cracked properties, an analysis of another section
that shares geometry and materials. Explored: every history of length 2 (thorough: 3) from a new section, and one continuing
history that contains every ordered pair (thorough: every triple; de Bruijn sequence); and for every analysis a set of requests that differ
from each other in a single parameter (angle, load, discretisation, tolerance, strain component ...), again all pairs. Transition = one operation; trace = one
history; after every operation the result is compared with that of the operation on a newly built identical section, and all
results handed out earlier are compared with copies made when they were returned.'''
ASSUMPTIONS = [
    'solver results are compared within the force tolerance of the solver (1e-2 N), all others within 1e-7 relative',
    'the other section of the shared-object operation uses the same geometry object and the other integrator',
]
SECT = {'quick': ('rect', 'L', 'composite', 'prestressed', 'steel2', 'wrapped', 'metres'),
        'thorough': ('rect', 'L', 'T', 'hollow', 'circle', 'composite', 'two', 'prestressed', 'steel2', 'disjoint', 'elastic', 'tube', 'wrapped', 'sargin', 'metres', 'deep')}


KINDS = ('bending', 'moment-curvature', 'nm', 'domains', 'profile', 'integrate', 'cracked')
VARS = ('L', 'composite')


def ops(parts, f_lo, f_hi):
    """name -> function(section, environment) giving plain data."""
    from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

    n1, n2 = 0.2 * f_lo, 0.1 * f_hi
    st = [list(map(float, sl.plane(parts, 0.7, -0.0015, 0.001))), list(map(float, sl.plane(parts, -2.0, -0.003, 0.01)))]
    load = sl.resultants(parts, sl.plane(parts, 0.4, -0.0007, 0.0003))
    c = lambda s: s.section_calculator

    def other(s, env):
        if 'other' not in env:
            kind = type(c(s).integrator).__name__
            env['other'] = GenericSection(s.geometry, integrator='fiber' if 'Marin' in kind else 'marin', mesh_size=0.1)
        return c(env['other']).calculate_bending_strength(1.1, n1)

    o = [
        ('bending 0.4', lambda s, e: c(s).calculate_bending_strength(0.4, n1)),
        ('bending -2', lambda s, e: c(s).calculate_bending_strength(-2.0, n2)),
        ('bending infeasible', lambda s, e: c(s).calculate_bending_strength(0.7, 5 * f_lo - 1e3)),
        ('n_min', lambda s, e: c(s).n_min),
        ('n_max', lambda s, e: c(s).n_max),
        ('integrate', lambda s, e: c(s).integrate_strain_profile(st[0])),
        ('integrate array', lambda s, e: c(s).integrate_strain_profile(np.array(st[1]))),
        ('stiffness', lambda s, e: c(s).integrate_strain_profile(st[0], 'modulus')),
        ('nm', lambda s, e: c(s).calculate_nm_interaction_domain(1.9, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1, complete_domain=True)),
        ('mm', lambda s, e: c(s).calculate_mm_interaction_domain(n1, 3)),
        ('nmm', lambda s, e: c(s).calculate_nmm_interaction_domain(3, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1)),
        ('moment-curvature', lambda s, e: c(s).calculate_moment_curvature(0.9, n1, num_pre_yield=2, num_post_yield=1)),
        ('moment-curvature given', lambda s, e: c(s).calculate_moment_curvature(-0.3, n1, chi=[-1e-6, -2e-6])),
        ('moment-curvature infeasible', lambda s, e: c(s).calculate_moment_curvature(2.2, 5 * f_hi + 1e3, chi=[-1e-6])),
        ('profile', lambda s, e: c(s).calculate_strain_profile(*map(float, load), tol=1e-9)),
        ('profile initial', lambda s, e: c(s).calculate_strain_profile(*map(float, load * 0.5), initial=True, max_iter=60, tol=1e-9)),
        ('gross', lambda s, e: s.gross_properties),
        ('cracked', lambda s, e: calculate_elastic_cracked_properties(s, 0.6)),
        ('other', other),
    ]
    return o


def variants(parts, f_lo, f_hi):
    """Groups of one operation with parameters that differ in a single one."""
    from structuralcodes.sections import calculate_elastic_cracked_properties

    n1, n2 = 0.2 * f_lo, 0.1 * f_hi
    c = lambda s: s.section_calculator
    A = sl.plane(parts, 0.7, -0.0015, 0.001)
    B = sl.plane(parts, 2.1, -0.0012, 0.0004)
    load = sl.resultants(parts, sl.plane(parts, 0.4, -0.0007, 0.0003))
    G = {}

    def g(kind, make, params):
        G[kind] = [(f'{kind} {p}', lambda s, e, p=p: make(s, *p)) for p in params]

    g('bending', lambda s, th, n: c(s).calculate_bending_strength(th, n), [(0.4, n1), (0.4, n2), (1.7, n1), (0.4 + math.pi, n1), (-0.4, n1), (0, 0)])
    mc = lambda s, th, n, **k: c(s).calculate_moment_curvature(th, n, **{**dict(num_pre_yield=2, num_post_yield=1), **k})
    g('moment-curvature', lambda s, th, n, k=(): mc(s, th, n, **dict(k)), [(0.9, n1), (0.9, n2), (1.8, n1), (0.9 + math.pi, n1), (0.9, n1, (('num_pre_yield', 3),)),
      (0.9, n1, (('num_post_yield', 3),)), (0.9, n1, (('chi_first', 3e-7),)), (0.9, n1, (('chi', (-1e-6, 1e-6)),)), (0.9, n1, (('chi', (-2e-6,)),))])
    nm = lambda s, th, k=(): c(s).calculate_nm_interaction_domain(th, **{**dict(num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1), **dict(k)})
    g('nm', nm, [(1.9,), (0.3,), (1.9 - math.pi,), (1.9, (('num_3', 2),)), (1.9, (('num_4', 3), ('type_4', 'quadratic'))), (1.9, (('complete_domain', True),)), (1.9, (('num', 20),))])
    g('domains', lambda s, w, *a: (c(s).calculate_mm_interaction_domain(*a) if w == 'mm' else c(s).calculate_nmm_interaction_domain(*a, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1)),
      [('mm', n1, 2), ('mm', n2, 2), ('mm', n1, 3), ('nmm', 2), ('nmm', 3)])
    g('profile', lambda s, k, i, t, m: c(s).calculate_strain_profile(*map(float, load * np.array(k)), initial=i, tol=t, max_iter=m),
      [((1, 1, 1), False, 1e-9, 10), ((0.5, 1, 1), False, 1e-9, 10), ((1, 0.5, 1), False, 1e-9, 10), ((1, 1, 0.5), False, 1e-9, 10), ((0.3, 0.3, 0.3), False, 1e-4, 10),
       ((0.3, 0.3, 0.3), False, 1e-9, 10), ((0.3, 0.3, 0.3), True, 1e-9, 80), ((0, 0, 0), False, 1e-6, 10), ((1, 1, 1), False, 1e-12, 2)])
    planes = [A, (A[0] + 2e-4, *A[1:]), (A[0], A[1] * 0.5, A[2]), (A[0], A[1], A[2] * 0.5), (A[0], -A[1], -A[2]), B, (A[0], 0.0, 0.0), (0.0, 0.0, 0.0)]
    g('integrate', lambda s, e, w: c(s).integrate_strain_profile([float(v) for v in e], w), [(p, w) for p in planes for w in ('stress', 'modulus')])
    g('cracked', lambda s, th, r: calculate_elastic_cracked_properties(s, th, r)[0] if r else calculate_elastic_cracked_properties(s, th), [(0.6, False), (2.0, False), (0.6 + math.pi, False), (0.6, True)])
    return G


def plain(x):
    """Deep plain copy of a result for comparison."""
    if dataclasses.is_dataclass(x):
        return {f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x) if f.name != 'section'}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


PAIRED = {'m_y': ('m_y', 'm_z'), 'm_z': ('m_y', 'm_z'), 'chi_y': ('chi_y', 'chi_z'), 'chi_z': ('chi_y', 'chi_z')}


def same(a, b, tol):
    """Equal within tol(scale), scale = largest entry."""
    if isinstance(a, Exc) or isinstance(b, Exc):
        return isinstance(a, Exc) and isinstance(b, Exc) and a == b
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return False
        for k in a:
            if k in PAIRED and isinstance(a[k], float):
                sc = max(abs(v[q]) for v in (a, b) for q in PAIRED[k])
                if not abs(a[k] - b[k]) <= tol * sc:
                    return False
            elif k == 'n' and abs(a[k] - b[k]) <= 0.03:  # the force tolerance of the solver
                continue
            elif not same(a[k], b[k], tol):
                return False
        return True
    if a is None or isinstance(a, (str, bool)):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(u, v, tol) for u, v in zip(a, b))
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if x.ndim == 2 and x.shape[-1] == 3:  # rows of (N, My, Mz) or strains: column by column
        sc = np.max(np.abs(x), axis=0)
        sc[1:] = max(sc[1:])
    else:
        sc = np.max(np.abs(x))
    return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (sc + 1e-300))))


def exact(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    return a == b or (a != a and b != b)


def de_bruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def jobs(tier):
    out = []
    for s in SECT[tier]:
        for i in ('marin', 'fiber'):
            n = 4 if tier == 'quick' else 19
            out += [(tier, s, i, k, n) for k in range(n)] + [(tier, s, i, -1, n)]
            if tier == 'thorough' or s in VARS:
                out += [(tier, s, i, k, 0) for k in KINDS]
    return out


def run(job, R):
    tier, name, integ, k, nk = job
    parts = sl.SECTIONS[name]
    lo, hi, *_ = limits(parts)
    O = ops(parts, lo, hi) if nk else variants(parts, lo, hi)[k]
    new = lambda: sl.section(parts, integ, mesh_size=0.03)
    # oracle: every operation on a new section
    want = []
    for nm, f in O:
        want.append(call(lambda: plain(f(new(), {}))))
        bad = isinstance(want[-1], Exc)
        if nk and bad != ('infeasible' in nm) and nm not in ('cracked', 'profile initial'):
            R.fail(f'{name} {integ} {nm} alone', f'{want[-1]}')
    tol = [1e-6 if any(w in nm for w in ('moment', 'bending', 'mm', 'other', 'cracked')) else 1e-8 for nm, _ in O]
    # the force tolerance of the solver (1e-2 N) relative to the forces of the section
    tol = [t + 0.1 / (abs(lo) + abs(hi)) if t > 1e-7 else t for t in tol]

    def history(seq, tag):
        sec, env, held = new(), {}, []
        hist = []
        for i in seq:
            nm, f = O[i]
            hist.append(nm)
            r = call(f, sec, env)
            R.step()
            R.state((name, integ, tuple(hist)) if tag == 'seq' else (name, integ, tag, len(hist)))
            p = r if isinstance(r, Exc) else plain(r)
            h = ' > '.join(hist if len(hist) < 4 else ['...'] + hist[-3:])
            if not same(want[i], p, tol[i]):
                R.fail(f'{name} {integ} {tag} {h}', f'after {h}: {str(p)[:400]} but {str(want[i])[:400]} on a new section')
                return
            if not isinstance(r, Exc):
                held.append((nm, r, p))
                if len(held) > 40:
                    del held[:20]
            R.outcome((nm, str(p)[:60]))
        R.trace()
        for nm, r, p in held:
            R.true(exact(plain(r), p), f'{name} {integ} held {nm}', f'the result of {nm} changed after {" > ".join(hist[-4:])}')

    idx = range(len(O))
    if not nk:
        history(de_bruijn(len(O), 2 if tier == 'quick' else 3), f'continuing {k}')
        for q in itertools.permutations(idx, 2):
            history(q, 'seq')
        R.sample({'section': name, 'integrator': integ, 'requests': [nm for nm, _ in O]})
        return
    if k == -1:
        history(de_bruijn(len(O), 2 if tier == 'quick' else 3), 'continuing')
        return
    seqs = list(itertools.product(idx, repeat=2 if tier == 'quick' else 3))
    if tier == 'quick':  # the last operation twice in a row closes every pair
        seqs = [(a, b) for a, b in seqs]
    for q in seqs[k::nk]:
        history(q, 'seq')
    R.sample({'section': name, 'integrator': integ, 'history': [O[i][0] for i in seqs[-1]]})
