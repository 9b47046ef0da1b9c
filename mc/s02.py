import math

import numpy as np

from . import seclib as sl
from .a05 import limits
from .core import Exc, call
from .s01 import plain, same

RULE = '''State = (section, integrator, analysis, crash point). Crash points of an analysis: every evaluation of a constitutive law
(stress, tangent, ultimate strains, polynomial form) it makes - a counting law raises at the k-th evaluation, for every k of the
analysis run alone (the first and last 20 and about 25 between in the quick tier, every k in the thorough tier), on a new section and on one
that was analysed before; plus every request that fails by itself (infeasible loads, iteration limits, invalid options) and every
ordered pair of those. Transition = the failed analysis and each follow-up analysis; trace = one crash point: the follow-up analyses
are compared with those of a newly built identical section.'''
ASSUMPTIONS = [
    'a law evaluation that raises stands for every exception raised from a material during an analysis',
    'results of solvers are compared within their force tolerance',
]
SECT = {'quick': ('rect', 'composite', 'prestressed'), 'thorough': ('rect', 'L', 'T', 'hollow', 'circle', 'composite', 'two', 'prestressed', 'steel2', 'disjoint', 'wrapped', 'metres', 'deep')}


class Boom(RuntimeError):
    pass


class Counter:
    def __init__(self):
        self.n, self.at = 0, None

    def tick(self):
        self.n += 1
        if self.n == self.at:
            raise Boom(f'evaluation {self.n}')


def faulty(law, counter):
    from structuralcodes.core.base import ConstitutiveLaw

    class Faulty(ConstitutiveLaw):
        __materials__ = ('concrete', 'steel', 'rebars')

        def __init__(self):
            super().__init__('faulty')

    def delegate(name):
        def f(self, *a, **k):
            counter.tick()
            return getattr(law, name)(*a, **k)

        setattr(Faulty, name, f)

    for m in ('get_stress', 'get_tangent', 'get_secant', 'get_ultimate_strain', '__marin__', '__marin_tangent__'):
        delegate(m)
    Faulty.__abstractmethods__ = frozenset()
    return Faulty()


class Mats(sl.Mats):
    def __init__(self, counter):
        super().__init__()
        self.counter = counter

    def get(self, spec, concrete):
        from structuralcodes.materials.basic import GenericMaterial
        from structuralcodes.materials.concrete import create_concrete

        key = (spec, concrete)
        if key not in self.d:
            law = faulty(sl.lib_law(spec), self.counter)
            if concrete:
                self.d[key] = create_concrete(fck=30.0, design_code='ec2_2004', constitutive_law=law)
            else:
                self.d[key] = GenericMaterial(density=7850, constitutive_law=law)
        return self.d[key]


def analyses(parts, lo, hi):
    from structuralcodes.sections import calculate_elastic_cracked_properties

    n = 0.15 * lo
    st = list(map(float, sl.plane(parts, 0.7, -0.0015, 0.001)))
    load = list(map(float, sl.resultants(parts, sl.plane(parts, 0.4, -0.0007, 0.0003))))
    c = lambda s: s.section_calculator
    return [
        ('bending', lambda s: c(s).calculate_bending_strength(0.4, n)),
        ('moment-curvature', lambda s: c(s).calculate_moment_curvature(0.9, n, num_pre_yield=2, num_post_yield=1)),
        ('moment-curvature given', lambda s: c(s).calculate_moment_curvature(-0.3, n, chi=[-1e-6, -2e-6])),
        ('nm', lambda s: c(s).calculate_nm_interaction_domain(1.9, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1)),
        ('mm', lambda s: c(s).calculate_mm_interaction_domain(n, 3)),
        ('nmm', lambda s: c(s).calculate_nmm_interaction_domain(3, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1)),
        ('profile', lambda s: c(s).calculate_strain_profile(*load, tol=1e-9)),
        ('integrate', lambda s: c(s).integrate_strain_profile(st)),
        ('stiffness', lambda s: c(s).integrate_strain_profile(st, 'modulus')),
        ('n_min', lambda s: c(s).n_min),
        ('n_max', lambda s: c(s).n_max),
        ('gross', lambda s: s.gross_properties),
        ('cracked', lambda s: calculate_elastic_cracked_properties(s, 0.6)),
    ]


def failing(parts, lo, hi):
    c = lambda s: s.section_calculator
    m = 50 * (abs(lo) + hi) * sl.size(parts)
    return [
        ('bending n too low', lambda s: c(s).calculate_bending_strength(0.7, 1.02 * lo - 1)),
        ('bending n too high', lambda s: c(s).calculate_bending_strength(0.7, 1.02 * hi + 1)),
        ('moment-curvature n too low', lambda s: c(s).calculate_moment_curvature(0.7, 1.02 * lo - 1)),
        ('moment-curvature n too high', lambda s: c(s).calculate_moment_curvature(2.7, 1.02 * hi + 1)),
        ('mm n too low', lambda s: c(s).calculate_mm_interaction_domain(1.02 * lo - 1, 3)),
        ('mm n too high', lambda s: c(s).calculate_mm_interaction_domain(1.02 * hi + 1, 3)),
        ('moment-curvature given n too high', lambda s: c(s).calculate_moment_curvature(2.7, 3 * hi + 1, chi=[-1e-6])),
        ('profile moment too high', lambda s: c(s).calculate_strain_profile(0.0, m, 0.0)),
        ('profile moments too high, initial', lambda s: c(s).calculate_strain_profile(0.0, m, -m, initial=True)),
        ('profile n too low', lambda s: c(s).calculate_strain_profile(3 * lo, 0.0, 0.0)),
        ('profile one iteration', lambda s: c(s).calculate_strain_profile(0.3 * lo, 1e6, 1e6, max_iter=1, tol=1e-12)),
        ('integrate unknown', lambda s: c(s).integrate_strain_profile([0.0, 0.0, 0.0], 'energy')),
        ('nm unknown spacing', lambda s: c(s).calculate_nm_interaction_domain(0.3, type_1='cubic')),
    ]


def jobs(tier):
    out = []
    for s in SECT[tier]:
        for i in ('marin', 'fiber'):
            out += [(tier, s, i, k, w) for k in range(13) for w in (0, 1)] + [(tier, s, i, 'requests', 0)]
    return out


def run(job, R):
    tier, name, integ, k, warm = job
    parts = sl.SECTIONS[name]
    lo, hi, *_ = limits(parts)
    A = analyses(parts, lo, hi)
    tol = 1e-6 + 0.1 / (abs(lo) + abs(hi))

    def new():
        ct = Counter()
        return sl.section(parts, integ, Mats(ct), mesh_size=0.1), ct

    want = [call(lambda: plain(f(new()[0]))) for _, f in A]

    def follow(sec, lab, which):
        for i in which:
            nm, f = A[i]
            r = call(lambda: plain(f(sec)))
            R.step()
            if not same(want[i], r, tol if i < 6 or nm == 'cracked' else 1e-8):
                R.fail(f'{lab} then {nm}', f'{nm} gives {str(r)[:400]} but {str(want[i])[:400]} on a new section')
                return
        R.trace()

    if k == 'requests':
        F = failing(parts, lo, hi)
        for a, (na, fa) in enumerate(F):
            for b in [None] + list(range(len(F))):
                sec, ct = new()
                lab = f'{name} {integ} {na}' + ('' if b is None else f' then {F[b][0]}')
                R.state((name, integ, a, b))
                for nm, f in [(na, fa)] + ([F[b]] if b is not None else []):
                    r = call(f, sec)
                    R.step()
                    R.true(isinstance(r, Exc), f'{lab} reported', f'{nm}: {str(r)[:300]} for an infeasible request')
                    R.outcome((nm, str(r)[:80]))
                follow(sec, lab, range(len(A)) if b is None else [(a + b) % 3, 7, 9, 3 + (a + b) % 5])
        return
    nm0, f0 = A[k]
    sec, ct = new()
    if warm:
        call(A[0][1], sec)
    ct.n = 0
    call(f0, sec)
    total = ct.n
    ks = range(1, total + 1)
    if tier == 'quick' and total > 80:
        ks = sorted(set(list(range(1, 21)) + list(range(21, total - 20, max(5, total // 25))) + list(range(total - 19, total + 1))))
    for at in ks:
        sec, ct = new()
        if warm:
            A[0][1](sec)
        ct.n, ct.at = 0, at
        lab = f'{name} {integ} {nm0} fails at evaluation {at}{" of an analysed section" if warm else ""}'
        r = call(f0, sec)
        R.step()
        R.state((name, integ, nm0, at, warm))
        R.outcome((nm0, at, r.type.__name__ if isinstance(r, Exc) else 'ok'))
        if isinstance(r, Exc):
            R.true(r.type is Boom, f'{lab} exception', f'{r}')
        else:
            R.fail(f'{lab} swallowed', f'the exception of the material was swallowed: {str(r)[:200]}')
        ct.at = None
        follow(sec, lab, [7, 9, 0, 2, 3] if at % 12 else range(len(A)))
    R.sample({'section': name, 'integrator': integ, 'analysis': nm0, 'evaluations': total, 'analysed before': bool(warm)})
