import numpy as np

from . import law_checks as lc
from .core import Exc, call
from .ref_laws import base_specs

RULE = '''State = (law, strain) with strains at, just inside and just outside every ultimate strain (inside and outside the
tolerance band), plus every way of specifying limits (none, one value, ordered and unordered pairs, invalid ones).
Transition = get_ultimate_strain / get_stress / constructor call compared with the reference; trace = one law.'''
ASSUMPTIONS = ['strains closer than 1e-6 + 1e-5*|limit| to an ultimate strain count as being at it (library tolerance)']


def jobs(tier):
    n = len(base_specs(tier))
    return [(tier,) + c for c in lc.chunks(range(n), 15)] + ['ctor']


def run(job, R):
    if job == 'ctor':
        return ctor(R)
    tier, a, b = job
    for spec in base_specs(tier)[a:b]:
        lc.check_limits(R, spec)


def ctor(R):
    from structuralcodes.materials import constitutive_laws as cl

    V = ValueError
    pts = (-0.01, -0.002, 0.0, 0.003, 0.02)
    for mk, nm in (
        (lambda eu: cl.Elastic(200000.0, eps_u=eu), 'Elastic'),
        (lambda eu: cl.UserDefined([0.0, 0.001, 0.05], [0.0, 200.0, 300.0], eps_u=eu), 'UserDefined'),
    ):
        for a in pts:
            law = call(mk, a) if a else None
            R.state((nm, a))
            R.step()
            if a:
                R.eq(Exc(V) if isinstance(law, Exc) else law.get_ultimate_strain(), (-abs(a), abs(a)), f'{nm} eps_u={a}', 'single value')
            for b in pts:
                R.state((nm, a, b))
                R.step()
                law = call(mk, (a, b))
                lo, hi = min(a, b), max(a, b)
                want = (lo, hi) if lo <= 0 <= hi else Exc(V)
                got = law if isinstance(law, Exc) else law.get_ultimate_strain()
                R.eq(got, want, f'{nm} eps_u={(a, b)}', f'limits {got} expected {want}')
                R.outcome(repr(want))
        for bad in ((0.01,), [0.01, 0.02], 'x', {0.1}):
            R.state((nm, repr(bad)))
            R.step()
            got = call(mk, bad)
            R.true(isinstance(got, Exc) and got.type is V, f'{nm} eps_u={bad!r}', f'accepted {bad!r}: {got}')
        R.trace()
    # invalid parameters
    cases = [
        ('Elastic E=0', lambda: cl.Elastic(0), V),
        ('Elastic E<0', lambda: cl.Elastic(-1.0), V),
        ('ElasticPlastic E=0', lambda: cl.ElasticPlastic(0, 500), V),
        ('ElasticPlastic E<0', lambda: cl.ElasticPlastic(-200000.0, 500), V),
        ('Popovics Ec=0', lambda: cl.Popovics(30, Ec=0), V),
        ('Popovics Ec<0', lambda: cl.Popovics(30, Ec=-3e4), V),
        ('Sargin k=0', lambda: cl.Sargin(30, k=0), V),
        ('Sargin k<0', lambda: cl.Sargin(30, k=-1.5), V),
        ('UserDefined length', lambda: cl.UserDefined([0, 1], [0, 1, 2]), V),
        ('UserDefined flag', lambda: cl.UserDefined([0, 1], [0, 1], flag=4), V),
        ('UserDefined flag<0', lambda: cl.UserDefined([0, 1], [0, 1], flag=-1), V),
        ('Parallel weights', lambda: cl.Parallel([cl.Elastic(1.0)], [1.0, 2.0]), V),
        ('Parallel weights short', lambda: cl.Parallel([cl.Elastic(1.0), cl.Elastic(2.0)], [1.0]), V),
        ('Parallel type', lambda: cl.Parallel([cl.Elastic(1.0), 3.0]), TypeError),
        ('InitialStrain type', lambda: cl.InitialStrain(3.0, 0.001), TypeError),
        ('InitialStrain None', lambda: cl.InitialStrain(None, 0.001), TypeError),
    ]
    for nm, f, ex in cases:
        R.state(nm)
        R.step()
        got = call(f)
        R.true(isinstance(got, Exc) and got.type is ex, nm, f'{nm}: got {got}, expected {ex.__name__}')
    R.trace()
    # small positive values are accepted
    for nm, f in (('Elastic E=0.5', lambda: cl.Elastic(0.5)), ('ElasticPlastic E=0.5', lambda: cl.ElasticPlastic(0.5, 0.25)), ('Popovics Ec=0.5', lambda: cl.Popovics(1e-4, Ec=0.5)), ('Sargin k=0.5', lambda: cl.Sargin(30, k=0.5))):
        R.state(nm)
        R.step()
        got = call(f)
        R.true(not isinstance(got, Exc), nm, f'{nm}: {got}')
    # signs of the parameters of concrete laws do not matter
    for s in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, -1)):
        laws = {
            'pr': cl.ParabolaRectangle(30 * s[0], 0.002 * s[1], 0.0035 * s[2]),
            'bc': cl.BilinearCompression(30 * s[0], 0.002 * s[1], 0.0035 * s[2]),
            'sa': cl.Sargin(30 * s[0], 0.002 * s[1], 0.0035 * s[2]),
            'po': cl.Popovics(30 * s[0], 0.002 * s[1], 0.0035 * s[2]),
        }
        for nm, law in laws.items():
            R.state((nm, s))
            R.step()
            lim = law.get_ultimate_strain()
            R.eq(tuple(lim), (-0.0035, 100), f'{nm} signs {s}', 'ultimate strain')
            st = law.get_stress(np.array([-0.0035, -0.001, 0.001]))
            R.true(st[0] < 0 and st[1] < 0 and st[2] == 0, f'{nm} stress signs {s}', f'stress {st}')
