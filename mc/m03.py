"""M03: design code registry and factories as a state machine."""
import importlib
import itertools
import pkgutil
import types
import warnings

from . import mat_lib as ml
from .core import Exc, call

RULE = (
    'Model: one variable, the active code (none, one of the registered codes, or a module given by the user). Operations: '
    'set_design_code with every admissible and inadmissible argument, create_concrete / create_reinforcement with and without an explicit '
    'code, get_design_codes (with the returned list tampered with), set_national_annex, law and integrator factories. '
    'State: model state with the history that led to it. Transition: one operation on the real library and the model. Trace: one '
    'complete history, after which the active code is observed through both material factories. All histories up to the depth are enumerated.'
)
ASSUMPTIONS = ['For a code module without material classes (mc2020) the factories either raise ValueError or create nothing (None).',
               'An unknown integrator name either raises or falls back to the Marin integrator.']


def mod(title, mats=('concrete', 'reinforcement'), full=True):
    m = types.ModuleType('user_code')
    m.__title__ = title
    if full:
        m.__year__ = '2000'
        m.__materials__ = mats
    return m


TITLES = {'ec2_2004': 'EUROCODE 2 1992-1-1:2004', 'ec2_2023': 'EUROCODE 2 1992-1-1:2023', 'mc2010': 'fib Model Code 2010', 'mc2020': 'fib Model Code 2020'}
USER = mod('fib Model Code 2010')
USER_NO_C = mod('EUROCODE 2 1992-1-1:2004', ('reinforcement',))
HALF = mod('fib Model Code 2010', full=False)


def incomplete():
    """Modules without at least one of the identifying attributes."""
    names = ('__title__', '__year__', '__materials__')
    out = []
    for r in range(3):
        for keep in itertools.combinations(names, r):
            m = mod('fib Model Code 2010')
            for n in names:
                if n not in keep:
                    delattr(m, n)
            out.append((keep, m))
    return out


def args():
    from structuralcodes import codes

    ok = [('ec2_2004', 'ec2_2004'), ('EC2_2023', 'ec2_2023'), ('Mc2010', 'mc2010'), ('mc2020', 'mc2020'),
          (codes.ec2_2004, 'ec2_2004'), (codes.mc2010, 'mc2010'), (USER, 'user mc2010'), (USER_NO_C, 'user no concrete'), (None, None)]
    bad = [('bogus', V), ('', V), (5, V), (types, V), (HALF, V), (object(), V), ('ec2', V)]
    return ok, bad


V = 'reject'


def wanted(active, kind):
    """Type expected from the factory for an active code; 'err', 'none'."""
    if active is None:
        return 'err'
    if active == 'mc2020':
        return 'none'
    if active == 'user mc2010':
        active = 'mc2010'
    if active == 'user no concrete':
        if kind == 'c':
            return 'err'
        active = 'ec2_2004'
    return ml.classes(active)[0 if kind == 'c' else 1]


def create(kind, code=..., **kw):
    from structuralcodes.materials.concrete import create_concrete
    from structuralcodes.materials.reinforcement import create_reinforcement

    if code is not ...:
        kw['design_code'] = code
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'c':
            return call(create_concrete, 30.0, **kw)
        return call(create_reinforcement, 500.0, 200000.0, 540.0, 0.05, **kw)


def verdict(got, want):
    if want == 'err':
        return isinstance(got, Exc) and issubclass(got.type, ValueError)
    if want == 'none':
        return got is None or (isinstance(got, Exc) and issubclass(got.type, ValueError))
    return type(got) is want


def operations():
    import structuralcodes as sc

    ok, bad = args()
    ops = []

    def setter(a, m):
        def f(active):
            r = call(sc.set_design_code, a)
            if m == V:
                return active, isinstance(r, Exc) and issubclass(r.type, ValueError), r
            return m, r is None, r
        return f

    for a, m in ok + bad:
        nm = a if isinstance(a, (str, int)) or a is None else getattr(a, '__title__', type(a).__name__)
        ops.append((f'set {nm!r}/{m}', setter(a, m)))

    def maker(kind, code, m):
        def f(active):
            got = create(kind) if code is ... else create(kind, code)
            want = wanted(active if code is ... or code is None else m, kind) if m != V else 'err'
            return active, verdict(got, want), got
        return f

    for kind in 'cr':
        for code, m in [(..., None), (None, None), ('mc2010', 'mc2010'), ('EC2_2004', 'ec2_2004'), ('ec2_2023', 'ec2_2023'), ('mc2020', 'mc2020'), (USER, 'user mc2010'), ('bogus', V), (7, V)]:
            nm = 'active' if code is ... else getattr(code, '__title__', code)
            ops.append((f'create {kind} {nm!r}', maker(kind, code, m)))

    def codes_list(active):
        a = call(sc.get_design_codes)
        if isinstance(a, Exc):
            return active, False, a
        good = sorted(a) == sorted(TITLES)
        a.clear()
        b = sc.get_design_codes()
        b.append('bogus')
        return active, good and sorted(sc.get_design_codes()) == sorted(TITLES), a

    ops.append(('list codes', codes_list))

    def annex(active):
        r = call(sc.set_national_annex, 'NO')
        return active, r is None, r

    ops.append(('annex', annex))
    return ops


def histories(R, first, depth):
    import structuralcodes as sc

    ops = operations()
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + rest
        call(sc.set_design_code, None)
        active = None
        names = [ops[i][0] for i in seq]
        for k, i in enumerate(seq):
            active, ok, got = ops[i][1](active)
            R.step()
            if not ok:
                R.fail(f'history {names[:k + 1]}', f'operation {names[k]} gave {got!r} with active code {active}')
        for kind in 'cr':
            got, want = create(kind), wanted(active, kind)
            if not verdict(got, want):
                R.fail(f'history {names} active code', f'create {kind} gave {got!r}, expected {want} (active {active})')
        R.state((active, seq))
        R.trace()
        R.outcome((active, seq[-1]))
    call(sc.set_design_code, None)


def forwarding(R, tier):
    """Every keyword reaches the material, through the active or the explicit code."""
    import structuralcodes as sc

    for code, how, zeros in itertools.product(ml.CODES, ('active', 'explicit'), (False, True)):
        ctor_c, ctor_s = ml.classes(code)
        other = 'mc2010' if code != 'mc2010' else 'ec2_2004'
        sc.set_design_code(code if how == 'active' else other)
        dc = ... if how == 'active' else code
        opts = {'gamma_c': 1.35, 'name': 'nn', 'density': 2350.0, 'constitutive_law': 'sargin', 'fcm': 44.0, 'eps_cu2': 0.003, 'initial_strain': -1e-4, 'strain_compatibility': False, 'existing': True}
        if code == 'ec2_2023':
            opts.update(kE=11000, strength_dev_class='slow')
        else:
            opts.update(alpha_cc=0.85)
        if zeros:
            opts = {'gamma_c': 1.0, 'name': '', 'density': 0.0, 'constitutive_law': 'sargin', 'initial_strain': 0.0, 'strain_compatibility': True, 'existing': False}
        for m in range(2 ** len(opts)):
            kw = {k: opts[k] for i, k in enumerate(opts) if m >> i & 1}
            got = create('c', dc, **kw)
            R.state((code, how, zeros, m))
            R.trace()
            if kw.get('existing'):
                R.true(isinstance(got, Exc) and issubclass(got.type, NotImplementedError), f'concrete {code} {how} {kw}', f'{got!r}')
                continue
            if type(got) is not ctor_c:
                R.fail(f'concrete {code} {how} {kw}', f'{got!r}')
                continue
            p, laws = ml.ref_concrete(code, 30.0, {k: kw[k] for k in ('fcm', 'eps_cu2') if k in kw}, kw.get('gamma_c'), kw.get('alpha_cc'), kw.get('kE', 9500), kw.get('strength_dev_class', 'CN'))
            ok = all(ml.same(call(ml.read, got, n), v) for n, v in p.items())
            ok = ok and got.name == kw.get('name', 'C30') and got.density == kw.get('density', 2400)
            ok = ok and got.initial_strain == kw.get('initial_strain') and got.strain_compatibility == kw.get('strain_compatibility')
            R.true(ok, f'concrete {code} {how} {kw}', 'a keyword did not reach the material')
            law = laws['sargin' if 'constitutive_law' in kw else 'parabolarectangle']
            e0 = kw.get('initial_strain')
            if e0 is not None:
                law = ('InitialStrain', law, e0, kw.get('strain_compatibility', True))
            ref = ml.Ref(law)
            for e in (-0.0012, -0.0003):
                R.eq(call(got.constitutive_law.get_stress, e), ref.stress(e), f'concrete {code} {how} {kw} law', atol=1e-9)
        opts = {'gamma_s': 1.05, 'name': 'rr', 'density': 7700.0, 'constitutive_law': 'elasticperfectlyplastic', 'initial_stress': 150.0, 'strain_compatibility': False}
        if code != 'ec2_2023':
            opts.update(gamma_eps=0.8)
        if zeros:
            opts = {'gamma_s': 1.0, 'name': '', 'density': 0.0, 'constitutive_law': 'elasticperfectlyplastic', 'initial_stress': 0.0, 'strain_compatibility': True}
            if code != 'ec2_2023':
                opts.update(gamma_eps=1.0)
        for m in range(2 ** len(opts)):
            kw = {k: opts[k] for i, k in enumerate(opts) if m >> i & 1}
            got = create('r', dc, **kw)
            R.state((code, how, zeros, 'r', m))
            R.trace()
            if type(got) is not ctor_s:
                R.fail(f'reinforcement {code} {how} {kw}', f'{got!r}')
                continue
            p, laws = ml.ref_steel(code, 500.0, 200000.0, 540.0, 0.05, kw.get('gamma_s'), kw.get('gamma_eps'))
            ok = all(ml.same(call(ml.read, got, n), v) for n, v in p.items())
            ok = ok and got.name == kw.get('name', 'Reinforcement500') and got.density == kw.get('density', 7850)
            ok = ok and got.initial_stress == kw.get('initial_stress') and got.strain_compatibility == kw.get('strain_compatibility')
            R.true(ok, f'reinforcement {code} {how} {kw}', 'a keyword did not reach the material')
            law = laws['elasticperfectlyplastic' if 'constitutive_law' in kw else 'elasticplastic']
            if 'initial_stress' in kw:
                law = ('InitialStrain', law, kw['initial_stress'] / 200000.0, kw.get('strain_compatibility', True))
            ref = ml.Ref(law)
            for e in (-0.001, 0.0012, 0.01):
                R.eq(call(got.constitutive_law.get_stress, e), ref.stress(e), f'reinforcement {code} {how} {kw} law', atol=1e-6)
    sc.set_design_code(None)


def partial_modules(R, tier):
    """A module without one of the identifying attributes is no design code and leaves the active one."""
    import structuralcodes as sc

    for active in (None, 'ec2_2004', 'mc2010'):
        for keep, m in incomplete():
            sc.set_design_code(active)
            r = call(sc.set_design_code, m)
            R.state((active, keep))
            R.trace()
            R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'module with only {keep}', f'accepted as the active code: {r!r}')
            for kind in 'cr':
                got = create(kind)
                R.true(verdict(got, wanted(active, kind)), f'module with only {keep} after active {active}', f'create {kind} gave {got!r}')
                got = create(kind, m)
                R.true(verdict(got, 'err'), f'module with only {keep} given to the factory', f'create {kind} gave {got!r}')
    sc.set_design_code(None)


def laws(R, tier):
    """Every registered law name, in any case, for every kind of material."""
    from structuralcodes.core.base import Material
    from structuralcodes.materials import basic, constitutive_laws as cl

    kinds = {'elastic': 'Elastic', 'elasticplastic': 'ElasticPlastic', 'elasticperfectlyplastic': 'ElasticPlastic', 'bilinearcompression': 'BilinearCompression',
             'parabolarectangle': 'ParabolaRectangle', 'popovics': 'Popovics', 'sargin': 'Sargin', 'initialstrain': 'InitialStrain'}
    names = call(cl.get_constitutive_laws_list)
    R.true(not isinstance(names, Exc) and set(kinds) <= set(names), 'law list', f'{names!r}')
    if not isinstance(names, Exc):
        names.clear()
        R.true(set(kinds) <= set(cl.get_constitutive_laws_list()), 'law list is a copy', 'tampering with the list changes the registry')
    mats = {}
    for code in ml.CODES:
        c, s = ml.classes(code)
        mats[c.__name__] = c(30.0)
        mats[s.__name__] = s(500.0, 200000.0, 540.0, 0.05)
    mats['ElasticMaterial'] = basic.ElasticMaterial(2e5, 7850)
    mats['ElasticPlasticMaterial'] = basic.ElasticPlasticMaterial(2e5, 400.0, 7850)
    mats['GenericMaterial'] = basic.GenericMaterial(2400, cl.Elastic(1e4))
    can = {}
    for n in mats:
        if n.startswith('Concrete'):
            can[n] = set(ml.LAWS_C) - ({'bilinearcompression'} if '2023' in n else set())
        elif n.startswith('Reinf'):
            can[n] = set(ml.LAWS_S)
    can['ElasticMaterial'] = {'elastic'}
    can['ElasticPlasticMaterial'] = {'elasticplastic'}
    can['GenericMaterial'] = set()
    cases = (str, str.upper, str.title, lambda s: s[0] + s[1:].upper())
    for n, m in mats.items():
        for law in list(kinds) + ['bogus', '', 'userdefined', 'parallel', 'constitutive_law', 'class', 'init', 'elastic ', 'doc']:
            for f in cases:
                nm = f(law) if law else law
                got = call(cl.create_constitutive_law, nm, m)
                R.state((n, nm))
                R.trace()
                R.step()
                if law in can[n]:
                    R.true(type(got) is getattr(cl, kinds[law]), f'law {nm!r} for {n}', f'{got!r}')
                else:
                    R.true(isinstance(got, Exc) and issubclass(got.type, ValueError), f'law {nm!r} for {n}', f'{got!r}')

    class Dummy(Material):
        def __init__(self):
            super().__init__(1.0)

        for _k, _v in {
            'elastic': {'E': 1e4}, 'elasticplastic': {'E': 2e5, 'fy': 300.0, 'Eh': 10.0, 'eps_su': 0.1}, 'elasticperfectlyplastic': {'E': 2e5, 'fy': 300.0},
            'bilinearcompression': {'fc': 10.0, 'eps_c': 0.001, 'eps_cu': 0.003}, 'parabolarectangle': {'fc': 10.0}, 'popovics': {'fc': 10.0}, 'sargin': {'fc': 10.0},
            'initialstrain': {'constitutive_law': cl.Elastic(1e3), 'initial_strain': 1e-3},
        }.items():
            locals()[f'__{_k}__'] = (lambda v: lambda self: dict(v))(_v)

    for law, k in kinds.items():
        got = call(cl.create_constitutive_law, law, Dummy())
        R.state(('dummy', law))
        R.trace()
        R.true(type(got) is getattr(cl, k), f'law {law!r} for a user material', f'{got!r}')

    e = cl.Elastic(1e3)
    ctors = {'Elastic': lambda **k: cl.Elastic(1e3, **k), 'ElasticPlastic': lambda **k: cl.ElasticPlastic(2e5, 400.0, **k), 'BilinearCompression': lambda **k: cl.BilinearCompression(20.0, 0.001, 0.003, **k),
             'ParabolaRectangle': lambda **k: cl.ParabolaRectangle(20.0, **k), 'Popovics': lambda **k: cl.Popovics(20.0, **k), 'Sargin': lambda **k: cl.Sargin(20.0, **k),
             'UserDefined': lambda **k: cl.UserDefined([-1.0, 1.0], [-1.0, 1.0], **k), 'InitialStrain': lambda **k: cl.InitialStrain(e, 1e-3, **k), 'Parallel': lambda **k: cl.Parallel([e, e], **k)}
    for n, f in ctors.items():
        for nm in ('my law', 'Ø-1', '', None, ...):
            got = call(f, **({} if nm is ... else {'name': nm}))
            nms = call(lambda: got.name)
            R.state(('name', n, nm))
            R.trace()
            R.true(nms == nm if isinstance(nm, str) else isinstance(nms, str) and nms, f'{n} named {nm!r}', f'{nms!r}')


def integrators(R, tier):
    """All histories of integrator look-ups up to the depth."""
    from structuralcodes.sections import FiberIntegrator, MarinIntegrator, integrator_factory

    want = {'marin': MarinIntegrator, 'fiber': FiberIntegrator}
    alpha = ['marin', 'fiber', 'Marin', 'FIBER', 'FiBer', 'bogus', 'fibre', '']
    for d in range(1, 4 if tier == 'quick' else 6):
        for seq in itertools.product(alpha, repeat=d):
            for n in seq:
                got = call(integrator_factory, n)
                R.step()
                w = want.get(n.lower())
                ok = got is w if w else (got is MarinIntegrator or (isinstance(got, Exc) and issubclass(got.type, Exception)))
                if not ok:
                    R.fail(f'integrators {seq}', f'{n!r} gave {got!r}')
            R.state(seq)
            R.trace()


def exports(R, tier):
    """Every advertised name of every public module resolves."""
    import structuralcodes

    todo = ['structuralcodes']
    for m in pkgutil.walk_packages(structuralcodes.__path__, 'structuralcodes.'):
        if not any(p.startswith('_') for p in m.name.split('.')):
            todo.append(m.name)
    for n in todo:
        m = call(importlib.import_module, n)
        if isinstance(m, Exc):
            R.fail(f'import {n}', str(m))
            continue
        for a in getattr(m, '__all__', ()):
            R.state((n, a))
            R.trace()
            R.step()
            R.true(hasattr(m, a), f'{n}.{a}', 'listed in __all__ but missing')
    from structuralcodes import codes
    for n, t in TITLES.items():
        m = getattr(codes, n)
        R.true(m.__title__ == t and 'concrete' in m.__materials__ and 'reinforcement' in m.__materials__, f'code module {n}', f'{m.__title__} {m.__materials__}')


def jobs(tier):
    n = len(args_count())
    depth = 3 if tier == 'quick' else 4
    return [('histories', i, depth) for i in range(n)] + [(k, 0, tier) for k in ('forwarding', 'partial_modules', 'laws', 'integrators', 'exports')]


def args_count():
    from .core import setup_import

    setup_import()
    return operations()


def run(job, R):
    kind, i, p = job
    if kind == 'histories':
        histories(R, i, p)
    else:
        globals()[kind](R, p)
    R.outcome((kind, i))
    R.sample({'kind': kind, 'first': i})
