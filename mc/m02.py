"""M02: properties of the reinforcement materials."""
import itertools
import warnings

from . import mat_lib as ml
from .core import Exc, call
from .m01 import check, check_law
from .mat_lib import CODES, LAWS_S

RULE = (
    'State: one reinforcement object (code, characteristic values, factors, law name) with the history of properties read. '
    'Transition: construct, read one property, evaluate the law at one strain. Trace: one object whose complete property set and '
    'law are compared with an independent model; the whole product of the value grids, every order of reading one, two (three in '
    'thorough) properties first, and every interleaving of the histories of two objects are enumerated.'
)
ASSUMPTIONS = ['A partial factor of exactly 0 is not prescribed.']
FY = (220.0, 400, 500.0, 550.5, 1600.0, -500.0)
RATIO = (1.0, 1.05, 1.08, 1.35)
EU = (0.025, 0.05, 0.075, 0.2, -0.05)
ES = (190000.0, 200000, -205000.0)
GS = (None, 1, 1.0, 1.05, 1.15, 1.3)
GE = (None, 0.8, 0.9, 1, 1.0)


def make(code, fy, Es, ft, eu, law=None, **kw):
    _, C = ml.classes(code)
    if law is not None:
        kw['constitutive_law'] = law
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return call(C, fy, Es, ft, eu, **kw)


def grid(R, code, tier):
    ges = GE if code != 'ec2_2023' else (None,)
    for fy, r, eu, Es, gs, ge in itertools.product(FY, RATIO, EU, ES, GS, ges):
        ft = fy * r
        kw = {'gamma_s': gs}
        if code != 'ec2_2023':
            kw['gamma_eps'] = ge
        p, laws = ml.ref_steel(code, fy, Es, ft, eu, gs, ge)
        full = tier == 'thorough' or (fy, r, eu, Es) == (500.0, 1.08, 0.05, 200000) or gs == 1.15
        for law in (LAWS_S + (None,)) if full else (None,):
            o = make(code, fy, Es, ft, eu, law, **kw)
            key = f'{code} fyk={fy} Es={Es} ftk={ft} epsuk={eu} gamma_s={gs} gamma_eps={ge} {law}'
            R.state((code, fy, r, eu, Es, gs, ge, law))
            R.trace()
            if not check(R, key, o, p):
                continue
            name = law or 'elasticplastic'
            if check_law(R, key, o.constitutive_law, laws[name], 2) and name != 'elastic':
                L = o.constitutive_law
                for s in (1, -1):
                    R.eq(call(L.get_stress, s * p['epsyd']), s * p['fyd()'], f'{key} stress at yield')
                    R.eq(call(L.get_stress, s * p['epsud()']), s * (p['ftd()'] if name == 'elasticplastic' else p['fyd()']), f'{key} stress at ultimate')
                    R.eq(call(L.get_stress, s * p['epsud()'] * 1.01), 0.0, f'{key} stress beyond ultimate')


def orders(R, code, tier):
    for gs, law in itertools.product((None, 1.3), LAWS_S):
        p, laws = ml.ref_steel(code, 500.0, 200000.0, 540.0, 0.05, gs)
        names = list(p) + ['law']
        for d in range(1, (3 if tier == 'thorough' else 2) + 1):
            for first in itertools.product(names, repeat=d):
                o = make(code, 500.0, 200000.0, 540.0, 0.05, law, gamma_s=gs)
                if isinstance(o, Exc):
                    R.fail(f'{code} {gs} {law}', str(o))
                    return
                for n in first:
                    if n == 'law':
                        call(o.constitutive_law.get_stress, 0.001)
                    else:
                        call(ml.read, o, n)
                R.state((code, gs, law, first))
                R.trace()
                if not check(R, f'{code} gamma_s={gs} {law} after reading {first}', o, p):
                    return
        # setting the characteristic strain changes exactly the strains
        for new in (0.03, -0.08, 0.05):
            o = make(code, 500.0, 200000.0, 540.0, 0.05, law, gamma_s=gs)
            call(setattr, o, 'epsuk', new)
            q, _ = ml.ref_steel(code, 500.0, 200000.0, 540.0, new, gs)
            R.state((code, gs, law, 'set', new))
            R.trace()
            check(R, f'{code} gamma_s={gs} {law} epsuk set to {new}', o, q)


def two(R, code, tier):
    opts = [(500.0, None, None), (550.0, 1.0, None), (400.0, 1.3, 0.8)]
    for c2 in CODES:
        for a, b in itertools.product(opts, opts):
            for pos in itertools.combinations(range(6), 3):
                seq = [0 if i in pos else 1 for i in range(6)]
                spec = [(code,) + a, (c2,) + b]
                objs, cnt = [None, None], [0, 0]
                for w in seq:
                    c, fy, gs, ge = spec[w]
                    kw = {'gamma_s': gs}
                    if c != 'ec2_2023':
                        kw['gamma_eps'] = ge
                    if cnt[w] == 0:
                        objs[w] = make(c, fy, 200000.0, fy * 1.1, 0.06, **kw)
                    else:
                        p, _ = ml.ref_steel(c, fy, 200000.0, fy * 1.1, 0.06, gs, ge)
                        check(R, f'interleaving {seq} {spec} object {w}', objs[w], p)
                    cnt[w] += 1
                R.state((code, c2, a, b, pos))
                R.trace()


def reject(R, code, tier):
    from structuralcodes.materials import constitutive_laws as cl

    def bad(r, key):
        R.state((code, key))
        R.trace()
        R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{code} {key}', f'{r!r}')

    a = (500.0, 200000.0, 540.0, 0.05)
    for g in (0.5, 0.999999, -1.15):
        bad(make(code, *a, gamma_s=g), f'gamma_s {g}')
        bad(make(code, *a, 'elasticperfectlyplastic', gamma_s=g), f'gamma_s {g} perfectly plastic')
        o = make(code, *a, 'elastic', gamma_s=g)
        if not isinstance(o, Exc):
            bad(call(o.fyd), f'fyd with gamma_s {g}')
            bad(call(o.ftd), f'ftd with gamma_s {g}')
    if code != 'ec2_2023':
        for g in (1.000001, 1.2):
            bad(make(code, *a, gamma_eps=g), f'gamma_eps {g}')
            o = make(code, *a, 'elastic', gamma_eps=g)
            if not isinstance(o, Exc):
                bad(call(o.epsud), f'epsud with gamma_eps {g}')
    for law in ('', 'sargin', 'parabolarectangle', 'bilinearcompression', 'popovics', 'initialstrain', 'nothing', 'userdefined'):
        bad(make(code, *a, law), f'law {law!r}')
    for law in (cl.Sargin(38.0), cl.ParabolaRectangle(20.0), cl.Popovics(30.0), cl.BilinearCompression(20.0, 0.00175, 0.0035)):
        bad(make(code, *a, law), f'given law {type(law).__name__}')
    for law in (cl.Elastic(2e5), cl.ElasticPlastic(2e5, 400.0), cl.UserDefined([0, 0.01], [0, 10.0]), cl.InitialStrain(cl.Elastic(2e5), 1e-3), cl.Parallel([cl.Elastic(2e5)])):
        o = make(code, *a, law)
        R.trace()
        R.true(not isinstance(o, Exc) and o.constitutive_law is law, f'{code} given law {type(law).__name__}', f'{o!r}')
    for law in ('Elastic', 'ELASTICPLASTIC', 'ElasticPerfectlyPlastic'):
        o = make(code, *a, law)
        R.trace()
        R.true(not isinstance(o, Exc), f'{code} law {law!r}', f'{o!r}')
    for fy, d, nm in itertools.product((500.0, 499.6, 400), (7850, -7800.0, 7700.5), (None, 'bars')):
        o = make(code, fy, 200000.0, 600.0, 0.05, density=d, name=nm)
        R.state((code, 'meta', fy, d, nm))
        R.trace()
        if isinstance(o, Exc):
            R.fail(f'{code} meta {fy} {d} {nm}', str(o))
            continue
        R.true(o.density == abs(d), f'{code} density {d}', f'{o.density}')
        R.true(o.name == (nm or f'Reinforcement{round(fy)}'), f'{code} name {fy} {nm}', f'{o.name}')
    o = make(code, *a)
    R.true(not isinstance(o, Exc) and o.density == 7850, f'{code} default density', f'{o!r}')


def jobs(tier):
    return [(k, c, tier) for c in CODES for k in ('grid', 'orders', 'two', 'reject')]


def run(job, R):
    kind, code, tier = job
    globals()[kind](R, code, tier)
    R.outcome((kind, code))
    R.sample({'kind': kind, 'code': code})
