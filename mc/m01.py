"""M01: properties of the concrete materials."""
import itertools
import warnings

from . import mat_lib as ml
from .core import Exc, call
from .mat_lib import CODES, OVR, LAWS_C, same

RULE = (
    'State: one concrete object (code, fck, set of given values, partial factor, law name) together with the history of '
    'properties read so far. Transition: construct, read one property, evaluate the constitutive law at one strain. Trace: '
    'one object whose complete property set and law are compared with an independent model of the chain of formulas. '
    'Enumerated completely: every subset of given values (one value each), every pair of given values over a value grid, '
    'every order of reading one, two (three in thorough) properties first, and every interleaving of the histories of two objects.'
)
ASSUMPTIONS = ['fck = 50 MPa is left to C01/C07 (both branches of some formulas are admissible there).']

VAL = {
    'fcm': (41.5, 60.0, -55.0), 'fctm': (1.9, 3.3, -2.5, 0.0), 'fctk_5': (1.2, 2.9, 0.0), 'fctk_95': (3.0, 4.4, 0.0),
    'fctkmin': (1.2, 2.9, 0.0), 'fctkmax': (3.0, 4.4, 0.0), 'Ecm': (25e3, 40e3, -33e3), 'Eci': (25e3, 40e3, -33e3), 'Gf': (0.1, 160.0, -120.0, 0.0),
    'eps_c1': (0.0019, 0.0027, -0.0024), 'eps_cu1': (0.003, 0.004, -0.0034), 'k_sargin': (1.6, 2.2),
    'eps_c2': (0.0021, 0.0017, -0.0022), 'eps_cu2': (0.0031, 0.0045, -0.0036), 'n_parabolic_rectangular': (1.3, 2.4),
    'eps_c3': (0.0015, 0.0018, -0.0016), 'eps_cu3': (0.0029, 0.0041, -0.0033),
}
FCK = (12, 16.0, 20, 25.5, 30.0, 35, 40.0, 49.9, 50.1, 55.0, 60, 70.0, 80, 90.0)


def make(code, fck, ovr, law=None, **kw):
    C, _ = ml.classes(code)
    k = dict(ovr)
    k.update(kw)
    if law is not None:
        k['constitutive_law'] = law
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return call(C, fck, **k)


def check(R, key, obj, p, names=None):
    if isinstance(obj, Exc):
        R.fail(f'{key} construct', str(obj))
        return False
    for n in names or p:
        got = call(ml.read, obj, n)
        R.step()
        if isinstance(got, Exc) or not same(got, p[n]):
            R.fail(f'{key} {n}', f'{n} = {got}, expected {p[n]}')
            return False
    return True


def check_law(R, key, law, spec, npts=7):
    ref, pts = ml.law_points(spec, npts)
    for e in pts:
        got = call(law.get_stress, e)
        R.step()
        if isinstance(got, Exc) or abs(float(got) - ref.stress(e)) > 1e-8 * max(1.0, abs(ref.stress(e))):
            R.fail(f'{key} stress', f'stress at {e} is {got}, expected {ref.stress(e)} ({spec})')
            return False
    for y in (False, True):
        got = call(law.get_ultimate_strain, yielding=y)
        want = ref.yld if y else ref.lim
        if isinstance(got, Exc) or any(abs(w) < 50 and abs(g - w) > 1e-9 for g, w in zip(got, want)):
            R.fail(f'{key} limits', f'limits {got}, expected {want}')
            return False
    return True


def subsets(R, code, part, nparts):
    """Every subset of given values, one value each."""
    names = OVR[code]
    fck = 33.0
    for m in range(2 ** len(names)):
        if m % nparts != part:
            continue
        ovr = {n: VAL[n][0] for i, n in enumerate(names) if m >> i & 1}
        p, laws = ml.ref_concrete(code, fck, ovr, 1.4)
        obj = make(code, fck, ovr, gamma_c=1.4)
        R.state((code, 'subset', m))
        R.trace()
        check(R, f'{code} given {sorted(ovr)}', obj, p)


def grid(R, code, tier):
    """Every pair of given values over the value grid and all strengths, with
    the constitutive laws."""
    names = OVR[code]
    singles = [()] + [((n, v),) for n in names for v in VAL[n]]
    pairs = [((a, va), (b, vb)) for a, b in itertools.combinations(names, 2) for va in VAL[a] for vb in VAL[b]]
    facs = [(None, None), (1.0, None), (1.2, 0.85), (1.5, 0.8), (1.65, 1.0)]
    for fck in FCK + ((-30.0,)):
        for ov in singles + (pairs if tier == 'thorough' or fck in (30.0, 60) else []):
            ovr = dict(ov)
            if 'fcm' in ovr and abs(ovr['fcm']) <= abs(fck):
                ovr['fcm'] = abs(fck) + 5.5
            if 'fcm' in ovr or len(ov) < 2:
                fs = facs
            else:
                fs = facs[2:3]
            for g, a in fs:
                kw = {'gamma_c': g}
                if code != 'ec2_2023':
                    kw['alpha_cc'] = a
                obj = make(code, fck, ovr, **kw)
                p, laws = ml.ref_concrete(code, fck, ovr, g, a)
                R.state((code, fck, ov, g, a))
                R.trace()
                key = f'{code} fck={fck} given {ov} factors {g},{a}'
                if check(R, key, obj, p):
                    check_law(R, key + ' default law', obj.constitutive_law, laws['parabolarectangle'], 2)
            if len(ov) < 2:
                for law in LAWS_C:
                    obj = make(code, fck, ovr, law, gamma_c=1.3)
                    p, laws = ml.ref_concrete(code, fck, ovr, 1.3)
                    R.state((code, fck, ov, law))
                    R.trace()
                    key = f'{code} fck={fck} given {ov} {law}'
                    if law not in laws:
                        if not (isinstance(obj, Exc) and issubclass(obj.type, ValueError)):
                            R.fail(key, f'law not available for the code, got {obj!r}')
                    elif check(R, key, obj, p):
                        check_law(R, key, obj.constitutive_law, laws[law], 4)


def orders(R, code, tier):
    """Reading properties in any order never changes any of them."""
    ovr = {n: VAL[n][0] for n in ('fcm', 'eps_c1')}
    for fck in (30.0, 70.0):
        for o in ({}, ovr):
            if o and fck > 40:
                o = {'fcm': fck + 4.0, 'eps_c1': 0.0024}
            p, laws = ml.ref_concrete(code, fck, o)
            names = list(p)
            depth = 3 if tier == 'thorough' else 2
            for d in range(1, depth + 1):
                for first in itertools.product(names + ['law'], repeat=d):
                    obj = make(code, fck, o)
                    if isinstance(obj, Exc):
                        R.fail(f'{code} {fck} {sorted(o)}', str(obj))
                        return
                    for n in first:
                        if n == 'law':
                            call(obj.constitutive_law.get_stress, -0.001)
                        else:
                            call(ml.read, obj, n)
                    R.state((code, fck, tuple(o), first))
                    R.trace()
                    if not check(R, f'{code} fck={fck} given {sorted(o)} after reading {first}', obj, p):
                        return


def two(R, code, tier):
    """Two objects: every interleaving of construct / read / read."""
    opts = [{}, {'fcm': 45.0}, {OVR[code][4]: 27e3, 'eps_cu2': 0.003}, {'eps_c1': 0.0021, 'k_sargin': 1.9}, {'fctm': 2.0}]
    other = [c for c in CODES]
    for c2 in other:
        for o1, o2 in itertools.product(opts, opts):
            o2 = {k: v for k, v in o2.items() if k in OVR[c2]}
            for pos in itertools.combinations(range(6), 3):
                seq = [0 if i in pos else 1 for i in range(6)]
                objs, cnt = [None, None], [0, 0]
                spec = [(code, 30.0, o1), (c2, 35.0, o2)]
                for w in seq:
                    c, f, o = spec[w]
                    if cnt[w] == 0:
                        objs[w] = make(c, f, o)
                    else:
                        p, _ = ml.ref_concrete(c, f, o)
                        check(R, f'interleaving {seq} {spec} object {w}', objs[w], p)
                    cnt[w] += 1
                R.state((code, c2, tuple(o1), tuple(o2), pos))
                R.trace()


def ec23_design(R, tier):
    C, _ = ml.classes('ec2_2023')
    devs = ['CS', 'CN', 'CR', 'slow', 'normal', 'rapid', 'cs', 'cN', 'SLOW', 'Rapid', ' cn ']
    for dev, fck, g in itertools.product(devs, (20.0, 40.0, 40.5, 70.0), (None, 1.2)):
        o = call(C, fck, strength_dev_class=dev, gamma_c=g)
        p, laws = ml.ref_concrete('ec2_2023', fck, {}, g, dev=dev)
        key = f'ec2_2023 {dev} {fck} {g}'
        if not check(R, key, o, p):
            continue
        check_law(R, key, o.constitutive_law, laws['parabolarectangle'], 3)
        for t_ref, t0, ref in itertools.product((7.0, 28, 28.5, 56.0, 56.5, 90.0), (28.0, 90.0, 90.5, 91), (30.0, 40, 60.0)):
            R.state((dev, fck, g, t_ref, t0, ref))
            R.trace()
            want = ml.fcd23(fck, 1.5 if g is None else g, t_ref, t0, ref, dev)
            R.eq(call(o.fcd, t_ref=t_ref, t0=t0, fck_ref=ref), want, f'{key} fcd {t_ref} {t0} {ref}')
            R.eq(call(o.fctd, t_ref=t_ref), ml.EC23.k_tt(t_ref, dev.strip().upper()) * p['fctk_5'] / p['gamma_c'], f'{key} fctd {t_ref}')
        for a in ({'t_ref': -1}, {'t0': -1}, {'fck_ref': 0.0}, {'fck_ref': -40}):
            r = call(o.fcd, **a)
            R.trace()
            R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{key} fcd {a}', f'{r!r}')
        r = call(o.fctd, t_ref=-1)
        R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{key} fctd -1', f'{r!r}')
    for kE, fck in itertools.product((5000, 9500, 13000.0), (20.0, 60.0)):
        o = call(C, fck, kE=kE)
        p, laws = ml.ref_concrete('ec2_2023', fck, {}, kE=kE)
        R.state(('kE', kE, fck))
        R.trace()
        check(R, f'kE {kE} {fck}', o, p)
    for dev in ('', 'XX', 'C', 'CNN', 'fast'):
        r = call(C, 30.0, strength_dev_class=dev)
        R.trace()
        R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'development class {dev!r}', f'{r!r}')
    for g in (-1.0, -1e-9, -1.5):
        r = call(C, 30.0, gamma_c=g)
        R.trace()
        R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'gamma_c {g}', f'{r!r}')


def reject(R, code, tier):
    from structuralcodes.materials import constitutive_laws as cl

    C, _ = ml.classes(code)
    for fck in (20.0, 33.0, 60.0):
        for d in (0.0, -1e-9, -1.0, -15.0):
            r = make(code, fck, {'fcm': fck + d})
            R.state((code, fck, d))
            R.trace()
            R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{code} fcm {fck}{d:+}', f'{r!r}')
        r = make(code, fck, {'fcm': fck + 1e-6})
        R.true(not isinstance(r, Exc), f'{code} fcm just above fck {fck}', f'{r!r}')
    for n in ('k_sargin', 'n_parabolic_rectangular'):
        for v in (-1e-9, -2.0):
            r = make(code, 30.0, {n: v})
            R.state((code, n, v))
            R.trace()
            R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{code} {n}={v}', f'{r!r}')
    r = make(code, 30.0, {}, existing=True)
    R.true(isinstance(r, Exc) and issubclass(r.type, NotImplementedError), f'{code} existing', f'{r!r}')
    for law in ('', 'sargi', 'elasticplastic', 'elasticperfectlyplastic', 'initialstrain', 'userdefined'):
        r = make(code, 30.0, {}, law)
        R.state((code, 'law', law))
        R.trace()
        R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{code} law {law!r}', f'{r!r}')
    for law in ('Elastic', 'SARGIN', 'ParabolaRectangle'):
        r = make(code, 30.0, {}, law)
        R.true(not isinstance(r, Exc), f'{code} law {law!r}', f'{r!r}')
    good = [cl.Elastic(3e4), cl.ParabolaRectangle(20.0), cl.Sargin(38.0), cl.Popovics(30.0), cl.BilinearCompression(20.0, 0.00175, 0.0035),
            cl.UserDefined([0, 0.01], [0, 10.0]), cl.InitialStrain(cl.Sargin(38.0), -1e-4), cl.Parallel([cl.Elastic(1.0), cl.Sargin(38.0)])]
    for law in good:
        r = make(code, 30.0, {}, law)
        R.trace()
        R.true(not isinstance(r, Exc) and r.constitutive_law is law, f'{code} given law {type(law).__name__}', f'{r!r}')
    bad = cl.ElasticPlastic(2e5, 400.0)
    r = make(code, 30.0, {}, bad)
    R.true(isinstance(r, Exc) and issubclass(r.type, ValueError), f'{code} steel law', f'{r!r}')
    # suspicious values are accepted with a warning, ordinary ones silently
    for n in OVR[code]:
        if n.startswith('eps'):
            cases = [(0.05, False), (0.0999999, False), (0.1, True), (0.1000001, True), (-0.2, True), (3.5, True), (-0.003, False)]
        elif n == 'n_parabolic_rectangular':
            cases = [(1.0, False), (4.999999, False), (5.0, True), (7.0, True)]
        elif n == 'fctm' and code != 'ec2_2023':
            cases = [(14.9, False), (15.0, False), (15.1, True), (-16.0, True)]
        elif n == 'Eci':
            cases = [(30.0, True), (9999.0, True), (10000.0, False), (1e5, False), (100001.0, True)]
        else:
            continue
        for v, warn in cases:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                r = call(C, 30.0, constitutive_law='elastic', **{n: v})
            R.state((code, n, v))
            R.trace()
            ok = not isinstance(r, Exc) and same(call(ml.read, r, n), v)
            R.true(ok, f'{code} {n}={v} accepted', f'{r!r}')
            R.true(bool(w) == warn, f'{code} {n}={v} warning', f'warning expected: {warn}')
    for fck, d, nm in itertools.product((20, 30.4, 45.0), (2400, -2500.0, 2300.0), (None, 'conc')):
        r = call(C, fck, density=d, name=nm)
        R.state((code, 'meta', fck, d, nm))
        R.trace()
        if isinstance(r, Exc):
            R.fail(f'{code} meta {fck} {d} {nm}', str(r))
            continue
        R.true(r.density == abs(d), f'{code} density {d}', f'{r.density}')
        R.true(r.name == (nm if nm else f'C{round(fck)}'), f'{code} name {fck} {nm}', f'{r.name}')


def jobs(tier):
    out = [('ec23_design', None, 0, 0)]
    for c in CODES:
        n = 4
        out += [('subsets', c, i, n) for i in range(n)]
        out += [(k, c, 0, 0) for k in ('grid', 'orders', 'two', 'reject')]
    return [o + (tier,) for o in out]


def run(job, R):
    kind, code, i, n, tier = job
    if kind == 'subsets':
        subsets(R, code, i, n)
    elif kind == 'ec23_design':
        ec23_design(R, tier)
    else:
        globals()[kind](R, code, tier)
    R.outcome((kind, code, i))
    R.sample({'kind': kind, 'code': code})
