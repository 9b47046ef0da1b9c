"""C07: Model Code 2010 material formulas."""
from math import exp, sqrt

from . import code_lib as cl
from .code_lib import V, E, Any, Spec, nb, array_check, monotone, resolve
from .ref_codes import EC2, MC

RULE = cl.RULE
ASSUMPTIONS = ['At fck = 50 exactly either branch of the analytical relations is accepted where both apply.']
P = 'mc2010:'
FCK = [12.0, 16.0, 18.0, 20.0, 25.0, 30.0, 35.0, 40.0, 45.0, 49.0, *nb(50), 55.0, 60.0, 65.0, 70.0, 80.0, 90.0]
NEG = [-f for f in FCK]
FCKX = [0.0, 11.0, 11.999, *FCK, 95.0, 100.0, 110.0, 119.0, 120.0, 120.001, 150.0]
FCM = [8.0, 11.0, 20.0, 28.0, 38.0, 58.0, *nb(60), 68.0, 98.0, 128.0]
T = [0.5, 1.0, 3.0, 7.0, 14.0, 27.0, 28.0, 29.0, 90.0, 365.0, 36500.0]
CEM = list(MC.cem) + [c.lower() for c in MC.cem] + ['32.5', 'R', '', '62.5 R']


def beta_cc(t, fcm, c):
    if fcm > 60:  # the class does not matter
        return exp(0.2 * (1 - sqrt(28 / t))) if c.upper() in MC._grp else cl.SKIP
    k = c.upper()
    return exp(MC.par[MC._grp[k]][0] * (1 - sqrt(28 / t))) if k in MC._grp else E


def tab(f):
    return lambda x: V if not 12 <= x <= 120 else f(x)


def at50(f, v):
    return lambda x: Any((f(x), v)) if x == 50 else f(x)


def duct(fyk, c):
    if c.upper() not in MC.duct:
        return V
    e, k = MC.duct[c.upper()]
    return {'epsuk': e, 'ftk': k * fyk}


AGG = list(MC.agg) + ['Basalt', 'QUARTZITE', 'granite', '']
SPECS = [
    Spec(P + 'fcm', MC.fcm, FCK),
    Spec(P + 'fcm', MC.fcm, FCK, [0.0, 4.0, 8.0], label='fcm with delta_f'),
    Spec(P + 'fctm', MC.fctm, FCK + [100.0, 120.0]),
    Spec(P + 'fctkmin', MC.fctk5, [1.1, 2.9, 5.0]),
    Spec(P + 'fctkmax', MC.fctk95, [1.1, 2.9, 5.0]),
    Spec(P + 'Gf', MC.Gf, FCK + [120.0]),
    Spec(P + 'Eci', MC.Eci, FCM, label='Eci default'),
    Spec(P + 'Eci', lambda f, a: MC.Eci(f, a.lower()) if a.lower() in MC.agg else E, FCM, AGG, label='Eci aggregate'),
    Spec(P + 'Eci', lambda f, a, e: MC.Eci(f, a, e), FCM, list(MC.agg), [20e3, 21.5e3, 25e3]),
    Spec(P + 'beta_cc', beta_cc, T, FCM, CEM),
    Spec(P + 'beta_e', lambda b: sqrt(b), [0.0, 0.3, 0.9, 1.0, 1.2]),
    Spec(P + 'Eci_t', lambda b, e: b * e, [0.3, 1.0, 1.1], [25e3, 35e3]),
    Spec(P + 'fcd', lambda f: f / 1.5, FCK, label='fcd default'),
    Spec(P + 'fcd', lambda f, a, g: a * f / g, FCK, [0.8, 0.85, 1.0], [1.0, 1.2, 1.5]),
    Spec(P + 'eps_c1', tab(MC.eps_c1), FCKX),
    Spec(P + 'eps_cu1', tab(MC.eps_clim), FCKX),
    Spec(P + 'k_sargin', tab(MC.k_sargin), FCKX),
    Spec(P + 'eps_c2', MC.eps_c2, FCK),
    Spec(P + 'eps_cu2', at50(MC.eps_cu2, 1e-3 * (2.6 + 35 * 0.4**4)), FCK),
    Spec(P + 'n_parabolic_rectangular', at50(MC.n, 1.4 + 23.4 * 0.4**4), FCK),
    Spec(P + 'eps_c3', MC.eps_c3, FCK),
    Spec(P + 'eps_cu3', at50(MC.eps_cu2, 1e-3 * (2.6 + 35 * 0.4**4)), FCK),
    # a compressive strength given with the compression sign counts by magnitude
    *[Spec(P + n, (lambda g: lambda f: g(-f))(g), NEG, label=n + ' negative strength') for n, g in (
        ('fcm', MC.fcm), ('fctm', MC.fctm), ('fcd', lambda f: f / 1.5), ('eps_c2', MC.eps_c2), ('eps_cu2', at50(MC.eps_cu2, 1e-3 * (2.6 + 35 * 0.4**4))),
        ('n_parabolic_rectangular', at50(MC.n, 1.4 + 23.4 * 0.4**4)), ('eps_c3', MC.eps_c3), ('eps_cu3', at50(MC.eps_cu2, 1e-3 * (2.6 + 35 * 0.4**4))))],
    Spec(P + 'fyd', lambda f: V if f < 0 else f / 1.15, [-1.0, -1e-9, 0.0, 400.0, 500.0, 600.0], label='fyd default'),
    Spec(P + 'fyd', lambda f, g: V if f < 0 or g < 1 else f / g, [-1.0, 0.0, 400.0, 500.0], [0.0, 0.5, *nb(1.0), 1.05, 1.3]),
    Spec(P + 'epsud', lambda e: V if e < 0 else 0.9 * e, [-0.01, 0.0, 0.025, 0.08], label='epsud default'),
    Spec(P + 'epsud', lambda e, g: V if e < 0 or g > 1 else e * g, [-0.01, 0.0, 0.025, 0.08], [0.5, *nb(1.0), 1.1]),
    Spec(P + 'reinforcement_duct_props', duct, [400.0, 500.0, 600.0], ['A', 'B', 'C', 'D', 'a', 'b', 'c', 'd', 'E', '', 'AB']),
]


def arrays(R, tier):
    array_check(P + 'beta_cc', R, T, FCM, list(MC.cem))
    array_check(P + 'beta_e', R, [0.1, 0.9, 1.0, 1.2])
    array_check(P + 'Eci_t', R, [0.1, 0.9, 1.0], [3e4])


def develop(R, tier):
    m = lambda n: resolve(P + n)
    for fcm in FCM:
        for c in MC.cem:
            v = [m('beta_cc')(t, fcm, c) for t in T]
            monotone(R, f'beta_cc {fcm} {c}', T, v, zero=False)
            R.eq(float(m('beta_cc')(28.0, fcm, c)), 1.0, f'beta_cc(28) {fcm} {c}')
            E_ = [m('Eci_t')(m('beta_e')(b), m('Eci')(fcm)) for b in v]
            monotone(R, f'Eci_t {fcm} {c}', T, E_, zero=False)
            R.eq(float(E_[T.index(28.0)]), MC.Eci(fcm), f'Eci_t(28) {fcm} {c}')


jobs, run = cl.make(SPECS, {'arrays': arrays, 'develop': develop})
