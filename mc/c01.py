"""C01: EN 1992-1-1:2004 material property formulas."""
from . import code_lib as cl
from .code_lib import V, E, Any, Spec, nb, near, array_check, monotone, resolve
from .ref_codes import EC2

RULE = cl.RULE
ASSUMPTIONS = ['At fck = 50 exactly Table 3.1 and its analytical relations both apply; either value is accepted.']
P = 'ec2_2004:'
FCK = [12.0, 16.0, 20.0, 25.0, 30.0, 35.0, 40.0, 45.0, 49.0, *nb(50), 50.001, 51.0, 55.0, 60.0, 70.0, 80.0, 90.0]
NEG = [-f for f in FCK]
FCM = sorted(f + 8 for f in FCK) + [86.0, 87.0, 88.0, 89.0, 90.0, 95.0, *nb(80)]
T = [0.5, 1.0, 3.0, 7.0, 14.0, 27.0, *nb(28), 29.0, 56.0, 90.0, 365.0, 36500.0]
S = [0.2, 0.25, 0.38]


def at50(f):
    def ref(fck):
        if fck == 50:
            g = {'eps_cu1': 1e-3 * (2.8 + 27 * 0.4**4), 'eps_cu2': 1e-3 * (2.6 + 35 * 0.4**4), 'n': 1.4 + 23.4 * 0.4**4}
            return Any((3.5e-3 if f != 'n' else 2.0, g[f]))
        return getattr(EC2, f)(fck)
    return ref


def cement(c):
    k = str(c).upper().strip() if c is not None else ''
    return EC2.s.get(k, V)


def duct(fyk, c):
    if c.upper() not in EC2.duct:
        return V
    e, k = EC2.duct[c.upper()]
    return {'epsuk': e, 'ftk': k * fyk}


SPECS = [
    Spec(P + 'fcm', EC2.fcm, FCK),
    Spec(P + 'fcm', EC2.fcm, FCK, [0.0, 4.0, 8.0, 10.0], label='fcm with delta_f'),
    Spec(P + 'fctm', EC2.fctm, FCK),
    Spec(P + 'fctk_5', EC2.fctk5, [1.1, 2.0, 3.5, 5.0]),
    Spec(P + 'fctk_95', EC2.fctk95, [1.1, 2.0, 3.5, 5.0]),
    Spec(P + 'Ecm', EC2.Ecm, FCM),
    Spec(P + 'eps_c1', EC2.eps_c1, FCM),
    Spec(P + 'eps_cu1', at50('eps_cu1'), FCK),
    Spec(P + 'k_sargin', EC2.k_sargin, [22e3, 27e3, 31.5e3, 44e3], FCM, [0.0018, -0.0018, 0.0023, 0.0028]),
    Spec(P + 'eps_c2', EC2.eps_c2, FCK),
    Spec(P + 'eps_cu2', at50('eps_cu2'), FCK),
    Spec(P + 'n_parabolic_rectangular', at50('n'), FCK),
    Spec(P + 'eps_c3', EC2.eps_c3, FCK),
    Spec(P + 'eps_cu3', at50('eps_cu2'), FCK),
    Spec(P + 'fcd', EC2.fcd, FCK, [0.8, 0.85, 1.0], [1.0, 1.2, 1.45, 1.5]),
    # a compressive strength given with the compression sign counts by magnitude
    *[Spec(P + n, (lambda g: lambda f: g(-f))(g), NEG, label=n + ' negative strength') for n, g in (
        ('fcm', EC2.fcm), ('fctm', EC2.fctm), ('eps_cu1', at50('eps_cu1')), ('eps_c2', EC2.eps_c2), ('eps_cu2', at50('eps_cu2')),
        ('n_parabolic_rectangular', at50('n')), ('eps_c3', EC2.eps_c3), ('eps_cu3', at50('eps_cu2')))],
    *[Spec(P + n, (lambda g: lambda f: g(-f))(g), [-f for f in FCM], label=n + ' negative strength') for n, g in (('Ecm', EC2.Ecm), ('eps_c1', EC2.eps_c1))],
    Spec(P + 'fcd', lambda f, a, g: EC2.fcd(-f, a, g), NEG, [0.85, 1.0], [1.2, 1.5], label='fcd negative strength'),
    Spec(P + 'beta_cc', EC2.beta_cc, T, S),
    Spec(P + 'beta_ct', lambda t, s: EC2.beta_cc(t, s) ** (1 if t < 28 else 2 / 3), T, S),
    Spec(P + 'beta_E', lambda t, s: EC2.beta_cc(t, s) ** 0.3, T, S),
    Spec(P + 's_time_development', cement, ['R', 'N', 'S', 'r', 'n', 's', ' R ', 'n ', ' s', 'X', '', 'RS', 'RAPID', None]),
    Spec(P + 'fcm_time', lambda f, b: f * b, FCM, [0.3, 0.9, 1.0, 1.2]),
    Spec(P + 'fctm_time', lambda f, b, a: f * b**a, [2.2, 2.9, 4.1], [0.3, 0.9, 1.0, 1.2], [1.0, 2 / 3]),
    Spec(P + 'Ecm_time', lambda f, ft, E_: E_ * (ft / f) ** 0.3, FCM, [10.0, 28.0, 38.0, 60.0], [22e3, 33e3]),
    Spec(P + 'fyd', lambda f, g: V if f < 0 or g < 1 else f / g, [-1.0, -1e-9, 0.0, 400.0, 500.0, 550.0, 600.0], [0.0, 0.5, *nb(1.0), 1.05, 1.15, 1.3]),
    Spec(P + 'epsud', lambda e: V if e < 0 else 0.9 * e, [-0.01, -1e-9, 0.0, 0.025, 0.05, 0.075], label='epsud default'),
    Spec(P + 'epsud', lambda e, g: V if e < 0 or g > 1 else e * g, [-0.01, -1e-9, 0.0, 0.025, 0.05, 0.075], [0.5, 0.9, *nb(1.0), 1.1]),
    Spec(P + 'reinforcement_duct_props', duct, [400.0, 500.0, 600.0], ['A', 'B', 'C', 'a', 'b', 'c', 'D', 'd', '', 'AB', '1']),
]


def arrays(R, tier):
    for f in ('beta_cc', 'beta_ct', 'beta_E'):
        array_check(P + f, R, T, S)
    array_check(P + 'fcm_time', R, [0.3, 0.9, 1.0], [28.0, 38.0], tpos=1)
    array_check(P + 'fctm_time', R, [0.3, 0.9, 1.0], [2.9], [1.0, 2 / 3], tpos=1)
    array_check(P + 'Ecm_time', R, [10.0, 30.0, 42.0], [38.0], [33e3], tpos=1)


def order(R, tier):
    """fctk_5 < fctm < fctk_95, eps limits ordered, strength develops."""
    m = lambda n: resolve(P + n)
    for fck in FCK:
        R.state(fck)
        f = m('fctm')(fck)
        R.trace()
        R.true(m('fctk_5')(f) < f < m('fctk_95')(f), f'fractiles {fck}', 'fractiles not ordered')
        R.true(m('eps_c2')(fck) <= m('eps_cu2')(fck) * 1.001, f'eps_c2 {fck}', 'eps_c2 > eps_cu2')
        R.true(m('eps_c3')(fck) <= m('eps_cu3')(fck) * 1.001, f'eps_c3 {fck}', 'eps_c3 > eps_cu3')
        R.true(m('eps_c1')(fck + 8) <= m('eps_cu1')(fck) * 1.001, f'eps_c1 {fck}', 'eps_c1 > eps_cu1')
    for s in S:
        monotone(R, f'beta_cc {s}', T, [m('beta_cc')(t, s) for t in T], zero=False)
        R.eq(float(m('beta_cc')(28, s)), 1.0, f'beta_cc(28) {s}')


jobs, run = cl.make(SPECS, {'arrays': arrays, 'order': order})
