"""C05: EN 1992-1-1:2023 section 5 and Annex B material formulas."""
from . import code_lib as cl
from .code_lib import V, T as TE, E, SKIP, Any, Spec, nb, resolve
from .core import Exc
from .ref_codes import EC2, EC23, interp

RULE = cl.RULE
ASSUMPTIONS = [
    'Inside a cell of Tables 5.2/5.3 either diagonal of the linear interpolation is accepted; nodes and cell edges are unique.',
    'A loading age of exactly 90 days ("at least 3 months") is not asserted.',
]
P = 'ec2_2023:'
FCK = [12.0, 16.0, 20.0, 25.0, 30.0, 35.0, 39.0, *nb(40), 41.0, 45.0, *nb(50), 55.0, 60.0, 70.0, 80.0, 90.0, 100.0]
FCM = [20.0, 24.0, 28.0, 33.0, 43.0, 53.0, 58.0, *nb(64), 63.9, 64.1, 68.0, 78.0, 88.0, 98.0, 108.0]
CLS = ['CS', 'CN', 'CR', 'slow', 'normal', 'rapid', 'cs', ' CN ', 'Rapid', 'SLOW', 'X', '', 'C', 'fast']
ATM = ['dry', 'humid', 'DRY', ' humid ', 'wet', '']
HN = [50.0, 99.9, 100.0, 150.0, 200.0, 350.0, 500.0, 750.0, 1000.0, 1000.1, 2000.0]
XS = (100.0, 200.0, 500.0, 1000.0)
AEXP = {'dry': (0.82, 0.79, 0.75, 0.72), 'humid': (0.71, 0.68, 0.66, 0.64)}
PHI = {
    'dry': ((4.2, 3.8, 3.4, 3.1), (3.1, 2.8, 2.5, 2.3), (2.4, 2.2, 1.9, 1.8), (1.9, 1.7, 1.5, 1.4), (1.4, 1.3, 1.1, 1.0)),
    'humid': ((3.0, 2.8, 2.6, 2.5), (2.2, 2.1, 2.0, 1.9), (1.7, 1.6, 1.6, 1.5), (1.4, 1.3, 1.2, 1.2), (1.0, 0.9, 0.9, 0.8)),
}
T0 = {'CS': (3, 10, 32, 91, 365), 'CN': (1, 7, 28, 91, 365), 'CR': (1, 3, 23, 91, 365)}
NORM = {'SLOW': 'CS', 'NORMAL': 'CN', 'RAPID': 'CR', 'CS': 'CS', 'CN': 'CN', 'CR': 'CR'}
FV = {'CS': (20, 35, 50), 'CN': (20, 35, 50, 80), 'CR': (35, 50, 80)}
SHR = {
    ('dry', 'CS'): ((0.57, 0.56, 0.48, 0.36), (0.53, 0.51, 0.45, 0.35), (0.49, 0.48, 0.43, 0.35)),
    ('dry', 'CN'): ((0.67, 0.65, 0.56, 0.41), (0.60, 0.59, 0.51, 0.39), (0.55, 0.54, 0.48, 0.37), (0.48, 0.48, 0.43, 0.36)),
    ('dry', 'CR'): ((0.76, 0.74, 0.65, 0.48), (0.67, 0.66, 0.58, 0.44), (0.55, 0.54, 0.49, 0.39)),
    ('humid', 'CS'): ((0.33, 0.32, 0.28, 0.21), (0.31, 0.31, 0.27, 0.22), (0.30, 0.29, 0.27, 0.23)),
    ('humid', 'CN'): ((0.38, 0.37, 0.32, 0.24), (0.34, 0.34, 0.30, 0.24), (0.31, 0.31, 0.28, 0.23), (0.30, 0.30, 0.28, 0.25)),
    ('humid', 'CR'): ((0.42, 0.41, 0.36, 0.28), (0.36, 0.35, 0.32, 0.26), (0.31, 0.30, 0.28, 0.25)),
}


def bilin(x, y, xs, ys, tab):
    """Both linear interpolations (two diagonals) in a table, or None."""
    if not (xs[0] <= x <= xs[-1] and ys[0] <= y <= ys[-1]):
        return None
    i = min(max(k for k in range(len(xs)) if xs[k] <= x), len(xs) - 2)
    j = min(max(k for k in range(len(ys)) if ys[k] <= y), len(ys) - 2)
    u = (x - xs[i]) / (xs[i + 1] - xs[i])
    v = (y - ys[j]) / (ys[j + 1] - ys[j])
    a, b, c, d = tab[i][j], tab[i + 1][j], tab[i][j + 1], tab[i + 1][j + 1]
    # diagonal a-d
    p = a + (b - a) * u + (d - b) * v if u >= v else a + (c - a) * v + (d - c) * u
    # diagonal b-c
    q = a + (b - a) * u + (c - a) * v if u + v <= 1 else d + (c - d) * (1 - u) + (b - d) * (1 - v)
    return Any((p, q))


def phi50(t0, atm, hn, c):
    a, k = atm.lower().strip(), NORM.get(c.upper().strip())
    if t0 < 1 or a not in PHI or not 100 <= hn <= 1000 or k is None:
        return V
    r = bilin(t0, hn, T0[k], XS, PHI[a])
    return V if r is None else r


def shr50(f, atm, hn, c):
    a, k = atm.lower().strip(), NORM.get(c.upper().strip())
    if not 20 <= f <= 80 or a not in PHI or not 100 <= hn <= 1000 or k is None:
        return V
    r = bilin(f, hn, FV[k], XS, SHR[a, k])
    return V if r is None else r


def Aexp(hn, atm):
    a = atm.lower().strip()
    return V if not 100 <= hn <= 1000 or a not in AEXP else interp(hn, XS, AEXP[a])


def cls(f):
    def ref(*a):
        c = a[-1].upper().strip()
        return V if c not in NORM or any(x < 0 for x in a[:-1]) else f(*a[:-1], c)
    return ref


def sigma(eps, fy, fu, eu, E_, hard):
    ey = fy / E_
    if eps <= ey:
        return E_ * eps
    return fy + (fu - fy) * (eps - ey) / (eu - ey)


def sigma_s(eps, fy, k, eu, Es=200e3):
    if eps < 0 or eu <= 0 or (eps > eu and k > 1) or Es <= 0 or fy <= 0 or k < 1:
        return V
    return sigma(eps, fy, k * fy, eu, Es, k > 1)


def sigma_p(eps, fy, fu, eu=0.035, Ep=190e3):
    if eps < 0 or eu <= 0 or (eps > eu and fu != fy) or fy <= 0 or fu < fy or Ep <= 0:
        return V
    return sigma(eps, fy, fu, eu, Ep, fu > fy)


PS = {
    'W': {'Y1570': (1380, 1570), 'Y1670': (1470, 1670), 'Y1770': (1550, 1770), 'Y1860': (1650, 1860)},
    'S': {'Y1770': (1560, 1770), 'Y1860': (1640, 1860), 'Y1960': (1740, 1960), 'Y2060': (1830, 2060)},
    'B': {'Y1030': (835, 1030), 'Y1050': (950, 1050), 'Y1100': (900, 1100), 'Y1230': (1080, 1230)},
}


def ps(c, e):
    c, e = c.upper().strip(), e.upper().strip()
    return PS.get(e, {}).get(c, V)


def duct(fyk, c):
    if c.upper() not in EC2.duct:
        return V
    e, k = EC2.duct[c.upper()]
    return {'epsuk': e, 'ftk': k * fyk}


def thermal(name):
    def known(combo, got):
        if not isinstance(got, Exc) and abs(float(got) - 1e-4) < 1e-15:
            return f'{name} is 1e-4 instead of 10e-6'
        return None
    return known


def rng(lo, hi, *xs):
    return any(x < lo or x > hi for x in xs)


SPECS = [
    Spec(P + 'fcm', EC23.fcm, FCK),
    Spec(P + 'fcm', EC23.fcm, FCK, [0.0, 4.0, 8.0], label='fcm with delta_f'),
    Spec(P + 'fctm', EC23.fctm, FCK),
    Spec(P + 'fctm', lambda f: EC23.fctm(-f), [-f for f in FCK], label='fctm negative strength'),
    Spec(P + 'fctk_5', EC23.fctk5, [1.1, 2.9, 5.0]),
    Spec(P + 'fctk_95', EC23.fctk95, [1.1, 2.9, 5.0]),
    Spec(P + 'Ecm', lambda f: V if f < 0 else EC23.Ecm(f), [-1.0, -1e-9, 0.0, *FCM], label='Ecm default'),
    Spec(P + 'Ecm', lambda f, k: V if f < 0 or rng(5000, 13000, k) else EC23.Ecm(f, k), [-1.0, 0.0, *FCM], [4999.0, 5000.0, 7000.0, 9500.0, 13000.0, 13001.0]),
    Spec(P + 'hn', lambda a, u: V if a < 0 or u < 0 else 2 * a / u, [-1.0, 0.0, 9e4], [-1.0, 0.5, 1200.0, 4000.0]),
    Spec(P + 'A_phi_correction_exp', Aexp, HN, ATM),
    Spec(P + 'phi_correction_factor', lambda f, a: V if rng(12, 100, f) or rng(0.64, 0.82, a) else (35 / f) ** a, [5.0, 11.9, *FCK, 100.1, 120.0], [0.5, 0.6399, 0.64, 0.72, 0.82, 0.8201, 1.0]),
    Spec(P + 'phi_50y_t0', phi50, [0.5, 0.999, 1.0, 2.0, 3.0, 7.0, 8.0, 10.0, 23.0, 28.0, 32.0, 60.0, 91.0, 200.0, 365.0, 366.0], ATM, HN, CLS, rtol=1e-7),
    Spec(P + 'eps_cs_50y', shr50, [10.0, 19.9, 20.0, 30.0, 35.0, 40.0, 50.0, 50.1, 60.0, 80.0, 80.1], ATM, HN, CLS, rtol=1e-7),
    Spec(P + 'eta_cc', lambda f: V if f < 12 else EC23.eta_cc(f), [5.0, 11.999, *FCK], label='eta_cc default'),
    Spec(P + 'eta_cc', lambda f, r: V if f < 12 or r <= 0 else EC23.eta_cc(f, r), [5.0, 11.999, *FCK], [-40.0, 0.0, 0.5, 20.0, 40.0, 60.0]),
    Spec(P + 'k_tc', cls(EC23.k_tc), [-1.0, 0.0, 7.0, 28.0, 28.1, 40.0, 56.0, 56.1, 90.0], [-1.0, 0.0, 28.0, 89.9, 90.1, 91.0, 365.0], CLS),
    Spec(P + 'k_tt', cls(EC23.k_tt), [-1.0, 0.0, 7.0, 28.0, 28.1, 40.0, 56.0, 56.1, 90.0], CLS),
    Spec(P + 'fcd', lambda f, e, k, g: V if f < 12 or rng(0, 1, e) or g < 1 else e * k * f / g, [5.0, 11.999, *FCK], [-0.1, 0.0, 0.7, 1.0, 1.001], [0.85, 1.0], [0.9, 1.0, 1.2, 1.5]),
    Spec(P + 'fctd', lambda f, k, g: V if f < 0 or g < 1 else k * f / g, [-1.0, 0.0, 1.8, 3.0], [0.7, 0.8], [0.9, 1.0, 1.5]),
    Spec(P + 'eps_c1', lambda f: V if f < 20 else EC23.eps_c1(f), [10.0, 19.999, *FCM]),
    Spec(P + 'eps_cu1', lambda f: V if f < 20 else EC23.eps_cu1(f), [10.0, 19.999, *FCM]),
    Spec(P + 'k_sargin', lambda E_, f, e: V if E_ <= 0 or f < 20 or e <= 0 else 1.05 * E_ * e / f, [-1.0, 0.0, 0.5, 3e4, 4e4], [19.9, 20.0, 38.0, 88.0], [-0.002, 0.0, 0.002, 0.0028]),
    Spec(P + 'eps_c2', lambda: 0.002),
    Spec(P + 'eps_cu2', lambda: 0.0035),
    Spec(P + 'n_parabolic_rectangular', lambda: 2.0),
    Spec(P + 'weight_c', lambda c: {'nc': 25.0, 'npc': 24.0}.get(c.lower().strip(), V), ['nc', 'npc', 'NC', ' npc ', 'x', '']),
    Spec(P + 'alpha_c_th', lambda: 10e-6, known=thermal('alpha_c_th')),
    Spec(P + 'Es', lambda: 200000.0),
    Spec(P + 'alpha_s_th', lambda: 10e-6, known=thermal('alpha_s_th')),
    Spec(P + 'weight_s', lambda: 78.5),
    Spec(P + 'fyd', lambda f, g: V if f < 0 or g < 1 else f / g, [-1.0, 0.0, 400.0, 700.0], [0.5, *nb(1.0), 1.15]),
    Spec(P + 'eps_ud', lambda f, g: V if f < 0 or g < 1 else f / g, [-0.1, 0.0, 0.025, 0.075], [0.5, *nb(1.0), 1.15]),
    Spec(P + 'sigma_s', sigma_s, [-1e-3, 0.0, 1e-3, 0.002, *nb(0.0025), 0.003, 0.02, 0.025, 0.0251, 0.06], [-1.0, 0.0, 0.5, 400.0, 500.0], [0.5, 0.999, 1.0, 1.08, 1.15], [-0.1, 0.0, 0.025, 0.05], label='sigma_s default Es'),
    Spec(P + 'sigma_s', sigma_s, [0.001, 0.0025, 0.02], [435.0, 500.0], [1.0, 1.08], [0.025, 0.05], [-1.0, 0.0, 0.5, 180e3, 210e3]),
    Spec(P + 'p_steel_stress_params', ps, [k for d in PS.values() for k in d] + ['y1860', ' Y1770 ', 'Y1560', 'X', ''], ['W', 'S', 'B', 'w', ' s ', 'X', '']),
    Spec(P + 'fpd', lambda f, g: V if f < 0 or g < 1 else f / g, [-1.0, 0.0, 1640.0], [0.5, *nb(1.0), 1.15]),
    Spec(P + 'sigma_p', sigma_p, [-1e-3, 0.0, 0.004, 0.008, 0.01, 0.035, 0.0351, 0.05], [-1.0, 0.0, 0.5, 1400.0, 1520.0], [1300.0, 1400.0, 1520.0, 1700.0], label='sigma_p default'),
    Spec(P + 'sigma_p', sigma_p, [0.004, 0.008, 0.02, 0.03], [1400.0], [1400.0, 1700.0], [-0.1, 0.0, 0.02, 0.035], [-1.0, 0.0, 0.5, 190e3, 205e3]),
    Spec(P + 'reinforcement_duct_props', duct, [400.0, 500.0, 700.0], ['A', 'B', 'C', 'a', 'b', 'c', 'D', 'd', '', 'AB']),
    Spec(P + 'alpha_c', EC23.alpha_c, [20.0, 40.0, 80.0, *nb(88), 100.0, 120.0]),
]

jobs, run = cl.make(SPECS)
