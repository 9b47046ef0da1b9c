"""Independent transcription of the formulas of the design codes."""
from math import exp, log, sqrt, sin, cos, tan, radians


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return ys[-1]


def cot(deg):
    return cos(radians(deg)) / sin(radians(deg))


# ------------------------------------------------------------ EN 1992-1-1:2004
class EC2:
    fcm = staticmethod(lambda fck, d=8.0: fck + d)
    fctm = staticmethod(lambda fck: 0.3 * (fck * fck) ** (1 / 3) if fck <= 50 else 2.12 * log(1 + (fck + 8) / 10))
    fctk5 = staticmethod(lambda f: 0.7 * f)
    fctk95 = staticmethod(lambda f: 1.3 * f)
    Ecm = staticmethod(lambda fcm: 22e3 * (fcm / 10) ** 0.3)
    eps_c1 = staticmethod(lambda fcm: min(0.7e-3 * fcm**0.31, 2.8e-3))
    eps_cu1 = staticmethod(lambda fck: 3.5e-3 if fck < 50 else 1e-3 * (2.8 + 27 * ((90 - fck) / 100) ** 4))
    k_sargin = staticmethod(lambda E, fcm, e: 1.05 * E * abs(e) / fcm)
    eps_c2 = staticmethod(lambda fck: 2e-3 if fck <= 50 else 1e-3 * (2 + 0.085 * (fck - 50) ** 0.53))
    eps_cu2 = staticmethod(lambda fck: 3.5e-3 if fck <= 50 else 1e-3 * (2.6 + 35 * ((90 - fck) / 100) ** 4))
    n = staticmethod(lambda fck: 2.0 if fck <= 50 else 1.4 + 23.4 * ((90 - fck) / 100) ** 4)
    eps_c3 = staticmethod(lambda fck: 1.75e-3 if fck <= 50 else 1e-3 * (1.75 + 0.55 * (fck - 50) / 40))
    eps_cu3 = eps_cu2
    fcd = staticmethod(lambda fck, a, g: a * fck / g)
    s = {'R': 0.2, 'N': 0.25, 'S': 0.38}
    beta_cc = staticmethod(lambda t, s: exp(s * (1 - sqrt(28 / t))))
    ds = {'R': (6, 0.11, 1), 'N': (4, 0.12, 0), 'S': (3, 0.13, -1)}
    duct = {'A': (0.025, 1.05), 'B': (0.05, 1.08), 'C': (0.075, 1.15)}


# ------------------------------------------------------------ EN 1992-1-1:2023
class EC23:
    fcm = EC2.fcm
    fctm = staticmethod(lambda fck: 0.3 * (fck * fck) ** (1 / 3) if fck <= 50 else 1.1 * fck ** (1 / 3))
    fctk5 = EC2.fctk5
    fctk95 = EC2.fctk95
    Ecm = staticmethod(lambda fcm, kE=9500: kE * fcm ** (1 / 3))
    eta_cc = staticmethod(lambda fck, ref=40: min(1.0, (ref / fck) ** (1 / 3)))
    eps_c1 = staticmethod(lambda fcm: 1e-3 * min(2.8, 0.7 * fcm ** (1 / 3)))
    eps_cu1 = staticmethod(lambda fcm: 1e-3 * min(3.5, 2.8 + 14 * (1 - fcm / 108) ** 4))
    k_sargin = EC2.k_sargin
    slow = ('CS', 'SLOW')
    fast = ('CN', 'NORMAL', 'CR', 'RAPID')

    @staticmethod
    def k_tc(t_ref, t0, cl):
        lim = 56 if cl in EC23.slow else 28
        return 1.0 if t_ref <= lim and t0 > 90 else 0.85

    @staticmethod
    def k_tt(t_ref, cl):
        return 0.8 if t_ref <= (56 if cl in EC23.slow else 28) else 0.7

    alpha_c = staticmethod(lambda fcm: max(1.0, 1 / (0.8 + 0.2 * fcm / 88)))


# ------------------------------------------------------------------ MC 2010
class MC:
    grade = (12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120)
    _c1 = (1.9, 2.0, 2.1, 2.2, 2.3, 2.3, 2.4, 2.5, 2.6, 2.6, 2.7, 2.7, 2.8, 2.9, 3.0, 3.0, 3.0)
    _cl = (3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.4, 3.4, 3.3, 3.2, 3.1, 3.0, 3.0, 3.0, 3.0)
    _k = (2.44, 2.36, 2.28, 2.15, 2.04, 1.92, 1.82, 1.74, 1.66, 1.61, 1.55, 1.47, 1.41, 1.36, 1.32, 1.24, 1.18)
    fcm = EC2.fcm
    fctm = EC2.fctm
    fctk5 = EC2.fctk5
    fctk95 = EC2.fctk95
    Gf = staticmethod(lambda fck: 73 * (fck + 8) ** 0.18)
    agg = {'basalt': 1.2, 'quartzite': 1.0, 'limestone': 0.9, 'sandstone': 0.7}
    Eci = staticmethod(lambda fcm, a='quartzite', e=21500: e * MC.agg[a] * (fcm / 10) ** (1 / 3))
    eps_c1 = staticmethod(lambda f: -1e-3 * interp(f, MC.grade, MC._c1))
    eps_clim = staticmethod(lambda f: -1e-3 * interp(f, MC.grade, MC._cl))
    k_sargin = staticmethod(lambda f: interp(f, MC.grade, MC._k))
    eps_c2 = EC2.eps_c2
    eps_cu2 = EC2.eps_cu2
    n = EC2.n
    eps_c3 = EC2.eps_c3
    cem = ('32.5 N', '32.5 R', '42.5 N', '42.5 R', '52.5 N', '52.5 R')
    _grp = {'32.5 N': 0, '32.5 R': 1, '42.5 N': 1, '42.5 R': 2, '52.5 N': 2, '52.5 R': 2}
    # per group: s, alpha, alpha_bs, alpha_ds1, alpha_ds2
    par = ((0.38, -1, 800, 3, 0.013), (0.25, 0, 700, 4, 0.012), (0.20, 1, 600, 6, 0.012))
    duct = dict(EC2.duct, D=(0.08, 1.25))
