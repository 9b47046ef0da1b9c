"""C06: EN 1992-1-1:2023 section 9."""
import itertools

from . import code_lib as cl
from .code_lib import Spec, nb, resolve
from .ref_codes import EC23

RULE = cl.RULE
ASSUMPTIONS = []
P = 'ec2_2023:'


def kh(b, h):
    return min(0.8, max(0.5, 0.8 - 0.6 * (min(b, h) - 0.3)))


def Eceff(fcm, phi, kE=9500):
    return kE * fcm ** (1 / 3) * max(1, 1 / (0.8 + 0.2 * fcm / 88)) / (1 + phi)


def Asmin(N, b, h, f, fyk):
    base = kh(b, h) * f * b * h  # MN
    a1 = min(max(0.3 * N * 1e-3 + 0.2 * base, 0) / fyk, 0.5 * base / fyk) * 1e4
    a2 = min(max(N * 1e-3 / fyk * 1e4 - a1, 0), a1)
    return (a1, a2)


def k1r(h, x, ay):
    return (h - x) / (h - ay - x)


def esm(s, kt, f, r, ae, Es):
    return max((s - kt * f / r * (1 + ae * r)) / Es, (1 - kt) * s / Es)


def kfl(h, xg, hc):
    return max(0.5, 0.5 * (1 + (h - xg - hc) / (h - xg)))


def srm(c, kf, kb, phi, r, kw, h, x):
    return min(1.5 * c + kf * kb * phi / (7.2 * r), 1.3 * (h - x) / kw)


def wk(kw, h, xg, hc, c, kb, phi, r, x, s, kt, f, ae, Es):
    a, b, e = k1r(h, x, c + phi / 2), srm(c, kfl(h, xg, hc), kb, phi, r, kw, h, x), esm(s, kt, f, r, ae, Es)
    return (kw * a * b * e, a, b, e)


def delta(dl, ds, fck, phi, b, h, d, As, M):
    Mcr = EC23.fctm(fck) * 1e3 * b * h * h / 6
    r = As / (b * d) * 1e-4
    if M < Mcr:
        return dl + ds
    z = 1 - 0.5 * (Mcr / M) ** 2
    ae = 200e3 / Eceff(fck + 8, phi)
    ii = 1 / (2.7 * (ae * r) ** 0.6 * (d / h) ** 3)
    return (z * ii + 1 - z) * (dl + (455 * r * r - 35 * r + 1.6) * ds)


MCR = EC23.fctm(30.0) * 1e3 * 0.3 * 0.25 / 6
SPECS = [
    Spec(P + 'Ec_eff', Eceff, [20.0, 38.0, *nb(88), 98.0], [0.0, 1.0, 2.5], label='Ec_eff default'),
    Spec(P + 'Ec_eff', Eceff, [20.0, 38.0, 98.0], [0.0, 2.5], [5000.0, 9500.0, 13000.0]),
    Spec(P + 'kh', kh, [0.1, *nb(0.3), 0.5, 0.7, *nb(0.8), 1.5], [0.1, *nb(0.3), 0.5, 0.7, *nb(0.8), 1.5]),
    Spec(P + 'As_min_y', Asmin, [-2000.0, -500.0, -100.0, -10.0, 0.0, 10.0, 100.0, 300.0, 1000.0, 5000.0], [0.2, 0.3, 0.5, 1.0], [0.2, 0.4, 0.9], [1.5, 2.9, 4.0], [400.0, 500.0, 600.0], atol=1e-12),
    Spec(P + 'wk_cal2', lambda a, b, c, d: a * b * c * d, [1.3, 1.7], [1.0, 1.3], [100.0, 250.0], [0.0, 1e-3]),
    Spec(P + 'k_1_r', k1r, [200.0, 400.0, 1000.0], [0.0, 50.0, 100.0], [20.0, 45.0, 60.0]),
    Spec(P + 'epssm_epscm', esm, [0.0, 50.0, 100.0, 200.0, 400.0], [0.4, 0.6], [1.5, 2.9, 4.0], [0.003, 0.01, 0.05], [5.0, 8.0, 20.0], [190e3, 200e3]),
    Spec(P + 'kfl', kfl, [200.0, 500.0, 1000.0], [50.0, 100.0, 150.0], [0.0, 50.0, *nb(100), 150.0, 400.0, 900.0]),
    Spec(P + 'srm_cal', srm, [20.0, 50.0], [0.5, 0.8, 1.0], [0.9, 1.2], [8.0, 16.0, 32.0], [0.003, 0.01, 0.05], [1.3, 1.7], [200.0, 500.0], [0.0, 50.0, 150.0]),
    Spec(P + 'wk_cal', wk, [1.3, 1.7], [300.0, 800.0], [100.0, 150.0], [80.0, 200.0], [25.0, 45.0], [0.9, 1.2], [10.0, 25.0], [0.005, 0.03], [40.0, 120.0], [50.0, 150.0, 400.0], [0.4, 0.6], [1.5, 3.5], [6.0, 15.0], [200e3], dense=False),
    Spec(P + 'delta_simpl', delta, [5.0, 12.0], [0.0, 2.0], [20.0, 30.0, *nb(50), 60.0], [0.0, 2.0, 3.0], [0.3, 1.0], [0.25, 0.5], [0.2, 0.45], [5.0, 20.0], [1.0, 10.0, 20.0, *nb(MCR), 50.0, 100.0, 300.0]),
]


def compose(R, tier):
    """wk_cal equals the product of its published parts."""
    m = lambda n: resolve(P + n)
    for kw, h, xg, hc, c, phi, r, x, s, kt in itertools.product([1.3, 1.7], [300.0, 800.0], [100.0, 150.0], [80.0, 200.0], [25.0, 45.0], [10.0, 25.0], [0.005, 0.03], [40.0, 120.0], [50.0, 400.0], [0.4, 0.6]):
        w, k, sr, e = m('wk_cal')(kw, h, xg, hc, c, 0.9, phi, r, x, s, kt, 2.9, 6.0, 200e3)
        R.state((kw, h, xg, hc, c, phi, r, x, s, kt))
        R.trace()
        R.eq(w, m('wk_cal2')(kw, k, sr, e), f'wk composition {(kw, h, xg, hc, c, phi, r, x, s, kt)}')


jobs, run = cl.make(SPECS, {'compose': compose})
