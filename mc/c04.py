"""C04: EN 1992-1-1:2004 shear."""
from math import sqrt, radians, sin, tan

from . import code_lib as cl
from .code_lib import V, SKIP, Spec, nb, resolve
from .ref_codes import cot
import itertools

RULE = cl.RULE
ASSUMPTIONS = ['cot(theta) is compared with its limits after rounding to two decimals, as the documented limits 21.8 and 45 degrees imply; angles inside that rounding are not asserted.']
P = 'ec2_2004:'
Q = 'ec2_2004.shear:'
THETA = [10.0, 21.0, 21.7, 21.8, 22.0, 26.6, 30.0, 38.0, 45.0, 45.4, 46.0, 60.0]
ALPHA = [45.0, 60.0, 75.0, 90.0]
FCK = [20.0, 30.0, 50.0, *nb(60), 70.0, *nb(80), 90.0]


def bad(t):
    c = round(cot(t), 2)
    return c < 1.0 or c > 2.5


def kk(d):
    return min(2.0, 1 + sqrt(200 / d))


def scp(N, A, fcd):
    return min(N / A, 0.2 * fcd)


def vmin(fck, d):
    return 0.035 * kk(d) ** 1.5 * sqrt(fck)


def VRdc(fck, d, Asl, bw, N, Ac, fcd, k1=0.15, gc=1.5, C=None):
    C = 0.18 / gc if C is None else C
    s = k1 * scp(N, Ac, fcd)
    v = C * kk(d) * (100 * min(0.02, Asl / bw / d) * fck) ** (1 / 3)
    return max(0.0, (max(v, vmin(fck, d)) + s) * bw * d)


def prin(I, bw, S, fctd, N, A, lx=None, lp=None):
    al = 1.0 if lx is None or lp is None else min(1.0, lx / lp)
    r = fctd**2 + al * N / A * fctd
    return SKIP if r < 0 else I * bw / S * sqrt(r)


def v_(fck):
    return 0.6 - 0.0024 * fck


def v1_(fck):
    return 0.6 if fck <= 60 else max(0.5, 0.9 - fck / 200)


def acw(N, A, fcd):
    r = N / A / fcd
    if r <= 0:
        return 1.0
    if r <= 0.25:
        return 1 + r
    if r <= 0.5:
        return 1.25
    return 2.5 * (1 - r) if r < 1 else V


def VRds(Asw, s, z, t, fyk, al=90.0, gs=1.15):
    return V if bad(t) else Asw / s * z * fyk / gs * (cot(t) + cot(al)) * sin(radians(al))


def req(Ved, z, t, fywd, al=90.0):
    return V if bad(t) else Ved / (z * fywd * (cot(t) + cot(al)) * sin(radians(al)))


def VRdmax(bw, z, fck, t, N, A, fcd, al=90.0, lim=False):
    a = acw(N, A, fcd)
    if a is V or bad(t):
        return V
    return a * bw * z * (v1_(fck) if lim else v_(fck)) * fcd * (cot(t) + cot(al)) / (1 + cot(t) ** 2)


def Aswmax(fcd, fck, bw, s, fywd, N, A, al=90.0):
    a = acw(N, A, fcd)
    return V if a is V else 0.5 * a * v_(fck) * fcd * bw * s / (fywd * sin(radians(al)))


# NEd in multiples of Ac*fcd, with fcd = 20, Ac = 1e5
NS = [-1e5, 0.0, 1e4, 2e5, *nb(4e5), *nb(5e5), 8e5, *nb(1e6), 1.2e6, 1.9e6, *nb(2e6), 2.5e6]
D = [100.0, 150.0, *nb(200), 300.0, 600.0, 1500.0]
SPECS = [
    Spec(P + 'VRdc', VRdc, FCK, D, [0.0, 300.0, 1200.0, 3000.0, 1e4], [200.0, 1000.0], [-1e5, 0.0, 2e5, *nb(4e5), 1e6], [1e5], [20.0], label='VRdc default', rtol=1e-8),
    Spec(P + 'VRdc', VRdc, [30.0, 80.0], [150.0, 600.0], [300.0, 3000.0], [300.0], [-4e6, -4e5, 0.0, 2e5, 1e6], [1e5], [20.0], [0.0, 0.1, 0.15], [1.2, 1.4, 1.5], [None, 0.1, 0.15], rtol=1e-8),
    Spec(P + 'VRdc_prin_stress', prin, [1e9], [150.0, 300.0], [1e6, 5e6], [1.2, 1.8], [-2e5, 0.0, 1e5, 1e6], [1e5], label='VRdc_prin_stress no transfer length'),
    Spec(P + 'VRdc_prin_stress', prin, [1e9, 5e9], [150.0], [1e6, 5e6], [1.2], [0.0, 1e5, 1e6], [1e5], [None, 0.0, 300.0, 500.0, *nb(800), 2000.0], [None, 500.0, 800.0]),
    Spec(P + 'VEdmax_unreinf', lambda b, d, f, fcd: 0.5 * b * d * v_(f) * fcd, [200.0, 1000.0], D, FCK, [13.3, 20.0]),
    Spec(Q + 'vmin', vmin, FCK, D),
    Spec(Q + 'v', v_, FCK),
    Spec(Q + 'v1', v1_, FCK),
    Spec(Q + 'alpha_cw', acw, NS, [1e5], [20.0, 30.0]),
    Spec(P + 'VRds', VRds, [0.0, 100.0, 400.0], [100.0, 300.0], [200.0, 900.0], THETA, [400.0, 500.0], label='VRds default'),
    Spec(P + 'VRds', VRds, [100.0], [100.0], [200.0, 900.0], THETA, [400.0, 500.0], ALPHA, [1.0, 1.05, 1.15], out=False),
    Spec(P + 'Asw_s_required', req, [0.0, 1e5, 5e5], [200.0, 900.0], THETA, [348.0, 435.0], label='Asw_s_required default'),
    Spec(P + 'Asw_s_required', req, [1e5, 5e5], [200.0, 900.0], THETA, [348.0, 435.0], ALPHA, out=False),
    Spec(P + 'VRdmax', VRdmax, [200.0], [300.0, 900.0], FCK, THETA, NS, [1e5], [20.0], label='VRdmax default'),
    Spec(P + 'VRdmax', VRdmax, [200.0, 1000.0], [300.0], FCK, THETA, [-1e5, 0.0, 4e5, 8e5, 1.5e6, 2e6], [1e5], [20.0], ALPHA, [False, True], out=False),
    Spec(P + 'VRds', VRds, [100.0], [100.0], [200.0, 900.0], [21.8, 30.0, 45.0], [400.0, 500.0], [100.0, 120.0], [1.15], label='VRds beyond the vertical', out=False),
    Spec(P + 'Asw_s_required', req, [1e5, 5e5], [200.0, 900.0], [21.8, 30.0, 45.0], [348.0, 435.0], [100.0, 120.0], label='Asw_s_required beyond the vertical', out=False),
    Spec(P + 'VRdmax', VRdmax, [200.0], [300.0], FCK, [21.8, 30.0, 45.0], [0.0, 4e5], [1e5], [20.0], [100.0, 120.0], [False, True], label='VRdmax beyond the vertical', out=False),
    Spec(P + 'Asw_max', Aswmax, [20.0], FCK, [200.0, 400.0], [100.0, 300.0], [348.0, 435.0], NS, [1e5], label='Asw_max default'),
    Spec(P + 'Asw_max', Aswmax, [20.0], [30.0, 80.0], [200.0], [100.0], [435.0], NS, [1e5], ALPHA),
]


def inverse(R, tier):
    """The required reinforcement gives exactly the requested resistance."""
    for V_, z, t, fyk, gs, al in itertools.product([1e4, 2e5, 3e6], [200.0, 900.0], [21.8, 30.0, 45.0], [400.0, 500.0], [1.0, 1.15], ALPHA):
        a = resolve(P + 'Asw_s_required')(V_, z, t, fyk / gs, al)
        g = resolve(P + 'VRds')(a, 1.0, z, t, fyk, al, gs)
        R.state((V_, z, t, fyk, gs, al))
        R.trace(2)
        R.eq(float(g), V_, f'VRds(Asw_s_required) {(V_, z, t, fyk, gs, al)}')


jobs, run = cl.make(SPECS, {'inverse': inverse})
