"""C03: EN 1992-1-1:2004 crack control (7.3) and EN 1992-3 Annex M."""
import itertools
from math import cos, sin, pi, sqrt

from . import code_lib as cl
from .code_lib import V, T as TE, E, SKIP, Any, Spec, nb, near, resolve
from .core import call, Exc
from .ref_codes import interp

RULE = cl.RULE + ' The chain job walks the complete crack width calculation of 7.3.4 from its public steps.'
ASSUMPTIONS = [
    'Inside a cell of Tables 7.2N/7.3N either diagonal of the linear interpolation is accepted; at the nodes and on the edges of the cells the value is unique.',
    'XD and XS classes with the frequent combination (decompression) are not prescribed beyond not returning a width.',
]
P = 'ec2_2004:'
EXP = ['X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2', 'XS3', 'xc1', ' XC4 ', 'xs3', 'dummy', '', 'X', 'XC5']
COMB = ['f', 'qp', 'F', 'QP', ' f', 'qp ', 'x', '', 'fq']


def w_max(e, c):
    e, c = e.upper().strip(), c.lower().strip()
    known = ('X0', 'XC1', 'XC2', 'XC3', 'XC4', 'XD1', 'XD2', 'XS1', 'XS2', 'XS3')
    if c not in ('f', 'qp') or e not in known:
        return V
    if c == 'qp':
        return 0.4 if e in ('X0', 'XC1') else 0.3
    return 0.2 if e in known[:5] else V


def As_min(A, s, f, k, kc):
    if A <= 0 or s < 0 or not 0.65 <= k <= 1 or not 0 <= kc <= 1:
        return V
    return kc * k * abs(f) * A / s


def As_min_p(A, s, f, k, kc, Ap, ps, pp, xi, ds):
    if Ap < 0 or ds < 0 or A <= 0 or s < 0 or not 0.65 <= k <= 1 or not 0 <= kc <= 1:
        return V
    x = xi1(xi, pp, ps)
    if x is V:
        return V
    return (kc * k * abs(f) * A - x * Ap * ds) / s


def k_(h):
    return V if h < 0 else interp(h, (300, 800), (1, 0.65))


def kc_rect(h, b, f, N):
    if h < 0 or b < 0:
        return V
    hs = min(h, 1000.0)
    k1 = 1.5 if N > 0 else 2 * hs / (3 * h)
    sc = 1000 * N / (b * h)
    return min(1.0, max(0.0, 0.4 * (1 - sc / (k1 * (h / hs) * f))))


def kc_fl(F, A, f):
    return V if A < 0 else max(0.5, 900 * abs(F) / (A * f))


def xi1(xi, pp, ps):
    if pp <= 0 or ps < 0 or xi < 0.15 or xi > 0.8:
        return V
    return sqrt(xi * ps / pp) if ps > 0 else sqrt(xi)


def hc(h, d, x):
    if min(h, d, x) < 0 or d > h or x > h:
        return V
    return min(2.5 * (h - d), (h - x) / 3, h / 2)


S_PHI = (160, 200, 240, 280, 320, 360, 400, 450)
W = (0.2, 0.3, 0.4)
PHI = {0.4: (40, 32, 20, 16, 12, 10, 8, 6), 0.3: (32, 25, 16, 12, 10, 8, 6, 5), 0.2: (25, 16, 12, 8, 6, 5, 4, None)}
SPA = {0.4: (300, 300, 250, 200, 150, 100), 0.3: (300, 250, 200, 150, 100, 50), 0.2: (200, 150, 100, 50, None, None)}


def table(s, w, tab):
    """Set of admissible linear interpolations, or None where undefined."""
    ss = S_PHI[: len(tab[0.2])]
    if not (ss[0] <= s <= ss[-1] and W[0] <= w <= W[-1]):
        return None
    i = max(j for j in range(len(ss)) if ss[j] <= s)
    j = max(q for q in range(3) if W[q] <= w)
    i, j = min(i, len(ss) - 2), min(j, 1)
    u = (s - ss[i]) / (ss[i + 1] - ss[i])
    v = (w - W[j]) / (W[j + 1] - W[j])
    c = {(a, b): tab[W[j + b]][i + a] for a in (0, 1) for b in (0, 1)}
    out = []
    for tri in (0, 1):
        if tri == 0:  # diagonal 00-11
            pts = {(0, 0): 1 - max(u, v), (1, 1): min(u, v), (1, 0): max(u - v, 0), (0, 1): max(v - u, 0)}
        else:  # diagonal 01-10
            if u + v <= 1:
                pts = {(0, 0): 1 - u - v, (1, 0): u, (0, 1): v, (1, 1): 0}
            else:
                pts = {(1, 1): u + v - 1, (0, 1): 1 - u, (1, 0): 1 - v, (0, 0): 0}
        if any(c[k] is None and p > 1e-12 for k, p in pts.items()):
            out.append(None)
        else:
            out.append(sum(c[k] * p for k, p in pts.items() if p > 1e-12))
    return out


def As_min_2(wk, s, f, hcr, h, d, ds=0.0, kc=None):
    if min(wk, f, hcr, h, d) < 0 or (kc is not None and not 0 <= kc <= 1):
        return V
    s = s - ds
    if s <= 0:
        return (0.0, 0.0)
    a, b = table(s, wk, PHI), table(s, wk, SPA)
    if a is None or b is None:
        return V
    fac = f / 2.9 * (hcr / (8 * (h - d)) if kc is None else kc * hcr / (2 * (h - d)))
    opts = []
    for x in set(a):
        for y in set(b):
            opts.append(V if x is None or y is None else (x * fac, float(y)))
    if any(x is None for x in a + b):  # next to an empty entry of the table
        opts.append(V)
    return Any(opts)


def neg(*xs):
    return any(x < 0 for x in xs)


def eps_diff(s, ae, rho, kt, f, Es):
    if neg(s, ae, rho, f, Es) or kt not in (0.4, 0.6):
        return V
    return max((s - kt * f / rho * (1 + ae * rho)) / Es, 0.6 * s / Es)


def phi_eq(n1, n2, p1, p2):
    if neg(n1, n2, p1, p2):
        return cl.VT
    if not isinstance(n1, int) or not isinstance(n2, int):
        return TE
    return (n1 * p1 * p1 + n2 * p2 * p2) / (n1 * p1 + n2 * p2)


def opt(m):
    def ref(x):
        if not isinstance(x, str):
            return TE
        return m.get(x.lower().strip(), V)
    return ref


def sr_close(c, phi, rho, k1, k2, k3=3.4, k4=0.425):
    if neg(c, phi, rho, k3, k4) or k1 not in (0.8, 1.6) or not 0.5 <= k2 <= 1:
        return V
    return k3 * c + k1 * k2 * k4 * phi / rho


def sr_theta(y, z, t):
    if neg(y, z) or not 0 <= t <= pi / 2:
        return V
    return 1 / (cos(t) / y + sin(t) / z)


A = [-1.0, 0.0, 0.5, 1e4, 6e5]
K = [0.0, 0.6, 0.6499, 0.65, 0.8, 1.0, 1.0001, 1.2]
KC = [-0.1, 0.0, 0.4, 0.9, 1.0, 1.0001, 2.0]
SPECS = [
    Spec(P + 'w_max', w_max, EXP, COMB),
    Spec(P + 'As_min', As_min, A, [-1.0, 0.5, 200.0, 500.0], [-2.9, 1.5, 2.9], K, KC),
    Spec(P + 'k', k_, [-1.0, -1e-9, 0.0, 100.0, *nb(300), 400.0, 550.0, 700.0, *nb(800), 1000.0, 1e4]),
    Spec(P + 'kc_tension', lambda: 1.0),
    Spec(P + 'kc_rect_area', kc_rect, [-1.0, 300.0, 800.0, *nb(1000), 1500.0, 3000.0], [-1.0, 200.0, 1000.0], [1.5, 2.9, 4.0], [-5000.0, -600.0, -50.0, 0.0, 50.0, 400.0, 2000.0, 2e4], atol=1e-12),
    Spec(P + 'kc_flanges_area', kc_fl, [-500.0, 0.0, 10.0, 50.0, 500.0, 5000.0], [-1.0, 1e4, 9e4, 1e6], [1.5, 2.9]),
    Spec(P + 'xi1', xi1, [0.1, 0.1499, 0.15, 0.3, 0.5, 0.7, 0.8, 0.8001, 1.0], [-5.0, 0.0, 0.5, 8.0, 15.7, 30.0], [-5.0, 0.0, 0.5, 6.0, 16.0, 40.0]),
    Spec(P + 'hc_eff', hc, [-1.0, 0.0, 200.0, 400.0, 1000.0], [-1.0, 0.0, 150.0, 190.0, 350.0, 400.0, 999.0], [-1.0, 0.0, 40.0, 100.0, 200.0, 390.0, 400.0, 1001.0]),
    Spec(P + 'As_min_p', As_min_p, [0.0, 1e5], [-1.0, 0.5, 200.0, 500.0], [-2.9, 2.9], [0.6, 0.65, 1.0, 1.1], [-0.1, 0.0, 0.4, 1.0, 1.1], [-1.0, 0.0, 500.0, 3000.0], [-1.0, 0.0, 16.0], [0.0, 15.7], [0.1, 0.15, 0.5, 0.8, 0.9], [-1.0, 0.0, 200.0]),
    Spec(P + 'As_min_2', As_min_2, [-0.1, 0.1, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45], [-10.0, 0.0, 100.0, 160.0, 180.0, 200.0, 230.0, 240.0, 280.0, 300.0, 320.0, 350.0, 360.0, 380.0, 400.0, 450.0, 500.0], [2.9], [200.0], [400.0], [350.0], label='As_min_2 axial'),
    Spec(P + 'As_min_2', As_min_2, [0.2, 0.3, 0.4], [-10.0, 160.0, 240.0, 320.0], [-2.9, -0.1, 1.5, 2.9, 4.0], [-1.0, 200.0, 300.0], [-1.0, 400.0], [-1.0, 350.0, 380.0], [0.0, 40.0, 100.0, 160.0, 400.0], [None, -0.1, 0.0, 0.4, 1.0, 1.1], label='As_min_2 full'),
    Spec(P + 'alpha_e', lambda a, b: V if neg(a, b) else a / b, [-1.0, 0.0, 190e3, 200e3], [-1.0, 22e3, 33e3]),
    Spec(P + 'rho_p_eff', lambda a, x, p, c: V if neg(a, x, p, c) else (a + x * x * p) / c, [-1.0, 0.0, 500.0], [-0.1, 0.0, 0.6, 1.0], [-1.0, 0.0, 300.0], [-1.0, 1e4, 9e4]),
    Spec(P + 'kt', opt({'short': 0.6, 'long': 0.4}), ['short', 'long', 'SHORT', ' long ', 'Long', 'x', '', 'shortlong', 1, None]),
    Spec(P + 'eps_sm_eps_cm', eps_diff, [-1.0, 0.0, 100.0, 200.0, 400.0], [-1.0, 5.0, 8.0], [-0.1, 0.002, 0.01, 0.05], [0.0, 0.4, 0.5, 0.6], [-1.0, 0.0, 1.5, 2.9], [-1.0, 190e3, 200e3]),
    Spec(P + 'w_spacing', lambda c, p: V if neg(c, p) else 5 * (c + p / 2), [-1.0, 0.0, 20.0, 45.0], [-1.0, 0.0, 8.0, 32.0]),
    Spec(P + 'phi_eq', phi_eq, [-1, 0, 1, 2, 5, 2.0, 1.5], [-1, 0, 1, 3, 3.0], [-1.0, 0.0, 8.0, 16.0], [-1.0, 0.0, 12.0, 25.0]),
    Spec(P + 'k1', opt({'bond': 0.8, 'plain': 1.6}), ['bond', 'plain', 'BOND', ' plain ', 'x', '', 'bon', 1, None]),
    Spec(P + 'k2', lambda r: V if not 0 <= r <= 1 else (1 + r) / 2, [-0.5, -1e-9, 0.0, 0.25, 0.5, 1.0, 1.000001, 2.0]),
    Spec(P + 'k3', lambda: 3.4),
    Spec(P + 'k4', lambda: 0.425),
    Spec(P + 'sr_max_close', sr_close, [-1.0, 0.0, 25.0, 60.0], [-1.0, 0.0, 8.0, 32.0], [-0.1, 0.005, 0.05], [0.8, 1.0, 1.6], [0.4, 0.5, 0.75, 1.0, 1.1], label='sr_max_close default'),
    Spec(P + 'sr_max_close', sr_close, [25.0], [16.0], [0.02], [0.8, 1.6], [0.5, 1.0], [-1.0, 0.0, 2.0, 3.4, 5.0], [-1.0, 0.0, 0.2, 0.425, 1.0]),
    Spec(P + 'sr_max_far', lambda h, x: V if neg(h, x) or x > h else 1.3 * (h - x), [-1.0, 0.0, 200.0, 1000.0], [-1.0, 0.0, 100.0, 200.0, 999.0]),
    Spec(P + 'sr_max_theta', sr_theta, [-1.0, 100.0, 300.0], [-1.0, 50.0, 300.0], [-0.5, -1e-6, 0.0, 0.26, 0.8, 1.3, pi / 2, pi / 2 + 1e-6, 3.0]),
    Spec(P + 'wk', lambda s, e: V if neg(s, e) else s * e, [-1.0, 0.0, 200.0], [-1e-3, 0.0, 1e-3]),
    Spec(P + 'eps_sm_eps_cm_restraint_end', lambda ae, r, kc, k, f, Es: 0.5 * ae * kc * k * f * (1 + 1 / (ae * r)) / Es, [5.0, 8.0], [0.002, 0.02, 0.1], [0.4, 1.0], [0.65, 1.0], [1.5, 2.9], [190e3, 200e3]),
]


def chain(R, tier):
    """Complete crack width of a beam section, both load types."""
    m = lambda n: resolve(P + n)
    for fct, h, c, phi, sig, xr, As, lt, bt, er in itertools.product(
        [1.5, 2.9, 4.0], [250.0, 500.0, 1000.0], [25.0, 45.0], [10.0, 25.0], [100.0, 240.0, 400.0],
        [0.1, 0.3, 0.9], [300.0, 1500.0], ['short', 'long'], ['bond', 'plain'], [0.0, 1.0],
    ):
        b, Es, Ecm = 300.0, 200e3, 33e3
        d = h - c - phi / 2
        x = xr * h
        R.state((fct, h, c, phi, sig, xr, As, lt, bt, er))
        R.trace()
        R.step(8)
        ac = b * m('hc_eff')(h, d, x)
        rho = m('rho_p_eff')(As, 0.0, 0.0, ac)
        e = m('eps_sm_eps_cm')(sig, m('alpha_e')(Es, Ecm), rho, m('kt')(lt), fct, Es)
        s = m('sr_max_close')(c, phi, rho, m('k1')(bt), m('k2')(er))
        w = m('wk')(s, e)
        rr = As / (b * min(2.5 * (h - d), (h - x) / 3, h / 2))
        ktv = {'short': 0.6, 'long': 0.4}[lt]
        ee = max((sig - ktv * fct / rr - ktv * fct * Es / Ecm) / Es, 0.6 * sig / Es)
        ss = 3.4 * c + {'bond': 0.8, 'plain': 1.6}[bt] * (1 + er) / 2 * 0.425 * phi / rr
        R.eq(float(w), ee * ss, f'wk chain {(fct, h, c, phi, sig, xr, As, lt, bt, er)}')


jobs, run = cl.make(SPECS, {'chain': chain})
