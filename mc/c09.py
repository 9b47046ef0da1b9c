"""C09: Model Code 2010 shear, torsion and interface shear."""
import itertools
from math import radians, sin, cos, sqrt

from . import code_lib as cl
from .code_lib import V, E, SKIP, Warned, Spec, nb, resolve
from .core import Exc, close
from .ref_codes import cot

RULE = cl.RULE
ASSUMPTIONS = ['The hollow core transfer factor l_x/(1.2 l_bd0) is taken as printed (not capped).']
P = 'mc2010:'


def L(M, Vv, N, d):
    return {'Med': M, 'Ved': Vv, 'Ned': N, 'delta_e': d}


class D(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items())))

    def __repr__(self):
        return 'L(' + ','.join(f'{v:g}' for v in self.values()) + ')'


LOADS = [D(L(*x)) for x in itertools.product([-3e8, 0.0, 5e7, 3e8], [-2e5, 0.0, 2e3, 1e5, 4e5], [-3e5, 0.0, 2e5], [-50.0, 0.0, 50.0])]
LFEW = [D(L(*x)) for x in ((0.0, 2e3, 0.0, 20.0), (5e7, 1e5, 0.0, 0.0), (3e8, 4e5, 2e5, 50.0), (3e8, -2e5, -3e5, 50.0), (-3e8, 1e5, 2e5, -50.0), (0.0, 0.0, -5e5, 0.0))]
FCK = [20.0, *nb(30), 35.0, 50.0, *nb(64), *nb(70), 90.0]
TH = [20.0, 25.0, 30.0, 40.0, 45.0]
AL = [45.0, 60.0, 90.0]


def ex(Es, As, z, l):
    return max(0.0, (abs(l['Med']) / z + abs(l['Ved']) + l['Ned'] * (0.5 + l['delta_e'] / z)) / (2 * Es * As))


def eta(f):
    return min(1.0, (30 / f) ** (1 / 3))


def keps(e, t):
    return min(0.65, 1 / (1.2 + 55 * (e + (e + 0.002) * cot(t) ** 2)))


def strut(k, fck, bw, t, z, al, gc):
    return k * eta(fck) * fck / gc * bw * z * (cot(t) + cot(al)) / (1 + cot(t) ** 2)


def vmax(lv, fck, bw, t, z, Es=None, As=None, l=None, al=90.0, gc=1.5):
    if lv == 1:
        return strut(0.55, fck, bw, t, z, al, gc)
    if lv not in (2, 3):
        return V
    e = ex(Es, As, z, l)
    if lv == 3:
        t = 20 + 1e4 * e
        if not 0 < t < 180:
            return SKIP
    return strut(keps(e, t), fck, bw, t, z, al, gc)


def vc(lv, fck, z, bw, dg, Es, As, l, al=90.0, gc=1.5):
    f = min(8.0, sqrt(fck))
    if lv == 1:
        kv = 180 / (1000 + 1.25 * z)
    elif lv == 2:
        kdg = max(0.75, 32 / (16 + (0 if fck > 70 else dg)))
        kv = 0.4 / (1 + 1500 * ex(Es, As, z, l)) * 1300 / (1000 + kdg * z)
    elif lv == 3:
        m = vmax(3, fck, bw, None, z, Es, As, l, al, gc)
        if m is SKIP:
            return SKIP
        kv = max(0.0, 0.4 / (1 + 1500 * ex(Es, As, z, l)) * (1 - abs(l['Ved']) / m))
    else:
        return V
    return kv * f * z * bw / gc


def vs(a, s, z, fy, t=45.0, al=90.0, gs=1.15):
    return a / s * z * fy / gs * (cot(t) + cot(al)) * sin(radians(al))


def vs_w(a, s, z, fy, t=45.0, al=90.0, gs=1.15):
    return Warned(vs(a, s, z, fy, t, al, gs), t > 45 or t < 20)


def v_rd(lv, reinf, fck, z, bw, dg, Es, As, l, a=None, s=None, fy=None, t=None, al=90.0, gc=1.5, gs=1.15):
    if not reinf:
        r = vc(lv, fck, z, bw, dg, Es, As, l, al, gc)
        return r if r in (V, SKIP) else Warned(r, lv not in (1, 2))
    if lv in (1, 2):
        return min(vs(a, s, z, fy, t, al, gs), vmax(lv, fck, bw, t, z, Es, As, l, al, gc))
    if lv == 3:
        c = vc(3, fck, z, bw, dg, Es, As, l, al, gc)
        m = vmax(3, fck, bw, t, z, Es, As, l, al, gc)
        if SKIP in (c, m):
            return SKIP
        r = c + vs(a, s, z, fy, t, al, gs)
        if abs(r - m) < 1e-9 * m:
            return SKIP
        return r if r < m else v_rd(2, True, fck, z, bw, dg, Es, As, l, a, s, fy, t, al, gc, gs)
    return V


def ct(lv, f, I, S, b, sg, lx, lb, Sy, by, y, yc, A, Ay, yp, F, dF):
    if lv == 1:
        return ct1(f, I, S, b, sg, lx, lb)
    return ct2(f, I, lx, lb, Sy, by, y, yc, A, Ay, yp, F, dF) if lv == 2 else V


def ct1(f, I, S, b, sg, lx, lb):
    r = f * f + lx / (1.2 * lb) * sg * f
    return SKIP if r < 0 else 0.8 * I * b / S * sqrt(r)


def ct2(f, I, lx, lb, Sy, by, y, yc, A, Ay, yp, F, dF, wrong=False):
    s = ((yc - y) / I / A if wrong else 1 / A + (yc - y) * (yc - yp) / I) * F
    tau = (Ay / A - Sy * (yc - yp) / I) * dF / by
    r = f * f + lx / (1.2 * lb) * s * f
    return SKIP if r < 0 else I * by / Sy * (sqrt(r) - tau)


def ct_known(combo, got):
    if isinstance(got, Exc):
        return None
    a = combo if len(combo) == 13 else (combo[1], combo[2], *combo[6:])
    w = ct2(*a, wrong=True)
    if w is not SKIP and close(float(got), w, 1e-9):
        return 'hollow core level 2: sigma_cp(y) uses (yc-y)/(Ac*Ic) as in the code instead of 1/Ac+(yc-y)(yc-ypt)/Ic'
    return None


def trd_max(f, dk, ak, t, lv, z, Es, As, l, gc=1.5):
    if lv == 1:
        k = 0.55
    elif lv in (2, 3):
        e = ex(Es, As, z, l)
        tt = t if lv == 2 else 20 + 1e4 * e
        if not 0 < tt < 180:
            return SKIP
        k = keps(e, tt)
    else:
        return V
    return k * eta(f) * f / gc * dk / 8 * 2 * ak * sin(radians(t)) * cos(radians(t))


def trd(T, lv, f, bw, t, z, Es, As, l, dk, ak, al=90.0, gc=1.5):
    a = trd_max(f, dk, ak, t, lv, z, Es, As, l, gc)
    b = vmax(lv, f, bw, t, z, Es, As, l, al, gc)
    if V in (a, b) or SKIP in (a, b):
        return V if V in (a, b) else SKIP
    u = (T / a) ** 2 + (l['Ved'] / b) ** 2
    return SKIP if abs(u - 1) < 1e-9 else u <= 1


def nu(f):
    return 0.55 * eta(f)


def t_wo(c, fct, mu, sn, f, fcd):
    return min(c * fct + mu * sn, 0.5 * nu(f) * fcd)


def t_w(cr, k1, k2, mu, ro, sn, al, bc, f, fy, fcd):
    a = radians(al)
    return min(cr * f ** (1 / 3) + mu * sn + k1 * ro * fy * (mu * sin(a) + cos(a)) + k2 * ro * sqrt(fy * fcd), bc * nu(f) * fcd)


ES = [200e3]
AS = [500.0, 3000.0]
Z = [180.0, 500.0]
LV = [1, 2, 3, 0, 4]
SPECS = [
    Spec(P + 'epsilon_x', ex, [190e3, 200e3], AS, Z, LOADS),
    Spec(P + 'eta_fc', eta, FCK),
    Spec(P + 'create_load_dict', lambda *a: L(*a), [1.0, -2.0], [3.0, -4.0], [5.0, 0.0], [7.0, -8.0]),
    Spec(P + 'v_rdc', vc, LV, FCK, Z, [200.0], [0.0, 16.0, *nb(26 + 2 / 3), 32.0], ES, AS, LFEW, label='v_rdc default'),
    Spec(P + 'v_rdc', vc, [1, 2, 3], [30.0, 80.0], Z, [200.0, 1000.0], [16.0], ES, AS, LFEW, AL, [1.0, 1.2, 1.5]),
    Spec(P + 'v_rdc_approx1', lambda f, z, b, g: vc(1, f, z, b, 0, 0, 0, None, 90, g), FCK, Z, [200.0], [1.0, 1.5]),
    Spec(P + 'v_rdc_approx1', lambda f, z, b: vc(1, f, z, b, 0, 0, 0, None), FCK, Z, [200.0], label='v_rdc_approx1 default'),
    Spec(P + 'v_rdc_approx2', lambda f, z, b, dg, E_, A, l, g: vc(2, f, z, b, dg, E_, A, l, 90, g), FCK, Z, [200.0], [0.0, 16.0, 32.0], ES, AS, LOADS[::7], [1.0, 1.5]),
    Spec(P + 'v_rdc_approx2', lambda f, z, b, dg, E_, A, l: vc(2, f, z, b, dg, E_, A, l), FCK, Z, [200.0], [16.0, 32.0], ES, AS, LFEW, label='v_rdc_approx2 default'),
    Spec(P + 'v_rdc_approx3', lambda lv, f, z, b, E_, A, l, al, g: vc(3, f, z, b, 0, E_, A, l, al, g), [3], FCK, Z, [200.0], ES, AS, LFEW, AL, [1.0, 1.5]),
    Spec(P + 'v_rdc_approx3', lambda lv, f, z, b, E_, A, l: vc(3, f, z, b, 0, E_, A, l), [3], FCK, Z, [200.0], ES, AS, LFEW, label='v_rdc_approx3 default'),
    Spec(P + 'v_rds', vs_w, [50.0, 400.0], [100.0, 200.0], Z, [400.0, 500.0], [10.0, 19.9, *TH, 45.1, 60.0], label='v_rds default'),
    Spec(P + 'v_rds', vs_w, [50.0, 400.0], [100.0, 200.0], Z, [400.0, 500.0], label='v_rds default angle'),
    Spec(P + 'v_rds', vs_w, [50.0, 400.0], [100.0, 200.0], Z, [500.0], [15.0, *TH, 50.0], AL, [1.0, 1.15, 1.3], out=False),
    Spec(P + 'v_rd_max', vmax, LV, FCK, [200.0], TH, Z, ES, AS, LFEW, label='v_rd_max default'),
    Spec(P + 'v_rd_max', vmax, [1], FCK, [200.0], TH, Z, label='v_rd_max level 1'),
    Spec(P + 'v_rd_max', vmax, [1, 2, 3], [30.0, 80.0], [200.0], TH, Z, ES, AS, LFEW, AL, [1.0, 1.5], out=False),
    Spec(P + 'v_rd_max_approx1', lambda f, b, t, z: vmax(1, f, b, t, z), FCK, [200.0], TH, Z),
    Spec(P + 'v_rd_max_approx2', lambda f, b, t, z, E_, A, l: vmax(2, f, b, t, z, E_, A, l), FCK, [200.0], TH, Z, ES, AS, LFEW),
    Spec(P + 'v_rd_max_approx3', lambda f, b, z, E_, A, l: vmax(3, f, b, None, z, E_, A, l), FCK, [200.0], Z, ES, AS, LFEW),
    Spec(P + 'v_rd', v_rd, LV, [False], [30.0, 64.0, 80.0], Z, [200.0], [16.0], ES, AS, LFEW, label='v_rd without reinforcement'),
    Spec(P + 'v_rd', v_rd, LV, [True], FCK, Z, [200.0], [16.0], ES, AS, LFEW, [20.0, 100.0, 1500.0], [200.0], [500.0], TH, label='v_rd default factors'),
    Spec(P + 'v_rd', v_rd, [1, 2, 3], [True, False], [30.0, 80.0], Z, [200.0], [16.0], ES, AS, LFEW, [20.0, 100.0, 1500.0], [200.0], [500.0], [25.0, 40.0], AL, [1.0, 1.5], [1.0, 1.15, 1.3], out=False),
    Spec(P + 'v_rd_ct', lambda lv, *a: SKIP if lv == 2 else ct(lv, *a), LV, [1.5, 2.6], [6e8], [6e5], [50.0, 300.0], [0.0, 5.0], [0.0, 40.0, 400.0], [300.0], [3e6], [300.0], [100.0], [200.0], [2e5], [1e5], [80.0], [1e6], [100.0], label='v_rd_ct level'),
    Spec(P + 'v_rd_ct_approx1', ct1, [1.5, 2.6], [6e8], [6e5], [50.0, 300.0], [0.0, 5.0], [0.0, 40.0, 400.0], [300.0, 600.0]),
    Spec(P + 'v_rd_ct_approx2', ct2, [1.5, 2.6], [6e8, 2e9], [0.0, 40.0, 400.0], [300.0, 600.0], [3e6], [60.0, 300.0], [50.0, 150.0, 200.0], [120.0, 200.0], [2e5], [1e5], [40.0, 80.0], [0.0, 1e6], [0.0, 100.0], known=ct_known, dense=False),
    Spec(P + 'v_rd_ct', ct, [2], [1.5, 2.6], [6e8], [6e5], [50.0], [5.0], [0.0, 400.0], [300.0], [3e6], [300.0], [50.0, 150.0], [200.0], [2e5], [1e5], [80.0], [0.0, 1e6], [0.0, 100.0], label='v_rd_ct level 2', known=ct_known, dense=False),
    Spec(P + 'v_ed_ti', lambda t, a, z: t * z / (2 * a), [0.0, 1e6, 5e7], [2e4, 1e5], [200.0, 500.0]),
    Spec(P + 't_rd_max', trd_max, FCK, [100.0, 300.0], [5e4], TH, LV, Z, ES, AS, LFEW, label='t_rd_max default'),
    Spec(P + 't_rd_max', trd_max, [30.0, 80.0], [100.0], [5e4], TH, [1, 2, 3], Z, ES, AS, LFEW, [1.0, 1.5]),
    Spec(P + 't_rd', trd, [0.0, 1e6, 1e7, 5e7], [1, 2, 3, 4], [30.0, 80.0], [200.0], [25.0, 40.0], Z, ES, AS, LFEW, [100.0, 300.0], [5e4], [60.0, 90.0], [1.0, 1.5]),
    Spec(P + 't_rd', trd, [1e6, 1e7, 5e7], [1, 2, 3], [30.0, 80.0], [200.0], [25.0, 40.0], Z, ES, AS, LFEW, [100.0, 300.0], [5e4], label='t_rd default'),
    Spec(P + 'tau_edi', lambda b, v, z, w: b * v / (z * w), [0.5, 1.0], [1e5, 5e5], [200.0, 500.0], [150.0, 300.0]),
    Spec(P + 'tau_rdi_without_reinforcement', t_wo, [0.025, 0.2, 0.5], [1.0, 1.8], [0.5, 0.7], [0.0, 1.0, 5.0, 30.0], FCK, [13.3, 30.0]),
    Spec(P + 'tau_rdi_with_reinforcement', t_w, [0.0, 0.1, 0.2], [0.5], [0.8, 0.9, 1.5], [0.5, 0.7, 0.9], [0.001, 0.01, 0.05], [0.0, 1.0, 10.0], [45.0, 90.0], [0.4, 0.5], FCK, [435.0], [13.3, 30.0]),
]

for _s in SPECS:
    # Forces in N: no information below the rounding of the trigonometry.
    if _s.label.startswith('v_rd'):
        _s.atol = max(_s.atol, 1e-6)


def bind(R, tier):
    """v_rd with reinforcement scales with the partial factors once."""
    f = resolve(P + 'v_rd')
    for lv, gs, g2 in itertools.product([1, 2], [1.0, 1.15, 1.3], [1.0, 1.15, 1.3]):
        a = [f(lv, True, 30.0, 500.0, 300.0, 16.0, 200e3, 2000.0, dict(LFEW[1]), 40.0, 200.0, 500.0, 30.0, 90.0, 1.5, g) for g in (gs, g2)]
        R.state((lv, gs, g2))
        R.trace(2)
        R.eq(a[0] * gs, a[1] * g2, f'v_rd gamma_s {lv} {gs} {g2}')


jobs, run = cl.make(SPECS, {'bind': bind})
