"""C10: Model Code 2010 punching."""
import itertools
from math import radians, sin, cos

from . import code_lib as cl
from .code_lib import V, SKIP, Warned, Spec, nb, resolve
from .core import Exc, call

RULE = cl.RULE + ' Chains run whole punching verifications over growing loads.'
ASSUMPTIONS = [
    'A negative eccentricity is only prescribed for inner columns.',
    'Exactly one placement flag of the support strip moment is set.',
]
P = 'mc2010:'


def med(v, e, b, inner, par, per, corner):
    if inner + par + per + corner > 1 or (e < 0 and not inner):
        return SKIP
    if inner:
        return v * (1 / 8 + abs(e) / (2 * b))
    if par:
        return max(v * (1 / 8 + e / (2 * b)), v / 4)
    if per:
        return v * (1 / 8 + e / b)
    if corner:
        return max(v * (1 / 8 + e / b), v / 2)
    return V


def r_s(lx, ly, xd, l3, ec, bsr):
    r = 0.22 * (lx if xd else ly)
    if l3 and ec:
        return V if bsr is None else max(r, 0.67 * bsr)
    return r


def bs(lx, ly):
    return min(1.5 * (0.22 * lx * 0.22 * ly) ** 0.5, min(lx, ly))


def psi2(rs, f, d, E, me, mr, mp=0.0):
    if (me - mp) / (mr - mp) < 0:
        return SKIP
    return 1.5 * rs / d * f / E * ((me - mp) / (mr - mp)) ** 1.5


def psi(a, b, c, lv):
    return {1: a, 2: b, 3: c}.get(lv, V)


def k_dg(g):
    return max(32 / (16 + g), 0.75)


def k_psi(k, d, p):
    return min(1 / (1.5 + 0.9 * k * d * p), 0.6)


def swd(E, p, al, fb, d, fy, ph):
    a = radians(al)
    return min(E * p / 6 * (sin(a) + cos(a)) * (sin(a) + fb * d / (fy * ph)), fy)


def vs(fy, e, b, al, s, A, ved):
    k = 1 / (1 + e / b)
    cap = A * k * fy
    r = A * k * s * sin(radians(al))
    return r if abs(cap - 0.5 * ved) <= 1e-9 * max(cap, 1) else Warned(r, cap < 0.5 * ved)


def vmax(dv, f, head, stir, b0, k, g=1.5):
    ks = 2.8 if head else 2.4 if stir else 2.0
    b = b0 * dv * f**0.5 / g
    return min(ks * k * b, b)


B = [True, False]
LX = [2000.0, 3000.0, 6000.0, 8000.0]
D = [100.0, 200.0, 400.0]
PS = [0.0, 0.001, 0.005, 0.015, 0.05]
FCK = [20.0, 30.0, 50.0, 90.0]
KP = [0.05, 0.2, 1 / 2.8, 0.4, 1 / 2.4, 0.45, 0.5, 0.6]
VV = [1e4, 1e5, 5e5]
ES = [200e3, 190e3]
BSR = [None, 100.0, 800.0, 3000.0]
SPECS = [
    Spec(P + 'b_0', lambda v, m: v / m, [*VV, 0.0], [100.0, 250.0, 400.0]),
    Spec(P + 'b_s', bs, LX + [500.0, 1000.0, 20000.0], LX + [500.0, 1000.0, 20000.0]),
    Spec(P + 'b_sr', min, LX, LX),
    Spec(P + 'm_ed', med, [0.0, *VV], [-200.0, 0.0, 50.0, 100.0, 250.0, *nb(375), *nb(500), 600.0, 1500.0], [1000.0, 2000.0], B, B, B, B),
    Spec(P + 'r_s', lambda lx, ly, x: r_s(lx, ly, x, False, False, None), LX, LX, B, label='r_s default'),
    Spec(P + 'r_s', r_s, LX, LX, B, B, B, BSR),
    Spec(P + 'psi_punching_level_one', lambda lx, ly, f, d, E: 1.5 * 0.22 * max(lx, ly) / d * f / E, LX, LX, [400.0, 434.0, 500.0], D, ES),
    Spec(P + 'psi_punching_level_two', psi2, [440.0, 660.0, 1320.0], [400.0, 434.0], D, ES, [0.0, 1e4, 5e4, 1e5], [4e4, 1e5], label='psi level two default'),
    Spec(P + 'psi_punching_level_two', psi2, [440.0, 660.0], [434.0], D, ES, [2e3, 1e4, 5e4, 1e5], [4e4, 1e5], [0.0, 1e3, 2e4]),
    Spec(P + 'psi_punching_level_three', lambda p: p, PS, label='psi level three default'),
    Spec(P + 'psi_punching_level_three', lambda p, a, b: 1.2 / 1.5 * p if a and b else p, PS, B, B),
    Spec(P + 'psi_punching', psi, [0.01], [0.007], [0.006], [1, 2, 3, 0, 4, -1, 1.5]),
    Spec(P + 'k_dg', k_dg, [0.0, 8.0, 16.0, 20.0, *nb(32 / 0.75 - 16), 32.0, 40.0]),
    Spec(P + 'k_psi', k_psi, [0.75, 1.0, 2.0], D, PS + nb((1 / 0.6 - 1.5) / (0.9 * 200))),
    Spec(P + 'v_rdc_punching', lambda k, b, d, f: k * b * d * f**0.5 / 1.5, KP, [1000.0, 2500.0], D, FCK, label='v_rdc_punching default'),
    Spec(P + 'v_rdc_punching', lambda k, b, d, f, g: k * b * d * f**0.5 / g, KP, [1000.0, 2500.0], D, FCK, [1.0, 1.2, 1.5]),
    Spec('mc2010._concrete_punching:f_ywd', lambda f, g: f / g, [235.0, 500.0, 600.0], [1.0, 1.15, 1.3]),
    Spec(P + 'sigma_swd', swd, ES, PS, [30.0, 45.0, 60.0, 90.0], [0.0, 2.0, 5.0], D, [300.0, 435.0], [6.0, 10.0, 16.0]),
    Spec(P + 'v_rds_punching', vs, [300.0, 435.0], [0.0, 50.0, 400.0], [400.0, 1000.0], [30.0, 45.0, 90.0], [0.0, 100.0, 435.0], [0.0, 500.0, 3000.0], VV),
    Spec(P + 'v_rds_punching', vs, [400.0], [0.0, 100.0], [100.0], [90.0], [400.0], [500.0], [*nb(2e5), 1.99e5, 2.01e5, 3.97e5, *nb(4e5), 4.03e5], label='v_rds_punching warning'),
    Spec(P + 'v_rd_max_punching', lambda *a: vmax(*a), D, FCK, B, B, [1000.0, 2500.0], KP, label='v_rd_max_punching default'),
    Spec(P + 'v_rd_max_punching', vmax, D, FCK, B, B, [1000.0, 2500.0], KP, [1.0, 1.2, 1.5]),
    Spec(P + 'v_rd_punching', lambda c, s, m: min(c + s, m), [0.0, 1e5, 3e5], [0.0, 1e5, 4e5], [5e4, 2e5, 4e5, 6e5, 1e6]),
]


def chain(R, tier):
    """Whole verification along growing loads, against the reference chain."""
    names = ('b_0 b_s b_sr m_ed r_s psi_punching_level_one psi_punching_level_two psi_punching_level_three psi_punching '
             'k_dg k_psi v_rdc_punching sigma_swd v_rds_punching v_rd_max_punching v_rd_punching').split()
    f = {n: resolve(P + n) for n in names}
    flags = [tuple(i == k for i in range(4)) for k in range(4)]
    n = 12 if tier == 'quick' else 60
    for lx, ly, d, dg, fck, fl, lv, asw in itertools.product([4000.0, 6000.0], [3000.0, 6000.0], [160.0, 250.0], [0.0, 16.0, 32.0], [25.0, 80.0], flags, [1, 2, 3], [0.0, 1500.0]):
        prev = None
        for i in range(1, n + 1):
            v = 2e6 * i / n
            e, fyd, E, b0, mrd, uw = 60.0, 435.0, 200e3, 1800.0, 6e4, 500.0
            edge = not fl[0]

            def both(F):
                s = F['b_s'](lx, ly)
                m = F['m_ed'](v, e, s, *fl)
                r = F['r_s'](lx, ly, True, lv == 3, edge, F['b_sr'](lx, ly))
                p1 = F['psi_punching_level_one'](lx, ly, fyd, d, E)
                p2 = F['psi_punching_level_two'](r, fyd, d, E, m, mrd)
                p3 = F['psi_punching_level_three'](p2, True, True)
                p = F['psi_punching'](p1, p2, p3, lv)
                k = F['k_psi'](F['k_dg'](dg), d, p)
                c = F['v_rdc_punching'](k, b0, d, fck)
                sg = F['sigma_swd'](E, p, 90.0, 3.0, d, fyd, 10.0)
                s_ = F['v_rds_punching'](fyd, e, uw, 90.0, sg, asw, v)
                mx = F['v_rd_max_punching'](d, fck, False, True, b0, k)
                return F['v_rd_punching'](c, s_, mx), c

            ref = {
                'b_s': bs, 'm_ed': med, 'r_s': r_s, 'b_sr': min,
                'psi_punching_level_one': lambda a, b, f_, d_, E_: 1.5 * 0.22 * max(a, b) * f_ / d_ / E_,
                'psi_punching_level_two': psi2,
                'psi_punching_level_three': lambda p, a, b: 0.8 * p,
                'psi_punching': psi, 'k_dg': k_dg, 'k_psi': k_psi,
                'v_rdc_punching': lambda k, b, d_, f_: k * b * d_ * f_**0.5 / 1.5,
                'sigma_swd': swd,
                'v_rds_punching': lambda fy, e_, b, al, s, A, ve: A / (1 + e_ / b) * s * sin(radians(al)),
                'v_rd_max_punching': vmax, 'v_rd_punching': lambda c, s, m: min(c + s, m),
            }
            got, want = call(both, f), both(ref)
            key = (lx, ly, d, dg, fck, fl, lv, asw, i)
            R.state(key)
            R.step()
            R.trace()
            if isinstance(got, Exc):
                R.fail(f'chain {key}', str(got))
                return
            R.eq(got[0], want[0], f'chain {key}')
            R.eq(got[1], want[1], f'chain concrete part {key}')
            if prev is not None and got[1] > prev * (1 + 1e-9):
                R.fail(f'chain {key} grows', 'the concrete resistance grows with the load')
            prev = got[1]


jobs, run = cl.make(SPECS, {'chain': chain})
