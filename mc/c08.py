"""C08: Model Code 2010 creep and shrinkage."""
import itertools
from math import exp, log, sqrt

from . import code_lib as cl
from .code_lib import V, E, SKIP, Warned, Spec, nb, array_check, monotone, resolve
from .core import Exc, call, close
from .ref_codes import MC

RULE = cl.RULE + ' Chains evaluate the composed creep and shrinkage models over ascending times.'
ASSUMPTIONS = []
P = 'mc2010:'
FCM = [20.0, 28.0, 33.0, *nb(35), 38.0, 58.0, 88.0, 130.0]
RH = [0.4, 0.5, 0.65, 0.8, 0.95, 0.989, 0.99, 1.0, 40.0, 50.0, 65.0, 80.0, 95.0, 99.0, 100.0]
RHX = [-10.0, 0.0, 0.39, 1.01, 2.0, 39.0, 39.999, 100.01, 120.0] + RH
H = [50.0, 100.0, 300.0, 700.0, 830.0, *nb(2500 / 3), 1000.0, 1500.0]
T = [1.0, 3.0, 7.0, *nb(28), 90.0, 365.0, 3650.0, 36500.0]
T0 = [1.0, 3.0, 7.0, 28.0, 90.0, 365.0, 18250.0]
T0A = [0.5, 1.0, 3.0, 9.0, 30.0, 100.0, 400.0]
CEM = list(MC.cem)
CEMX = CEM + ['32.5', 'N', '', '62.5 R']


def par(c, i):
    return MC.par[MC._grp[c]][i]


def with_cem(f):
    return lambda *a: E if a[-1] not in MC._grp else f(*a)


def rhfrac(r):
    if 0.4 <= r <= 1:
        return r
    if 40 <= r <= 100:
        return r / 100
    return None


def beta_RH(rh, bs):
    r = rhfrac(rh)
    if r is None:
        return V
    return 0.25 if r >= 0.99 * bs else -1.55 * (1 - r**3)


def dc_RH(rh, h):
    r = rhfrac(rh)
    return V if r is None else (1 - r) / (0.001 * h) ** (1 / 3)


def t_T(Tc, dt):
    return dt * exp(13.65 - 4000 / (273 + Tc))


def dct(t, t0, bh, g):
    return SKIP if t < t0 else ((t - t0) / (bh + t - t0)) ** g


def bct(t, t0, ta):
    return SKIP if t < t0 else log(1 + (t - t0) * (0.035 + 30 / ta) ** 2)


def level(s, f):
    """0 linear, 1 non-linear with a warning, 2 out of range."""
    s = abs(s)
    return 2 if s > 0.6 * f else 1 if s > 0.4 * f else 0


def k_sigma(s, f):
    n = level(s, f)
    return V if n == 2 else Warned(abs(s) / f, n == 1)


def phi(a, b, s, f):
    n = level(s, f)
    if n == 2:
        return V
    p = a + b
    return Warned(p * (exp(1.5 * (abs(s) / f - 0.4)) if n else 1), n == 1)


SPECS = [
    Spec(P + 't_T', t_T, [-10.0, 0.0, 10.0, 20.0, 40.0, 80.0], [0.0, 0.5, 1.0, 28.0]),
    Spec(P + 't0_adj', with_cem(lambda t, c: max(0.5, t * (1 + 9 / (2 + t**1.2)) ** par(c, 1))), [0.05, 0.1, 0.3, *nb(0.5), 0.9, *T0], CEMX),
    Spec(P + 'eps_cds0', with_cem(lambda f, c: 1e-6 * (220 + 110 * par(c, 3)) * exp(-par(c, 4) * f)), FCM, CEMX),
    Spec(P + 'beta_ds', lambda t, ts, h: sqrt(max(t - ts, 0) / (0.035 * h * h + max(t - ts, 0))), [0.0] + T, [0.0, 1.0, 7.0, *nb(28), 365.0, 18250.0], H, rtol=1e-7),
    Spec(P + 'beta_s1', lambda f: min(1.0, (35 / f) ** 0.1), FCM),
    Spec(P + 'beta_RH', beta_RH, RHX, [1.0, 0.99, 0.95, 0.9, 0.877], out=False),
    Spec(P + 'eps_cds', lambda a, b, c: a * b * c, [3e-4, 6e-4], [0.0, 0.5, 1.0], [-1.4, -0.5, 0.25]),
    Spec(P + 'eps_cbs0', with_cem(lambda f, c: -1e-6 * par(c, 2) * (f / (60 + f)) ** 2.5), FCM, CEMX),
    Spec(P + 'beta_bs', lambda t: 1 - exp(-0.2 * sqrt(t)), [0.0] + T),
    Spec(P + 'eps_cbs', lambda a, b: a * b, [-3e-5, -1e-4], [0.0, 0.5, 1.0]),
    Spec(P + 'beta_bc_fcm', lambda f: 1.8 * f**-0.7, FCM),
    Spec(P + 'beta_bc_t', bct, T, T0, T0A, rtol=1e-7),
    Spec(P + 'phi_bc', lambda a, b: a * b, [0.1, 0.2], [0.0, 1.0, 12.0]),
    Spec(P + 'beta_dc_fcm', lambda f: 412 * f**-1.4, FCM),
    Spec(P + 'beta_dc_RH', dc_RH, RHX, H),
    Spec(P + 'beta_dc_t0', lambda t: 1 / (0.1 + t**0.2), T0A),
    Spec(P + 'alpha_fcm', lambda f: (35 / f) ** 0.5, FCM),
    Spec(P + 'beta_h', lambda h, a: min(1.5 * h + 250 * a, 1500 * a), H, [0.5, 0.8, 1.0, 1.3]),
    Spec(P + 'gamma_t0', lambda t: 1 / (2.3 + 3.5 * t**-0.5), T0A),
    Spec(P + 'beta_dc_t', dct, T, T0, [250.0, 600.0, 1500.0], [0.2, 0.3, 0.4], rtol=1e-7),
    Spec(P + 'phi_dc', lambda a, b, c, d: a * b * c * d, [1.0, 4.0], [0.3, 0.9], [0.3, 0.9], [0.0, 0.5, 1.0]),
    Spec(P + 'k_sigma', k_sigma, [-30.0, -24.0001, -24.0, -20.0, *[-x for x in nb(16)], 0.0, 8.0, *nb(16), 20.0, *nb(24), 30.0], [40.0, 60.0]),
    Spec(P + 'phi', phi, [0.0, 0.8, 2.0], [0.0, 0.5, 1.5], [-30.0, -24.0, -20.0, *[-x for x in nb(16)], 0.0, 8.0, *nb(16), 20.0, *nb(24), 30.0], [40.0, 60.0]),
    Spec(P + 'calc_J', lambda a, p, e: 1 / a + p / e, [2e4, 3e4], [0.0, 1.0, 3.0], [3e4, 4e4]),
]


def arrays(R, tier):
    import numpy as np
    array_check(P + 'beta_ds', R, [0.0] + T, [0.0, 7.0, 28.0, 2000.0], [100.0, 700.0])
    array_check(P + 'beta_bs', R, [0.0] + T)
    tt = [400.0 + t for t in T]
    array_check(P + 'beta_bc_t', R, tt, [7.0, 365.0], [1.0, 30.0])
    array_check(P + 'beta_dc_t', R, tt, [7.0, 365.0], [300.0, 900.0], [0.3])
    array_check(P + 'phi', R, [0.0, 0.5, 1.5], [0.5], [0.0, 15.0, 20.0, 24.0, 30.0], [40.0])
    array_check(P + 'calc_J', R, [0.0, 0.5, 1.5], [3e4], [3.3e4], tpos=1)
    array_check(P + 'phi', R, [0.0, 0.5, 1.5], [0.5], [15.0, 20.0], [40.0], tpos=1, label='phi (drying)')
    array_check(P + 'phi_bc', R, [0.0, 2.0, 6.5], [0.1], tpos=1)
    array_check(P + 'phi_dc', R, [0.0, 0.5, 1.0], [2.0], [0.3], [0.6], tpos=3)
    array_check(P + 'eps_cds', R, [0.0, 0.5, 1.0], [4e-4], [-1.1, 0.25], tpos=1)
    array_check(P + 'eps_cbs', R, [0.0, 0.5, 1.0], [-5e-5], tpos=1)
    # both parts of the creep coefficient over the same times
    f = resolve(P + 'phi')
    a, b = [0.0, 0.5, 1.5], [0.0, 1.0, 2.0]
    for sig in (10.0, 20.0):
        want = [call(f, x, y, sig, 40.0) for x, y in zip(a, b)]
        for nm, mk in (('list', list), ('tuple', tuple), ('array', np.array)):
            R.state(('phi both', sig, nm))
            R.trace()
            R.step(3)
            got = call(f, mk(a), mk(b), sig, 40.0)
            R.eq(got, np.array(want, dtype=float), f'phi of two {nm}s sigma={sig}', 'creep coefficient', rtol=1e-12)


def maturity(R, tier):
    import numpy as np
    f = resolve(P + 't_T')
    for n in range(1, 4 if tier == 'quick' else 5):
        for Ts in itertools.product([0.0, 10.0, 20.0, 60.0], repeat=n):
            for dts in itertools.product([0.5, 2.0, 7.0], repeat=n):
                want = sum(t_T(a, b) for a, b in zip(Ts, dts))
                R.state((Ts, dts))
                R.trace()
                R.step(n)
                for mk in (list, np.array):
                    got = call(f, mk(Ts), mk(dts))
                    if isinstance(got, Exc) or not close(float(got), want, 1e-9):
                        R.fail(f't_T{(Ts, dts)}', f'got {got} expected {want}')
    for a, b in (([1.0], 2.0), (1.0, [2.0]), ([1.0, 2.0], [1.0])):
        got = call(f, a, b)
        R.true(isinstance(got, Exc) and got.type is ValueError, f't_T shapes {a}{b}', f'got {got}')


def chain(R, tier):
    m = lambda n: resolve(P + n)
    for fcm, rh, h, c, t0 in itertools.product(FCM, [40.0, 65.0, 0.8, 100.0], [50.0, 300.0, 1500.0], CEM, T0):
        ta = m('t0_adj')(m('t_T')(20.0, t0), c)
        rta = t_T(20.0, t0)
        rta = max(0.5, rta * (1 + 9 / (2 + rta**1.2)) ** par(c, 1))
        a = m('alpha_fcm')(fcm)
        bh, g = m('beta_h')(h, a), m('gamma_t0')(ta)
        lim = m('phi_dc')(m('beta_dc_fcm')(fcm), m('beta_dc_RH')(rh, h), m('beta_dc_t0')(ta), 1.0)
        ts = [t0 + d for d in (0.0, 0.1, 1.0, 7.0, 100.0, 3650.0, 36500.0, 1e9)]
        key = f'fcm={fcm} RH={rh} h={h} {c} t0={t0}'
        bc = [m('phi_bc')(m('beta_bc_fcm')(fcm), m('beta_bc_t')(t, t0, ta)) for t in ts]
        dc = [m('phi_dc')(m('beta_dc_fcm')(fcm), m('beta_dc_RH')(rh, h), m('beta_dc_t0')(ta), m('beta_dc_t')(t, t0, bh, g)) for t in ts]
        monotone(R, 'phi_bc ' + key, ts, bc)
        monotone(R, 'phi_dc ' + key, ts, dc, limit=lim, ltol=1e-5 if lim > 0 else None)
        aa = (35 / fcm) ** 0.5
        r = rhfrac(rh)
        for t, p, q in zip(ts, bc, dc):
            R.eq(float(p), 1.8 * fcm**-0.7 * log(1 + (t - t0) * (0.035 + 30 / rta) ** 2), f'phi_bc {key} t={t}', rtol=1e-7)
            want = 412 * fcm**-1.4 * (1 - r) / (0.001 * h) ** (1 / 3) / (0.1 + rta**0.2) * ((t - t0) / (min(1.5 * h + 250 * aa, 1500 * aa) + t - t0)) ** (1 / (2.3 + 3.5 * rta**-0.5))
            R.eq(float(q), want, f'phi_dc {key} t={t}', rtol=1e-7)
            J = m('calc_J')(3e4, m('phi')(p, q, 0.2 * fcm, fcm), 3.2e4)
            R.eq(float(J), 1 / 3e4 + (float(p) + float(q)) / 3.2e4, f'J {key} t={t}')
    for fcm, rh, h, c, ts_ in itertools.product(FCM, RH, [50.0, 300.0, 1500.0], CEM, [0.0, 7.0]):
        b = m('beta_RH')(rh, m('beta_s1')(fcm))
        e0 = m('eps_cds0')(fcm, c)
        ts = [ts_ + d for d in (0.0, 0.5, 10.0, 1e3, 1e5, 1e9, 1e12)]
        sign = -1 if b < 0 else 1
        monotone(R, f'eps_cds fcm={fcm} RH={rh} h={h} {c} ts={ts_}', ts, [m('eps_cds')(e0, m('beta_ds')(t, ts_, h), b) for t in ts], sign=sign, limit=abs(e0 * b), ltol=1e-4)
        eb = m('eps_cbs0')(fcm, c)
        tt = [t - ts_ for t in ts]
        monotone(R, f'eps_cbs fcm={fcm} {c}', tt, [m('eps_cbs')(eb, m('beta_bs')(t)) for t in tt], sign=-1, limit=-eb, ltol=1e-4)


jobs, run = cl.make(SPECS, {'arrays': arrays, 'maturity': maturity, 'chain': chain})
