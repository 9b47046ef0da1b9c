"""C02: EN 1992-1-1:2004 creep and shrinkage."""
import itertools
from math import exp, sqrt

from . import code_lib as cl
from .code_lib import V, E, Spec, nb, array_check, monotone, resolve
from .core import Exc, call, close
from .ref_codes import EC2, interp

RULE = cl.RULE + ' Chains evaluate the composed creep and shrinkage models over ascending times.'
ASSUMPTIONS = []
P = 'ec2_2004:'
FCM = [20.0, 28.0, 33.0, *nb(35), 38.0, 43.0, 58.0, 78.0, 98.0]
RH = [20.0, 40.0, 50.0, 65.0, 80.0, 95.0, 100.0]
H0 = [50.0, *nb(100), 150.0, *nb(200), 250.0, *nb(300), 400.0, *nb(500), 600.0, 1500.0]
T = [0.0, 0.25, 1.0, 3.0, 7.0, *nb(28), 90.0, 365.0, 3650.0, 36500.0]
T0 = [0.3, 1.0, 3.0, 7.0, 28.0, 90.0, 365.0, 2000.0, 18250.0]
CEM = ['R', 'N', 'S', 'r', 'n', 's', ' R', 'N ', ' S ', 'X', '', 'RN']
AL = [0.4, 0.8, 1.0]


def cem(i):
    def ref(c):
        k = c.upper().strip()
        return EC2.ds[k][i] if k in EC2.ds else V
    return ref


def phi_RH(h, fcm, rh, a1, a2):
    base = (1 - rh / 100) / (0.1 * h ** (1 / 3))
    return 1 + base if fcm <= 35 else (1 + base * a1) * a2


def beta_H(h, fcm, rh, a3):
    x = 1.5 * (1 + (0.012 * rh) ** 18) * h
    return min(x + 250, 1500) if fcm <= 35 else min(x + 250 * a3, 1500 * a3)


def t_T(Tc, dt):
    return dt * exp(13.65 - 4000 / (273 + Tc))


SPECS = [
    Spec(P + 'eps_cs', lambda a, b: a + b, [0.0, 1e-4, 3e-4], [0.0, 2e-5, 1e-4]),
    Spec(P + 'eps_cd', lambda b, k, e: b * k * e, [0.0, 0.3, 1.0], [0.7, 0.85, 1.0], [0.0, 3e-4, 6e-4]),
    Spec(P + 'beta_ds', lambda t, ts, h: max(t - ts, 0) / (max(t - ts, 0) + 0.04 * sqrt(h**3)), T, [0.0, 1.0, 3.0, *nb(28), 365.0, 2000.0, 18250.0], H0),
    Spec(P + 'k_h', lambda h: interp(h, (100, 200, 300, 500), (1.0, 0.85, 0.75, 0.7)), H0),
    Spec(P + 'eps_cd_0', lambda a1, a2, f, b: 0.85 * (220 + 110 * a1) * exp(-a2 * f / 10) * b * 1e-6, [3, 4, 6], [0.11, 0.12, 0.13], FCM, [0.0, 0.5, 1.2, 1.55]),
    Spec(P + 'eps_cd_0', lambda a1, a2, f, b, f0: 0.85 * (220 + 110 * a1) * exp(-a2 * f / f0) * b * 1e-6, [3, 6], [0.11, 0.13], [28.0, 58.0], [0.5, 1.2], [5.0, 10.0, 20.0], label='eps_cd_0 with fcm_0'),
    Spec(P + 'alpha_ds1', cem(0), CEM),
    Spec(P + 'alpha_ds2', cem(1), CEM),
    Spec(P + 'alpha_cement', cem(2), CEM),
    Spec(P + 'beta_RH', lambda r: 1.55 * (1 - (r / 100) ** 3), RH),
    Spec(P + 'beta_RH', lambda r, r0: 1.55 * (1 - (r / r0) ** 3), RH, [100.0, 120.0], label='beta_RH with RH_0'),
    Spec(P + 'eps_ca', lambda b, e: b * e, [0.0, 0.4, 1.0], [2e-5, 1e-4]),
    Spec(P + 'eps_ca_inf', lambda f: 2.5e-6 * (f - 10), [10.0, 12.0, 20.0, 35.0, 50.0, 90.0], atol=1e-18),
    Spec(P + 'beta_as', lambda t: 1 - exp(-0.2 * sqrt(t)), T),
    Spec(P + 'phi', lambda a, b: a * b, [0.5, 1.5, 3.0], [0.0, 0.4, 1.0]),
    Spec(P + 'phi_0', lambda a, b, c: a * b * c, [1.0, 1.5], [2.0, 3.0], [0.3, 0.9]),
    Spec(P + 'phi_RH', phi_RH, H0, FCM, RH, AL, AL),
    Spec(P + 'beta_fcm', lambda f: 16.8 / sqrt(f), FCM),
    Spec(P + 'beta_t0', lambda t: 1 / (0.1 + t**0.2), T0),
    Spec(P + 'h_0', lambda a, u: 2 * a / u, [1e4, 9e4, 1e6], [400.0, 1200.0, 4000.0]),
    Spec(P + 'beta_c', lambda t0, t, b: (max(t - t0, 0) / (b + max(t - t0, 0))) ** 0.3, T0, T, [250.0, 600.0, 1500.0], rtol=1e-7),
    Spec(P + 'beta_H', beta_H, [*H0, 700.0, 800.0, 830.0, 833.0, 834.0, 840.0], FCM, RH, AL),
    Spec(P + 'alpha_1', lambda f: (35 / f) ** 0.7, FCM),
    Spec(P + 'alpha_2', lambda f: (35 / f) ** 0.2, FCM),
    Spec(P + 'alpha_3', lambda f: sqrt(35 / f), FCM),
    Spec(P + 't0_adj', lambda t, a: max(t * (1 + 9 / (2 + t**1.2)) ** a, 0.5), [0.05, 0.1, 0.3, *nb(0.5), *T0], [-1, 0, 1, -1.0, 1.0, 0.0]),
    Spec(P + 't_T', t_T, [-10.0, 0.0, 10.0, 20.0, 40.0, 80.0], [0.0, 0.5, 1.0, 28.0]),
]


def arrays(R, tier):
    array_check(P + 'beta_ds', R, T, [0.0, 3.0, 28.0, 2000.0], [100.0, 300.0])
    array_check(P + 'beta_as', R, T)
    array_check(P + 'beta_c', R, T, [1.0, 28.0, 2000.0], [250.0, 1500.0], tpos=1)
    array_check(P + 'phi', R, [0.0, 0.5, 1.0], [1.5], tpos=1)
    array_check(P + 'eps_ca', R, [0.0, 0.5, 1.0], [1e-4])
    array_check(P + 'eps_cd', R, [0.0, 0.5, 1.0], [0.7, 1.0], [3e-4])


def maturity(R, tier):
    """t_T over every temperature history of up to 3 (4) intervals."""
    import numpy as np
    f = resolve(P + 't_T')
    for n in range(1, 4 if tier == 'quick' else 5):
        for Ts in itertools.product([0.0, 10.0, 20.0, 60.0], repeat=n):
            for dts in itertools.product([0.5, 2.0, 7.0], repeat=n):
                want = sum(t_T(a, b) for a, b in zip(Ts, dts))
                R.state((Ts, dts))
                R.trace()
                R.step(n)
                for mk in (list, np.array):
                    got = call(f, mk(Ts), mk(dts))
                    if isinstance(got, Exc) or not close(float(got), want, 1e-9):
                        R.fail(f't_T{(Ts, dts)}', f'got {got} expected {want}')
    for a, b in (([1.0], 2.0), (1.0, [2.0]), ([1.0, 2.0], [1.0]), ([1.0], [1.0, 2.0, 3.0])):
        got = call(f, a, b)
        R.trace()
        R.true(isinstance(got, Exc) and got.type is ValueError, f't_T shapes {a}{b}', f'got {got}')


def chain(R, tier):
    m = lambda n: resolve(P + n)
    times = [28.0 + d for d in (0, 0.1, 1, 7, 28, 100, 365, 3650, 36500, 1e6, 1e8)]
    for fcm, rh, h, c, t0 in itertools.product(FCM, RH, [100.0, 300.0, 800.0], 'RNS', T0):
        a1, a2, a3 = m('alpha_1')(fcm), m('alpha_2')(fcm), m('alpha_3')(fcm)
        t0a = m('t0_adj')(t0, m('alpha_cement')(c))
        p0 = m('phi_0')(m('phi_RH')(h, fcm, rh, a1, a2), m('beta_fcm')(fcm), m('beta_t0')(t0a))
        bH = m('beta_H')(h, fcm, rh, a3)
        ts = [t0 - 1] + [t0 + (t - 28) for t in times]
        vals = [m('phi')(p0, m('beta_c')(t0, t, bH)) for t in ts]
        monotone(R, f'phi fcm={fcm} RH={rh} h={h} {c} t0={t0}', ts, vals, limit=p0, ltol=1e-4)
        ref_0 = phi_RH(h, fcm, rh, (35 / fcm) ** 0.7, (35 / fcm) ** 0.2) * 16.8 / sqrt(fcm) / (0.1 + max(t0 * (1 + 9 / (2 + t0**1.2)) ** EC2.ds[c][2], 0.5) ** 0.2)
        R.eq(float(p0), ref_0, f'phi_0 chain fcm={fcm} RH={rh} h={h} {c} t0={t0}')
    for fcm, rh, h, c, ts_ in itertools.product(FCM, RH, [50.0, 200.0, 500.0], 'RNS', [0.0, 7.0]):
        e0 = m('eps_cd_0')(m('alpha_ds1')(c), m('alpha_ds2')(c), fcm, m('beta_RH')(rh))
        kh = m('k_h')(h)
        ts = [ts_] + [ts_ + d for d in (0.5, 1, 10, 100, 1000, 1e4, 1e6, 1e9)]
        monotone(R, f'eps_cd fcm={fcm} RH={rh} h={h} {c} ts={ts_}', ts, [m('eps_cd')(m('beta_ds')(t, ts_, h), kh, e0) for t in ts], limit=e0 * kh, ltol=1e-4 if e0 > 0 else None)
        ea = m('eps_ca_inf')(fcm - 8)
        tt = [0.0] + [t - ts_ for t in ts[1:]]
        monotone(R, f'eps_ca fcm={fcm}', tt, [m('eps_ca')(m('beta_as')(t), ea) for t in tt], limit=ea, ltol=1e-4)


jobs, run = cl.make(SPECS, {'arrays': arrays, 'maturity': maturity, 'chain': chain})
