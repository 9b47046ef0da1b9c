"""C11: Model Code 2010 bond of reinforcing bars."""
import itertools
from math import sqrt

from . import code_lib as cl
from .code_lib import V, VT, Warned, Spec, nb, resolve
from .core import Exc, call

RULE = cl.RULE + ' Chains compose the slip values of the bond law for every option combination.'
ASSUMPTIONS = ['The confinement option is only prescribed for the splitting failure mode.']
P = 'mc2010:'
BOND = ['good', 'other', 'Good', 'OTHER', 'goOd', '', 'bad', 'good ', None, 1, 'g']
CONF = ['unconfined', 'stirrups', 'Unconfined', 'STIRRUPS', '', 'none', None, 2, 'stirrup']
FAIL = ['PO', 'SP', 'po', 'sp', 'Sp', 'pO', '', 'P', None, 3, 'POSP']
FCM = [12.0, *nb(15), 25.0, 38.0, 58.0, *nb(110), 120.0]
PHI = [8.0, 12.0, 16.0, 25.0, 32.0]
CM = [4.0, 8.0, 16.0, 28.0, 40.0, 56.0, 112.0]
CX = [1.0, 1.2, 2.0, 4.0, 4.999999, 5.0, 5.000001, 6.0]
KM = [0.0, 6.0, 12.0]
KT = [0.0, 0.01, 0.02, *nb(0.05), 0.08]


def opt(v, *names):
    return v.lower() if isinstance(v, str) and v.lower() in names else None


def bond(b):
    return opt(b, 'good', 'other')


def pick(g, o):
    return lambda b, *a: V if bond(b) is None else (g if bond(b) == 'good' else o)


def s3(f, b, c, cc, s1):
    f, b = opt(f, 'po', 'sp'), bond(b)
    if f is None or b is None:
        return V
    if f == 'po':
        return cc
    c = opt(c, 'unconfined', 'stirrups')
    return V if c is None else 1.2 * s1 if c == 'unconfined' else 0.5 * cc


def split(e, f, ph, cm, cx, km, kt):
    return e * 6.5 * (f / 25) ** 0.25 * (25 / ph) ** 0.2 * ((cm / ph) ** 0.33 * (cx / cm) ** 0.1 + km * kt)


def fstm(f, ph, lb, cm, r, km, kt):
    v = 54 * (f / 25) ** 0.25 * (25 / ph) ** 0.2 * (lb / ph) ** 0.55 * ((cm / ph) ** 0.25 * r**0.1 + km * kt)
    return Warned(v, not (15 < f < 110 and 0.5 < cm / ph < 3.5 and 1 < r < 5 and kt <= 0.05))


SPECS = [
    Spec(P + 'eta_2', pick(1.0, 0.7), BOND),
    Spec(P + 's_1', pick(1.0, 1.8), BOND),
    Spec(P + 's_2', pick(2.0, 3.6), BOND),
    Spec(P + 'tau_bmax', lambda b, f: V if bond(b) is None else (2.5 if bond(b) == 'good' else 1.25) * sqrt(f), BOND, FCM),
    Spec(P + 's_3', s3, FAIL, BOND, CONF, [10.0, 14.0, 30.0], [1.0, 1.8]),
    Spec(P + 'tau_bu_split', lambda e, f, p, c, r, k, t: split(e, f, p, c, r, k, t), [1.0, 0.7], FCM, PHI, [20.0, 25.0, 40.0], [20.0, 40.0, 60.0, 100.0], KM, KT, dense=False),
    Spec(P + 'K_tr', lambda n, A, nb_, p, s: min(n * A / (nb_ * p * s), 0.05), [1.0, 2.0, 3.0], [28.0, 50.0, 113.0], [1.0, 2.0, 4.0], [12.0, 20.0, 32.0], [50.0, 100.0, 300.0]),
    Spec(P + 's_tau_bu_split', lambda a, b, al, s: (b / a) ** (1 / al) * s, [10.0, 15.0, 20.0], [0.0, 5.0, 10.0, 15.0], [0.2, 0.4, 1.0], [1.0, 1.8]),
    Spec(P + 'tau_yield', lambda f, l, p: f / (4 * l / p), [400.0, 500.0], [50.0, 200.0, 500.0], PHI),
]


def fst(R, tier):
    """f_stm over cover ratios given as multiples of the bar diameter."""
    import warnings

    f = resolve(P + 'f_stm')
    ratio = [0.4, 0.5, 0.50001, 1.0, 2.0, 3.4999, 3.5, 3.6]
    lb = [10.0, 20.0, 50.0]
    for fc, ph, l, c, r, km, kt in itertools.product(FCM, [8.0, 16.0, 32.0], lb, ratio, CX, [0.0, 12.0], KT):
        cm = c * ph
        cx = r * cm
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = call(f, fc, ph, l * ph, cm, cx, km, kt)
        want = fstm(fc, ph, l * ph, cm, cx / cm, km, kt)
        key = (fc, ph, l, c, r, km, kt)
        R.state(key)
        R.step()
        R.trace()
        if isinstance(got, Exc):
            R.fail(f'f_stm {key}', str(got))
            return
        R.eq(got, want.value, f'f_stm {key}')
        if bool(w) != want.warn:
            R.fail(f'f_stm {key} warning', f'warning expected: {want.warn}')
            return


def slips(R, tier):
    """The composed law for each option: s_1 <= s_2, splitting slip below s_1
    exactly when the splitting strength is below the pull-out strength, and
    both the strengths and slips keep the ratios of the table."""
    F = {n: resolve(P + n) for n in ('eta_2', 'tau_bmax', 'tau_bu_split', 's_1', 's_2', 's_3', 's_tau_bu_split', 'K_tr')}
    for b, fc, ph, c, r, km, st in itertools.product(['good', 'other'], FCM, PHI, [0.6, 1.0, 2.0, 3.4], [1.1, 2.0, 4.9], KM, [50.0, 150.0, 400.0]):
        kt = call(F['K_tr'], 2, 78.5, 2, ph, st)
        e = call(F['eta_2'], b)
        ts = call(F['tau_bu_split'], e, fc, ph, c * ph, r * c * ph, km, kt)
        tm = call(F['tau_bmax'], b, fc)
        s1, s2 = call(F['s_1'], b), call(F['s_2'], b)
        ss = call(F['s_tau_bu_split'], tm, ts, 0.4, s1)
        key = (b, fc, ph, c, r, km, st)
        R.state(key)
        R.step()
        R.trace(7)
        vals = (kt, e, ts, tm, s1, s2, ss)
        if any(isinstance(v, Exc) for v in vals):
            R.fail(f'slips {key}', str(vals))
            return
        wt = split({'good': 1.0, 'other': 0.7}[b], fc, ph, c * ph, r * c * ph, km, min(2 * 78.5 / (2 * ph * st), 0.05))
        R.eq(ts, wt, f'splitting strength {key}')
        R.eq(tm * (ss / s1) ** 0.4, ts, f'bond law at the splitting slip {key}')
        if not s1 < s2 or (ss < s1) != (ts < tm):
            R.fail(f'slips {key} order', f'{vals}')


jobs, run = cl.make(SPECS, {'fstm': fst, 'slips': slips})
