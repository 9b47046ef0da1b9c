"""Explorer of the formula modules of the design codes.

A *spec* is (label, function path, reference, axes...).  The reference is an
independent transcription of the clause; it returns the expected value or one
of the markers below.  A state is one argument tuple of the product of the
axes, a transition joins states that differ in one argument by one grid step
(thresholds and their floating-point neighbours are grid points), and a trace
is one call of the real function compared with the reference.
"""
from __future__ import annotations

import importlib
import itertools
import math
import os
import warnings

from .core import Exc, call, close, short


class _Marker:
    def __init__(self, name, types):
        self.name, self.types = name, types

    def __repr__(self):
        return self.name


V = _Marker('ValueError', (ValueError,))
T = _Marker('TypeError', (TypeError,))
VT = _Marker('ValueError or TypeError', (ValueError, TypeError))
E = _Marker('an exception', (Exception,))
SKIP = _Marker('not prescribed', ())


class Any(tuple):
    """Any of these values is acceptable."""


class Warned:
    def __init__(self, value, warn):
        self.value, self.warn = value, bool(warn)


def nb(x, rel=1e-9):
    """A threshold and its neighbours."""
    x = float(x)
    d = abs(x) * rel or rel
    return [x - d, x, x + d]


def near(*xs):
    out = []
    for x in xs:
        out += nb(x)
    return out


def refine(axis):
    out = []
    num = [a for a in axis if isinstance(a, (int, float)) and not isinstance(a, bool)]
    if len(num) != len(axis) or len(axis) < 3 or any(isinstance(a, int) for a in axis):
        return list(axis)
    s = sorted(num)
    for a, b in zip(s, s[1:]):
        out.append(a)
        if b - a > 1e-6 * max(abs(a), abs(b)):
            out.append(0.5 * (a + b))
    out.append(s[-1])
    return out


def outward(axis):
    """The axis continued beyond both ends (not across zero)."""
    num = [a for a in axis if isinstance(a, (int, float)) and not isinstance(a, bool)]
    if len(num) != len(axis) or len(axis) < 2 or any(isinstance(a, int) for a in axis):
        return list(axis)
    s = sorted(num)
    lo = [k * s[0] for k in ((0.1, 0.6) if s[0] > 0 else (5.0, 1.5))] if s[0] else []
    hi = [k * s[-1] for k in ((1.3, 6.0) if s[-1] > 0 else (0.6, 0.1))] if s[-1] else []
    return lo + s + hi


def resolve(path):
    mod, _, name = path.rpartition(':')
    obj = importlib.import_module('structuralcodes.codes.' + mod)
    for part in name.split('.'):
        obj = getattr(obj, part)
    return obj


class Spec:
    def __init__(self, path, ref, *axes, label=None, rtol=1e-9, atol=0.0, known=None, dense=True, out=True):
        self.path, self.ref, self.axes = path, ref, axes
        self.label = label or path.rpartition(':')[2]
        self.rtol, self.atol, self.known, self.dense, self.out = rtol, atol, known, dense, out


def judge(got, want, rtol, atol):
    if isinstance(want, _Marker):
        return isinstance(got, Exc) and issubclass(got.type, want.types)
    if isinstance(want, Any):
        return any(judge(got, w, rtol, atol) for w in want)
    if isinstance(got, Exc):
        return False
    if isinstance(want, dict):
        return (
            isinstance(got, dict)
            and set(got) == set(want)
            and all(judge(got[k], want[k], rtol, atol) for k in want)
        )
    if isinstance(want, tuple):
        try:
            got = tuple(got)
        except TypeError:
            return False
        return len(got) == len(want) and all(
            judge(g, w, rtol, atol) for g, w in zip(got, want)
        )
    if isinstance(want, bool):
        return bool(got) == want
    if isinstance(want, (int, float)):
        try:
            got = float(got)
        except (TypeError, ValueError):
            return False
    return close(got, want, rtol, atol)


def run_spec(sp, R, tier):
    fn = call(resolve, sp.path)
    if isinstance(fn, Exc):
        R.fail(f'{sp.label} missing', f'{sp.path}: {fn}')
        return
    axes = [list(a) for a in sp.axes]
    if sp.dense:
        most = 1000000 if tier == 'thorough' else 60000
        for k in range(6):
            dense = [refine(a) if k else outward(a) if sp.out else a for a in axes]
            n = 1
            for a in dense:
                n *= len(a)
            if n > most:
                if k == 0:
                    continue
                break
            axes = dense
    R.step(sum(max(len(a) - 1, 0) for a in axes))
    bad = 0
    for combo in itertools.product(*axes):
        try:
            want = sp.ref(*combo)
        except (ZeroDivisionError, OverflowError):
            continue
        if isinstance(want, complex) or want is SKIP:
            continue
        warn = None
        if isinstance(want, Warned):
            warn, want = want.warn, want.value
        if warn is None:
            got = call(fn, *combo)
            seen = None
        else:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = call(fn, *combo)
                seen = bool(w)
        R.state((sp.label, combo))
        R.trace()
        R.step()
        if not judge(got, want, sp.rtol, sp.atol):
            if sp.known is not None:
                k = sp.known(combo, got)
                if k is not None:
                    R.fail(k, f'{sp.label}{combo}: got {short(got)}, expected {short(want)}', {'args': combo})
                    continue
            bad += 1
            if bad <= 12:
                R.fail(f'{sp.label}{combo}', f'{sp.label}{combo}: got {short(got)}, expected {short(want)}', {'args': combo})
        elif warn is not None and warn != seen:
            bad += 1
            if bad <= 12:
                R.fail(f'{sp.label}{combo} warning', f'{sp.label}{combo}: warning {"missing" if warn else "not expected"}', {'args': combo})
        R.outcome((sp.label, 'exc' if isinstance(got, Exc) else short(got)[:12]))
    R.sample({'function': sp.path, 'points': len(R.states)})


def array_check(path, R, times, *args, tpos=0, label=None, atol=1e-15, skip=()):
    """The function over an array of times equals the scalar calls, and the
    caller's array is left alone."""
    import numpy as np

    fn = call(resolve, path)
    label = label or path.rpartition(':')[2]
    if isinstance(fn, Exc):
        R.fail(f'{label} missing', str(fn))
        return
    for a in itertools.product(*args):
        scal = []
        for t in times:
            b = list(a)
            b.insert(tpos, t)
            scal.append(call(fn, *b))
            R.trace()
        if any(isinstance(s, Exc) for s in scal):
            continue
        arr = np.array(times, dtype=float)
        keep = arr.copy()
        b = list(a)
        b.insert(tpos, arr)
        got = call(fn, *b)
        R.state((label, 'array', a))
        R.trace()
        R.step(len(times))
        ok = not isinstance(got, Exc) and close(
            np.asarray(got, dtype=float).ravel(), np.array(scal, dtype=float), 1e-12, atol
        )
        if not ok:
            R.fail(f'{label}{a} array', f'array call {short(got)}, scalar calls {short(np.array(scal, dtype=float))}')
        if not np.array_equal(arr, keep):
            R.fail(f'{label}{a} mutates', 'the array of the caller was changed')
        again = call(fn, *b)
        if not ok or not close(again, got, 0, 0):
            if ok:
                R.fail(f'{label}{a} repeat', 'a second call with the same array differs')
        # the same values in another form, and in another order
        forms = {'list': list(times), 'tuple': tuple(times), 'reversed': np.array(times, dtype=float)[::-1], 'column': np.array(times, dtype=float)[:, None], 'one': np.array(times[-1:], dtype=float)}
        k = len(times) // 2
        if times[k:] and all(float(t).is_integer() for t in times[k:]):
            forms['whole numbers'] = np.array([int(t) for t in times[k:]])
        wants = {'reversed': scal[::-1], 'one': scal[-1:], 'whole numbers': scal[k:]}
        for nm, x in forms.items():
            if nm in skip:
                continue
            b = list(a)
            b.insert(tpos, x)
            got = call(fn, *b)
            R.trace()
            R.step(len(times))
            if isinstance(got, Exc) or not close(np.asarray(got, dtype=float).ravel(), np.array(wants.get(nm, scal), dtype=float), 1e-12, atol):
                R.fail(f'{label}{a} as {nm}', f'call {short(got)}, scalar calls {short(np.array(wants.get(nm, scal), dtype=float))}')


def monotone(R, label, ts, vals, zero=True, sign=1, limit=None, ltol=None):
    """Development law: starts at zero, never decreases, stays below limit."""
    v = [sign * float(x) for x in vals]
    R.trace()
    R.step(len(v))
    R.state((label,))
    if zero and abs(v[0]) > 1e-12:
        R.fail(f'{label} start', f'value {v[0]} at the start')
    for (t0, a), (t1, b) in zip(zip(ts, v), zip(ts[1:], v[1:])):
        if not b >= a - 1e-12 * max(1, abs(a)):
            R.fail(f'{label} decreases at {t1}', f'{a} at {t0}, {b} at {t1}')
            return
    if limit is not None:
        if v[-1] > limit * (1 + 1e-9):
            R.fail(f'{label} exceeds its limit', f'{v[-1]} > {limit}')
        if ltol is not None and v[-1] < limit * (1 - ltol):
            R.fail(f'{label} does not approach its limit', f'{v[-1]} after {ts[-1]}, limit {limit}')


def make(specs, extras=None):
    """jobs(tier), run(job, R) for a module of specs."""
    extras = extras or {}

    def jobs(tier):
        return [('spec', i, s.label) for i, s in enumerate(specs)] + [('extra', 0, k) for k in sorted(extras)]

    def run(job, R):
        tier = os.environ.get('VERIF_TIER', 'quick')
        kind, i, label = job
        if kind == 'spec':
            run_spec(specs[i], R, tier)
        else:
            extras[label](R, tier)

    return jobs, run


RULE = (
    'State: one argument tuple of the product of the argument axes of one public formula function; '
    'the axes contain every branch threshold of the clause with its floating-point neighbours, the '
    'limits of every validity range with values outside, and every option string in several spellings. '
    'Transition: one grid step along one axis. Trace: one call of the real function judged against an '
    'independent transcription of the clause. The product, continued beyond both ends and refined between the grid points as far as its size allows, is enumerated completely.'
)
