import itertools
import math

import numpy as np

from . import seclib as sl
from .a02 import EXTRA
from .core import Exc, call

RULE = '''State = (section, gradient direction, strain at one extreme, strain at the other extreme): all pairs of strains from
an alphabet with every branch point and ultimate strain of the laws of the section (so that edges lie exactly on limits), values
between and beyond, for directions along the axes, along edges and oblique, plus uniform strains. Transition = one Marin
integration; trace = one plane whose N, My, Mz are compared with the exact slab integral of the reference law.'''
ASSUMPTIONS = [
    'N, mm units; relative accuracy 1e-8 of the force scale of the section',
    'laws without polynomial form (Sargin) are compared within their 10-interval discretisation',
]

DIRS = [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, 0.7, 2.1, -0.4, -2.5, math.pi / 2 + 1e-7, 3e-9]
ALL = {**sl.SECTIONS, **{k: v for k, v in EXTRA.items() if k != 'metres'}}
POLY = [k for k in sl.SECTIONS if k != 'sargin']


def alphabet(parts, tier):
    ks = sl.kink_strains(parts)
    neg = [k for k in ks if k < 0]
    pos = [k for k in ks if k > 0]
    al = {0.0}
    al |= {min(neg), max(neg), min(neg) * 1.5, max(neg) / 2} if neg else {-0.002}
    al |= {max(pos), min(pos), min(pos) / 3} if pos else {0.003}
    if tier == 'thorough':
        al |= set(ks) | {k * 1.3 for k in ks} | {-1e-7, 1e-6}
    return sorted(al)


def jobs(tier):
    return [(tier, s, i) for s in ALL for i in range(0, len(DIRS), 3)] + [(tier, 'moments', 0)]


def moments(tier, R):
    """Area moments of any order of closed polygons of both orientations."""
    from structuralcodes.sections import marin_integration

    shapes = {'L': sl.L_SHAPE, 'T': sl.T_SHAPE, 'U': sl.U_HOLE, 'tri': ((0.0, 0.0), (3.0, 0.0), (1.0, 2.0)), 'n5': sl.ngon(2.0, 5, 1.0, -3.0, 0.2)}
    top = 5 if tier == 'quick' else 8
    for nm, ring in shapes.items():
        k = max(abs(v) for p in ring for v in p)
        ring = [(y / k, z / k) for y, z in ring]
        T, W, m0, m1, m2 = sl.slab_points((ring,), 0.0, 1.0, [])
        a = sl.area_moments((ring,))[0]
        E = sl.edges_of((ring,))
        for m in range(top):
            for n in range(top):
                # integral of y^m z^n by Green: -1/(n+1) * closed integral of y^m z^(n+1) dy
                x, w = np.polynomial.legendre.leggauss(12)
                x, w = (x + 1) / 2, w / 2
                y = E[:, [0]] + (E[:, [2]] - E[:, [0]]) * x
                z = E[:, [1]] + (E[:, [3]] - E[:, [1]]) * x
                want = float((-(y**m) * z ** (n + 1) / (n + 1) * (E[:, [2]] - E[:, [0]]) * w).sum())
                for sg in (1, -1):
                    pts = (ring if (a > 0) == (sg > 0) else ring[::-1])
                    pts = list(pts) + [pts[0]]
                    want_s = want if a > 0 else -want
                    R.state((nm, m, n, sg))
                    R.step()
                    R.trace()
                    got = call(marin_integration, [p[0] for p in pts], [p[1] for p in pts], m, n)
                    R.eq(got, sg * want_s, f'moment {nm} y^{m} z^{n} orientation {sg}', 'marin_integration', rtol=1e-9, atol=1e-12)


def run(job, R):
    tier, name, i0 = job
    if name == 'moments':
        return moments(tier, R)
    parts = ALL[name]
    fs = sl.force_scale(parts)
    ms = fs * sl.size(parts)
    tol = 1e-8 if name != 'sargin' else 0.03
    al = alphabet(parts, tier)
    calc = sl.section(parts).section_calculator

    def check(strain, key):
        R.state((name, key))
        want = sl.resultants(parts, strain)
        got = call(calc.integrate_strain_profile, list(strain))
        R.step()
        R.trace()
        if isinstance(got, Exc):
            R.fail(f'{name} {key}', f'integration of {strain}: {got}')
            return
        R.outcome((name, tuple(np.round(want / ms, 4))))
        ok = abs(got[0] - want[0]) <= tol * fs and abs(got[1] - want[1]) <= tol * ms and abs(got[2] - want[2]) <= tol * ms
        R.true(ok, f'{name} {key}', f'plane {strain}: N,My,Mz {tuple(map(float, got))} expected {tuple(want)}')
        R.sample({'section': name, 'plane': strain, 'reference': want})

    for d in DIRS[i0:i0 + 3]:
        for a, b in itertools.product(al, al):
            if a == b:
                continue
            check(sl.plane(parts, d, a, b), f'dir={d:.9g} {a:.9g}..{b:.9g}')
    if i0 == 0:
        for e in sorted(set(al) | {k + s for k in sl.kink_strains(parts) for s in (-1e-5, 0, 1e-5)} | {1e-9, -0.001}):
            if any(abs(abs(e - k) - 1e-6 - 1e-5 * abs(k)) < 1e-7 for k in sl.kink_strains(parts)):
                continue
            check((e, 0.0, 0.0), f'uniform {e:.9g}')
