import itertools
import math

import numpy as np

from . import seclib as sl
from .a01 import ALL, alphabet
from .core import Exc, call

RULE = '''State = (section, integrator, plane) with planes from all pairs of an alphabet of extreme strains (branch points of the
laws approached from inside, values between them) in several directions and uniform strains, restricted to planes in which no
ultimate strain lies strictly inside a surface. Transition = integration of modulus or stress; trace = one plane: the matrix is
compared entry by entry with the exact integral of the slope of the reference law (Marin), with the slope summed over the fibres
and with central differences of the resultants of the same integrator (fibre), checked for symmetry, and compared with the sum
over sections made of the single geometries.'''
ASSUMPTIONS = [
    'point reinforcement lying within 2e-6 of a kink of its law is skipped (either one-sided tangent is right there)',
    'laws without polynomial form are compared within their discretisation',
]
DIRS = [math.pi / 2, 0.0, 0.7, -2.1, -math.pi / 2]


def jobs(tier):
    return [(tier, s, i, d) for s in sl.SECTIONS for i in ('marin', 'fiber') for d in range(len(DIRS))] + [(tier, s, 'marin', d) for s in ALL if s not in sl.SECTIONS for d in range(len(DIRS))]


def smooth(parts, strain):
    """No jump of the stress inside a surface, no bar at a kink."""
    for p in parts:
        spec = p[3] if p[0] == 'B' else p[2]
        r = sl.ref_law(spec)
        if p[0] == 'B':
            e = sl.strain_at(strain, *p[1])
            if any(abs(e - k) <= 2e-6 + 2e-5 * abs(k) for k in r.allkinks()):
                return False
        else:
            es = [sl.strain_at(strain, y, z) for y, z in p[1][0]]
            lo, hi = min(es), max(es)
            for k in r.lim:
                if abs(k) < 50 and r.cuts() and lo < k + 2e-6 + 2e-5 * abs(k) and hi > k - 2e-6 - 2e-5 * abs(k):
                    # the ultimate strain is inside or at the edge
                    if lo < k - 1e-9 and hi > k + 1e-9 or abs(hi - lo) < 1e-9:
                        return False
    return True


def run(job, R):
    tier, name, integ, di = job
    parts = ALL[name]
    size = sl.size(parts)
    K0 = sl.stiffness(parts, (0.0, 0.0, 0.0), -1)
    D = np.diag([1, 1 / size, 1 / size])
    ksc = max(np.abs(D @ K0 @ D).max(), sl.force_scale(parts) / 0.003)
    calc = sl.section(parts, integ, mesh_size=0.05).section_calculator
    pieces = [sl.section([p] if p[0] == 'S' else [parts[0], p], integ, mesh_size=0.05).section_calculator for p in parts] if di == 0 else []
    al = [0.93 * a for a in alphabet(parts, tier)] + [-0.0004]
    fibres = None
    if integ == 'fiber':
        mats = sl.Mats()
        from structuralcodes.sections import FiberIntegrator

        geo = sl.build(parts, mats)
        specs = {id(m.constitutive_law): k[0] for k, m in mats.d.items()}
        fibres = [(specs[id(q[3])], np.atleast_1d(q[0]), np.atleast_1d(q[1]), np.atleast_1d(q[2])) for q in FiberIntegrator().triangulate(geo, 0.05)]

    def check(strain, key, uniform=False):
        if integ == 'marin' and not smooth(parts, strain):
            return
        R.state((name, integ, key))
        K = call(calc.integrate_strain_profile, list(strain), 'modulus')
        R.step()
        R.trace()
        lab = f'{name} {integ} {key}'
        if isinstance(K, Exc) or np.shape(K) != (3, 3):
            R.fail(lab, f'modulus of {strain}: {K}')
            return
        K = np.asarray(K, dtype=float)
        R.true(bool((np.abs(D @ (K - K.T) @ D) <= 1e-9 * ksc).all()), lab + ' symmetry', f'matrix not symmetric {K}')
        if integ == 'marin':
            wants = [sl.stiffness(parts, strain, s) for s in (1, -1)]
            tol = 1e-7 if name != 'sargin' else 0.2
        else:
            wants, tol = [np.zeros((3, 3))], 1e-7
            for spec, y, z, a in fibres:
                r = sl.ref_law(spec)
                e = strain[0] + strain[1] * z - strain[2] * y
                if any(np.any(np.abs(e - k) <= 2e-6 + 2e-5 * abs(k)) for k in r.allkinks()):
                    return
                w = np.array([r.slope(float(v), 1) for v in e]) * a
                B = np.vstack((np.ones_like(y), z, -y))
                wants[0] += (B * w) @ B.T
        ok = any((np.abs(D @ (K - w) @ D) <= tol * ksc).all() for w in wants)
        R.true(ok, lab, f'plane {strain}: stiffness {K.tolist()} expected {wants[0].tolist()}')
        R.outcome((name, tuple(np.round((D @ K @ D / ksc).ravel(), 4))))
        # derivative of the resultants of the same integrator
        h = 2e-9
        if not uniform and name != 'sargin':
            smooth_h = True
            J = np.zeros((3, 3))
            for j in range(3):
                dv = np.zeros(3)
                dv[j] = h if j == 0 else h / size
                f = [call(calc.integrate_strain_profile, list(np.array(strain) + s * dv)) for s in (1, -1)]
                R.step(2)
                if any(isinstance(x, Exc) for x in f):
                    smooth_h = False
                    R.fail(lab + ' resultant', f'{f}')
                    break
                J[:, j] = (np.array(f[0], dtype=float) - np.array(f[1], dtype=float)) / (2 * dv[j])
            if smooth_h:
                R.true(bool((np.abs(D @ (K - J) @ D) <= 2e-3 * ksc).all()), lab + ' differences',
                       f'plane {strain}: stiffness {K.tolist()} but the resultants change by {J.tolist()}')
        if pieces:
            tot = np.zeros((3, 3))
            base = None
            for p, c in zip(parts, pieces):
                kk = call(c.integrate_strain_profile, list(strain), 'modulus')
                R.step()
                if isinstance(kk, Exc):
                    R.fail(lab + ' additive', f'{kk}')
                    return
                if p[0] == 'S':
                    base = kk if base is None else base
                    tot += kk
                else:
                    tot += kk - base
            R.true(bool((np.abs(D @ (K - tot) @ D) <= 1e-7 * ksc).all()), lab + ' additive', f'sum over the geometries {tot.tolist()}')

    for a, b in itertools.product(al, al):
        if a != b:
            check(sl.plane(parts, DIRS[di], a, b), f'dir={DIRS[di]:.6g} {a:.9g}..{b:.9g}')
    if di == 0:
        for e in sorted(set(al) | {0.0}):
            check((e, 0.0, 0.0), f'uniform {e:.9g}', True)
        if name == 'sargin':
            return
        # elastic rigidities at zero strain
        gp = call(lambda: sl.section(parts, integ, mesh_size=0.05).gross_properties)
        K = call(calc.integrate_strain_profile, [0.0, 0.0, 0.0], 'modulus')
        R.step(2)
        if isinstance(gp, Exc) or isinstance(K, Exc):
            R.fail(f'{name} {integ} rigidities', f'{gp} {K}')
        else:
            for nm, v, w, f in (('ea', gp.ea, K[0, 0], 1), ('e_sy', gp.e_sy, K[0, 1], size), ('e_sz', gp.e_sz, -K[0, 2], size),
                                ('e_iyy', gp.e_iyy, K[1, 1], size**2), ('e_izz', gp.e_izz, K[2, 2], size**2), ('e_iyz', gp.e_iyz, -K[1, 2], size**2)):
                R.eq(float(v), float(w), f'{name} {integ} {nm}', 'elastic rigidity', rtol=1e-7, atol=1e-7 * ksc * f)
    R.sample({'section': name, 'integrator': integ, 'K0': K0})
