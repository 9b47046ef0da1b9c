import itertools
import math

import numpy as np

from . import seclib as sl
from . import a05
from .a05 import NAMES, limits
from .core import Exc, call

RULE = '''State = (section, integrator, neutral axis angle, options). Options: every combination of number of points per field over
{0..3} for pairs of fields, total numbers on both sides of every rounding threshold, every spacing type of every field, complete or
not, invalid ones. Transition = one domain; trace = every point checked as a certificate (forces of the strain state, inclination
and side, no point beyond its ultimate strain, one at it except in the field pivoting inside the section, pivots and strains of
the field prescribed by the six-field method), counts and field numbers; N-M-M and M-M domains equal the N-M domains and the
bending strengths of the same angles.'''
ASSUMPTIONS = [
    'strains at the limit within 1e-6 relative; forces within 1e-8 of the section resultants',
    'pivot of field 6 in reinforced concrete: strain at the peak of the concrete law at (1-eps_c2/eps_cu) h from the compressed edge (EN 1992-1-1 6.1), no point at its ultimate strain there',
    'exact strains per field are not compared where two pairs of materials govern the balanced failure at once, nor for a geometric spacing between strains of opposite sign',
]
TH = {'quick': [0.0, 0.7, math.pi, -1.9, 5.0], 'thorough': [i * math.pi / 12 for i in range(-12, 25)] + [0.7, -1.9, 5.0]}
SIMPLE = ['rect', 'T', 'hollow', 'circle', 'steel']
# a steel shape above the concrete, a concrete part below the bars, bars outside the concrete, a weak bar
MORE = {
    'steel_above': [('S', (sl.rect(300, 500),), sl.C, True), ('S', (sl.rect(100, 150, 0, 325),), ('ElasticPlastic', 210000.0, 355.0, 0.0, 0.2), False)] + sl.bars([(-100, -210), (100, -210)], 20, sl.S),
    'steel_below': [('S', (sl.rect(300, 500),), sl.C, True), ('S', (sl.rect(100, 150, 20, -325),), ('ElasticPlastic', 210000.0, 355.0, 0.0, 0.2), False)] + sl.bars([(-100, -210), (100, -210)], 20, sl.S),
    'bars_outside': [('S', (sl.rect(300, 500),), sl.C, True)] + sl.bars([(-100, -310), (100, -310), (0, 290)], 20, sl.S),
    'layers': [('S', (sl.rect(300, 200, 0, 150),), sl.C, True), ('S', (sl.rect(300, 300, 0, -100),), ('ParabolaRectangle', 60.0, 0.0023, 0.0027, 2.0), True)] + sl.bars([(-100, -210), (100, -210)], 20, sl.SH) + sl.bars([(0, 100)], 12, sl.S),
    'steels': [('S', (sl.rect(200, 300),), sl.ST, False), ('S', (sl.rect(60, 100, 10, 200),), ('ElasticPlastic', 200000.0, 600.0, 0.0, 0.02), False)] + sl.bars([(0, -200)], 30, sl.S),
}
EXACT = SIMPLE + list(MORE) + ['L', 'composite', 'two', 'disjoint', 'prestressed', 'two_concretes', 'two_steels', 'steel_core', 'steel2', 'tube', 'twins', 'comb']
DEF = (1, 2, 15, 10, 3, 4)
DEFT = ('linear', 'linear', 'geometric', 'linear', 'linear', 'linear')
TYPES = ('linear', 'geometric', 'quadratic')


def parts_of(name):
    return MORE[name] if name in MORE else a05.parts_of(name)


def jobs(tier):
    out = [(tier, 'cert', n, i) for n in (*NAMES, *MORE) for i in ('marin', 'fiber')]
    out += [(tier, 'opt', n, i) for n in EXACT for i in ('marin', 'fiber')]
    return out + [(tier, 'nmm', n, i) for n in NAMES for i in ('marin', 'fiber')]


def space(a, b, n, kind, endpoint=False):
    """n values from a to b, the end left out unless the spacing is quadratic."""
    if n == 0:
        return np.array([])
    if kind == 'quadratic':
        return b + (a - b) * (np.array([1.0 - i / (n - 1) for i in range(n)]) if n > 1 else np.array([0.0])) ** 2
    if kind == 'linear':
        return np.array([a + (b - a) * i / n for i in range(n)])
    eps = 1e-10
    geo = lambda p, q, m: np.array([p * (q / p) ** (i / m) for i in range(m)])
    if a != 0 and b != 0:
        return geo(a, b, n)
    if b == 0:
        return np.append(geo(a, math.copysign(eps, a), n - 1), 0)
    return np.insert(geo(math.copysign(eps, b), b, n - 1), 0, 0)


def pair(parts, t, yielding):
    """(yn, eps_n, yp, eps_p, margin): points whose limits are reached first for increasing curvature (the smallest curvature)."""
    rc = any(p[0] == 'S' and p[3] for p in parts)
    ends = []
    for p in parts:
        law = sl.ref_law(p[3] if p[0] == 'B' else p[2])
        ts = [t(*p[1])] if p[0] == 'B' else [t(*q) for q in p[1][0]]
        con = p[0] == 'S' and p[3]
        # in compression the yield strain is that of the concrete; the others at their ultimate strain
        neg = (law.yld if yielding and (con or not rc) else law.lim)[0]
        pos = (law.yld if yielding else law.lim)[1]
        ends.append((max(ts), neg, min(ts), pos))
    best = sorted((((pos - neg) / (yn - yp), yn, neg, yp, pos) for yn, neg, _, _ in ends for _, _, yp, pos in ends if yn > yp + 1e-9 * abs(yn - yp)), key=lambda v: v[0])
    distinct = [v for v in best[1:] if max(abs(v[i] - best[0][i]) for i in (1, 3)) > 1e-9 * (1 + abs(v[1]) + abs(v[3])) or v[2] != best[0][2] or v[4] != best[0][4]]
    gap = distinct[0][0] / best[0][0] - 1 if distinct else 1.0
    return best[0][1:], gap


def expected(parts, th, nums, types):
    """Strains of the six-field method; None where two pairs of materials govern at once (either is admissible)."""
    c, s = math.cos(th), math.sin(th)
    t = lambda y, z: c * z - s * y
    surf = [p for p in parts if p[0] == 'S']
    low = min(t(*q) for p in surf for q in p[1][0])
    rc = any(p[3] for p in surf)
    (_, e0, _, ey), g1 = pair(parts, t, True)
    (yn, eu, yp, su), g2 = pair(parts, t, False)
    if min(g1, g2) < 1e-7 or not (math.isfinite(eu) and math.isfinite(su)):
        return None
    h = yn - low
    n1, n2, n3, n4, n5, n6 = nums
    lim5 = eu * (h - (yn - yp)) / h
    if not rc and abs(lim5) < 1e-12 * abs(eu):
        lim5 = 0.0
    if lim5 * eu < 0 and (types[4] == 'geometric' or types[5] == 'geometric'):
        return None  # no geometric series across zero
    top = [space(su, 0, n1, types[0]), space(0, eu, n2, types[1]), np.full(n3 + n4 + n5, eu)]
    bot = [np.full(n1 + n2, su), space(su, ey, n3, types[2]), space(ey, 0, n4, types[3]), space(0, lim5, n5, types[4])]
    if rc:
        b6 = np.append(space(lim5, e0, n6 - 1, types[5]), e0)
        tp = yn - (1 - e0 / eu) * h
        t6 = e0 + (b6 - e0) * (yn - tp) / (yp - tp)
    else:
        b6 = np.append(space(lim5, eu, n6 - 1, types[5]), eu)
        t6 = np.full(n6, eu)
    top, bot = np.concatenate(top + [t6]), np.concatenate(bot + [b6])
    k = (top - bot) / (yn - yp)
    ea = top - k * yn
    # no other material beyond its own limits
    lo, hi = np.full(len(ea), -np.inf), np.full(len(ea), np.inf)
    for p in parts:
        law = sl.ref_law(p[3] if p[0] == 'B' else p[2])
        for y in ([t(*p[1])] if p[0] == 'B' else [f(t(*q) for q in p[1][0]) for f in (min, max)]):
            lo, hi = np.maximum(lo, law.lim[0] - k * y), np.minimum(hi, law.lim[1] - k * y)
    ea = np.minimum(np.maximum(ea, lo), hi)
    return ea, k, max(abs(eu), abs(su)), h


def check_domain(R, lab, parts, integ, own, fs, size, th, nums, d, field=None):
    st, fo, fn = np.asarray(d.strains, dtype=float), np.asarray(d.forces, dtype=float), np.asarray(d.field_num)
    m = sum(nums)
    want = np.repeat(np.arange(1, 7), nums) if field is None else field
    ok = R.true(st.shape == (len(want), 3) and fo.shape == (len(want), 3), f'{lab} shape', f'{st.shape} {fo.shape} for {len(want)} profiles')
    ok = R.true(fn.shape == want.shape and bool(np.all(fn == want)), f'{lab} fields', f'field numbers {fn} expected {want}') and ok
    if not ok:
        return
    for a, b in ((d.n, fo[:, 0]), (d.m_y, fo[:, 1]), (d.m_z, fo[:, 2]), (d.e_a, st[:, 0]), (d.k_y, st[:, 1]), (d.k_z, st[:, 2])):
        R.true(np.array_equal(np.asarray(a), b), f'{lab} accessors', 'columns of the arrays')
    c, s = math.cos(th), math.sin(th)
    for i in range(len(want)):
        ea, ky, kz = st[i]
        k, off = ky * c + kz * s, -ky * s + kz * c
        sc = max(abs(ea), math.hypot(ky, kz) * size, 1e-9)
        # second half of a complete domain is for theta + pi
        sgn = 1.0 if i < m else -1.0
        R.true(abs(off) * size <= 1e-9 * sc, f'{lab} inclination {i}', f'curvature {ky, kz}')
        R.true(sgn * k * size <= 1e-9 * sc, f'{lab} side {i}', f'curvature {k} compresses the wrong side')
        u, w = sl.utilisation(parts, st[i])
        R.true(u <= 1 + 1e-6, f'{lab} beyond {i}', f'{w} beyond the ultimate strain, ratio {u}, field {fn[i]}')
        rc = any(p[0] == 'S' and p[3] for p in parts)
        if fn[i] < 6 or not rc:
            R.true(u >= 1 - 1e-6, f'{lab} boundary {i}', f'largest ratio of ultimate strain {u} in field {fn[i]}')
        ex = sl.resultants(parts, st[i]) if integ == 'marin' else np.array(own(list(st[i])), dtype=float)
        R.true(abs(fo[i, 0] - ex[0]) <= 1e-2 + 2e-8 * fs and np.all(np.abs(fo[i, 1:] - ex[1:]) <= 1 + 2e-8 * fs * size), f'{lab} forces {i}',
               f'{fo[i]} but the strains {st[i]} give {ex}')


def same_strains(R, lab, parts, th, nums, types, st):
    ref = expected(parts, th, nums, types)
    if ref is None:
        return
    ea, k, es, h = ref
    c, s = math.cos(th), math.sin(th)
    got = np.asarray(st, dtype=float)[: len(ea)]
    R.eq(got[:, 0], ea, f'{lab} axial strains', 'axial strains', atol=1e-9 * es)
    R.eq(got[:, 1], k * c, f'{lab} curvatures y', 'curvatures', atol=1e-9 * es / h)
    R.eq(got[:, 2], k * s, f'{lab} curvatures z', 'curvatures', atol=1e-9 * es / h)


def run(job, R):
    tier, kind, name, integ = job
    parts = parts_of(name)
    fs, size = sl.force_scale(parts), sl.size(parts)
    new = lambda: sl.section(parts, integ, mesh_size=0.05).section_calculator
    calc, own = new(), new().integrate_strain_profile
    lab = f'{name} {integ}'
    R.sample({'section': name, 'integrator': integ, 'kind': kind})
    if kind == 'cert':
        for th in TH[tier]:
            for opt in ({}, {'num': 60}, {'num_1': 2, 'num_3': 4, 'num_6': 3, 'type_3': 'linear', 'complete_domain': True}):
                nums = numbers(opt)
                l2 = f'{lab} theta={th:.4g} {sorted(opt.items())}'
                d = call(calc.calculate_nm_interaction_domain, th, **opt)
                R.step()
                R.state((name, integ, th, repr(opt)))
                if isinstance(d, Exc):
                    R.fail(l2, f'{d}')
                    continue
                R.true(d.theta == th, f'{l2} theta', f'theta {d.theta}')
                field = None
                if opt.get('complete_domain'):
                    f = np.repeat(np.arange(1, 7), nums)
                    field = np.concatenate((f, f[-2:0:-1]))
                    # union: the second half are the states of theta + pi in reverse order
                    o = calc.calculate_nm_interaction_domain(th + math.pi, **{k: v for k, v in opt.items() if k != 'complete_domain'})
                    R.step()
                    m = sum(nums)
                    if len(d.strains) == 2 * m - 2:
                        R.eq(np.asarray(d.strains[m:]), np.asarray(o.strains[-2:0:-1]), f'{l2} union strains', 'strains', rtol=1e-9, atol=1e-12)
                        R.eq(np.asarray(d.forces[m:]), np.asarray(o.forces[-2:0:-1]), f'{l2} union forces', 'forces', rtol=1e-9, atol=1e-7 * fs * size)
                check_domain(R, l2, parts, integ, own, fs, size, th, nums, d, field)
                R.outcome((round(float(d.forces[0][0]), 0), len(d.strains)))
                R.trace()
    elif kind == 'opt':
        th = 0.7
        todo = []
        for i, j in itertools.combinations(range(6), 2):
            for a, b in itertools.product((0, 1, 2, 3), (0, 1, 3)):
                if (i == 5 and a == 0) or (j == 5 and b == 0):
                    continue
                nums = list(DEF)
                nums[i], nums[j] = a, b
                todo.append({f'num_{k + 1}': nums[k] for k in (i, j)})
        for i in range(6):
            for ty in TYPES + tuple(t.upper() for t in TYPES):
                for m in (1, 2, 3, 5):
                    # a geometric field starting or ending at zero strain needs two points
                    if 'geometric' in ty.lower() and m == 1 and i != 2:
                        continue
                    todo.append({f'num_{i + 1}': m + (i == 5), f'type_{i + 1}': ty})
        todo += [{'num': v} for v in (0, 1, 34, 35, 36, 52, 53, 69, 70, 71, 105, 200)]
        todo += [{'num': v, 'num_1': 0, 'num_2': 1, 'num_3': 2, 'num_4': 3, 'num_5': 4, 'num_6': 5} for v in (1, 8, 9, 11, 12, 17, 18, 35, 44, 60)]
        for opt in todo:
            nums, types = numbers(opt), list(DEFT)
            for k, v in opt.items():
                if k.startswith('type'):
                    types[int(k[-1]) - 1] = v.lower()
            # no geometric series between strains of opposite signs, or when all are zero
            if name in ('steel', 'bars_outside', 'disjoint', 'tube', 'steel2') and 'geometric' in types[4:]:
                continue
            l2 = f'{lab} {sorted(opt.items())}'
            d = call(calc.calculate_nm_interaction_domain, th, **opt)
            R.step()
            R.state((name, integ, repr(opt)))
            if isinstance(d, Exc):
                R.fail(l2, f'{d}')
                continue
            if R.true(len(d.strains) == sum(nums) and np.array_equal(np.asarray(d.field_num), np.repeat(np.arange(1, 7), nums)), f'{l2} fields',
                      f'{len(d.strains)} profiles in fields {d.field_num}, requested {nums}'):
                same_strains(R, l2, parts, th, nums, types, d.strains)
            R.trace()
            R.outcome(tuple(nums))
        for th2 in TH[tier]:
            d = calc.calculate_nm_interaction_domain(th2)
            R.step()
            R.state((name, integ, th2))
            same_strains(R, f'{lab} theta={th2:.4g}', parts, th2, DEF, DEFT, d.strains)
        for i in range(1, 7):
            for opt in ({f'num_{i}': -1}, {f'type_{i}': 'cubic'}, {f'type_{i}': ''}):
                d = call(calc.calculate_nm_interaction_domain, th, **opt)
                R.step()
                R.state((name, integ, repr(opt)))
                R.true(isinstance(d, Exc) and d.type is ValueError, f'{lab} invalid {opt}', f'accepted {opt}: {type(d).__name__}')
    else:
        small = {'num_3': 3, 'num_4': 2, 'num_5': 1, 'num_6': 2, 'type_4': 'quadratic'}
        for nt in (1, 2, 3, 6):
            for opt in (small, {'num': 20}):
                nums = numbers(opt)
                l2 = f'{lab} nmm {nt} {sorted(opt)}'
                d = call(new().calculate_nmm_interaction_domain, nt, **opt)
                R.step()
                R.state((name, integ, 'nmm', nt, repr(opt)))
                if isinstance(d, Exc):
                    R.fail(l2, f'{d}')
                    continue
                m = sum(nums)
                R.true(d.num_theta == nt, f'{l2} num_theta', f'{d.num_theta}')
                if not R.true(len(d.strains) == nt * m and np.array_equal(np.asarray(d.field_num), np.tile(np.repeat(np.arange(1, 7), nums), nt)), f'{l2} fields',
                              f'{len(d.strains)} points, fields {d.field_num}'):
                    continue
                for i in range(nt):
                    th = 0.0 if nt == 1 else 2 * math.pi * i / (nt - 1)
                    o = calc.calculate_nm_interaction_domain(th, **opt)
                    R.step()
                    R.eq(np.asarray(d.strains[i * m:(i + 1) * m]), np.asarray(o.strains), f'{l2} strains {i}', 'strains', rtol=1e-9, atol=1e-12)
                    R.eq(np.asarray(d.forces[i * m:(i + 1) * m]), np.asarray(o.forces), f'{l2} forces {i}', 'forces', rtol=1e-9, atol=1e-7 * fs * size)
                R.trace()
        lo, hi, *_ = limits(parts)
        for f in (-0.6, 0.0, 0.2):
            n = float(-f * lo if f < 0 else f * hi)
            for nt in (1, 3, 4):
                l2 = f'{lab} mm n={f} {nt}'
                d = call(calc.calculate_mm_interaction_domain, n, nt)
                R.step()
                R.state((name, integ, 'mm', f, nt))
                if isinstance(d, Exc):
                    R.fail(l2, f'{d}')
                    continue
                R.true(d.num_theta == nt and len(d.theta) == nt and len(d.strains) == nt and len(d.forces) == nt, f'{l2} shape', f'{d}')
                for i in range(nt):
                    th = 0.0 if nt == 1 else 2 * math.pi * i / (nt - 1)
                    R.true(abs(float(d.theta[i]) - th) <= 1e-12, f'{l2} angle {i}', f'{d.theta[i]}')
                    r = calc.calculate_bending_strength(th, n)
                    R.step()
                    R.true(abs(d.forces[i][0] - n) <= 0.02, f'{l2} n {i}', f'{d.forces[i]}')
                    R.eq(np.asarray(d.forces[i][1:], dtype=float), np.array([r.m_y, r.m_z]), f'{l2} forces {i}', 'moments', rtol=1e-6, atol=1e-6 * fs * size)
                    u, w = sl.utilisation(parts, d.strains[i])
                    R.true(abs(u - 1) <= 1e-6, f'{l2} boundary {i}', f'{w} ratio {u}')
                    R.true(abs(np.array(own(list(d.strains[i])))[0] - n) <= 0.02 + 1e-8 * fs, f'{l2} equilibrium {i}', f'{d.strains[i]}')
                R.trace()


def numbers(opt):
    """Points per field: the requested ones, or at least the share of the total (1, 2, 15, 10, 3, 4 of 35, rounded down)."""
    nums = [opt.get(f'num_{i + 1}', DEF[i]) for i in range(6)]
    if 'num' in opt:
        nums = [max(opt['num'] * DEF[i] // 35, nums[i]) for i in range(6)]
    return nums
