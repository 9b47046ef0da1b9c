from . import law_checks as lc

RULE = '''Programs = every nesting of InitialStrain(strain, with/without compatibility) and Parallel(weights) up to depth 3
over an alphabet of base laws. For each composed law the exploration of L01 (stress), L02 (tangent, secant), L03 (limits)
and L04 (polynomial form) is repeated against the composed reference. State = (composed law, strain[, plane]);
transition = one call compared; trace = one walk.'''
ASSUMPTIONS = ['the tangent of a law without strain compatibility is only required to be negligible and consistent']

B = [
    ('ElasticPlastic', 200000.0, 500.0, 800.0, 0.03),
    ('Elastic', 31000.0, None),
    ('ParabolaRectangle', 30.0, 0.002, 0.0035, 2.0),
    ('BilinearCompression', 25.0, 0.00175, 0.0035),
    ('UserDefined', (-0.003, -0.001, 0.0, 0.0002, 0.001), (-20.0, -18.0, 0.0, 2.0, 0.0), 0, None),
    ('Sargin', 38.0, 0.0023, 0.0035, 2.04),
    ('UserDefined', (0.0, 0.002, 0.02), (0.0, 400.0, 600.0), 1, None),
]


def specs(tier):
    S1 = []
    for b in B:
        for e0 in (0.0, 0.001, -0.0005, 0.004):
            S1.append(('InitialStrain', b, e0, True))
        S1.append(('InitialStrain', b, -0.0008, False))
        S1.append(('InitialStrain', b, 0.0015, False))
    S2 = []
    for i, b in enumerate(B):
        for j, c in enumerate(B):
            w = (None, (0.4, 0.6), (2, 3))[(i + 2 * j) % 3]
            S2.append(('Parallel', (b, c), w))
    S2.append(('Parallel', (B[0],), (0.3,)))
    S2.append(('Parallel', (B[0], B[2], B[4]), (0.5, 1.5, 1.0)))
    S2.append(('Parallel', (B[1], B[1], B[1]), None))
    S3 = []
    for k, p in enumerate(S2):
        if tier == 'quick' and k % 4:
            continue
        for e0 in (0.0007, -0.001):
            S3.append(('InitialStrain', p, e0, True))
        S3.append(('InitialStrain', p, 0.0004, False))
    for k, p in enumerate(S1):
        if tier == 'quick' and k % 2:
            continue
        if not p[3]:
            continue
        S3.append(('Parallel', (p, B[2]), (1.0, 0.7)))
        S3.append(('Parallel', (p, ('InitialStrain', B[0], -0.0006, True)), None))
        S3.append(('InitialStrain', p, 0.0009, True))
        S3.append(('InitialStrain', p, -0.0009, False))
    for k, p in enumerate(S1):
        if not p[3] and k % 3 == 0:
            S3.append(('Parallel', (p, B[3]), (1.0, 0.5)))
            S3.append(('InitialStrain', p, 0.0003, True))
    if tier != 'quick':
        for p in S2[::3]:
            for q in S2[::5]:
                S3.append(('Parallel', (p, ('InitialStrain', q, 0.0005, True)), (0.3, 0.7)))
    return S1 + S2 + S3


def jobs(tier):
    n = len(specs(tier))
    return [(tier,) + c for c in lc.chunks(range(n), 48)]


def run(job, R):
    tier, a, b = job
    for spec in specs(tier)[a:b]:
        lc.check_stress(R, spec)
        lc.check_tangent(R, spec)
        lc.check_limits(R, spec)
        lc.check_marin(R, spec, lc.PLANES if tier != 'quick' else lc.PLANES[1::3])
