from . import law_checks as lc
from .ref_laws import base_specs

RULE = '''State = (law with its parameters, strain); the strain alphabet of a law is every branch point
and ultimate strain with neighbours on both sides (rounding, inside and outside the tolerance band), plus a
dense grid beyond both limits. Transition = one get_stress call on the real law, compared with the scalar
reference model. Trace = one walk over the alphabet (forward scalar, backward np.float64, list, array,
reversed, 2d, strided).'''
ASSUMPTIONS = ['stress is a piecewise smooth function of strain: between grid points the reference formula is assumed to be followed']


def jobs(tier):
    n = len(base_specs(tier))
    return [(tier,) + c for c in lc.chunks(range(n), 24)]


def run(job, R):
    tier, a, b = job
    for spec in base_specs(tier)[a:b]:
        lc.check_stress(R, spec)
