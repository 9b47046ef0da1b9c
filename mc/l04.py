from . import law_checks as lc
from .ref_laws import base_specs

RULE = '''State = (law, strain plane eps0+eps1*z, strain). For every plane of the alphabet (uniform strains at all branch
points and beyond, 12 gradients of both signs) the polynomial pieces returned by the law are evaluated at every strain
of the law's alphabet and compared with the reference stress / derivative; pieces may not overlap, and give nothing
outside. Transition = one coefficient call or one evaluated point; trace = one plane.'''
ASSUMPTIONS = ['laws without polynomial form (Sargin, Popovics, parabola exponent != 2) are discretised by the library: the error bound of a linear interpolation with 9 equal steps is accepted there']


def jobs(tier):
    n = len(base_specs(tier))
    return [(tier,) + c for c in lc.chunks(range(n), 24)]


def run(job, R):
    tier, a, b = job
    for spec in base_specs(tier)[a:b]:
        lc.check_marin(R, spec, lc.PLANES)
