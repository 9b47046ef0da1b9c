from . import law_checks as lc
from .ref_laws import base_specs

RULE = '''State = (law, strain) over the same alphabet as L01. Transition = one get_tangent/get_secant call compared
with the one-sided derivatives of the reference curve (both accepted exactly at a kink or limit), scalar against
list/array/2d/reversed. Trace = one walk over the alphabet.'''
ASSUMPTIONS = ['at a kink either one-sided derivative is accepted, but scalar and array evaluation must agree']


def jobs(tier):
    n = len(base_specs(tier))
    return [(tier,) + c for c in lc.chunks(range(n), 24)]


def run(job, R):
    tier, a, b = job
    for spec in base_specs(tier)[a:b]:
        lc.check_tangent(R, spec)
