import sys
import threading

import numpy as np

from . import core
from . import seclib as sl
from .a05 import limits
from .core import Exc, call
from .s01 import plain, same

RULE = '''Stateless exploration of the real code under a controlled scheduler: two threads run one analysis each, on separate sections
that share materials, laws and (pattern "geometry") the geometry object. Every source line of the library is a scheduling point
(sys.settrace), exactly one thread runs at a time. Enumerated: (1) every schedule with one preemption for evaluations of shared laws, materials and
integrations, one preemption at the first visit of every second distinct source line (thorough: first three and last visit of every line) for the long analyses; (2) every schedule with two
preemptions (A to i, B to j, A to its end, B to its end) for laws and lazily derived values, over the first visits of every line.
State = (programs, schedule), transition = one scheduled segment, trace = one schedule: both results are compared with the results of the same programs run one after the other.'''
ASSUMPTIONS = [
    'preemption between source lines of the library; calls into numpy, shapely, triangle are atomic (they hold the GIL at this granularity)',
    'two threads; lines executed in loops are preempted at their first visit (thorough: first three and last) in the long analyses',
]
JOB_LIMIT_S = 800


class Sched:
    """Runs two functions under a schedule of (thread, number of lines) segments."""

    def __init__(self, fns, segments, prefix):
        self.fns, self.seg, self.prefix = fns, list(segments), prefix
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.count = [0, 0]
        self.pos = 0
        self.left = None
        self.lines = [[], []]
        self.record = False

    def switch(self):
        """Go to the next segment that can run; the caller waits if it is not its own."""
        while self.pos < len(self.seg) and self.done[self.seg[self.pos][0]]:
            self.pos += 1
        if self.pos >= len(self.seg):
            return None
        who, n = self.seg[self.pos]
        self.left = n
        return who

    def body(self, me):
        self.sem[me].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.count[me] += 1
                if self.record:
                    self.lines[me].append((frame.f_code.co_filename, frame.f_lineno))
                if self.left is not None:
                    self.left -= 1
                    if self.left == 0:
                        self.pos += 1
                        if not self.record and not any(n for _, n in self.seg[self.pos:]):
                            sys.settrace(None)  # no scheduling point left
                        w = self.switch()
                        if w is not None and w != me:
                            self.sem[w].release()
                            self.sem[me].acquire()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None

        if self.record or any(w == me and n for w, n in self.seg):
            sys.settrace(tracer)
        try:
            with np.errstate(all='ignore'):
                self.out[me] = call(self.fns[me])
        finally:
            sys.settrace(None)
            self.done[me] = True
            w = self.switch()
            if w is None and not all(self.done):
                w = 1 - me
                self.left = None
            if w is not None:
                self.sem[w].release()

    def run(self):
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in th:
            t.start()
        w = self.switch()
        self.sem[w].release()
        for t in th:
            t.join(120)
            if t.is_alive():
                raise RuntimeError('deadlock of the scheduler')
        return self.out


def programs():
    """name -> (group, make) with make() -> (f, g): two programs on freshly made shared objects."""
    from structuralcodes.geometry import CompoundGeometry
    from structuralcodes.materials import constitutive_laws as cl
    from structuralcodes.materials import concrete, reinforcement
    from structuralcodes.sections import GenericSection, calculate_elastic_cracked_properties

    out = {}
    eps = np.array([-0.004, -0.0035, -0.002, -0.001, 0.0, 0.0001, 0.002, 0.02, 0.03])
    eps2 = np.array([0.001, -0.0034, 0.0251, -0.0007])
    laws = {
        'ElasticPlastic': sl.SH, 'ParabolaRectangle': sl.C, 'BilinearCompression': sl.CB, 'UserDefined': sl.CU, 'Sargin': sl.CS, 'Elastic': sl.EU,
        'InitialStrain': sl.SP, 'constant': ('InitialStrain', sl.C2, -0.0005, False), 'Parallel': ('Parallel', (sl.S, sl.SH), (0.5, 2.0)),
        'Popovics': ('Popovics', 38.0, 0.0022, 0.0035, None),
    }
    for n, spec in laws.items():
        def mk(spec=spec):
            l = sl.lib_law(spec)
            f = lambda: [l.get_stress(eps), l.get_tangent(0.001), l.get_ultimate_strain(yielding=True)]
            g = lambda: [l.get_ultimate_strain(), l.get_tangent(eps2), l.get_secant(eps2)]
            return f, g
        out[f'law {n}'] = ('small', mk)

        def mm(spec=spec):
            l = sl.lib_law(spec)
            return (lambda: plain(l.__marin__(strain=[0.001, -0.00002]))), (lambda: plain(l.__marin_tangent__(strain=[-0.003, 0.0])))
        if spec[0] not in ('Sargin', 'Popovics'):
            out[f'polynomial {n}'] = ('small', mm)
    props = ('fcm', 'fctm', 'fctkmin', 'fcd', 'eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2', 'n_parabolic_rectangular', 'Ecm', 'Eci', 'gamma_c')
    for code in ('ec2_2004', 'ec2_2023', 'mc2010'):
        def mc(code=code):
            m = concrete.create_concrete(50.0, design_code=code)
            rd = lambda ps: lambda: [call(lambda: plain(getattr(m, p)() if callable(getattr(m, p)) else getattr(m, p))) for p in ps] + [plain(m.constitutive_law.get_stress(eps))]
            return rd(props), rd(props[::-1])
        out[f'concrete {code}'] = ('small', mc)

        def mr(code=code):
            m = reinforcement.create_reinforcement(500.0, 200000.0, 550.0, 0.05, design_code=code)
            rd = lambda ps: lambda: [call(lambda: plain(getattr(m, p)() if callable(getattr(m, p)) else getattr(m, p))) for p in ps]
            ps = ('fyd', 'ftd', 'epsud', 'epsyd', 'gamma_s')
            return rd(ps), rd(ps[::-1])
        out[f'reinforcement {code}'] = ('small', mr)

    rect = [('S', (sl.rect(300, 500),), sl.C, True)] + sl.bars([(-105, -205), (105, -205)], 20, sl.S) + sl.bars([(0, 208)], 12, sl.SP)
    mix = [('S', (sl.rect(400, 120, 0, 150),), sl.C2, True), ('S', (sl.i_shape(300, 150, 8, 12, 0, -60),), sl.SH, False)] + sl.bars([(-150, 160)], 12, sl.SP)

    def geo_flag():
        g = sl.build(rect)
        return (lambda: [g.reinforced_concrete, g.area, g.calculate_extents()]), (lambda: [g.reinforced_concrete, g.reinforced_concrete])
    out['classification of a shared geometry'] = ('small', geo_flag)

    def wrap(parts, ia, ib, fa, fb, share):
        def mk():
            mats = sl.Mats()
            g = sl.build(parts, mats)
            h = g if share else sl.build(parts, mats)
            a = GenericSection(g, integrator=ia, mesh_size=0.3)
            b = GenericSection(h, integrator=ib, mesh_size=0.3)
            return (lambda: plain(fa(a, parts))), (lambda: plain(fb(b, parts)))
        return mk

    c = lambda s: s.section_calculator
    st = lambda parts: list(map(float, sl.plane(parts, 0.7, -0.0015, 0.001)))
    lim = {}
    n_of = lambda parts: 0.15 * lim.setdefault(id(parts), limits(parts)[0])
    short = {
        'integrate': lambda s, p: c(s).integrate_strain_profile(st(p)),
        'stiffness': lambda s, p: c(s).integrate_strain_profile(st(p), 'modulus'),
        'limits': lambda s, p: [c(s).n_min, c(s).n_max],
        'gross': lambda s, p: s.gross_properties,
    }
    long = {
        'bending': lambda s, p: c(s).calculate_bending_strength(0.4, n_of(p)),
        'moment-curvature': lambda s, p: c(s).calculate_moment_curvature(0.9, n_of(p), num_pre_yield=2, num_post_yield=1),
        'nm': lambda s, p: c(s).calculate_nm_interaction_domain(1.9, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1),
        'nmm': lambda s, p: c(s).calculate_nmm_interaction_domain(2, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1),
        'mm': lambda s, p: c(s).calculate_mm_interaction_domain(n_of(p), 2),
        'profile': lambda s, p: c(s).calculate_strain_profile(n_of(p), -1e7, 1e6),
        'cracked': lambda s, p: calculate_elastic_cracked_properties(s, 0.6),
    }
    names = list(short) + list(long)
    allf = {**short, **long}
    for i, a in enumerate(names):
        for b in names[i:]:
            for nm, parts in (('rect', rect), ('mix', mix)):
                for share in (True, False):
                    for ia, ib in (('marin', 'marin'), ('marin', 'fiber'), ('fiber', 'marin'), ('fiber', 'fiber')):
                        grp = 'mid' if a in short and b in short else 'long'
                        out[f'{a} | {b} {nm} {ia} {ib} {"shared geometry" if share else "shared materials"}'] = (grp, wrap(parts, ia, ib, allf[a], allf[b], share))
    return out


QUICK = [
    'bending | bending rect marin marin shared geometry',
    'limits | bending rect fiber marin shared geometry',
    'nm | mm rect marin marin shared geometry',
    'moment-curvature | cracked rect marin marin shared geometry',
    'nmm | profile rect marin marin shared geometry',
    'bending | moment-curvature rect fiber fiber shared geometry',
    'integrate | nm rect marin marin shared materials',
    'stiffness | profile rect marin marin shared materials',
    'gross | cracked rect marin marin shared geometry',
    'mm | mm rect fiber fiber shared materials',
]


def jobs(tier):
    P = programs()
    out = []
    assert all(q in P for q in QUICK)
    for i, (n, (grp, _)) in enumerate(P.items()):
        if tier == 'quick' and grp == 'long' and n not in QUICK:
            continue
        if tier == 'quick' and grp == 'mid' and i % 9:
            continue
        k = (4 if tier == 'quick' else 16) if grp == 'long' else 1
        out += [(tier, n, j, k) for j in range(k)]
    # long jobs first
    return sorted(out, key=lambda j: (P[j[1]][0] != 'long', j[1], j[2]))


def visits(lines, nfirst, last=True):
    """Indices (1-based) of the first visits and the last visit of every distinct line."""
    seen, out, final = {}, set(), {}
    for i, l in enumerate(lines, 1):
        seen[l] = seen.get(l, 0) + 1
        if seen[l] <= nfirst:
            out.add(i)
        final[l] = i
    return sorted(out | (set(final.values()) if last else set()))


def run(job, R):
    tier, name, part, of = job
    grp, mk = programs()[name]
    prefix = core.REPO.rstrip('/') + '/structuralcodes'
    f, g = mk()
    s = Sched([f, g], [(0, None), (1, None)], prefix)
    s.record = True
    want = s.run()
    alone = [call(x) for x in (mk()[0], mk()[1])]
    for i in (0, 1):
        R.true(same(alone[i], want[i], 1e-9), f'{name} one after the other', f'{str(want[i])[:300]} but alone {str(alone[i])[:300]}')
    N = [len(x) for x in s.lines]

    def explore(seg, lab):
        sch = Sched(list(mk()), seg, prefix)
        got = sch.run()
        R.step(len(seg))
        R.state((name, tuple(seg)))
        R.trace()
        for i in (0, 1):
            if not same(want[i], got[i], 1e-9):
                at = '; '.join(where(s, w, n) for w, n in seg if n)
                R.fail(f'{name} {at}', f'schedule {seg}: program {i} gives {str(got[i])[:400]} but alone {str(want[i])[:400]}')
        R.outcome((name, str(got[0])[:40], str(got[1])[:40]))

    def where(s, w, n):
        if n > len(s.lines[w]):
            return f'thread {w} end'
        fn, ln = s.lines[w][n - 1]
        return f'thread {w} stopped at {fn[len(prefix) + 1:]}'

    for first in (0, 1):
        if grp == 'long':
            ks = visits(s.lines[first], 1 if tier == 'quick' else 3, tier != 'quick')
        elif tier == 'quick' and N[first] > 150:
            ks = visits(s.lines[first], 2)
        else:
            ks = range(1, N[first] + 1)
        if grp == 'long' and tier == 'quick':
            ks = ks[first::2]
        for k in list(ks)[part::of]:
            explore([(first, k), (1 - first, None), (first, None)], 'one')
        if grp == 'small' or tier != 'quick' and grp == 'mid':
            ka, kb = visits(s.lines[first], 1, False), visits(s.lines[1 - first], 1, False)
            if tier == 'quick' and len(ka) * len(kb) > 700:
                m = -(-len(ka) * len(kb) // 700)
            else:
                m = 1
            for i, (x, y) in enumerate((x, y) for x in ka for y in kb):
                if i % m == 0:
                    explore([(first, x), (1 - first, y), (first, None), (1 - first, None)], 'two')
    R.sample({'programs': name, 'lines': N})
