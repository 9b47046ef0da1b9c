"""Reference model of the constitutive laws: plain scalar definitions.

A *spec* is a nested tuple ``(name, *args)``; ``build(spec)`` creates the real
law, ``Ref(spec)`` the reference.  The reference is written from the documented
definitions, one scalar at a time, without any code of the library.
"""
import math

INF = 100.0  # 'no limit' of the library


def lib_law(spec):
    from structuralcodes.materials import constitutive_laws as cl

    kind = spec[0]
    if kind == 'Elastic':
        E, eu = spec[1:]
        return cl.Elastic(E, eps_u=eu)
    if kind == 'ElasticPlastic':
        E, fy, Eh, su = spec[1:]
        return cl.ElasticPlastic(E, fy, Eh, su)
    if kind == 'ParabolaRectangle':
        return cl.ParabolaRectangle(*spec[1:])
    if kind == 'BilinearCompression':
        return cl.BilinearCompression(*spec[1:])
    if kind == 'Sargin':
        return cl.Sargin(*spec[1:])
    if kind == 'Popovics':
        fc, ec, ecu, Ec = spec[1:]
        return cl.Popovics(fc, ec, ecu, Ec)
    if kind == 'UserDefined':
        x, y, flag, eu = spec[1:]
        return cl.UserDefined(list(x), list(y), flag=flag, eps_u=eu)
    if kind == 'InitialStrain':
        return cl.InitialStrain(lib_law(spec[1]), spec[2], spec[3])
    if kind == 'Parallel':
        return cl.Parallel(
            [lib_law(s) for s in spec[1]],
            None if spec[2] is None else list(spec[2]),
        )
    raise KeyError(kind)


def near(a, b):
    """Band in which a strain counts as being at the ultimate strain."""
    return abs(a - b) <= 1e-6 + 1e-5 * abs(b)


class Ref:
    def __init__(self, spec):
        self.spec = spec
        k = self.kind = spec[0]
        if k == 'Elastic':
            self.E, eu = spec[1:]
            if eu is None:
                self.lim = (-INF, INF)
            elif isinstance(eu, tuple):
                self.lim = (min(eu), max(eu))
            else:
                self.lim = (-abs(eu), abs(eu))
            self.yld = self.lim
            self.kinks = []
        elif k == 'ElasticPlastic':
            self.E, self.fy, self.Eh, self.su = spec[1:]
            ey = self.fy / self.E
            su = 2 * ey if self.su is None else self.su
            self.lim = (-su, su)
            self.yld = (-ey, ey)
            self.kinks = [-ey, ey]
        elif k == 'ParabolaRectangle':
            a = list(spec[1:]) + [None] * (4 - len(spec[1:]))
            self.fc = abs(a[0])
            self.e0 = abs(a[1]) if a[1] is not None else 0.002
            self.eu = abs(a[2]) if a[2] is not None else 0.0035
            self.n = a[3] if a[3] is not None else 2.0
            self.lim = (-self.eu, INF)
            self.yld = (-self.e0, INF)
            self.kinks = [-self.e0, 0.0]
        elif k == 'BilinearCompression':
            fc, e0, eu = spec[1:]
            self.fc, self.e0, self.eu = abs(fc), abs(e0), abs(eu)
            self.lim = (-self.eu, INF)
            self.yld = (-self.e0, INF)
            self.kinks = [-self.e0, 0.0]
        elif k == 'Sargin':
            a = list(spec[1:]) + [None] * (4 - len(spec[1:]))
            self.fc = abs(a[0])
            self.e1 = abs(a[1]) if a[1] is not None else 0.0023
            self.eu = abs(a[2]) if a[2] is not None else 0.0035
            self.k = a[3] if a[3] is not None else 2.04
            self.lim = (-self.eu, INF)
            self.yld = (-self.e1, INF)
            self.kinks = [0.0]
        elif k == 'Popovics':
            fc, ec, eu, Ec = spec[1:]
            self.fc, self.ec, self.eu = abs(fc), abs(ec), abs(eu)
            Ec = 5000 * math.sqrt(abs(fc)) if Ec is None else Ec
            self.r = Ec / (Ec - self.fc / self.ec)
            self.lim = (-self.eu, INF)
            self.yld = (-self.ec, INF)
            self.kinks = [0.0]
        elif k == 'UserDefined':
            x, y, flag, eu = spec[1:]
            if all(v >= 0 for v in x):
                # mirrored, the origin taken once
                k0 = 1 if x[0] == 0 else 0
                x, y = (
                    [-v for v in reversed(x[k0:])] + list(x),
                    [-v for v in reversed(y[k0:])] + list(y),
                )
            self.x, self.y, self.flag = list(x), list(y), flag
            if eu is None:
                self.lim = (x[0], x[-1])
            elif isinstance(eu, tuple):
                self.lim = (min(eu), max(eu))
            else:
                self.lim = (-abs(eu), abs(eu))
            self.yld = self.lim
            self.kinks = [v for v in x]
            if flag:
                self.kinks += [100 * x[0], 100 * x[-1]]
        elif k == 'InitialStrain':
            self.b = Ref(spec[1])
            self.e0, self.compat = spec[2], spec[3]
            self.lim = tuple(v - self.e0 for v in self.b.lim)
            self.yld = tuple(v - self.e0 for v in self.b.yld)
            self.kinks = [v - self.e0 for v in self.b.allkinks()] if self.compat else []
        elif k == 'Parallel':
            self.parts = [Ref(s) for s in spec[1]]
            self.w = [1.0] * len(self.parts) if spec[2] is None else list(spec[2])
            self.lim = (
                min(p.lim[0] for p in self.parts),
                max(p.lim[1] for p in self.parts),
            )
            self.yld = (
                min(p.yld[0] for p in self.parts),
                max(p.yld[1] for p in self.parts),
            )
            self.kinks = sorted({v for p in self.parts for v in p.allkinks()})
        else:
            raise KeyError(k)

    # ------------------------------------------------------------------
    def allkinks(self):
        """Branch points including the ultimate strains."""
        return sorted(set(self.kinks) | {v for v in self.lim if abs(v) < 50})

    def cuts(self):
        """True if the stress is zero beyond the ultimate strains."""
        k = self.kind
        if k == 'Elastic':
            return False
        if k == 'ElasticPlastic':
            return self.su is not None
        if k == 'UserDefined':
            return self.flag == 0 and self.spec[4] is None
        if k == 'InitialStrain':
            return self.compat and self.b.cuts()
        if k == 'Parallel':
            return all(p.cuts() for p in self.parts)
        return True

    def snap(self, e):
        if near(e, self.lim[1]):
            return self.lim[1]
        if near(e, self.lim[0]):
            return self.lim[0]
        return e

    def stress(self, e):
        k = self.kind
        if k == 'Elastic':
            return self.E * e
        if k == 'InitialStrain':
            return self.b.stress(self.e0 + e if self.compat else self.e0)
        if k == 'Parallel':
            return sum(w * p.stress(e) for w, p in zip(self.w, self.parts))
        e = self.snap(e)
        if k == 'ElasticPlastic':
            if self.su is not None and abs(e) > self.su:
                return 0.0
            ey = self.fy / self.E
            if abs(e) <= ey:
                return self.E * e
            return math.copysign(self.fy + self.Eh * (abs(e) - ey), e)
        if k == 'UserDefined':
            return self._ud(e)
        # concrete in compression
        if e > 0 or e < -self.eu:
            return 0.0
        c = -e
        if k == 'ParabolaRectangle':
            if c >= self.e0:
                return -self.fc
            return -self.fc * (1 - (1 - c / self.e0) ** self.n)
        if k == 'BilinearCompression':
            return -self.fc * min(1.0, c / self.e0)
        if k == 'Sargin':
            t = c / self.e1
            return -self.fc * (self.k * t - t * t) / (1 + (self.k - 2) * t)
        if k == 'Popovics':
            t = c / self.ec
            return -self.fc * t * self.r / (self.r - 1 + t**self.r)
        raise KeyError(k)

    def _ud(self, e):
        x, y = self.x, self.y
        if e < x[0]:
            if self.flag == 0 or e < 100 * x[0]:
                return 0.0
            if self.flag == 1:
                return y[0]
            if self.flag == 2:
                return y[0] + (e - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
            return y[0] / x[0] * e
        if e > x[-1]:
            if self.flag == 0 or e > 100 * x[-1]:
                return 0.0
            if self.flag == 1:
                return y[-1]
            if self.flag == 2:
                return y[-1] + (e - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2])
            return y[-1] / x[-1] * e
        for i in range(len(x) - 1):
            if x[i] <= e <= x[i + 1]:
                t = (e - x[i]) / (x[i + 1] - x[i])
                return y[i] + t * (y[i + 1] - y[i])
        raise AssertionError

    # -- derivative of the curve on one side (no snapping) -----------------
    def slope(self, e, side):
        """One sided derivative, side = -1 or +1."""
        k = self.kind
        s = side
        if k == 'Elastic':
            return self.E
        if k == 'InitialStrain':
            if not self.compat:
                return 0.0
            return self.b.slope(e + self.e0, side)
        if k == 'Parallel':
            return sum(w * p.slope(e, side) for w, p in zip(self.w, self.parts))

        def after(v):  # e is beyond v seen from the requested side
            return e > v or (e == v and s > 0)

        if k == 'ElasticPlastic':
            ey = self.fy / self.E
            if self.su is not None and (after(self.su) or not after(-self.su)):
                return 0.0
            return self.E if (after(-ey) and not after(ey)) else self.Eh
        if k == 'UserDefined':
            x, y = self.x, self.y
            if after(x[-1]):
                if self.flag < 2 or after(100 * x[-1]):
                    return 0.0
                if self.flag == 2:
                    return (y[-1] - y[-2]) / (x[-1] - x[-2])
                return y[-1] / x[-1]
            if not after(x[0]):
                if self.flag < 2 or not after(100 * x[0]):
                    return 0.0
                if self.flag == 2:
                    return (y[1] - y[0]) / (x[1] - x[0])
                return y[0] / x[0]
            for i in range(len(x) - 1):
                if after(x[i]) and not after(x[i + 1]):
                    return (y[i + 1] - y[i]) / (x[i + 1] - x[i])
            raise AssertionError
        if after(0.0) or not after(-self.eu):
            return 0.0
        c = -e
        if k == 'ParabolaRectangle':
            if not after(-self.e0):
                return 0.0
            return self.n * self.fc / self.e0 * (1 - c / self.e0) ** (self.n - 1)
        if k == 'BilinearCompression':
            return self.fc / self.e0 if after(-self.e0) else 0.0
        if k == 'Sargin':
            t = c / self.e1
            d = 1 + (self.k - 2) * t
            return (
                self.fc / self.e1
                * ((self.k - 2 * t) * d - (self.k * t - t * t) * (self.k - 2))
                / d**2
            )
        if k == 'Popovics':
            t = c / self.ec
            d = self.r - 1 + t**self.r
            return self.fc / self.ec * self.r * (d - self.r * t**self.r) / d**2
        raise KeyError(k)


# ------------------------------------------------------------------ universe
def base_specs(tier='quick'):
    """The bounded alphabet of base laws."""
    S = []
    for E in (200000.0, 31476, 2.1e8):
        for eu in (None, 0.02, (-0.003, 0.01), (0.01, -0.003), (0.0, 0.05), (-0.004, 0.0)):
            S.append(('Elastic', E, eu))
    for E, fy in ((200000.0, 500.0), (210000, 355), (195000.0, 1500.0), (2e8, 4.35e5)):
        for Eh in (0.0, E / 200.0, 1234.5):
            for su in (None, 0.01, 0.025, 0.0675):
                if su is not None and su <= fy / E:
                    continue
                S.append(('ElasticPlastic', E, fy, Eh, su))
    # softening after yielding
    for su in (0.02, 0.06):
        S.append(('ElasticPlastic', 200000.0, 500.0, -1500.0, su))
    # stiffer after yielding than before
    S.append(('ElasticPlastic', 200000.0, 400.0, 250000.0, 0.01))
    S.append(('ElasticPlastic', 1000.0, 10.0, 4000.0, None))
    for fc in (20.0, -45.3, 90.0, 2.5e4):
        for e0, eu, n in (
            (0.002, 0.0035, 2.0),
            (-0.002, -0.0035, 2),
            (0.0022, 0.0031, 1.6),
            (-0.0026, -0.0026, 1.4),
            (0.002, 0.0035, 1.75),
            (0.0018, 0.005, 2.5),
            (0.001, 0.01, 2.0),
        ):
            S.append(('ParabolaRectangle', fc, e0, eu, n))
    S.append(('ParabolaRectangle', 33.0))
    for fc in (25.0, -60.0):
        for e0, eu in ((0.00175, 0.0035), (-0.0023, -0.0026), (0.002, 0.01)):
            S.append(('BilinearCompression', fc, e0, eu))
    for fc in (28.0, -58.0, 98.0):
        for e1, eu, k in (
            (0.0019, 0.0026, 1.5),
            (0.0023, 0.0035, 2.04),
            (-0.0025, -0.0032, 2.0),
            (0.0028, 0.0028, 1.2),
            (0.002, 0.005, 3.0),
        ):
            S.append(('Sargin', fc, e1, eu, k))
    S.append(('Sargin', 30.0))
    for fc in (25.0, -50.0, 90.0):
        for ec, eu, Ec in (
            (0.002, 0.0035, None),
            (-0.0025, -0.004, 45000.0),
            (0.002, 0.02, 60000.0),
        ):
            S.append(('Popovics', fc, ec, eu, Ec))
    for x, y in (
        ((0.0, 0.002, 0.01, 0.03), (0.0, 400.0, 450.0, 430.0)),
        ((-0.0035, -0.002, -0.0007, 0.0, 0.0001, 0.0004), (-28.0, -30.0, -20.0, 0.0, 2.5, 0.0)),
        ((-0.003, 0.0, 0.006), (-200.0, 0.0, 350.0)),
        ((-0.02, -0.005, 0.001, 0.02), (-500.0, -300.0, 100.0, 650.0)),
        ((0, 1e-3, 2e-3), (0, 100, 100)),
        ((0.001, 0.02), (200.0, 300.0)),
    ):
        for flag in (0, 1, 2, 3):
            for eu in (None, 0.015, (-0.002, 0.004), (0.003, -0.001)):
                if tier == 'quick' and eu == (0.003, -0.001) and flag:
                    continue
                S.append(('UserDefined', x, y, flag, eu))
    # whole numbers are ultimate strains too
    S.append(('Elastic', 31476, 1))
    S.append(('UserDefined', (-0.003, 0.0, 0.006), (-200.0, 0.0, 350.0), 1, 1))
    return S


def strain_grid(ref, dense=40):
    """All branch points with neighbours on both sides plus a dense grid."""
    ks = ref.allkinks()
    lo = max(min([k for k in ks] + [-0.001]), -2.0) * 1.3
    hi = min(max([k for k in ks] + [0.001]), 2.0) * 1.3
    pts = {0.0, lo, hi, -0.05, 0.05}
    n = dense
    for i in range(n + 1):
        pts.add(lo + (hi - lo) * i / n)
    for k in ks:
        band = 1e-6 + 1e-5 * abs(k)
        for d in (0.0, 1e-14, 0.4 * band, 3 * band, 1e-4, 5e-4):
            pts.add(k + d)
            pts.add(k - d)
    for k in ks:
        for f in (0.1, 0.5, 0.9, 0.99, 1.01, 1.1):
            pts.add(k * f)
    return sorted(pts)
