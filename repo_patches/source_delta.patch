From 99c7c5152b138acf64aefdfc551cf712e9a1af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 01/58] fix: Marin integration of reinforcement groups of
 different size

Two reinforcement materials with a different number of bars made the
integrator stack arrays of different lengths, which raises ValueError.
---
 .../sections/section_integrators/_marin_integrator.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..47fc41a 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -240,6 +240,9 @@ class MarinIntegrator(SectionIntegrator):
             z.append(reinf_data[1])
             IA.append(integrand * reinf_data[2])
 
+        # The groups can have a different number of points: flatten them
+        if len(IA) > 0:
+            y, z, IA = np.hstack(y), np.hstack(z), np.hstack(IA)
         input.append((1, np.array(y), np.array(z), np.array(IA)))
         return integration_data
 
-- 
2.43.0


From c1b93d6ac0242de268e6931561aeda9c4f9e9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 02/58] fix: initial strain in the Marin coefficients of
 surfaces

The strain limits were given in terms of the strain of the wrapped law, so
that surfaces were split at the wrong place, and a law without strain
compatibility did not give its constant stress.
---
 .../constitutive_laws/_initial_strain.py      | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..b2a9284 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -97,9 +97,13 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
-        return self._wrapped_law.__marin__(
+        if not self._strain_compatibility:
+            # The stress is constant whatever the strain
+            return None, [(self._initial_stress,)]
+        strains, coeff = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strain_limits(strains), coeff
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -115,9 +119,26 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
-        return self._wrapped_law.__marin_tangent__(
+        if not self._strain_compatibility:
+            # The tangent is constant whatever the strain
+            return None, [(self.get_tangent(strain[0]),)]
+        strains, coeff = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strain_limits(strains), coeff
+
+    def _shift_strain_limits(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """Express the strain limits of the wrapped law in terms of the strain
+        applied to this law.
+        """
+        if strains is None:
+            return None
+        return [
+            (eps_0 - self._initial_strain, eps_1 - self._initial_strain)
+            for eps_0, eps_1 in strains
+        ]
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From 8029e799d0e33e532bf1d4698fb19782b793a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 03/58] fix: list and array input of the initial strain law

A list could not be added to the initial strain, and without strain
compatibility get_tangent returned one value for an array of strains.
---
 .../materials/constitutive_laws/_initial_strain.py           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index b2a9284..44a123c 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,10 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            return tangent if np.isscalar(eps) else np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
-- 
2.43.0


From 63a45bb47d44936850d64c826ab827d1e3032efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 04/58] fix: do not modify the strains passed to a constitutive
 law

Strains close to the ultimate strain were overwritten in the array of the
caller, and strains given as integers were truncated.
---
 structuralcodes/core/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..4cb1262 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -211,6 +211,8 @@ class ConstitutiveLaw(abc.ABC):
             if np.isclose(eps, eps_min, atol=1e-6):
                 return eps_min
             return eps
+        # Work on a copy in floating point: do not modify the input
+        eps = np.array(eps, dtype=float)
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_max, atol=1e-6)
         eps[idxs] = eps_max
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_min, atol=1e-6)
-- 
2.43.0


From f888fc8f083ecf01120dc4eaf968ba1c7ef186ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 05/58] fix: do not modify the strain plane in the Marin
 coefficients

A uniform strain close to the ultimate strain of one law was overwritten in
the list shared with the laws of all other geometries, and a strain plane
given as a tuple, as documented, raised TypeError.
---
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..e4ab8ae 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..8efc8e7 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..6ad498c 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From 7a417bb4674eb783c1a31c70a3d427dfe79dab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 06/58] fix: array tangent of the bilinear compression law at
 zero strain

The tangent of an array was zero at zero strain, different from the tangent
of a scalar, so that fiber sections had no stiffness when unstrained.
---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index e4ab8ae..d178aa7 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones_like(eps) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From d611d981c9d9e921b19fae6dd7b20512308488ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 07/58] fix: strains given as integers in an array

Tangent and secant moduli were truncated to integers and the parallel law
raised an exception.
---
 structuralcodes/core/base.py                                  | 2 +-
 .../materials/constitutive_laws/_bilinearcompression.py       | 2 +-
 .../materials/constitutive_laws/_elasticplastic.py            | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py         | 2 +-
 structuralcodes/materials/constitutive_laws/_parallel.py      | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 4cb1262..8931a6c 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -304,7 +304,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros_like(eps, dtype=float)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d178aa7..33b6599 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -74,7 +74,7 @@ class BilinearCompression(ConstitutiveLaw):
             return 0
 
         # If it is an array
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > 0] = 0
         tangent[eps <= self._eps_c] = 0
 
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 8efc8e7..ae7aae9 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 6ad498c..78590be 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros_like(eps, dtype=float)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..b037c94 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From e56d36450300cc0057abd897b0df6be5e54f4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 08/58] fix: reject a non-positive plasticity number in the
 Sargin law

The docstring promises a ValueError, but the value was accepted.
---
 structuralcodes/materials/constitutive_laws/_sargin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_sargin.py b/structuralcodes/materials/constitutive_laws/_sargin.py
index 4b5d6f1..26c11ff 100644
--- a/structuralcodes/materials/constitutive_laws/_sargin.py
+++ b/structuralcodes/materials/constitutive_laws/_sargin.py
@@ -54,6 +54,8 @@ class Sargin(ConstitutiveLaw):
         """
         name = name if name is not None else 'SarginLaw'
         super().__init__(name=name)
+        if k <= 0:
+            raise ValueError('The plasticity number k must be positive.')
         self._fc = -abs(fc)
         self._eps_c1 = -abs(eps_c1)
         self._eps_cu1 = -abs(eps_cu1)
-- 
2.43.0


From a509cc22ba31242adb7826b4d0a848044554ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 09/58] fix: Marin coefficients of a parallel law with a
 discretized member

The default coefficient methods only accept the strain as a keyword, so that
a parallel law with a Sargin or Popovics member raised TypeError.
---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index b037c94..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From dbd9d1230272d8f3a3a12ee2b61fc93efef77d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 10/58] fix: vertical line over the whole height of the
 bounding box

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..7d6a817 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 1ee9520b9177d101d9882c6c0a72f423dc09a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 11/58] fix: keep the area between two lines when other edges
 touch the lines

---
 structuralcodes/geometry/_geometry.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7d6a817..70d8f78 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -538,7 +538,20 @@ class SurfaceGeometry(Geometry):
         lines_polygon = multi_line.convex_hull
 
         # get the intersection
-        return self.polygon.intersection(lines_polygon)
+        result = self.polygon.intersection(lines_polygon)
+        if result.geom_type == 'GeometryCollection':
+            # Parts of the polygon only touching the lines give points and
+            # lines: keep the polygons
+            polygons = []
+            for geom in result.geoms:
+                if isinstance(geom, Polygon):
+                    polygons.append(geom)
+                elif isinstance(geom, MultiPolygon):
+                    polygons.extend(geom.geoms)
+            result = (
+                polygons[0] if len(polygons) == 1 else MultiPolygon(polygons)
+            )
+        return result
 
     def __sub__(self, other: Geometry) -> SurfaceGeometry:
         """Add operator "-" for geometries.
-- 
2.43.0


From fcb18b25cecf3a20d5fc18b3126782ad2c9c2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 12/58] fix: reinforced_concrete of a compound made from a
 MultiPolygon

---
 structuralcodes/geometry/_geometry.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 70d8f78..17221d4 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -771,7 +771,6 @@ class CompoundGeometry(Geometry):
             # useful for representation in svg
             geoms_representation = [g.polygon for g in self.geometries]
             self.geom = MultiPolygon(geoms_representation)
-            return
         if isinstance(geometries, list):
             self.geometries, self.point_geometries = _process_geometries_list(
                 geometries
-- 
2.43.0


From 6123ba01b6b07d47d45b59d6c23af17b6d0e332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 13/58] fix: keep name and group label of surfaces

---
 structuralcodes/geometry/_geometry.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 17221d4..747f214 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -595,6 +595,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def rotate(
@@ -622,6 +624,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -644,6 +648,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     @staticmethod
@@ -681,7 +687,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo.name,
+            group_label=geo.group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From 7d2eb0cdf64c51369dc37aeea578adf9f7dc87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 14/58] fix: subtraction dividing a surface and attributes of
 the result

---
 structuralcodes/geometry/_geometry.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 747f214..0e543d2 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -553,14 +553,18 @@ class SurfaceGeometry(Geometry):
             )
         return result
 
-    def __sub__(self, other: Geometry) -> SurfaceGeometry:
+    def __sub__(
+        self, other: Geometry
+    ) -> t.Union[SurfaceGeometry, CompoundGeometry]:
         """Add operator "-" for geometries.
 
         Arguments:
             other (Geometry): The other geometry to be subtracted.
 
         Returns:
-            SurfaceGeometry: The resulting SurfaceGeometry.
+            Union(SurfaceGeometry, CompoundGeometry): The resulting
+            SurfaceGeometry, or a CompoundGeometry if the subtraction divides
+            the surface in several parts.
         """
         material = self.material
 
@@ -575,7 +579,20 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        def _create_surface(polygon):
+            return SurfaceGeometry(
+                poly=polygon,
+                material=material,
+                concrete=self.concrete,
+                name=self.name,
+                group_label=self.group_label,
+            )
+
+        if isinstance(sub_polygon, MultiPolygon):
+            return CompoundGeometry(
+                [_create_surface(polygon) for polygon in sub_polygon.geoms]
+            )
+        return _create_surface(sub_polygon)
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
-- 
2.43.0


From bd0d5ec1fd40c9dbe3f3ba7729c4a62699b2c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 15/58] fix: single bar distributed on a line or on an arch

---
 structuralcodes/geometry/_reinforcement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..c319b3f 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -94,7 +94,7 @@ def add_reinforcement_line(
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
         # Provided the number of bars
-        s = distance / (n - 1)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From 006f6cd4c3be1fe2c0d7573ad51c22e098bf4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 16/58] fix: coincident bars on a whole circle given the
 spacing

---
 structuralcodes/geometry/_reinforcement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index c319b3f..3b249ef 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,9 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
-        # the special case
-        whole = False
+        # On the whole circle the extra bar is needed only if it does not
+        # coincide with the first one
+        whole = whole and math.isclose(needed_length, length)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0


From bd650095bbcafc11e467971e82e4a8ab56095a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 17/58] fix: triangulation of surfaces with non convex holes

---
 .../sections/section_integrators/_fiber_integrator.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..286a6b8 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,9 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            # A point inside the hole (the centroid can be outside)
+            c = Polygon(interior).representative_point()
+            holes.append([c.x, c.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From 23f468936353d34072910c0811db8f400f2038b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 18/58] fix: mesh size for surfaces with a small area

---
 .../sections/section_integrators/_fiber_integrator.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 286a6b8..6381d6e 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -86,7 +86,8 @@ class FiberIntegrator(SectionIntegrator):
             # prepare data structure for triangle module
             tri = self.prepare_triangulation(g)
             # define the maximum area of the triangles
-            max_area = g.area * mesh_size
+            # (positional notation: triangle does not know exponents)
+            max_area = np.format_float_positional(g.area * mesh_size)
             # triangulate the geometry getting back the mesh
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
-- 
2.43.0


From bbfdef1089357322949bafcd3e2492e58c12aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 19/58] fix: use the mesh size of the section in every analysis

---
 structuralcodes/sections/_generic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..c9720ea 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -554,7 +554,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1379,6 +1382,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1467,6 +1471,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
-- 
2.43.0


From 252cd450f32eb0f89f68867cc20c49c24a0f31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 20/58] fix: field numbers of all points of the NMM interaction
 domain

---
 structuralcodes/sections/_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c9720ea..5f1c1bb 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1394,7 +1394,7 @@ class GenericSectionCalculator(SectionCalculator):
         # Save to results
         res.strains = strains
         res.forces = forces
-        res.field_num = field_num
+        res.field_num = np.tile(field_num, num_theta)
 
         return res
 
-- 
2.43.0


From 4c19c7eb3bf7e59ba5a99d439510a5c68dbaa344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 21/58] fix: moment-curvature with curvatures given as integers

---
 structuralcodes/sections/_generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 5f1c1bb..c05b86b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -885,11 +885,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(chi, dtype=float)
+        mz = np.zeros_like(chi, dtype=float)
+        chi_y = np.zeros_like(chi, dtype=float)
+        chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From cfcf45b0cc332a68436349e806bdc8e1faab8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 22/58] fix: gross properties of sections with disjoint
 surfaces

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c05b86b..491be6c 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -150,8 +150,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From 8eda493ace8bc7aebd84e0898b3a23ec9eb8e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 23/58] fix: principal moments as real numbers and angle of the
 principal axis

---
 .../geometry/profiles/_base_profile.py         | 18 ++++++++++--------
 structuralcodes/sections/_generic.py           | 16 ++++++++++------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..1439047 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -117,15 +117,17 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
-            np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
+        # The moment about an axis with direction (c, s) is
+        # c^2 Iy - 2 c s Iyz + s^2 Iz
+        eigres = np.linalg.eigh(
+            np.array([[self.Iy, -self.Iyz], [-self.Iyz, self.Iz]])
         )
-        max_idx = np.argmax(eigres[0])
-        min_idx = 0 if max_idx == 1 else 1
-        self._Icsi = eigres[0][max_idx]
-        self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
+        self._Ieta, self._Icsi = eigres[0]
+        axis = eigres[1][:, 1]
+        # The sign of the eigenvector is arbitrary: angle in [-pi/2, pi/2]
+        # from the y axis to the axis of Icsi
+        self._theta = np.copysign(
+            np.arccos(min(abs(axis[0]), 1.0)), axis[0] * axis[1]
         )
 
     @property
diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 491be6c..ef5fa0b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -279,12 +279,16 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
-            max_idx = np.argmax(eigres[0])
-            min_idx = 0 if max_idx == 1 else 1
-            i11 = eigres[0][max_idx]
-            i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            # The moment about an axis with direction (c, s) is
+            # c^2 iyy - 2 c s iyz + s^2 izz
+            eigres = np.linalg.eigh(np.array([[iyy, -iyz], [-iyz, izz]]))
+            i22, i11 = eigres[0]
+            axis = eigres[1][:, 1]
+            # The sign of the eigenvector is arbitrary: angle in
+            # [-pi/2, pi/2] from the y axis to the axis of i11
+            theta = np.copysign(
+                np.arccos(min(abs(axis[0]), 1.0)), axis[0] * axis[1]
+            )
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From 922c03835224197eb907bc7d61a214380a559495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 24/58] fix: principal angle of a profile read before the
 principal moments

---
 structuralcodes/geometry/profiles/_base_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index 1439047..c7d92d7 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -26,6 +26,7 @@ class BaseProfile:
         self._Iz: float = None
         self._Icsi: float = None
         self._Ieta: float = None
+        self._theta: float = None
         self._Iyz: float = None
         self._Wely: float = None
         self._Welz: float = None
-- 
2.43.0


From c182a911d5674315f7f9cdacd8b17b796d1c458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 25/58] fix: do not modify the catalogues of steel profiles

---
 structuralcodes/geometry/profiles/_ipn.py | 1 +
 structuralcodes/geometry/profiles/_l.py   | 1 +
 structuralcodes/geometry/profiles/_li.py  | 1 +
 structuralcodes/geometry/profiles/_u.py   | 1 +
 structuralcodes/geometry/profiles/_upn.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/structuralcodes/geometry/profiles/_ipn.py b/structuralcodes/geometry/profiles/_ipn.py
index 1c9a231..6af3ce7 100644
--- a/structuralcodes/geometry/profiles/_ipn.py
+++ b/structuralcodes/geometry/profiles/_ipn.py
@@ -222,6 +222,7 @@ class IPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         parameters['slope'] = 0.14
         return _create_taper_I_section(
             **{
diff --git a/structuralcodes/geometry/profiles/_l.py b/structuralcodes/geometry/profiles/_l.py
index 8339fbf..cb3ab21 100644
--- a/structuralcodes/geometry/profiles/_l.py
+++ b/structuralcodes/geometry/profiles/_l.py
@@ -434,6 +434,7 @@ class L(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         parameters['t1'] = parameters['t']
         parameters['t2'] = parameters['t']
         return _create_L_section(
diff --git a/structuralcodes/geometry/profiles/_li.py b/structuralcodes/geometry/profiles/_li.py
index 6dfdb84..b78783a 100644
--- a/structuralcodes/geometry/profiles/_li.py
+++ b/structuralcodes/geometry/profiles/_li.py
@@ -123,6 +123,7 @@ class LI(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         parameters['t1'] = parameters['t']
         parameters['t2'] = parameters['t']
         return _create_L_section(
diff --git a/structuralcodes/geometry/profiles/_u.py b/structuralcodes/geometry/profiles/_u.py
index ccbfc35..a64c347 100644
--- a/structuralcodes/geometry/profiles/_u.py
+++ b/structuralcodes/geometry/profiles/_u.py
@@ -65,6 +65,7 @@ class U(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         parameters['slope'] = 0.08
         parameters['u'] = parameters['b'] / 2.0
         return _create_taper_U_section(
diff --git a/structuralcodes/geometry/profiles/_upn.py b/structuralcodes/geometry/profiles/_upn.py
index 8211d30..ef362b1 100644
--- a/structuralcodes/geometry/profiles/_upn.py
+++ b/structuralcodes/geometry/profiles/_upn.py
@@ -197,6 +197,7 @@ class UPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         if parameters['h'] <= 300:
             parameters['slope'] = 0.08
             parameters['u'] = parameters['b'] / 2.0
-- 
2.43.0


From f306593e7daff72260ff69e7f14266748b1e88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 26/58] fix: integration data after a failed analysis

---
 structuralcodes/sections/_generic.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index ef5fa0b..ec8ec8a 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -24,6 +25,24 @@ from structuralcodes.materials.basic import ElasticMaterial
 from .section_integrators import SectionIntegrator, integrator_factory
 
 
+def _keep_integration_data_on_error(method):
+    """Decorator for analyses that rotate the integration data.
+
+    If the analysis fails the integration data are left as they were before.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSection(Section):
     """This is the implementation of the generic class section.
 
@@ -738,6 +757,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_keep_integration_data_on_error
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -796,6 +816,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_keep_integration_data_on_error
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From 96add9699d9c52edf770be4f2f6cf9818bbda0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 27/58] fix: steel surfaces and mesh size in the cracked
 properties

---
 structuralcodes/sections/_rc_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..c68716a 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -57,9 +57,7 @@ def calculate_elastic_cracked_properties(
 
     # Get the integrator properties
     if isinstance(section.section_calculator.integrator, FiberIntegrator):
-        mesh_size = getattr(
-            section.section_calculator.integrator, 'mesh_size', 0.01
-        )
+        mesh_size = section.section_calculator.mesh_size
         integrator = 'fiber'
     else:
         mesh_size = None
@@ -68,6 +66,7 @@ def calculate_elastic_cracked_properties(
     rotated_geometry = section.geometry.rotate(-theta)
 
     processed_geometries = []
+    is_concrete = []
     for geo in rotated_geometry.geometries:
         E = geo.material.constitutive_law.get_tangent(eps=0)
         density = geo.material.density
@@ -87,6 +86,7 @@ def calculate_elastic_cracked_properties(
         processed_geometries.append(
             geo.from_geometry(geo, new_material=elastic_law)
         )
+        is_concrete.append(geo.concrete)
 
     for pg in rotated_geometry.point_geometries:
         Es = pg.material.constitutive_law.get_tangent(eps=0)
@@ -114,8 +114,12 @@ def calculate_elastic_cracked_properties(
 
     # Cutting concrete geometries and retaining the compressed block
     cut_geom = None
-    for part in rotated_geometry.geometries:
-        upper_div, lower_div = part.split(((0, z_na), 0))
+    for part, concrete in zip(rotated_geometry.geometries, is_concrete):
+        if concrete:
+            upper_div, lower_div = part.split(((0, z_na), 0))
+        else:
+            # Not concrete: both the compressed and tensile block are retained
+            upper_div = [part.polygon]
         # Convert to SurfaceGeometry
         subpart = _create_surface_geometries(upper_div, part.material)
         if cut_geom is None:
-- 
2.43.0


From dd2b1f8aa5d8892e2d396a6ae4a1664e3bd92512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 28/58] fix: do not silently ignore that a concrete is existing

---
 structuralcodes/materials/concrete/_concreteEC2_2004.py | 3 ++-
 structuralcodes/materials/concrete/_concreteEC2_2023.py | 3 ++-
 structuralcodes/materials/concrete/_concreteMC2010.py   | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/concrete/_concreteEC2_2004.py b/structuralcodes/materials/concrete/_concreteEC2_2004.py
index f60f92b..c682dbc 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2004.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2004.py
@@ -131,6 +131,7 @@ class ConcreteEC2_2004(Concrete):  # noqa: N801
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -138,7 +139,7 @@ class ConcreteEC2_2004(Concrete):  # noqa: N801
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteEC2_2023.py b/structuralcodes/materials/concrete/_concreteEC2_2023.py
index b73677b..f8277bc 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2023.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2023.py
@@ -124,6 +124,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             Warning: If eps_c2 is larger than 0.1.
             Warning: If eps_cu2 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -132,7 +133,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteMC2010.py b/structuralcodes/materials/concrete/_concreteMC2010.py
index a3ffdd1..672731e 100644
--- a/structuralcodes/materials/concrete/_concreteMC2010.py
+++ b/structuralcodes/materials/concrete/_concreteMC2010.py
@@ -133,6 +133,7 @@ class ConcreteMC2010(Concrete):
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
+        existing = kwargs.get('existing', False)
         del kwargs
         if name is None:
             name = f'C{round(fck):d}'
@@ -141,6 +142,7 @@ class ConcreteMC2010(Concrete):
             name=name,
             density=density,
             gamma_c=gamma_c,
+            existing=existing,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
             strain_compatibility=strain_compatibility,
-- 
2.43.0


From e7dfee6cfcc4d4081321337f6ca139fc5812c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 29/58] fix: do not change the global design code when creating
 a material

---
 structuralcodes/codes/__init__.py | 45 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..5c29d04 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -30,6 +30,26 @@ _DESIGN_CODES = {
 }
 
 
+def _find_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Return the module representing a design code."""
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+        # The design code abbreviation is valid
+        return _DESIGN_CODES.get(design_code.lower())
+    if isinstance(design_code, types.ModuleType) and all(
+        name in dir(design_code)
+        for name in ('__title__', '__year__', '__materials__')
+    ):
+        # The module is a valid design code
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
+
+
 def set_design_code(
     design_code: t.Optional[t.Union[str, types.ModuleType]] = None,
 ) -> None:
@@ -43,24 +63,8 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
-        # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
-        name in dir(design_code)
-        for name in ('__title__', '__year__', '__materials__')
-    ):
-        # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+    # Reset to None if the design code is None
+    _CODE = None if design_code is None else _find_design_code(design_code)
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +101,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # Find the design code without changing the globally set one
+    return _find_design_code(design_code)
-- 
2.43.0


From 6836c65e67763fbc3df282f3847b2b096351a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 30/58] fix: constitutive law names with upper case letters

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From 620d59cc827554b85b5df53bde3e75e5ea271f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 31/58] fix: convergence of the initial strain for large
 stresses

---
 structuralcodes/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 8931a6c..7ae6d95 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -128,9 +128,10 @@ class Material(abc.ABC):
         """
         # Iteratively compute the initial strain that gives the desired
         # initial stress. Note that the wrapped law can be nonlinear
-        tol = 1e-12
         max_iter = 100
         target_stress = self._initial_stress
+        # Relative tolerance, to be independent of the units
+        tol = 1e-12 * max(1.0, abs(target_stress))
         strain = 0.0
         stress = self._constitutive_law.get_stress(strain)
         d_stress = target_stress - stress
-- 
2.43.0


From c1d5b57903cc0595de7c5f02346fe4f2202ae7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 32/58] fix: ultimate strains of all materials in sections with
 several materials

---
 structuralcodes/sections/_generic.py | 72 +++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index ec8ec8a..0cc4262 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -394,6 +394,46 @@ class GenericSectionCalculator(SectionCalculator):
         strain = [eps_0, -chi_min, 0]
         return (y_n, y_p, strain)
 
+    def _get_axial_strain_limits(
+        self,
+        geom: CompoundGeometry,
+        chi: t.Union[float, ArrayLike],
+        yielding: bool = False,
+    ) -> t.Tuple[t.Union[float, ArrayLike], t.Union[float, ArrayLike]]:
+        """Returns the range of axial strain for a given curvature.
+
+        In this range no material of the section is strained beyond its limits.
+        In a section with several materials it is not necessarily the pivot of
+        the balanced failure that governs for all curvatures.
+
+        Arguments:
+            geom (CompoundGeometry): The compound geometry.
+            chi (float or ArrayLike): The (negative) curvature y*.
+            yielding (bool): consider yielding instead of ultimate strain,
+                default = False.
+
+        Returns:
+            Tuple(float, float): Minimum and maximum axial strain at (0,0).
+        """
+        eps_0_min, eps_0_max = [], []
+        is_rc_section = self.section.geometry.reinforced_concrete
+        for g in geom.geometries + geom.point_geometries:
+            law = g.material.constitutive_law
+            if isinstance(g, SurfaceGeometry):
+                _, y_p, _, y_n = g.polygon.bounds
+            else:
+                y_p = y_n = g._point.coords[0][1]
+            # Same strains as in the balanced failure
+            eps_p = law.get_ultimate_strain(yielding=yielding)[1]
+            use_yielding = yielding and (
+                not is_rc_section
+                or (isinstance(g, SurfaceGeometry) and g.concrete)
+            )
+            eps_n = law.get_ultimate_strain(yielding=use_yielding)[0]
+            eps_0_min.append(eps_n - np.asarray(chi) * y_n)
+            eps_0_max.append(eps_p - np.asarray(chi) * y_p)
+        return np.max(eps_0_min, axis=0), np.min(eps_0_max, axis=0)
+
     def find_equilibrium_fixed_pivot(
         self, geom: CompoundGeometry, n: float, yielding: bool = False
     ) -> t.List[float]:
@@ -418,9 +458,7 @@ class GenericSectionCalculator(SectionCalculator):
         ITMAX = 100
         # 1. Start with a balanced failure: this is found from all ultimate
         # strains for all materials, checking the minimum curvature value
-        y_n, y_p, strain = self.get_balanced_failure_strain(geom, yielding)
-        eps_p = strain[0] + strain[1] * y_p
-        eps_n = strain[0] + strain[1] * y_n
+        _, _, strain = self.get_balanced_failure_strain(geom, yielding)
         # Integrate this strain profile corresponding to balanced failure
         (
             n_int,
@@ -445,15 +483,10 @@ class GenericSectionCalculator(SectionCalculator):
             # return the equilibrium position
             return [strain[0], chi_a, 0]
         chi_b = -1e-13
-        if n_int < n:
-            # Too much compression, raise NA
-            pivot = y_p
-            strain_pivot = eps_p
-        else:
-            # Too much tension, lower NA
-            pivot = y_n
-            strain_pivot = eps_n
-        eps_0 = strain_pivot - chi_b * pivot
+        # Too much compression: raise NA, pivot on the positive limit strain
+        # Too much tension: lower NA, pivot on the negative limit strain
+        pivot = 1 if n_int < n else 0
+        eps_0 = self._get_axial_strain_limits(geom, chi_b, yielding)[pivot]
         n_int, _, _, _ = self.integrator.integrate_strain_response_on_geometry(
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
@@ -461,7 +494,7 @@ class GenericSectionCalculator(SectionCalculator):
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
-            eps_0 = strain_pivot - chi_c * pivot
+            eps_0 = self._get_axial_strain_limits(geom, chi_c, yielding)[pivot]
             (
                 n_int,
                 _,
@@ -626,12 +659,10 @@ class GenericSectionCalculator(SectionCalculator):
         Returns:
             Tuple(float, float): Minimum and Maximum axial load.
         """
-        # Find balanced failure to get strain limits
-        y_n, y_p, strain = self.get_balanced_failure_strain(
-            geom=self.section.geometry, yielding=False
+        # Uniform strains for which no material is beyond its limits
+        eps_n, eps_p = self._get_axial_strain_limits(
+            geom=self.section.geometry, chi=0.0, yielding=False
         )
-        eps_p = strain[0] + strain[1] * y_p
-        eps_n = strain[0] + strain[1] * y_n
 
         n_min, _, _, integration_data = (
             self.integrator.integrate_strain_response_on_geometry(
@@ -1303,6 +1334,11 @@ class GenericSectionCalculator(SectionCalculator):
         kappa_y = (eps_n - eps_p) / (y_n - y_p)
         eps_a = eps_n - kappa_y * y_n
 
+        # Other materials than the ones giving the balanced failure can govern
+        eps_a = np.clip(
+            eps_a, *self._get_axial_strain_limits(rotated_geom, kappa_y)
+        )
+
         # rotate back components to work in section CRS
         T = np.array(
             [[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]]
-- 
2.43.0


From 817759156982ff140ddb1fca6357d8b908c8a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 33/58] fix: store the angle in the moment-curvature results

---
 structuralcodes/sections/_generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 0cc4262..c79aa27 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -887,6 +887,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
-- 
2.43.0


From d78ef39011d9ef20ce4999169165012a3fc64a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 34/58] fix: integration data when the first analysis of a
 section fails

---
 structuralcodes/sections/_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c79aa27..d4fdff6 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -33,6 +33,9 @@ def _keep_integration_data_on_error(method):
 
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
+        # The limit axial loads are needed by the analysis: calculating them
+        # makes sure that the integration data are of the unrotated geometry
+        self.n_min  # noqa: B018
         integration_data = self.integration_data
         try:
             return method(self, *args, **kwargs)
-- 
2.43.0


From e3354a35d9ea5428d611a00969f179f17e4171ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 35/58] fix: moment-curvature points that are not in
 equilibrium

---
 structuralcodes/sections/_generic.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index d4fdff6..2f7664a 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -507,6 +507,9 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
+            if dn_c == 0:
+                # Exactly in equilibrium
+                break
             if dn_c * dn_a < 0:
                 chi_b = chi_c
                 dn_b = dn_c
@@ -577,7 +580,7 @@ class GenericSectionCalculator(SectionCalculator):
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
@@ -643,6 +646,9 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_c = n_int - n
+            if dn_c == 0:
+                # Exactly in equilibrium
+                break
             if dn_a * dn_c < 0:
                 dn_b = dn_c
                 eps_0_b = eps_0_c
@@ -898,17 +904,21 @@ class GenericSectionCalculator(SectionCalculator):
             # Rotate also triangulated data!
             self._rotate_integration_data(-theta)
 
+        # Axial strains already known to be in equilibrium for a curvature
+        eps_0_known = {}
         if chi is None:
             # Find ultimate curvature from the strain distribution
             # corresponding to failure and equilibrium with external axial
             # force
             strain = self.find_equilibrium_fixed_pivot(rotated_geom, n)
             chi_ultimate = strain[1]
+            eps_0_known[chi_ultimate] = strain[0]
             # Find the yielding curvature
             strain = self.find_equilibrium_fixed_pivot(
                 rotated_geom, n, yielding=True
             )
             chi_yield = strain[1]
+            eps_0_known[chi_yield] = strain[0]
             if chi_ultimate * chi_yield < 0:
                 # They cannot have opposite signs!
                 raise ValueError(
@@ -957,9 +967,16 @@ class GenericSectionCalculator(SectionCalculator):
             # find the new position of neutral axis for mantaining equilibrium
             # store the information in the results object for the current
             # value of curvature
-            strain = self.find_equilibrium_fixed_curvature(
-                rotated_geom, n, curv, strain[0]
-            )
+            try:
+                strain = self.find_equilibrium_fixed_curvature(
+                    rotated_geom, n, curv, strain[0]
+                )
+            except ValueError:
+                if curv not in eps_0_known:
+                    raise
+                strain = self.find_equilibrium_fixed_curvature(
+                    rotated_geom, n, curv, eps_0_known[curv]
+                )
             (
                 _,
                 My,
-- 
2.43.0


From e6a1a841177e9da24d6edb9e8d7dba0b31b2d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 36/58] fix: moment-curvature of sections far from the origin

---
 structuralcodes/sections/_generic.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 2f7664a..914eb5b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -628,9 +628,20 @@ class GenericSectionCalculator(SectionCalculator):
         if abs(dn_a) <= 1e-2:
             # return the equilibrium position
             return [eps_0_a, curv, 0]
-        eps_0_b, dn_b = self._prefind_range_curvature_equilibrium(
-            geom, n, curv, eps_0_a, dn_a
-        )
+        try:
+            eps_0_b, dn_b = self._prefind_range_curvature_equilibrium(
+                geom, n, curv, eps_0_a, dn_a
+            )
+        except ValueError:
+            # Try again from zero strain in the middle of the section, for a
+            # section far from the origin the first attempt could be far away
+            _, _, min_z, max_z = geom.calculate_extents()
+            eps_0_mid = -curv * (min_z + max_z) / 2
+            if eps_0 == eps_0_mid:
+                raise
+            return self.find_equilibrium_fixed_curvature(
+                geom, n, curv, eps_0_mid
+            )
         # Found a range within there is the solution, apply bisection
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
-- 
2.43.0


From dfc5321163af71ea5a6d31edf6d7fdb0bc37b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 37/58] fix: perimeter of surfaces touching each other

---
 structuralcodes/sections/_generic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 914eb5b..c4a73db 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -10,8 +10,7 @@ import warnings
 import numpy as np
 from numpy.typing import ArrayLike, NDArray
 from scipy.linalg import lu_factor, lu_solve
-from shapely import MultiPolygon
-from shapely.ops import unary_union
+from shapely import MultiPolygon, union_all
 
 import structuralcodes.core._section_results as s_res
 from structuralcodes.core.base import Section, SectionCalculator
@@ -163,9 +162,11 @@ class GenericSectionCalculator(SectionCalculator):
         # It will use the algorithms for generic sections
         gp = s_res.SectionProperties()
 
-        # Computation of perimeter using shapely
-        polygon = unary_union(
-            [geo.polygon for geo in self.section.geometry.geometries]
+        # Computation of perimeter using shapely, with a grid to join surfaces
+        # which touch each other except for rounding
+        polygon = union_all(
+            [geo.polygon for geo in self.section.geometry.geometries],
+            grid_size=1e-6,
         )
         if isinstance(polygon, MultiPolygon):
             gp.perimeter = 0.0
-- 
2.43.0


From 6eebc81b824c3b405d5c39f72778e5aadb8de703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 38/58] fix: classification of a compound read by several
 threads

---
 structuralcodes/geometry/_geometry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 0e543d2..c956e88 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -825,11 +825,9 @@ class CompoundGeometry(Geometry):
     def reinforced_concrete(self) -> bool:
         """Returns True if it is a Reinforced Concrete section."""
         if self._reinforced_concrete is None:
-            self._reinforced_concrete = False
-            for geo in self.geometries:
-                if geo.concrete:
-                    self._reinforced_concrete = True
-                    break
+            self._reinforced_concrete = any(
+                geo.concrete for geo in self.geometries
+            )
         return self._reinforced_concrete
 
     @property
-- 
2.43.0


From fd899ca9773658aae545ca7a0b15a04e7efd9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 39/58] fix: split along an edge of the surface

---
 structuralcodes/geometry/_geometry.py | 29 ++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index c956e88..f6b471a 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -17,7 +17,7 @@ from shapely.geometry import (
     Point,
     Polygon,
 )
-from shapely.ops import split
+from shapely.ops import polygonize
 
 from structuralcodes.core.base import Material
 from structuralcodes.materials.basic import ElasticMaterial
@@ -371,6 +371,30 @@ def create_line_point_angle(
     return LineString([(x1, y1), (x2, y2)])
 
 
+def _split_polygon(polygon: Polygon, line: LineString) -> t.List[Polygon]:
+    """Splits a polygon with a line.
+
+    Arguments:
+        polygon (Polygon): The polygon to split.
+        line (LineString): The line splitting the polygon.
+
+    Returns:
+        List(Polygon): The parts of the polygon.
+
+    Note:
+        The parts inside the polygon (and not in its holes or between its
+        edges and the line) are recognized with a point at some distance from
+        their edges, because other points could be in a sliver when the line
+        is along an edge of the polygon.
+    """
+    parts = []
+    for part in polygonize(polygon.boundary.union(line)):
+        core = part.buffer(-0.5 * part.area / part.length)
+        if polygon.contains(core.representative_point()):
+            parts.append(part)
+    return parts
+
+
 class SurfaceGeometry(Geometry):
     """Class for a surface geometry with material.
 
@@ -494,9 +518,8 @@ class SurfaceGeometry(Geometry):
         above_polygons = []
         below_polygons = []
         if line.intersects(self.polygon):
-            result = split(self.polygon, line)
             # divide polygons "above" and "below" line
-            for geom in result.geoms:
+            for geom in _split_polygon(self.polygon, line):
                 if LinearRing(
                     (line.coords[0], line.coords[1], geom.centroid.coords[0])
                 ).is_ccw:
-- 
2.43.0


From cce396e67af2528d979db25fb97f343048418646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 40/58] fix: partial factor of the shear reinforcement in
 MC2010 v_rd

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..2f3587f 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,10 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+
+        if V_rdc + V_rds < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +201,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From cca8f55555610e3e7c738300b9b218372402f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 41/58] fix: MC2010 level III shear resistance for negative
 shear force

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 2f3587f..b6a8b98 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -376,7 +376,7 @@ def v_rdc_approx3(
         gamma_c,
     )
     kv = max(
-        (0.4 / (1 + 1500 * epsilonx)) * (1 - loads.get('Ved') / V_rd_max),
+        (0.4 / (1 + 1500 * epsilonx)) * (1 - abs(loads.get('Ved')) / V_rd_max),
         0,
     )
 
-- 
2.43.0


From 16b2f41a7d2bf19f9b9f8603666036988db668f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 42/58] fix: reject unknown approximation levels in MC2010
 t_rd_max

---
 structuralcodes/codes/mc2010/_concrete_torsion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/codes/mc2010/_concrete_torsion.py b/structuralcodes/codes/mc2010/_concrete_torsion.py
index 1ce8331..fe474f1 100644
--- a/structuralcodes/codes/mc2010/_concrete_torsion.py
+++ b/structuralcodes/codes/mc2010/_concrete_torsion.py
@@ -75,6 +75,9 @@ def t_rd_max(
         )
         k_epsilon = min(1 / (1.2 + 55 * epsilon_1), 0.65)
 
+    else:
+        raise ValueError('Invalid approx level')
+
     k_c = eta_fc(f_ck) * k_epsilon
     return (
         k_c
-- 
2.43.0


From 343dac287bdddc93dae9c7b03554c56656db6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 43/58] fix: reject the inputs documented as invalid in the EC2
 crack control functions

---
 structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
index e0a4ae2..bfc6e3d 100644
--- a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
+++ b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
@@ -224,6 +224,8 @@ def kc_flanges_area(f_cr: float, A_ct: float, fct_eff: float) -> float:
     Raises:
         ValueError: If A_ct is less than 0mm2.
     """
+    if A_ct < 0:
+        raise ValueError(f'A_ct={A_ct} cannot be less than 0')
     f_cr = abs(f_cr)
     return max(0.9 * f_cr * 1000 / A_ct / fct_eff, 0.5)
 
@@ -907,6 +909,8 @@ def sr_max_theta(sr_max_y: float, sr_max_z: float, theta: float) -> float:
         raise ValueError(f'sr_max_y={sr_max_y} cannot be less than zero')
     if sr_max_z < 0:
         raise ValueError(f'sr_max_z={sr_max_z} cannot be less than zero')
+    if theta < 0 or theta > math.pi / 2:
+        raise ValueError(f'theta={theta} must be between 0 and pi/2')
 
     a = math.cos(theta) / sr_max_y
     b = math.sin(theta) / sr_max_z
-- 
2.43.0


From 3ec5eb00788969b4e5c283e1acf39aaf6dad94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 44/58] fix: reject inadmissible strut angles in Asw_s_required

---
 structuralcodes/codes/ec2_2004/shear.py | 1103 ++++++++++++-----------
 1 file changed, 552 insertions(+), 551 deletions(-)

diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index b6efa3f..672d566 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -1,551 +1,552 @@
-"""Design rules according to EN 1992-1-1 regarding shear."""
-
-import math
-import typing as t
-
-# General functions
-
-
-# Part of Equation (6.2).
-def _k(d: float) -> float:
-    """Compute a correction factor.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: Correction factor to account for the cross-sectional size on the
-        shear resistance.
-    """
-    return min(1.0 + math.sqrt(200.0 / d), 2.0)
-
-
-# Part of Equation (6.2).
-def _rho_L(Asl: float, bw: float, d: float) -> float:
-    """Compute the longitudinal reinforcement ratio.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored at least (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The maximum allowable reinforcement ratio of the longitudinal
-        reinforcement, unitless.
-    """
-    return min(Asl / (bw * d), 0.02)
-
-
-# Part of Equation(6.2).
-def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
-    """Calculate the average prestress stress in the cross-section.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable average prestress in the cross-section in
-        MPa.
-    """
-    return min(NEd / Ac, 0.2 * fcd)
-
-
-# Part of Equation (6.4)
-def _alpha_l(L_x, L_pt2) -> float:
-    """Compute the relative anchorage length for prestreched prestressing
-    steel.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18).
-
-    Returns:
-        float: Fraction (relative anchorage length) for determining the amount
-        of prestress that may be used when determining the shear resistance
-        using Mohr's circle.
-    """
-    return min(L_x / L_pt2, 1.0)
-
-
-# Equation (6.7N)
-def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
-    """Check if the provided angle theta is within the bounds provided by the
-    code.
-
-    EN 1992-1-1 (2005). Eq. (6.7N)
-
-    Args:
-        theta (float): The chosen angle of the compression strut in degrees.
-
-    Keyword Args:
-        cot_min (float): The minimum value for cot(theta). Default value is
-            1.0. Different value might be provided in the National Annexes.
-        cot_max (float): The maximum value for cot(theta). Default value is
-            2.5. Different value might be provided in the National Annexes.
-
-    Raises:
-        ValueError if the chosen angle is not within the given bounds.
-    """
-    # Use round to allow less precise angles (i.e. 21.8 degrees instead
-    # of 21.801..... degrees for cot_max = 2.5).
-    theta_ = math.radians(theta)
-    if (
-        round(1.0 / math.tan(theta_), 2) < cot_min
-        or round(1.0 / math.tan(theta_), 2) > cot_max
-    ):
-        raise ValueError(
-            'Wrong value for theta is chosen. Theta has '
-            f'to be chosen such that 1/tan(theta) lies between '
-            f'{cot_min} and {cot_max}. This corresponds to an angle '
-            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
-            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
-            f'degrees, respectively. Current angle is set at {theta}'
-            ' degrees.'
-        )
-
-
-# Equation (6.11N)
-def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
-    """Calculate factor that affects the maximum shear resistance of the
-    concrete based on the prestress.
-
-    EN 1992-1-1 (2005). Eq. (6.11N)
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design strength of the concrete in MPa.
-
-    Returns:
-        float: Factor that affects the maximum shear resistance of the concrete
-        based on the level of prestress.
-
-    Raises:
-        ValueError: The applied prestress exceeds the concrete design strength.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = Ned / Ac
-    if sigma_cp <= 0.0:
-        value = 1.0
-    elif sigma_cp <= 0.25 * fcd:
-        value = 1.0 + sigma_cp / fcd
-    elif sigma_cp <= 0.5 * fcd:
-        value = 1.25
-    elif sigma_cp < fcd:
-        value = 2.5 * (1 - sigma_cp / fcd)
-    else:
-        raise ValueError(
-            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
-            ' than design compressive strength.'
-        )
-    return value
-
-
-# Without shear reinforcement
-
-
-# Equation (6.2 a + b)
-def VRdc(
-    fck: float,
-    d: float,
-    Asl: float,
-    bw: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    k1: float = 0.15,
-    gamma_c: float = 1.5,
-    CRdc: t.Optional[float] = None,
-) -> float:
-    """Compute the design strength of the shear resistance.
-
-    EN 1992-1-1 (2005), Eq. (6.2)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored atleast (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        k1 (float): Factor used to include the effect of the normal stress
-            into the shear resistance of the concrete. Default value = 0.15,
-            value might differ between National Annexes.
-        gamma_c (float): Partial factor for concrete. Default value = 1.5,
-            value might differ between National Annexes.
-        CRdc (Optional[float]): Scaling factor for the shear resistance.
-            Default value is 0.18 / gamma_c.
-
-    Returns:
-        float: The concrete shear resistance in MPa.
-    """
-    CRdc = CRdc or 0.18 / gamma_c
-    return max(
-        max(
-            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
-            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
-            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
-        )
-        * bw
-        * d,
-        0,
-    )
-
-
-# Equation (6.3N)
-def vmin(fck: float, d: float) -> float:
-    """Compute the minimum shear resistance of the concrete.
-
-    EN 1992-1-1 (2005), Eq. (6.3)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The minimal shear stress resistance of the concrete in MPa.
-    """
-    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
-
-
-# Equation (6.4)
-def VRdc_prin_stress(
-    Iy: float,
-    bw: float,
-    S: float,
-    fctd: float,
-    NEd: float,
-    Ac: float,
-    L_x: float = None,
-    L_pt2: float = None,
-) -> float:
-    """Calculate the shear resistance in uncracked, prestressed elements
-    without shear reinforcement, value is determined via Mohr's circle.
-
-    The maximal value of the principle tensile stress does no necessarily lay
-    at the centre of gravity. If this is the ase the minimum value of the shear
-    resistance and corresponding stress needs to be found at the relevant
-    location.
-
-    EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        Iy (float): The second moment of area of the considered cross-section
-            in mm4.
-        bw (float): The width of the cross-section at the centre of gravity.
-        S (float): The first moment of area of the considered cross-section of
-            the part above the centre of gravity, and with respect to the
-            centre of gravity in mm3.
-        fctd (float): Design value of the tensile strength of the concrete.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-            This value should be provided when the prestressing steel is
-            prestreched. Default value is None.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18). This value should be
-            provided when the prestressing steel is prestreched. Default value
-            is None.
-
-    Returns:
-        float: The maximum allowable shear force in N for an uncracked,
-        prestressed element without shear reinforcement, determined from
-        maximum allowable principle stress.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = NEd / Ac
-    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
-
-    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
-
-
-# Equation (6.5)
-def VEdmax_unreinf(
-    bw: float,
-    d: float,
-    fck: float,
-    fcd: float,
-) -> float:
-    """Calculate the maximum allowable shear force for cross-sections without
-    shear reinforcement.
-
-    En 1992-1-1 (2005), Eq. (6.5).
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable shear force in the cross-section in N.
-        When a reduced shear force may be considered for the calculations, the
-        unreduced shear force has to comply to this value.
-    """
-    return 0.5 * bw * d * v(fck) * fcd
-
-
-# Equation (6.6N)
-def v(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.6N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 * (1 - fck / 250.0)
-
-
-# Equation (6.10N)
-def v1(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.10N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
-
-
-# With shear reinforcement
-
-
-# Equation (6.8 & 6.13)
-# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
-def VRds(
-    Asw: float,
-    s: float,
-    z: float,
-    theta: float,
-    fyk: float,
-    alpha: float = 90.0,
-    gamma_s: float = 1.15,
-) -> float:
-    """Calculate the shear resistance of vertical shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.8)
-
-    Args:
-        Asw (float): the cross-sectional area of the shear reinforcement in
-            mm2.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fyk (float): The characteristic strength of the reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        gamma_s (float): Partial factor of the reinforcement steel. Default
-            value = 1.15. Value might differ between National Annexes.
-
-    Returns:
-        float: The shear resistance of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    fywd = fyk / gamma_s
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Asw
-        / s
-        * z
-        * fywd
-        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        * math.sin(alpha)
-    )
-
-
-# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
-def Asw_s_required(
-    Ved: float,
-    z: float,
-    theta: float,
-    fywd: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the required shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        Ved (float): The shear force in N.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The amount of required shear reinforcement in mm2/mm.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Ved
-        / z
-        / fywd
-        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / math.sin(alpha)
-    )
-
-
-# Equation (6.9 & 6.14)
-# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
-def VRdmax(
-    bw: float,
-    z: float,
-    fck: float,
-    theta: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    alpha: float = 90.0,
-    limit_fyd: bool = False,
-) -> float:
-    """Calculate the maximum shear strength of the compression strut.
-
-    EN 1992-1-1 (2005). Eq. (6.9)
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        z (float): The inner lever arm of internal forces in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        theta (float): The angle of the compression strut in degrees.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        limit_fyd (bool): Flag to indicate if the design yield stress is
-            limited to 0.8 * fyk or not. This controls whether the stress
-            reduction factor of concrete is given by Eq. (6.6) (False) or
-            (6.10) (True).
-
-    Returns:
-        float: The shear strength of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-        ValueError: When sigma_cp > fcd.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    strength_reduction = v(fck) if not limit_fyd else v1(fck)
-    return (
-        alpha_cw(NEd, Ac, fcd)
-        * bw
-        * z
-        * strength_reduction
-        * fcd
-        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / (1 + 1.0 / math.tan(theta) ** 2)
-    )
-
-
-# Equation (6.12 & 6.15)
-# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
-def Asw_max(
-    fcd: float,
-    fck: float,
-    bw: float,
-    s: float,
-    fywd: float,
-    NEd: float,
-    Ac: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the maximum cross-sectional area of the shear reinforcement,
-    based on the assumption 1/tan(theta) == 1.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        fcd (float): The design strength of the concrete in MPa.
-        fck (float): The characteristic compressive strength in MPa.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The maximum allowable cross-sectional area of the shear
-        reinforcement in mm2.
-
-    Raises:
-        ValueError: When sigma_cp > fcd.
-    """
-    alpha = math.radians(alpha)
-    return (
-        1.0
-        / 2.0
-        * alpha_cw(NEd, Ac, fcd)
-        * v(fck)
-        * fcd
-        * bw
-        * s
-        / (fywd * math.sin(alpha))
-    )
+"""Design rules according to EN 1992-1-1 regarding shear."""
+
+import math
+import typing as t
+
+# General functions
+
+
+# Part of Equation (6.2).
+def _k(d: float) -> float:
+    """Compute a correction factor.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: Correction factor to account for the cross-sectional size on the
+        shear resistance.
+    """
+    return min(1.0 + math.sqrt(200.0 / d), 2.0)
+
+
+# Part of Equation (6.2).
+def _rho_L(Asl: float, bw: float, d: float) -> float:
+    """Compute the longitudinal reinforcement ratio.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored at least (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The maximum allowable reinforcement ratio of the longitudinal
+        reinforcement, unitless.
+    """
+    return min(Asl / (bw * d), 0.02)
+
+
+# Part of Equation(6.2).
+def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
+    """Calculate the average prestress stress in the cross-section.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable average prestress in the cross-section in
+        MPa.
+    """
+    return min(NEd / Ac, 0.2 * fcd)
+
+
+# Part of Equation (6.4)
+def _alpha_l(L_x, L_pt2) -> float:
+    """Compute the relative anchorage length for prestreched prestressing
+    steel.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18).
+
+    Returns:
+        float: Fraction (relative anchorage length) for determining the amount
+        of prestress that may be used when determining the shear resistance
+        using Mohr's circle.
+    """
+    return min(L_x / L_pt2, 1.0)
+
+
+# Equation (6.7N)
+def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
+    """Check if the provided angle theta is within the bounds provided by the
+    code.
+
+    EN 1992-1-1 (2005). Eq. (6.7N)
+
+    Args:
+        theta (float): The chosen angle of the compression strut in degrees.
+
+    Keyword Args:
+        cot_min (float): The minimum value for cot(theta). Default value is
+            1.0. Different value might be provided in the National Annexes.
+        cot_max (float): The maximum value for cot(theta). Default value is
+            2.5. Different value might be provided in the National Annexes.
+
+    Raises:
+        ValueError if the chosen angle is not within the given bounds.
+    """
+    # Use round to allow less precise angles (i.e. 21.8 degrees instead
+    # of 21.801..... degrees for cot_max = 2.5).
+    theta_ = math.radians(theta)
+    if (
+        round(1.0 / math.tan(theta_), 2) < cot_min
+        or round(1.0 / math.tan(theta_), 2) > cot_max
+    ):
+        raise ValueError(
+            'Wrong value for theta is chosen. Theta has '
+            f'to be chosen such that 1/tan(theta) lies between '
+            f'{cot_min} and {cot_max}. This corresponds to an angle '
+            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
+            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
+            f'degrees, respectively. Current angle is set at {theta}'
+            ' degrees.'
+        )
+
+
+# Equation (6.11N)
+def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
+    """Calculate factor that affects the maximum shear resistance of the
+    concrete based on the prestress.
+
+    EN 1992-1-1 (2005). Eq. (6.11N)
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design strength of the concrete in MPa.
+
+    Returns:
+        float: Factor that affects the maximum shear resistance of the concrete
+        based on the level of prestress.
+
+    Raises:
+        ValueError: The applied prestress exceeds the concrete design strength.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = Ned / Ac
+    if sigma_cp <= 0.0:
+        value = 1.0
+    elif sigma_cp <= 0.25 * fcd:
+        value = 1.0 + sigma_cp / fcd
+    elif sigma_cp <= 0.5 * fcd:
+        value = 1.25
+    elif sigma_cp < fcd:
+        value = 2.5 * (1 - sigma_cp / fcd)
+    else:
+        raise ValueError(
+            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
+            ' than design compressive strength.'
+        )
+    return value
+
+
+# Without shear reinforcement
+
+
+# Equation (6.2 a + b)
+def VRdc(
+    fck: float,
+    d: float,
+    Asl: float,
+    bw: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    k1: float = 0.15,
+    gamma_c: float = 1.5,
+    CRdc: t.Optional[float] = None,
+) -> float:
+    """Compute the design strength of the shear resistance.
+
+    EN 1992-1-1 (2005), Eq. (6.2)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored atleast (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        k1 (float): Factor used to include the effect of the normal stress
+            into the shear resistance of the concrete. Default value = 0.15,
+            value might differ between National Annexes.
+        gamma_c (float): Partial factor for concrete. Default value = 1.5,
+            value might differ between National Annexes.
+        CRdc (Optional[float]): Scaling factor for the shear resistance.
+            Default value is 0.18 / gamma_c.
+
+    Returns:
+        float: The concrete shear resistance in MPa.
+    """
+    CRdc = CRdc or 0.18 / gamma_c
+    return max(
+        max(
+            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
+            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
+            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
+        )
+        * bw
+        * d,
+        0,
+    )
+
+
+# Equation (6.3N)
+def vmin(fck: float, d: float) -> float:
+    """Compute the minimum shear resistance of the concrete.
+
+    EN 1992-1-1 (2005), Eq. (6.3)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The minimal shear stress resistance of the concrete in MPa.
+    """
+    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
+
+
+# Equation (6.4)
+def VRdc_prin_stress(
+    Iy: float,
+    bw: float,
+    S: float,
+    fctd: float,
+    NEd: float,
+    Ac: float,
+    L_x: float = None,
+    L_pt2: float = None,
+) -> float:
+    """Calculate the shear resistance in uncracked, prestressed elements
+    without shear reinforcement, value is determined via Mohr's circle.
+
+    The maximal value of the principle tensile stress does no necessarily lay
+    at the centre of gravity. If this is the ase the minimum value of the shear
+    resistance and corresponding stress needs to be found at the relevant
+    location.
+
+    EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        Iy (float): The second moment of area of the considered cross-section
+            in mm4.
+        bw (float): The width of the cross-section at the centre of gravity.
+        S (float): The first moment of area of the considered cross-section of
+            the part above the centre of gravity, and with respect to the
+            centre of gravity in mm3.
+        fctd (float): Design value of the tensile strength of the concrete.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+            This value should be provided when the prestressing steel is
+            prestreched. Default value is None.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18). This value should be
+            provided when the prestressing steel is prestreched. Default value
+            is None.
+
+    Returns:
+        float: The maximum allowable shear force in N for an uncracked,
+        prestressed element without shear reinforcement, determined from
+        maximum allowable principle stress.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = NEd / Ac
+    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
+
+    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
+
+
+# Equation (6.5)
+def VEdmax_unreinf(
+    bw: float,
+    d: float,
+    fck: float,
+    fcd: float,
+) -> float:
+    """Calculate the maximum allowable shear force for cross-sections without
+    shear reinforcement.
+
+    En 1992-1-1 (2005), Eq. (6.5).
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable shear force in the cross-section in N.
+        When a reduced shear force may be considered for the calculations, the
+        unreduced shear force has to comply to this value.
+    """
+    return 0.5 * bw * d * v(fck) * fcd
+
+
+# Equation (6.6N)
+def v(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.6N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 * (1 - fck / 250.0)
+
+
+# Equation (6.10N)
+def v1(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.10N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
+
+
+# With shear reinforcement
+
+
+# Equation (6.8 & 6.13)
+# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
+def VRds(
+    Asw: float,
+    s: float,
+    z: float,
+    theta: float,
+    fyk: float,
+    alpha: float = 90.0,
+    gamma_s: float = 1.15,
+) -> float:
+    """Calculate the shear resistance of vertical shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.8)
+
+    Args:
+        Asw (float): the cross-sectional area of the shear reinforcement in
+            mm2.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fyk (float): The characteristic strength of the reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        gamma_s (float): Partial factor of the reinforcement steel. Default
+            value = 1.15. Value might differ between National Annexes.
+
+    Returns:
+        float: The shear resistance of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    fywd = fyk / gamma_s
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Asw
+        / s
+        * z
+        * fywd
+        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        * math.sin(alpha)
+    )
+
+
+# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
+def Asw_s_required(
+    Ved: float,
+    z: float,
+    theta: float,
+    fywd: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the required shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        Ved (float): The shear force in N.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The amount of required shear reinforcement in mm2/mm.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Ved
+        / z
+        / fywd
+        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / math.sin(alpha)
+    )
+
+
+# Equation (6.9 & 6.14)
+# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
+def VRdmax(
+    bw: float,
+    z: float,
+    fck: float,
+    theta: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    alpha: float = 90.0,
+    limit_fyd: bool = False,
+) -> float:
+    """Calculate the maximum shear strength of the compression strut.
+
+    EN 1992-1-1 (2005). Eq. (6.9)
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        z (float): The inner lever arm of internal forces in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        theta (float): The angle of the compression strut in degrees.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        limit_fyd (bool): Flag to indicate if the design yield stress is
+            limited to 0.8 * fyk or not. This controls whether the stress
+            reduction factor of concrete is given by Eq. (6.6) (False) or
+            (6.10) (True).
+
+    Returns:
+        float: The shear strength of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+        ValueError: When sigma_cp > fcd.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    strength_reduction = v(fck) if not limit_fyd else v1(fck)
+    return (
+        alpha_cw(NEd, Ac, fcd)
+        * bw
+        * z
+        * strength_reduction
+        * fcd
+        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / (1 + 1.0 / math.tan(theta) ** 2)
+    )
+
+
+# Equation (6.12 & 6.15)
+# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
+def Asw_max(
+    fcd: float,
+    fck: float,
+    bw: float,
+    s: float,
+    fywd: float,
+    NEd: float,
+    Ac: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the maximum cross-sectional area of the shear reinforcement,
+    based on the assumption 1/tan(theta) == 1.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        fcd (float): The design strength of the concrete in MPa.
+        fck (float): The characteristic compressive strength in MPa.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The maximum allowable cross-sectional area of the shear
+        reinforcement in mm2.
+
+    Raises:
+        ValueError: When sigma_cp > fcd.
+    """
+    alpha = math.radians(alpha)
+    return (
+        1.0
+        / 2.0
+        * alpha_cw(NEd, Ac, fcd)
+        * v(fck)
+        * fcd
+        * bw
+        * s
+        / (fywd * math.sin(alpha))
+    )
-- 
2.43.0


From d2fe4683e64d95f9ce7e37de31dd02cd06c6b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 45/58] fix: reject k less than 1 in EC2 2023 sigma_s

---
 structuralcodes/codes/ec2_2023/_section5_materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/codes/ec2_2023/_section5_materials.py b/structuralcodes/codes/ec2_2023/_section5_materials.py
index 921016f..be54644 100644
--- a/structuralcodes/codes/ec2_2023/_section5_materials.py
+++ b/structuralcodes/codes/ec2_2023/_section5_materials.py
@@ -964,8 +964,8 @@ def sigma_s(
         raise ValueError(f'Es={Es} must be larger than 0')
     if fy <= 0:
         raise ValueError(f'fyk={fy} must be larger than 0')
-    if k < 0:
-        raise ValueError(f'k={k} must be larger than 1')
+    if k < 1:
+        raise ValueError(f'k={k} must be larger than or equal to 1')
 
     eps_y = fy / Es
 
-- 
2.43.0


From b7d76f06a2a072a9ee35eb5b237e70421ea28cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 46/58] fix: remove missing name from __all__ of EC2 2023

---
 structuralcodes/codes/ec2_2023/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2023/__init__.py b/structuralcodes/codes/ec2_2023/__init__.py
index c866214..801b0d0 100644
--- a/structuralcodes/codes/ec2_2023/__init__.py
+++ b/structuralcodes/codes/ec2_2023/__init__.py
@@ -81,7 +81,6 @@ __all__ = [
     'phi_50y_t0',
     'phi_correction_factor',
     'reinforcement_duct_props',
-    'sigma_c',
     'sigma_p',
     'sigma_s',
     'weight_c',
-- 
2.43.0


From 551f7f5829bf44584ef66320e898b340a441f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 47/58] fix: strip the cement class in alpha_cement

---
 structuralcodes/codes/ec2_2004/_concrete_creep_and_shrinkage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/ec2_2004/_concrete_creep_and_shrinkage.py
index a641c0a..3f129bf 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_creep_and_shrinkage.py
@@ -517,7 +517,7 @@ def alpha_cement(cement_class: t.Literal['S', 'N', 'R']) -> float:
     Raises:
         ValueError: If an invalid cement class is provided.
     """
-    _alpha_cement = ALPHA_CEMENT_DICT.get(cement_class.upper())
+    _alpha_cement = ALPHA_CEMENT_DICT.get(cement_class.upper().strip())
 
     if _alpha_cement is None:
         raise ValueError(
-- 
2.43.0


From df66303602ea675196a18d57a8bcaf590a0e4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 48/58] fix: integer ultimate strain of the elastic law

---
 structuralcodes/materials/constitutive_laws/_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_elastic.py b/structuralcodes/materials/constitutive_laws/_elastic.py
index d085257..c5466ac 100644
--- a/structuralcodes/materials/constitutive_laws/_elastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elastic.py
@@ -120,7 +120,7 @@ class Elastic(ConstitutiveLaw):
                 and positive strains. If a tuple is provided, it should be
                 given as (negative, positive).
         """
-        if isinstance(eps_u, float):
+        if isinstance(eps_u, (int, float)):
             self._eps_u = (-abs(eps_u), abs(eps_u))
         elif isinstance(eps_u, tuple):
             if len(eps_u) < 2:
-- 
2.43.0


From 602d1763dda1b14310ff8f381caf7f7c1045b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 49/58] fix: integer ultimate strain of the user defined law

---
 structuralcodes/materials/constitutive_laws/_userdefined.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index fc27554..10534fc 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -248,7 +248,7 @@ class UserDefined(ConstitutiveLaw):
                 and positive strains. If a tuple is provided, it should be
                 given as (negative, positive).
         """
-        if isinstance(eps_u, float):
+        if isinstance(eps_u, (int, float)):
             self._ultimate_strain_p = abs(eps_u)
             self._ultimate_strain_n = -abs(eps_u)
         elif isinstance(eps_u, tuple):
-- 
2.43.0


From 77fa01c760d446d4427df4434fe3eb7f5a085fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 50/58] fix: restore the original line endings of
 ec2_2004/shear.py

---
 structuralcodes/codes/ec2_2004/shear.py | 1104 +++++++++++------------
 1 file changed, 552 insertions(+), 552 deletions(-)

diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index 672d566..9e6ac0c 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -1,552 +1,552 @@
-"""Design rules according to EN 1992-1-1 regarding shear."""
-
-import math
-import typing as t
-
-# General functions
-
-
-# Part of Equation (6.2).
-def _k(d: float) -> float:
-    """Compute a correction factor.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: Correction factor to account for the cross-sectional size on the
-        shear resistance.
-    """
-    return min(1.0 + math.sqrt(200.0 / d), 2.0)
-
-
-# Part of Equation (6.2).
-def _rho_L(Asl: float, bw: float, d: float) -> float:
-    """Compute the longitudinal reinforcement ratio.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored at least (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The maximum allowable reinforcement ratio of the longitudinal
-        reinforcement, unitless.
-    """
-    return min(Asl / (bw * d), 0.02)
-
-
-# Part of Equation(6.2).
-def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
-    """Calculate the average prestress stress in the cross-section.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable average prestress in the cross-section in
-        MPa.
-    """
-    return min(NEd / Ac, 0.2 * fcd)
-
-
-# Part of Equation (6.4)
-def _alpha_l(L_x, L_pt2) -> float:
-    """Compute the relative anchorage length for prestreched prestressing
-    steel.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18).
-
-    Returns:
-        float: Fraction (relative anchorage length) for determining the amount
-        of prestress that may be used when determining the shear resistance
-        using Mohr's circle.
-    """
-    return min(L_x / L_pt2, 1.0)
-
-
-# Equation (6.7N)
-def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
-    """Check if the provided angle theta is within the bounds provided by the
-    code.
-
-    EN 1992-1-1 (2005). Eq. (6.7N)
-
-    Args:
-        theta (float): The chosen angle of the compression strut in degrees.
-
-    Keyword Args:
-        cot_min (float): The minimum value for cot(theta). Default value is
-            1.0. Different value might be provided in the National Annexes.
-        cot_max (float): The maximum value for cot(theta). Default value is
-            2.5. Different value might be provided in the National Annexes.
-
-    Raises:
-        ValueError if the chosen angle is not within the given bounds.
-    """
-    # Use round to allow less precise angles (i.e. 21.8 degrees instead
-    # of 21.801..... degrees for cot_max = 2.5).
-    theta_ = math.radians(theta)
-    if (
-        round(1.0 / math.tan(theta_), 2) < cot_min
-        or round(1.0 / math.tan(theta_), 2) > cot_max
-    ):
-        raise ValueError(
-            'Wrong value for theta is chosen. Theta has '
-            f'to be chosen such that 1/tan(theta) lies between '
-            f'{cot_min} and {cot_max}. This corresponds to an angle '
-            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
-            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
-            f'degrees, respectively. Current angle is set at {theta}'
-            ' degrees.'
-        )
-
-
-# Equation (6.11N)
-def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
-    """Calculate factor that affects the maximum shear resistance of the
-    concrete based on the prestress.
-
-    EN 1992-1-1 (2005). Eq. (6.11N)
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design strength of the concrete in MPa.
-
-    Returns:
-        float: Factor that affects the maximum shear resistance of the concrete
-        based on the level of prestress.
-
-    Raises:
-        ValueError: The applied prestress exceeds the concrete design strength.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = Ned / Ac
-    if sigma_cp <= 0.0:
-        value = 1.0
-    elif sigma_cp <= 0.25 * fcd:
-        value = 1.0 + sigma_cp / fcd
-    elif sigma_cp <= 0.5 * fcd:
-        value = 1.25
-    elif sigma_cp < fcd:
-        value = 2.5 * (1 - sigma_cp / fcd)
-    else:
-        raise ValueError(
-            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
-            ' than design compressive strength.'
-        )
-    return value
-
-
-# Without shear reinforcement
-
-
-# Equation (6.2 a + b)
-def VRdc(
-    fck: float,
-    d: float,
-    Asl: float,
-    bw: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    k1: float = 0.15,
-    gamma_c: float = 1.5,
-    CRdc: t.Optional[float] = None,
-) -> float:
-    """Compute the design strength of the shear resistance.
-
-    EN 1992-1-1 (2005), Eq. (6.2)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored atleast (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        k1 (float): Factor used to include the effect of the normal stress
-            into the shear resistance of the concrete. Default value = 0.15,
-            value might differ between National Annexes.
-        gamma_c (float): Partial factor for concrete. Default value = 1.5,
-            value might differ between National Annexes.
-        CRdc (Optional[float]): Scaling factor for the shear resistance.
-            Default value is 0.18 / gamma_c.
-
-    Returns:
-        float: The concrete shear resistance in MPa.
-    """
-    CRdc = CRdc or 0.18 / gamma_c
-    return max(
-        max(
-            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
-            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
-            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
-        )
-        * bw
-        * d,
-        0,
-    )
-
-
-# Equation (6.3N)
-def vmin(fck: float, d: float) -> float:
-    """Compute the minimum shear resistance of the concrete.
-
-    EN 1992-1-1 (2005), Eq. (6.3)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The minimal shear stress resistance of the concrete in MPa.
-    """
-    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
-
-
-# Equation (6.4)
-def VRdc_prin_stress(
-    Iy: float,
-    bw: float,
-    S: float,
-    fctd: float,
-    NEd: float,
-    Ac: float,
-    L_x: float = None,
-    L_pt2: float = None,
-) -> float:
-    """Calculate the shear resistance in uncracked, prestressed elements
-    without shear reinforcement, value is determined via Mohr's circle.
-
-    The maximal value of the principle tensile stress does no necessarily lay
-    at the centre of gravity. If this is the ase the minimum value of the shear
-    resistance and corresponding stress needs to be found at the relevant
-    location.
-
-    EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        Iy (float): The second moment of area of the considered cross-section
-            in mm4.
-        bw (float): The width of the cross-section at the centre of gravity.
-        S (float): The first moment of area of the considered cross-section of
-            the part above the centre of gravity, and with respect to the
-            centre of gravity in mm3.
-        fctd (float): Design value of the tensile strength of the concrete.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-            This value should be provided when the prestressing steel is
-            prestreched. Default value is None.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18). This value should be
-            provided when the prestressing steel is prestreched. Default value
-            is None.
-
-    Returns:
-        float: The maximum allowable shear force in N for an uncracked,
-        prestressed element without shear reinforcement, determined from
-        maximum allowable principle stress.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = NEd / Ac
-    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
-
-    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
-
-
-# Equation (6.5)
-def VEdmax_unreinf(
-    bw: float,
-    d: float,
-    fck: float,
-    fcd: float,
-) -> float:
-    """Calculate the maximum allowable shear force for cross-sections without
-    shear reinforcement.
-
-    En 1992-1-1 (2005), Eq. (6.5).
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable shear force in the cross-section in N.
-        When a reduced shear force may be considered for the calculations, the
-        unreduced shear force has to comply to this value.
-    """
-    return 0.5 * bw * d * v(fck) * fcd
-
-
-# Equation (6.6N)
-def v(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.6N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 * (1 - fck / 250.0)
-
-
-# Equation (6.10N)
-def v1(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.10N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
-
-
-# With shear reinforcement
-
-
-# Equation (6.8 & 6.13)
-# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
-def VRds(
-    Asw: float,
-    s: float,
-    z: float,
-    theta: float,
-    fyk: float,
-    alpha: float = 90.0,
-    gamma_s: float = 1.15,
-) -> float:
-    """Calculate the shear resistance of vertical shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.8)
-
-    Args:
-        Asw (float): the cross-sectional area of the shear reinforcement in
-            mm2.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fyk (float): The characteristic strength of the reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        gamma_s (float): Partial factor of the reinforcement steel. Default
-            value = 1.15. Value might differ between National Annexes.
-
-    Returns:
-        float: The shear resistance of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    fywd = fyk / gamma_s
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Asw
-        / s
-        * z
-        * fywd
-        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        * math.sin(alpha)
-    )
-
-
-# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
-def Asw_s_required(
-    Ved: float,
-    z: float,
-    theta: float,
-    fywd: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the required shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        Ved (float): The shear force in N.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The amount of required shear reinforcement in mm2/mm.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Ved
-        / z
-        / fywd
-        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / math.sin(alpha)
-    )
-
-
-# Equation (6.9 & 6.14)
-# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
-def VRdmax(
-    bw: float,
-    z: float,
-    fck: float,
-    theta: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    alpha: float = 90.0,
-    limit_fyd: bool = False,
-) -> float:
-    """Calculate the maximum shear strength of the compression strut.
-
-    EN 1992-1-1 (2005). Eq. (6.9)
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        z (float): The inner lever arm of internal forces in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        theta (float): The angle of the compression strut in degrees.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        limit_fyd (bool): Flag to indicate if the design yield stress is
-            limited to 0.8 * fyk or not. This controls whether the stress
-            reduction factor of concrete is given by Eq. (6.6) (False) or
-            (6.10) (True).
-
-    Returns:
-        float: The shear strength of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-        ValueError: When sigma_cp > fcd.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    strength_reduction = v(fck) if not limit_fyd else v1(fck)
-    return (
-        alpha_cw(NEd, Ac, fcd)
-        * bw
-        * z
-        * strength_reduction
-        * fcd
-        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / (1 + 1.0 / math.tan(theta) ** 2)
-    )
-
-
-# Equation (6.12 & 6.15)
-# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
-def Asw_max(
-    fcd: float,
-    fck: float,
-    bw: float,
-    s: float,
-    fywd: float,
-    NEd: float,
-    Ac: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the maximum cross-sectional area of the shear reinforcement,
-    based on the assumption 1/tan(theta) == 1.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        fcd (float): The design strength of the concrete in MPa.
-        fck (float): The characteristic compressive strength in MPa.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The maximum allowable cross-sectional area of the shear
-        reinforcement in mm2.
-
-    Raises:
-        ValueError: When sigma_cp > fcd.
-    """
-    alpha = math.radians(alpha)
-    return (
-        1.0
-        / 2.0
-        * alpha_cw(NEd, Ac, fcd)
-        * v(fck)
-        * fcd
-        * bw
-        * s
-        / (fywd * math.sin(alpha))
-    )
+"""Design rules according to EN 1992-1-1 regarding shear."""
+
+import math
+import typing as t
+
+# General functions
+
+
+# Part of Equation (6.2).
+def _k(d: float) -> float:
+    """Compute a correction factor.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: Correction factor to account for the cross-sectional size on the
+        shear resistance.
+    """
+    return min(1.0 + math.sqrt(200.0 / d), 2.0)
+
+
+# Part of Equation (6.2).
+def _rho_L(Asl: float, bw: float, d: float) -> float:
+    """Compute the longitudinal reinforcement ratio.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored at least (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The maximum allowable reinforcement ratio of the longitudinal
+        reinforcement, unitless.
+    """
+    return min(Asl / (bw * d), 0.02)
+
+
+# Part of Equation(6.2).
+def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
+    """Calculate the average prestress stress in the cross-section.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable average prestress in the cross-section in
+        MPa.
+    """
+    return min(NEd / Ac, 0.2 * fcd)
+
+
+# Part of Equation (6.4)
+def _alpha_l(L_x, L_pt2) -> float:
+    """Compute the relative anchorage length for prestreched prestressing
+    steel.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18).
+
+    Returns:
+        float: Fraction (relative anchorage length) for determining the amount
+        of prestress that may be used when determining the shear resistance
+        using Mohr's circle.
+    """
+    return min(L_x / L_pt2, 1.0)
+
+
+# Equation (6.7N)
+def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
+    """Check if the provided angle theta is within the bounds provided by the
+    code.
+
+    EN 1992-1-1 (2005). Eq. (6.7N)
+
+    Args:
+        theta (float): The chosen angle of the compression strut in degrees.
+
+    Keyword Args:
+        cot_min (float): The minimum value for cot(theta). Default value is
+            1.0. Different value might be provided in the National Annexes.
+        cot_max (float): The maximum value for cot(theta). Default value is
+            2.5. Different value might be provided in the National Annexes.
+
+    Raises:
+        ValueError if the chosen angle is not within the given bounds.
+    """
+    # Use round to allow less precise angles (i.e. 21.8 degrees instead
+    # of 21.801..... degrees for cot_max = 2.5).
+    theta_ = math.radians(theta)
+    if (
+        round(1.0 / math.tan(theta_), 2) < cot_min
+        or round(1.0 / math.tan(theta_), 2) > cot_max
+    ):
+        raise ValueError(
+            'Wrong value for theta is chosen. Theta has '
+            f'to be chosen such that 1/tan(theta) lies between '
+            f'{cot_min} and {cot_max}. This corresponds to an angle '
+            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
+            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
+            f'degrees, respectively. Current angle is set at {theta}'
+            ' degrees.'
+        )
+
+
+# Equation (6.11N)
+def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
+    """Calculate factor that affects the maximum shear resistance of the
+    concrete based on the prestress.
+
+    EN 1992-1-1 (2005). Eq. (6.11N)
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design strength of the concrete in MPa.
+
+    Returns:
+        float: Factor that affects the maximum shear resistance of the concrete
+        based on the level of prestress.
+
+    Raises:
+        ValueError: The applied prestress exceeds the concrete design strength.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = Ned / Ac
+    if sigma_cp <= 0.0:
+        value = 1.0
+    elif sigma_cp <= 0.25 * fcd:
+        value = 1.0 + sigma_cp / fcd
+    elif sigma_cp <= 0.5 * fcd:
+        value = 1.25
+    elif sigma_cp < fcd:
+        value = 2.5 * (1 - sigma_cp / fcd)
+    else:
+        raise ValueError(
+            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
+            ' than design compressive strength.'
+        )
+    return value
+
+
+# Without shear reinforcement
+
+
+# Equation (6.2 a + b)
+def VRdc(
+    fck: float,
+    d: float,
+    Asl: float,
+    bw: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    k1: float = 0.15,
+    gamma_c: float = 1.5,
+    CRdc: t.Optional[float] = None,
+) -> float:
+    """Compute the design strength of the shear resistance.
+
+    EN 1992-1-1 (2005), Eq. (6.2)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored atleast (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        k1 (float): Factor used to include the effect of the normal stress
+            into the shear resistance of the concrete. Default value = 0.15,
+            value might differ between National Annexes.
+        gamma_c (float): Partial factor for concrete. Default value = 1.5,
+            value might differ between National Annexes.
+        CRdc (Optional[float]): Scaling factor for the shear resistance.
+            Default value is 0.18 / gamma_c.
+
+    Returns:
+        float: The concrete shear resistance in MPa.
+    """
+    CRdc = CRdc or 0.18 / gamma_c
+    return max(
+        max(
+            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
+            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
+            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
+        )
+        * bw
+        * d,
+        0,
+    )
+
+
+# Equation (6.3N)
+def vmin(fck: float, d: float) -> float:
+    """Compute the minimum shear resistance of the concrete.
+
+    EN 1992-1-1 (2005), Eq. (6.3)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The minimal shear stress resistance of the concrete in MPa.
+    """
+    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
+
+
+# Equation (6.4)
+def VRdc_prin_stress(
+    Iy: float,
+    bw: float,
+    S: float,
+    fctd: float,
+    NEd: float,
+    Ac: float,
+    L_x: float = None,
+    L_pt2: float = None,
+) -> float:
+    """Calculate the shear resistance in uncracked, prestressed elements
+    without shear reinforcement, value is determined via Mohr's circle.
+
+    The maximal value of the principle tensile stress does no necessarily lay
+    at the centre of gravity. If this is the ase the minimum value of the shear
+    resistance and corresponding stress needs to be found at the relevant
+    location.
+
+    EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        Iy (float): The second moment of area of the considered cross-section
+            in mm4.
+        bw (float): The width of the cross-section at the centre of gravity.
+        S (float): The first moment of area of the considered cross-section of
+            the part above the centre of gravity, and with respect to the
+            centre of gravity in mm3.
+        fctd (float): Design value of the tensile strength of the concrete.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+            This value should be provided when the prestressing steel is
+            prestreched. Default value is None.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18). This value should be
+            provided when the prestressing steel is prestreched. Default value
+            is None.
+
+    Returns:
+        float: The maximum allowable shear force in N for an uncracked,
+        prestressed element without shear reinforcement, determined from
+        maximum allowable principle stress.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = NEd / Ac
+    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
+
+    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
+
+
+# Equation (6.5)
+def VEdmax_unreinf(
+    bw: float,
+    d: float,
+    fck: float,
+    fcd: float,
+) -> float:
+    """Calculate the maximum allowable shear force for cross-sections without
+    shear reinforcement.
+
+    En 1992-1-1 (2005), Eq. (6.5).
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable shear force in the cross-section in N.
+        When a reduced shear force may be considered for the calculations, the
+        unreduced shear force has to comply to this value.
+    """
+    return 0.5 * bw * d * v(fck) * fcd
+
+
+# Equation (6.6N)
+def v(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.6N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 * (1 - fck / 250.0)
+
+
+# Equation (6.10N)
+def v1(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.10N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
+
+
+# With shear reinforcement
+
+
+# Equation (6.8 & 6.13)
+# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
+def VRds(
+    Asw: float,
+    s: float,
+    z: float,
+    theta: float,
+    fyk: float,
+    alpha: float = 90.0,
+    gamma_s: float = 1.15,
+) -> float:
+    """Calculate the shear resistance of vertical shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.8)
+
+    Args:
+        Asw (float): the cross-sectional area of the shear reinforcement in
+            mm2.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fyk (float): The characteristic strength of the reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        gamma_s (float): Partial factor of the reinforcement steel. Default
+            value = 1.15. Value might differ between National Annexes.
+
+    Returns:
+        float: The shear resistance of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    fywd = fyk / gamma_s
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Asw
+        / s
+        * z
+        * fywd
+        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        * math.sin(alpha)
+    )
+
+
+# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
+def Asw_s_required(
+    Ved: float,
+    z: float,
+    theta: float,
+    fywd: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the required shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        Ved (float): The shear force in N.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The amount of required shear reinforcement in mm2/mm.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Ved
+        / z
+        / fywd
+        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / math.sin(alpha)
+    )
+
+
+# Equation (6.9 & 6.14)
+# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
+def VRdmax(
+    bw: float,
+    z: float,
+    fck: float,
+    theta: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    alpha: float = 90.0,
+    limit_fyd: bool = False,
+) -> float:
+    """Calculate the maximum shear strength of the compression strut.
+
+    EN 1992-1-1 (2005). Eq. (6.9)
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        z (float): The inner lever arm of internal forces in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        theta (float): The angle of the compression strut in degrees.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        limit_fyd (bool): Flag to indicate if the design yield stress is
+            limited to 0.8 * fyk or not. This controls whether the stress
+            reduction factor of concrete is given by Eq. (6.6) (False) or
+            (6.10) (True).
+
+    Returns:
+        float: The shear strength of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+        ValueError: When sigma_cp > fcd.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    strength_reduction = v(fck) if not limit_fyd else v1(fck)
+    return (
+        alpha_cw(NEd, Ac, fcd)
+        * bw
+        * z
+        * strength_reduction
+        * fcd
+        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / (1 + 1.0 / math.tan(theta) ** 2)
+    )
+
+
+# Equation (6.12 & 6.15)
+# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
+def Asw_max(
+    fcd: float,
+    fck: float,
+    bw: float,
+    s: float,
+    fywd: float,
+    NEd: float,
+    Ac: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the maximum cross-sectional area of the shear reinforcement,
+    based on the assumption 1/tan(theta) == 1.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        fcd (float): The design strength of the concrete in MPa.
+        fck (float): The characteristic compressive strength in MPa.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The maximum allowable cross-sectional area of the shear
+        reinforcement in mm2.
+
+    Raises:
+        ValueError: When sigma_cp > fcd.
+    """
+    alpha = math.radians(alpha)
+    return (
+        1.0
+        / 2.0
+        * alpha_cw(NEd, Ac, fcd)
+        * v(fck)
+        * fcd
+        * bw
+        * s
+        / (fywd * math.sin(alpha))
+    )
-- 
2.43.0


From 373984983624654361e0735009b2c5fbd8e748cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 51/58] fix: mirror the first point of user defined laws whose
 data start beyond zero

---
 .../materials/constitutive_laws/_userdefined.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 10534fc..aaeeae6 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -53,9 +53,11 @@ class UserDefined(ConstitutiveLaw):
         if len(x) != len(y):
             raise ValueError('The two arrays should have the same length')
         if not np.any(x < 0):
-            # User provided only positive part, reflect in negative
-            self._x = np.concatenate((-np.flip(x)[:-1], x))
-            self._y = np.concatenate((-np.flip(y)[:-1], y))
+            # User provided only positive part, reflect in negative (the origin
+            # is not repeated)
+            start = 1 if x[0] == 0 else 0
+            self._x = np.concatenate((-np.flip(x[start:]), x))
+            self._y = np.concatenate((-np.flip(y[start:]), y))
         else:
             # User gave both positive and negative parts
             self._x = x
-- 
2.43.0


From 603ee84f5ca4e68f912721213b3f67b878d0fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 52/58] fix: refuse objects that are not geometries in a
 CompoundGeometry

---
 structuralcodes/geometry/_geometry.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index f6b471a..b2ddd84 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -762,6 +762,11 @@ def _process_geometries_multipolygon(
             )
         for g, m in zip(geometries.geoms, materials):
             checked_geometries.append(SurfaceGeometry(poly=g, material=m))
+    else:
+        raise TypeError(
+            'materials should be a Material or a list of Material for a '
+            f'MultiPolygon. {repr(materials)}'
+        )
     return checked_geometries
 
 
@@ -782,6 +787,10 @@ def _process_geometries_list(
                 checked_point_geometries.append(pg)
         elif isinstance(geo, PointGeometry):
             checked_point_geometries.append(geo)
+        else:
+            raise TypeError(
+                f'geometries should only contain geometries. {repr(geo)}'
+            )
     return (checked_geometries, checked_point_geometries)
 
 
@@ -822,7 +831,7 @@ class CompoundGeometry(Geometry):
             # useful for representation in svg
             geoms_representation = [g.polygon for g in self.geometries]
             self.geom = MultiPolygon(geoms_representation)
-        if isinstance(geometries, list):
+        elif isinstance(geometries, list):
             self.geometries, self.point_geometries = _process_geometries_list(
                 geometries
             )
@@ -833,6 +842,11 @@ class CompoundGeometry(Geometry):
                 for pg in self.point_geometries
             ]
             self.geom = MultiPolygon(geoms_representation)
+        else:
+            raise TypeError(
+                'geometries should be a list of geometries or a shapely '
+                f'MultiPolygon. {repr(geometries)}'
+            )
         self._reinforced_concrete = None
 
     # we can add here static methods like
-- 
2.43.0


From 60862aa2f1d325b176c7114514aa74373f026e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 53/58] fix: refuse reinforcement with a diameter that is not
 positive

---
 structuralcodes/geometry/_geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index b2ddd84..bfdc2ee 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -154,6 +154,9 @@ class PointGeometry(Geometry):
             group_label (Optional(str)): A label for grouping several objects
                 (default is None).
         """
+        # Check that size is strictly positive
+        if diameter <= 0:
+            raise ValueError('Diameter must be a positive number.')
         super().__init__(name, group_label)
         # I check if point is a shapely Point or an ArrayLike object
         if not isinstance(point, Point):
-- 
2.43.0


From 030f224b14366b24f877314ccc282d1164ba631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 54/58] fix: keep reinforcement bars that fit the available
 length up to rounding

---
 structuralcodes/geometry/_reinforcement.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 3b249ef..126c7b8 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -10,6 +10,9 @@ from structuralcodes.core.base import Material
 
 from ._geometry import CompoundGeometry, PointGeometry, SurfaceGeometry
 
+# Relative tolerance for the rounding of lengths and spacings
+REL_TOL = 1e-10
+
 
 def add_reinforcement(
     geo: t.Union[SurfaceGeometry, CompoundGeometry],
@@ -86,7 +89,7 @@ def add_reinforcement_line(
         # Provided both the number of bars and spacing
         # 1. Check the is enough space for fitting the bars
         d = (n - 1) * s
-        if d > distance:
+        if d > distance * (1 + REL_TOL):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {distance}'
@@ -98,7 +101,7 @@ def add_reinforcement_line(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(distance / s) + 1
+        n = math.floor(distance / s * (1 + REL_TOL)) + 1
         # 2. Distribute the bars centered in the segment
         d = (n - 1) * s
         p1 = p1 + v * (distance - d) / 2.0
@@ -197,7 +200,7 @@ def add_reinforcement_circle(
         # Check there is enough space for fitting the bars
         n += add_n
         needed_length = (n - 1) * s
-        if needed_length > length:
+        if needed_length > length * (1 + REL_TOL):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {length}'
@@ -212,7 +215,7 @@ def add_reinforcement_circle(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(length / s) + 1
+        n = math.floor(length / s * (1 + REL_TOL)) + 1
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-- 
2.43.0


From 107fab257d1c666a1a97848e4c9974bd04d82228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:20 +0000
Subject: [PATCH 55/58] fix: accept lists where the time functions document
 array-likes

---
 .../codes/ec2_2004/_concrete_material_properties.py |  3 +++
 .../codes/mc2010/_concrete_creep_and_shrinkage.py   | 13 +++++++++++++
 .../codes/mc2010/_concrete_material_properties.py   |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
index 24664da..0d57b7e 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
@@ -266,6 +266,7 @@ def beta_cc(t: ArrayLike, s: float) -> ArrayLike:
     Returns:
         ArrayLike: The value of the time development function.
     """
+    t = t if np.isscalar(t) else np.atleast_1d(t)
     return np.exp(s * (1 - np.sqrt(28 / t)))
 
 
@@ -359,6 +360,7 @@ def fcm_time(fcm: float, beta_cc: ArrayLike) -> ArrayLike:
     Note:
         The value of beta_cc should be calculated with the function beta_cc.
     """
+    beta_cc = beta_cc if np.isscalar(beta_cc) else np.atleast_1d(beta_cc)
     return fcm * beta_cc
 
 
@@ -403,4 +405,5 @@ def Ecm_time(fcm: float, fcm_time: ArrayLike, Ecm: float) -> ArrayLike:
         Alternatively, the time development function for the Young's modulus
         could be calculated directly with the function beta_E.
     """
+    fcm_time = fcm_time if np.isscalar(fcm_time) else np.atleast_1d(fcm_time)
     return np.pow(fcm_time / fcm, 0.3) * Ecm
diff --git a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
index 7a44b9b..9a0238e 100644
--- a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
@@ -376,6 +376,7 @@ def eps_cds(
         Union(ArrayLike, float): The drying shrinkage strains for the given
         times, no units.
     """
+    beta_ds = beta_ds if np.isscalar(beta_ds) else np.atleast_1d(beta_ds)
     return eps_cds0 * beta_rh * beta_ds
 
 
@@ -437,6 +438,7 @@ def eps_cbs(
         Union(ArrayLike, float): The basic shrinkage strains for the given
         times.
     """
+    beta_bs = beta_bs if np.isscalar(beta_bs) else np.atleast_1d(beta_bs)
     return eps_cbs0 * beta_bs
 
 
@@ -476,6 +478,7 @@ def beta_bc_t(
     Returns:
         Union(ArrayLike, float): Multiplication factors beta_bc_t.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     return np.log(((30 / t0_adj + 0.035) ** 2) * (time - t0) + 1)
 
 
@@ -497,6 +500,9 @@ def phi_bc(
     Returns:
         Union(ArrayLike, float): The basic creep coefficient.
     """
+    beta_bc_t = (
+        beta_bc_t if np.isscalar(beta_bc_t) else np.atleast_1d(beta_bc_t)
+    )
     return beta_bc_fcm * beta_bc_t
 
 
@@ -632,6 +638,7 @@ def beta_dc_t(
         Union(ArrayLike, float): Multiplcation factor beta_dc_t for the
         considered values of time.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     return ((time - t0) / (beta_h + (time - t0))) ** gamma_t0
 
 
@@ -662,6 +669,9 @@ def phi_dc(
     Returns:
         Union(ArrayLike, float): Drying creep coeffcient.
     """
+    beta_dc_t = (
+        beta_dc_t if np.isscalar(beta_dc_t) else np.atleast_1d(beta_dc_t)
+    )
     return beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t
 
 
@@ -708,6 +718,8 @@ def phi(
     Returns:
         Union(ArrayLike, float): The creep coefficient.
     """
+    phi_bc = phi_bc if np.isscalar(phi_bc) else np.atleast_1d(phi_bc)
+    phi_dc = phi_dc if np.isscalar(phi_dc) else np.atleast_1d(phi_dc)
     # Calculate the creep coefficient (phi) (see Eq. 5.1-63)
     _phi = phi_bc + phi_dc
     # Include the effect of high stress if needed (see Eq. 5.1-74 of [1]):
@@ -735,4 +747,5 @@ def calc_J(
     Returns:
         Union(ArrayLike, float): The creep compliance function.
     """
+    phi = phi if np.isscalar(phi) else np.atleast_1d(phi)
     return (1 / E_ci_t0) + (phi / E_ci)
diff --git a/structuralcodes/codes/mc2010/_concrete_material_properties.py b/structuralcodes/codes/mc2010/_concrete_material_properties.py
index c73a186..d101a56 100644
--- a/structuralcodes/codes/mc2010/_concrete_material_properties.py
+++ b/structuralcodes/codes/mc2010/_concrete_material_properties.py
@@ -157,6 +157,7 @@ def beta_cc(
     Returns:
         numpy.ndarray: Multiplication factor beta_cc.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     if fcm > 60:
         return np.exp(0.2 * (1 - np.sqrt(28 / time)))
     return np.exp(S_CEM[cem_class.upper()] * (1 - np.sqrt(28 / time)))
@@ -195,6 +196,7 @@ def Eci_t(beta_e: npt.ArrayLike, Eci: float) -> np.ndarray:
         numpy.ndarray: The modulus of elasticity for normal weight concrete at
         time 'time' (not 28 days) in MPa.
     """
+    beta_e = beta_e if np.isscalar(beta_e) else np.atleast_1d(beta_e)
     return beta_e * Eci
 
 
-- 
2.43.0


From 822f095cbc8504ab4e01f9994e234a538d2e78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:28 +0000
Subject: [PATCH 56/58] fix: leave completely subtracted surfaces out of
 compound geometries

---
 structuralcodes/geometry/_geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index bfdc2ee..c1aef79 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -782,7 +782,9 @@ def _process_geometries_list(
     checked_point_geometries = []
     for geo in geometries:
         if isinstance(geo, SurfaceGeometry):
-            checked_geometries.append(geo)
+            # A surface can be empty, e.g. when it is completely subtracted
+            if not geo.polygon.is_empty:
+                checked_geometries.append(geo)
         elif isinstance(geo, CompoundGeometry):
             for g in geo.geometries:
                 checked_geometries.append(g)
-- 
2.43.0


From b2c3a9099f7628c6d06d10c66598158c973305a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:04 +0000
Subject: [PATCH 57/58] fix: start moment-curvature steps from the middle of
 the section

---
 structuralcodes/sections/_generic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c4a73db..51fd14e 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -974,6 +974,10 @@ class GenericSectionCalculator(SectionCalculator):
         chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
+        # The first attempt keeps the strain in the middle of the section, so
+        # that it does not depend on the position of the origin
+        _, _, min_z, max_z = rotated_geom.calculate_extents()
+        z_mid = (min_z + max_z) / 2
         # For each value of curvature
         for i, curv in enumerate(chi):
             # find the new position of neutral axis for mantaining equilibrium
@@ -981,7 +985,10 @@ class GenericSectionCalculator(SectionCalculator):
             # value of curvature
             try:
                 strain = self.find_equilibrium_fixed_curvature(
-                    rotated_geom, n, curv, strain[0]
+                    rotated_geom,
+                    n,
+                    curv,
+                    strain[0] + (strain[1] - curv) * z_mid,
                 )
             except ValueError:
                 if curv not in eps_0_known:
-- 
2.43.0


From afe9e6a077bad9a8cd9e22ef3314d44a0c838e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:04 +0000
Subject: [PATCH 58/58] fix: prefer the equilibrium without failed materials in
 moment-curvature

---
 structuralcodes/sections/_generic.py | 77 ++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 51fd14e..70c71fe 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -412,7 +412,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         Arguments:
             geom (CompoundGeometry): The compound geometry.
-            chi (float or ArrayLike): The (negative) curvature y*.
+            chi (float or ArrayLike): The curvature y*.
             yielding (bool): consider yielding instead of ultimate strain,
                 default = False.
 
@@ -434,8 +434,11 @@ class GenericSectionCalculator(SectionCalculator):
                 or (isinstance(g, SurfaceGeometry) and g.concrete)
             )
             eps_n = law.get_ultimate_strain(yielding=use_yielding)[0]
-            eps_0_min.append(eps_n - np.asarray(chi) * y_n)
-            eps_0_max.append(eps_p - np.asarray(chi) * y_p)
+            # The negative curvature compresses the top, the positive one the
+            # bottom
+            d_eps = np.multiply.outer([y_p, y_n], np.asarray(chi))
+            eps_0_min.append(eps_n - np.min(d_eps, axis=0))
+            eps_0_max.append(eps_p - np.max(d_eps, axis=0))
         return np.max(eps_0_min, axis=0), np.min(eps_0_max, axis=0)
 
     def find_equilibrium_fixed_pivot(
@@ -674,6 +677,54 @@ class GenericSectionCalculator(SectionCalculator):
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
         return eps_0_c, curv, 0
 
+    def _find_equilibrium_within_limits(
+        self, geom: CompoundGeometry, n: float, curv: float
+    ) -> t.Optional[float]:
+        """Find the equilibrium with fixed curvature for which no material is
+        strained beyond its limits.
+
+        Arguments:
+            geom (CompounGeometry): The geometry.
+            n (float): The external axial load.
+            curv (float): The value of curvature.
+
+        Returns:
+            Optional(float): The axial strain, None if there is no such
+            equilibrium.
+        """
+        ITMAX = 100
+
+        def unbalance(eps_0):
+            n_int, _, _, _ = (
+                self.integrator.integrate_strain_response_on_geometry(
+                    geom,
+                    [eps_0, curv, 0],
+                    integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
+                )
+            )
+            return n_int - n
+
+        eps_0_a, eps_0_b = self._get_axial_strain_limits(geom, curv)
+        dn_a, dn_b = unbalance(eps_0_a), unbalance(eps_0_b)
+        # It may occur that one of the limits is in equilibrium
+        if abs(dn_a) <= 1e-2:
+            return eps_0_a
+        if abs(dn_b) <= 1e-2:
+            return eps_0_b
+        if eps_0_a > eps_0_b or dn_a * dn_b > 0:
+            return None
+        for _ in range(ITMAX):
+            eps_0_c = (eps_0_a + eps_0_b) / 2
+            dn_c = unbalance(eps_0_c)
+            if abs(dn_c) <= 1e-2:
+                return eps_0_c
+            if dn_a * dn_c < 0:
+                eps_0_b = eps_0_c
+            else:
+                eps_0_a, dn_a = eps_0_c, dn_c
+        return None
+
     def calculate_limit_axial_load(self):
         """Compute maximum and minimum axial load.
 
@@ -991,11 +1042,27 @@ class GenericSectionCalculator(SectionCalculator):
                     strain[0] + (strain[1] - curv) * z_mid,
                 )
             except ValueError:
-                if curv not in eps_0_known:
+                eps_0 = eps_0_known.get(curv)
+                if eps_0 is None:
+                    eps_0 = self._find_equilibrium_within_limits(
+                        rotated_geom, n, curv
+                    )
+                if eps_0 is None:
                     raise
                 strain = self.find_equilibrium_fixed_curvature(
-                    rotated_geom, n, curv, eps_0_known[curv]
+                    rotated_geom, n, curv, eps_0
+                )
+            # If a material is strained beyond its limits, prefer the
+            # equilibrium for which no material is
+            eps_0_min, eps_0_max = self._get_axial_strain_limits(
+                rotated_geom, curv
+            )
+            if not eps_0_min - 1e-6 <= strain[0] <= eps_0_max + 1e-6:
+                eps_0 = self._find_equilibrium_within_limits(
+                    rotated_geom, n, curv
                 )
+                if eps_0 is not None:
+                    strain = [eps_0, curv, 0]
             (
                 _,
                 My,
-- 
2.43.0

