From 71d39cb0289d44131b68f744341eac3100cfed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 01/45] fix: do not alter the strain array given to a
 constitutive law

preprocess_strains_with_limits wrote the snapped strains into the array of
the caller (and truncated the limits for integer arrays).
---
 structuralcodes/core/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..79d60d3 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -211,6 +211,8 @@ class ConstitutiveLaw(abc.ABC):
             if np.isclose(eps, eps_min, atol=1e-6):
                 return eps_min
             return eps
+        # Work on a copy to leave the array of the caller unaltered
+        eps = np.array(eps, dtype=float)
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_max, atol=1e-6)
         eps[idxs] = eps_max
         idxs = np.isclose(eps, np.zeros_like(eps) + eps_min, atol=1e-6)
-- 
2.43.0


From 09e46ccad672d6c46e55e06263792c23b7c420e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 02/45] fix: do not write into the strain profile passed to
 __marin__

The documented type is a tuple, for which the assignment failed, and for a
list the snapped value leaked to the caller.
---
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..e4ab8ae 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..8efc8e7 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..6ad498c 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From 145ab7907f8cbfc2f6c24a7ca5753a27df10c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 03/45] fix: let Parallel integrate laws that use the
 discretized marin coefficients

The default __marin__ accepts the strain as a keyword only.
---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..0c2e14b 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From e16eec5b8f8c56831dca80192e4827f50634e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 04/45] fix: same tangent of BilinearCompression for scalar and
 array strains

The array branch gave zero stiffness at zero strain (and full stiffness at
eps_c), where the scalar branch does the opposite.
---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index e4ab8ae..d178aa7 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones_like(eps) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From be0731d76eb07fb74249fdaf8a5b65146281924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 05/45] fix: respect strain_compatibility=False for arrays and
 marin integration

InitialStrain returned a scalar tangent for an array of strains, and its
marin coefficients ignored that the strain compatibility is released.
---
 .../materials/constitutive_laws/_initial_strain.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..3b1a588 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,10 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            return tangent if np.isscalar(eps) else np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
@@ -97,6 +100,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self._initial_stress,)]
         return self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
@@ -115,6 +120,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self.get_tangent(0),)]
         return self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
-- 
2.43.0


From 5446a1d0aadc8ca14f19ebb394af0f5c9f874c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 06/45] fix: do not truncate the response to an integer array
 of strains

---
 structuralcodes/core/base.py                                  | 2 +-
 .../materials/constitutive_laws/_elasticplastic.py            | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py         | 2 +-
 structuralcodes/materials/constitutive_laws/_parallel.py      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 79d60d3..fa305f3 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -304,7 +304,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros_like(eps, dtype=float)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 8efc8e7..ae7aae9 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 6ad498c..78590be 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros_like(eps, dtype=float)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 0c2e14b..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From 1a9d4f6b69bef2bb5a2a84f756195962a4b24938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 07/45] fix: integrate groups of reinforcement of different
 size with Marin

A section with e.g. three bars of one material and two of another raised
ValueError, since the groups were stacked as a rectangular array.
---
 .../sections/section_integrators/_marin_integrator.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..a5ff32d 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -240,7 +240,10 @@ class MarinIntegrator(SectionIntegrator):
             z.append(reinf_data[1])
             IA.append(integrand * reinf_data[2])
 
-        input.append((1, np.array(y), np.array(z), np.array(IA)))
+        # Join the groups (they may contain a different number of points)
+        input.append(
+            (1, np.hstack(([], *y)), np.hstack(([], *z)), np.hstack(([], *IA)))
+        )
         return integration_data
 
     def prepare_input(
-- 
2.43.0


From 0cd512ce08be053d3287ef60ec9d48321873f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 08/45] fix: shift the strain limits of InitialStrain for marin
 integration

The limits of the wrapped law were returned unshifted although the strain
profile they refer to does not include the initial strain.
---
 .../constitutive_laws/_initial_strain.py        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 3b1a588..ab1e3b8 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -86,6 +86,17 @@ class InitialStrain(ConstitutiveLaw):
             return tangent if np.isscalar(eps) else np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
+    def _shift_limits(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """Express strain limits of the wrapped law without initial strain."""
+        if strains is None:
+            return None
+        return [
+            (limit[0] - self._initial_strain, limit[1] - self._initial_strain)
+            for limit in strains
+        ]
+
     def __marin__(
         self, strain: t.Tuple[float, float]
     ) -> t.Tuple[t.List[t.Tuple], t.List[t.Tuple]]:
@@ -102,9 +113,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self._initial_stress,)]
-        return self._wrapped_law.__marin__(
+        strains, coeffs = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_limits(strains), coeffs
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -122,9 +134,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self.get_tangent(0),)]
-        return self._wrapped_law.__marin_tangent__(
+        strains, coeffs = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_limits(strains), coeffs
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From 3dc0ed126c98feaed57d7abf01f4e7c0a0438d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 09/45] fix: look up the law of a material regardless of the
 case of its name

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From b2bfcea660d9fe92e1101f550b68c0bf81e2548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 10/45] fix: mark holes of the fiber mesh with a point inside
 the hole

The centroid of a non-convex hole can lie outside of it, in which case the
triangulation removed the section instead of the hole.
---
 .../sections/section_integrators/_fiber_integrator.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..6a5dbda 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,10 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            # A point inside the hole (the centroid of a non-convex hole could
+            # be outside of it)
+            c = Polygon(interior).representative_point()
+            holes.append([c.x, c.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From 7ecac508d5269af392088f32d707d7038398df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 11/45] fix: keep the root bracketed when a bisection step hits
 it exactly

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..a6eac13 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -448,7 +448,7 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
-            if dn_c * dn_a < 0:
+            if dn_c * dn_a <= 0:
                 chi_b = chi_c
                 dn_b = dn_c
             else:
@@ -581,7 +581,7 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_c = n_int - n
-            if dn_a * dn_c < 0:
+            if dn_a * dn_c <= 0:
                 dn_b = dn_c
                 eps_0_b = eps_0_c
             else:
-- 
2.43.0


From 008584ed579b201914b840f1aeb2a5fd673c6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 12/45] fix: report when no range for the equilibrium axial
 strain is found

---
 structuralcodes/sections/_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index a6eac13..4837de9 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -518,7 +518,7 @@ class GenericSectionCalculator(SectionCalculator):
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
-- 
2.43.0


From 9821f0233287b26adeb575b789ef6aa7704008bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 13/45] fix: do not leave the integration data rotated when a
 calculation fails

---
 structuralcodes/sections/_generic.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4837de9..20ebbb5 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -94,6 +95,25 @@ class GenericSection(Section):
         return self._gross_properties
 
 
+def _keep_integration_data(method: t.Callable) -> t.Callable:
+    """Put the integration data back in case the calculation fails.
+
+    The methods that work on a rotated geometry also rotate the integration
+    data. If they raise, the data should not be left in the rotated frame.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSectionCalculator(SectionCalculator):
     """Calculator class implementing analysis algorithms for code checks."""
 
@@ -731,6 +751,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_keep_integration_data
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -789,6 +810,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_keep_integration_data
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From 0ae10601b02da58fcf7c9b936487b8466db2e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 14/45] fix: discretise the section with the mesh size of the
 calculator

---
 structuralcodes/sections/_generic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 20ebbb5..a4aa191 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -574,7 +574,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1401,6 +1404,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1489,6 +1493,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
-- 
2.43.0


From 7a781b9d1595fb9c8de2096cedec36a9e2352c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 15/45] fix: use the mesh size of the section for the cracked
 properties

---
 structuralcodes/sections/_rc_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..7003398 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -57,9 +57,7 @@ def calculate_elastic_cracked_properties(
 
     # Get the integrator properties
     if isinstance(section.section_calculator.integrator, FiberIntegrator):
-        mesh_size = getattr(
-            section.section_calculator.integrator, 'mesh_size', 0.01
-        )
+        mesh_size = section.section_calculator.mesh_size
         integrator = 'fiber'
     else:
         mesh_size = None
-- 
2.43.0


From 3e6345fd30da34c00e33641eaa484d2c9d65602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 16/45] fix: return the strain profile found in the last
 allowed iteration

---
 structuralcodes/sections/_generic.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index a4aa191..d45df31 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1511,11 +1511,7 @@ class GenericSectionCalculator(SectionCalculator):
             lu, piv = lu_factor(stiffness_tangent)
 
         # Do Newton loops
-        while True:
-            # Check if number of iterations exceeds the maximum
-            if num_iter > max_iter:
-                break
-
+        while num_iter < max_iter:
             # Calculate response and residuals
             response = np.array(self.integrate_strain_profile(strain=strain))
             residual = loads - response
@@ -1545,8 +1541,7 @@ class GenericSectionCalculator(SectionCalculator):
             # Check for convergence:
             if np.linalg.norm(delta_strain) < tol:
                 break
-
-        if num_iter >= max_iter:
+        else:
             raise StopIteration('Maximum number of iterations reached.')
 
         return strain.tolist()
-- 
2.43.0


From a82cc99da54e27037e28f100c45cd82426864c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 17/45] fix: report the inclination of the neutral axis with
 moment-curvature

---
 structuralcodes/sections/_generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index d45df31..06e3099 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -853,6 +853,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
-- 
2.43.0


From 8c3dc250b0daeb7f7bd7c5e5cb346e0f22c3dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 18/45] fix: do not truncate the results for integer curvatures

---
 structuralcodes/sections/_generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 06e3099..199b49b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -908,11 +908,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(chi, dtype=float)
+        mz = np.zeros_like(chi, dtype=float)
+        chi_y = np.zeros_like(chi, dtype=float)
+        chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From 2a5408f85e27370db58eb11ba90e072eea372880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 19/45] fix: report the field of all strain profiles of the NMM
 domain

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 199b49b..231f1eb 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1378,9 +1378,10 @@ class GenericSectionCalculator(SectionCalculator):
         thetas = np.linspace(0, np.pi * 2, num_theta)
         # Initialize an empty array with the correct shape
         strains = np.empty((0, 3))
+        field_num = np.empty(0, dtype=int)
         for theta in thetas:
             # Get ultimate strain profiles for theta angle
-            strain, field_num = self._compute_ultimate_strain_profiles(
+            strain, field_num_theta = self._compute_ultimate_strain_profiles(
                 theta=theta,
                 num_1=num_1,
                 num_2=num_2,
@@ -1396,6 +1397,7 @@ class GenericSectionCalculator(SectionCalculator):
                 type_6=type_6,
             )
             strains = np.vstack((strains, strain))
+            field_num = np.concatenate((field_num, field_num_theta))
 
         # integrate all strain profiles
         forces = np.zeros_like(strains)
-- 
2.43.0


From bf1d84226e5cc252a93973e3ac009100430d256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 20/45] fix: do not give the maximum area of the mesh in
 scientific notation

---
 .../sections/section_integrators/_fiber_integrator.py           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6a5dbda..8bfcc0f 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -89,6 +89,8 @@ class FiberIntegrator(SectionIntegrator):
             # define the maximum area of the triangles
             max_area = g.area * mesh_size
             # triangulate the geometry getting back the mesh
+            # note: triangle does not understand the scientific notation
+            max_area = np.format_float_positional(max_area)
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
             # Get x and y coordinates (centroid) and area for each fiber
-- 
2.43.0


From 7f1290e42c7400fb66901b1b84de544115286ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 21/45] fix: report principal moments and angle as real numbers

---
 structuralcodes/geometry/profiles/_base_profile.py | 2 +-
 structuralcodes/sections/_generic.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..cc268ba 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -117,7 +117,7 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
+        eigres = np.linalg.eigh(
             np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
         )
         max_idx = np.argmax(eigres[0])
diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 231f1eb..36f6b43 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -299,7 +299,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
+            eigres = np.linalg.eigh(np.array([[iyy, iyz], [iyz, izz]]))
             max_idx = np.argmax(eigres[0])
             min_idx = 0 if max_idx == 1 else 1
             i11 = eigres[0][max_idx]
-- 
2.43.0


From d097653087b0270b2764416f4074e818c304edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 22/45] fix: report the right angle of the principal axes for
 any orientation

---
 structuralcodes/geometry/profiles/_base_profile.py | 8 +++++---
 structuralcodes/sections/_generic.py               | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index cc268ba..8b8ff12 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -124,9 +124,11 @@ class BaseProfile:
         min_idx = 0 if max_idx == 1 else 1
         self._Icsi = eigres[0][max_idx]
         self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
-        )
+        v = eigres[1][:, max_idx]
+        self._theta = np.arccos(abs(np.dot(np.array([1, 0]), v)))
+        # The angle of the principal axis, between 0 and pi
+        if v[0] * v[1] > 0:
+            self._theta = (np.pi - self._theta) % np.pi
 
     @property
     def A(self) -> float:
diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 36f6b43..261d047 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -304,7 +304,11 @@ class GenericSectionCalculator(SectionCalculator):
             min_idx = 0 if max_idx == 1 else 1
             i11 = eigres[0][max_idx]
             i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            v = eigres[1][:, max_idx]
+            theta = np.arccos(abs(np.dot(np.array([1, 0]), v)))
+            # The angle of the principal axis, between 0 and pi
+            if v[0] * v[1] > 0:
+                theta = (np.pi - theta) % np.pi
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From c33318d369e7f13d72dcd523b4234ac574a1f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 23/45] fix: gross properties of sections made of separate
 parts

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 261d047..9a5d06a 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -170,8 +170,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From 22cd2eba8e0ded76dd4108ca968faeef659499b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 24/45] fix: let near-vertical lines cross the whole bounding
 box

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..7d6a817 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 6dc3da2d751054d14aac89c71c681d89230e1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 25/45] fix: keep the name and label of transformed surfaces

---
 structuralcodes/geometry/_geometry.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7d6a817..ca574cc 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -582,6 +582,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def rotate(
@@ -609,6 +611,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -631,6 +635,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     @staticmethod
@@ -668,7 +674,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo.name,
+            group_label=geo.group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From b1d5d51fe717e46dff8c0e02e1f159a3f8b9498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 26/45] fix: a surface stays concrete when something is
 subtracted

---
 structuralcodes/geometry/_geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index ca574cc..2d1881c 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -562,7 +562,13 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        return SurfaceGeometry(
+            poly=sub_polygon,
+            material=material,
+            concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
+        )
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
-- 
2.43.0


From a5e5a7d41010f8ba5f8b0232f53bbcf719ec5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 27/45] fix: initialise compound geometries made of a multi
 polygon

---
 structuralcodes/geometry/_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 2d1881c..5dbd6f9 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -766,6 +766,8 @@ class CompoundGeometry(Geometry):
                 to all polygons) or a list of materials. In this case the
                 number of polygons should match the number of materials.
         """
+        super().__init__()
+        self._reinforced_concrete = None
         if isinstance(geometries, MultiPolygon):
             # a MultiPolygon is provided
             self.geometries = _process_geometries_multipolygon(
@@ -787,7 +789,6 @@ class CompoundGeometry(Geometry):
                 for pg in self.point_geometries
             ]
             self.geom = MultiPolygon(geoms_representation)
-        self._reinforced_concrete = None
 
     # we can add here static methods like
     # from_dxf
-- 
2.43.0


From 65d8117154888147f2d55e77f7a698c6bc73c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 28/45] fix: place a single bar of reinforcement on a line or
 circle

---
 structuralcodes/geometry/_reinforcement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..c319b3f 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -94,7 +94,7 @@ def add_reinforcement_line(
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
         # Provided the number of bars
-        s = distance / (n - 1)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From 3809e9d76a5de0b5a8463ceaaa180d5b746b5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 29/45] fix: quadratic and geometric spacing of strain profiles
 start at the first profile of the field and leave out the last

---
 structuralcodes/sections/_generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 9a5d06a..940c085 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1233,6 +1233,8 @@ class GenericSectionCalculator(SectionCalculator):
                 small_value = 1e-10
                 if b == 0:
                     b = small_value * np.sign(a)
+                    if not endpoint:
+                        return np.geomspace(a, b, n, endpoint=False)
                     return np.append(
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0
                     )
@@ -1242,8 +1244,8 @@ class GenericSectionCalculator(SectionCalculator):
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0, 0
                     )
             if type.lower() == 'quadratic':
-                quadratic_spaced = (np.linspace(0, 1, n) ** 2) * (a - b) + b
-                return quadratic_spaced[::-1]
+                spaced = 1 - np.linspace(0, 1, n, endpoint=endpoint)
+                return spaced**2 * (a - b) + b
             raise ValueError(f'Type of spacing not known: {type}')
 
         # For generation of fields 1 and 2 pivot on positive strain
-- 
2.43.0


From edda1a3741db4baddf16adeea990e83e8f690039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 30/45] fix: geometric spacing of a field without extent

---
 structuralcodes/sections/_generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 940c085..7b0aeba 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1228,6 +1228,10 @@ class GenericSectionCalculator(SectionCalculator):
             if type.lower() == 'linear':
                 return np.linspace(a, b, n, endpoint=endpoint)
             if type.lower() == 'geometric':
+                if a == b:
+                    # A field without extent (e.g. no distance between the
+                    # bottom chord and the pivot in tension)
+                    return np.full(n, float(a))
                 if b != 0 and a != 0:
                     return np.geomspace(a, b, n, endpoint=endpoint)
                 small_value = 1e-10
-- 
2.43.0


From 832385588c49b0da431e60871d45552f1337b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 31/45] fix: accept lists for array-like arguments of the time
 functions

---
 .../codes/ec2_2004/_concrete_material_properties.py |  5 +++++
 .../codes/mc2010/_concrete_creep_and_shrinkage.py   | 13 +++++++++++++
 .../codes/mc2010/_concrete_material_properties.py   |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
index 24664da..4e507d1 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
@@ -266,6 +266,7 @@ def beta_cc(t: ArrayLike, s: float) -> ArrayLike:
     Returns:
         ArrayLike: The value of the time development function.
     """
+    t = t if np.isscalar(t) else np.atleast_1d(t)
     return np.exp(s * (1 - np.sqrt(28 / t)))
 
 
@@ -359,6 +360,7 @@ def fcm_time(fcm: float, beta_cc: ArrayLike) -> ArrayLike:
     Note:
         The value of beta_cc should be calculated with the function beta_cc.
     """
+    beta_cc = beta_cc if np.isscalar(beta_cc) else np.atleast_1d(beta_cc)
     return fcm * beta_cc
 
 
@@ -381,6 +383,8 @@ def fctm_time(fctm: float, beta_cc: ArrayLike, alpha: ArrayLike) -> ArrayLike:
         Alternatively, the time development function for the tensile strength
         could be calculated directly with the function beta_ct.
     """
+    beta_cc = beta_cc if np.isscalar(beta_cc) else np.atleast_1d(beta_cc)
+    alpha = alpha if np.isscalar(alpha) else np.atleast_1d(alpha)
     return np.pow(beta_cc, alpha) * fctm
 
 
@@ -403,4 +407,5 @@ def Ecm_time(fcm: float, fcm_time: ArrayLike, Ecm: float) -> ArrayLike:
         Alternatively, the time development function for the Young's modulus
         could be calculated directly with the function beta_E.
     """
+    fcm_time = fcm_time if np.isscalar(fcm_time) else np.atleast_1d(fcm_time)
     return np.pow(fcm_time / fcm, 0.3) * Ecm
diff --git a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
index 7a44b9b..9a0238e 100644
--- a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
@@ -376,6 +376,7 @@ def eps_cds(
         Union(ArrayLike, float): The drying shrinkage strains for the given
         times, no units.
     """
+    beta_ds = beta_ds if np.isscalar(beta_ds) else np.atleast_1d(beta_ds)
     return eps_cds0 * beta_rh * beta_ds
 
 
@@ -437,6 +438,7 @@ def eps_cbs(
         Union(ArrayLike, float): The basic shrinkage strains for the given
         times.
     """
+    beta_bs = beta_bs if np.isscalar(beta_bs) else np.atleast_1d(beta_bs)
     return eps_cbs0 * beta_bs
 
 
@@ -476,6 +478,7 @@ def beta_bc_t(
     Returns:
         Union(ArrayLike, float): Multiplication factors beta_bc_t.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     return np.log(((30 / t0_adj + 0.035) ** 2) * (time - t0) + 1)
 
 
@@ -497,6 +500,9 @@ def phi_bc(
     Returns:
         Union(ArrayLike, float): The basic creep coefficient.
     """
+    beta_bc_t = (
+        beta_bc_t if np.isscalar(beta_bc_t) else np.atleast_1d(beta_bc_t)
+    )
     return beta_bc_fcm * beta_bc_t
 
 
@@ -632,6 +638,7 @@ def beta_dc_t(
         Union(ArrayLike, float): Multiplcation factor beta_dc_t for the
         considered values of time.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     return ((time - t0) / (beta_h + (time - t0))) ** gamma_t0
 
 
@@ -662,6 +669,9 @@ def phi_dc(
     Returns:
         Union(ArrayLike, float): Drying creep coeffcient.
     """
+    beta_dc_t = (
+        beta_dc_t if np.isscalar(beta_dc_t) else np.atleast_1d(beta_dc_t)
+    )
     return beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t
 
 
@@ -708,6 +718,8 @@ def phi(
     Returns:
         Union(ArrayLike, float): The creep coefficient.
     """
+    phi_bc = phi_bc if np.isscalar(phi_bc) else np.atleast_1d(phi_bc)
+    phi_dc = phi_dc if np.isscalar(phi_dc) else np.atleast_1d(phi_dc)
     # Calculate the creep coefficient (phi) (see Eq. 5.1-63)
     _phi = phi_bc + phi_dc
     # Include the effect of high stress if needed (see Eq. 5.1-74 of [1]):
@@ -735,4 +747,5 @@ def calc_J(
     Returns:
         Union(ArrayLike, float): The creep compliance function.
     """
+    phi = phi if np.isscalar(phi) else np.atleast_1d(phi)
     return (1 / E_ci_t0) + (phi / E_ci)
diff --git a/structuralcodes/codes/mc2010/_concrete_material_properties.py b/structuralcodes/codes/mc2010/_concrete_material_properties.py
index c73a186..d101a56 100644
--- a/structuralcodes/codes/mc2010/_concrete_material_properties.py
+++ b/structuralcodes/codes/mc2010/_concrete_material_properties.py
@@ -157,6 +157,7 @@ def beta_cc(
     Returns:
         numpy.ndarray: Multiplication factor beta_cc.
     """
+    time = time if np.isscalar(time) else np.atleast_1d(time)
     if fcm > 60:
         return np.exp(0.2 * (1 - np.sqrt(28 / time)))
     return np.exp(S_CEM[cem_class.upper()] * (1 - np.sqrt(28 / time)))
@@ -195,6 +196,7 @@ def Eci_t(beta_e: npt.ArrayLike, Eci: float) -> np.ndarray:
         numpy.ndarray: The modulus of elasticity for normal weight concrete at
         time 'time' (not 28 days) in MPa.
     """
+    beta_e = beta_e if np.isscalar(beta_e) else np.atleast_1d(beta_e)
     return beta_e * Eci
 
 
-- 
2.43.0


From 2941e5eda80a5ed205b29e1fb8eb0fe72f71dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 32/45] fix: check the strut angle for the required shear
 reinforcement

---
 structuralcodes/codes/ec2_2004/shear.py | 1103 ++++++++++++-----------
 1 file changed, 552 insertions(+), 551 deletions(-)

diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index b6efa3f..672d566 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -1,551 +1,552 @@
-"""Design rules according to EN 1992-1-1 regarding shear."""
-
-import math
-import typing as t
-
-# General functions
-
-
-# Part of Equation (6.2).
-def _k(d: float) -> float:
-    """Compute a correction factor.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: Correction factor to account for the cross-sectional size on the
-        shear resistance.
-    """
-    return min(1.0 + math.sqrt(200.0 / d), 2.0)
-
-
-# Part of Equation (6.2).
-def _rho_L(Asl: float, bw: float, d: float) -> float:
-    """Compute the longitudinal reinforcement ratio.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored at least (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The maximum allowable reinforcement ratio of the longitudinal
-        reinforcement, unitless.
-    """
-    return min(Asl / (bw * d), 0.02)
-
-
-# Part of Equation(6.2).
-def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
-    """Calculate the average prestress stress in the cross-section.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable average prestress in the cross-section in
-        MPa.
-    """
-    return min(NEd / Ac, 0.2 * fcd)
-
-
-# Part of Equation (6.4)
-def _alpha_l(L_x, L_pt2) -> float:
-    """Compute the relative anchorage length for prestreched prestressing
-    steel.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18).
-
-    Returns:
-        float: Fraction (relative anchorage length) for determining the amount
-        of prestress that may be used when determining the shear resistance
-        using Mohr's circle.
-    """
-    return min(L_x / L_pt2, 1.0)
-
-
-# Equation (6.7N)
-def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
-    """Check if the provided angle theta is within the bounds provided by the
-    code.
-
-    EN 1992-1-1 (2005). Eq. (6.7N)
-
-    Args:
-        theta (float): The chosen angle of the compression strut in degrees.
-
-    Keyword Args:
-        cot_min (float): The minimum value for cot(theta). Default value is
-            1.0. Different value might be provided in the National Annexes.
-        cot_max (float): The maximum value for cot(theta). Default value is
-            2.5. Different value might be provided in the National Annexes.
-
-    Raises:
-        ValueError if the chosen angle is not within the given bounds.
-    """
-    # Use round to allow less precise angles (i.e. 21.8 degrees instead
-    # of 21.801..... degrees for cot_max = 2.5).
-    theta_ = math.radians(theta)
-    if (
-        round(1.0 / math.tan(theta_), 2) < cot_min
-        or round(1.0 / math.tan(theta_), 2) > cot_max
-    ):
-        raise ValueError(
-            'Wrong value for theta is chosen. Theta has '
-            f'to be chosen such that 1/tan(theta) lies between '
-            f'{cot_min} and {cot_max}. This corresponds to an angle '
-            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
-            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
-            f'degrees, respectively. Current angle is set at {theta}'
-            ' degrees.'
-        )
-
-
-# Equation (6.11N)
-def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
-    """Calculate factor that affects the maximum shear resistance of the
-    concrete based on the prestress.
-
-    EN 1992-1-1 (2005). Eq. (6.11N)
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design strength of the concrete in MPa.
-
-    Returns:
-        float: Factor that affects the maximum shear resistance of the concrete
-        based on the level of prestress.
-
-    Raises:
-        ValueError: The applied prestress exceeds the concrete design strength.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = Ned / Ac
-    if sigma_cp <= 0.0:
-        value = 1.0
-    elif sigma_cp <= 0.25 * fcd:
-        value = 1.0 + sigma_cp / fcd
-    elif sigma_cp <= 0.5 * fcd:
-        value = 1.25
-    elif sigma_cp < fcd:
-        value = 2.5 * (1 - sigma_cp / fcd)
-    else:
-        raise ValueError(
-            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
-            ' than design compressive strength.'
-        )
-    return value
-
-
-# Without shear reinforcement
-
-
-# Equation (6.2 a + b)
-def VRdc(
-    fck: float,
-    d: float,
-    Asl: float,
-    bw: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    k1: float = 0.15,
-    gamma_c: float = 1.5,
-    CRdc: t.Optional[float] = None,
-) -> float:
-    """Compute the design strength of the shear resistance.
-
-    EN 1992-1-1 (2005), Eq. (6.2)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored atleast (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        k1 (float): Factor used to include the effect of the normal stress
-            into the shear resistance of the concrete. Default value = 0.15,
-            value might differ between National Annexes.
-        gamma_c (float): Partial factor for concrete. Default value = 1.5,
-            value might differ between National Annexes.
-        CRdc (Optional[float]): Scaling factor for the shear resistance.
-            Default value is 0.18 / gamma_c.
-
-    Returns:
-        float: The concrete shear resistance in MPa.
-    """
-    CRdc = CRdc or 0.18 / gamma_c
-    return max(
-        max(
-            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
-            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
-            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
-        )
-        * bw
-        * d,
-        0,
-    )
-
-
-# Equation (6.3N)
-def vmin(fck: float, d: float) -> float:
-    """Compute the minimum shear resistance of the concrete.
-
-    EN 1992-1-1 (2005), Eq. (6.3)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The minimal shear stress resistance of the concrete in MPa.
-    """
-    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
-
-
-# Equation (6.4)
-def VRdc_prin_stress(
-    Iy: float,
-    bw: float,
-    S: float,
-    fctd: float,
-    NEd: float,
-    Ac: float,
-    L_x: float = None,
-    L_pt2: float = None,
-) -> float:
-    """Calculate the shear resistance in uncracked, prestressed elements
-    without shear reinforcement, value is determined via Mohr's circle.
-
-    The maximal value of the principle tensile stress does no necessarily lay
-    at the centre of gravity. If this is the ase the minimum value of the shear
-    resistance and corresponding stress needs to be found at the relevant
-    location.
-
-    EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        Iy (float): The second moment of area of the considered cross-section
-            in mm4.
-        bw (float): The width of the cross-section at the centre of gravity.
-        S (float): The first moment of area of the considered cross-section of
-            the part above the centre of gravity, and with respect to the
-            centre of gravity in mm3.
-        fctd (float): Design value of the tensile strength of the concrete.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-            This value should be provided when the prestressing steel is
-            prestreched. Default value is None.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18). This value should be
-            provided when the prestressing steel is prestreched. Default value
-            is None.
-
-    Returns:
-        float: The maximum allowable shear force in N for an uncracked,
-        prestressed element without shear reinforcement, determined from
-        maximum allowable principle stress.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = NEd / Ac
-    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
-
-    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
-
-
-# Equation (6.5)
-def VEdmax_unreinf(
-    bw: float,
-    d: float,
-    fck: float,
-    fcd: float,
-) -> float:
-    """Calculate the maximum allowable shear force for cross-sections without
-    shear reinforcement.
-
-    En 1992-1-1 (2005), Eq. (6.5).
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable shear force in the cross-section in N.
-        When a reduced shear force may be considered for the calculations, the
-        unreduced shear force has to comply to this value.
-    """
-    return 0.5 * bw * d * v(fck) * fcd
-
-
-# Equation (6.6N)
-def v(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.6N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 * (1 - fck / 250.0)
-
-
-# Equation (6.10N)
-def v1(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.10N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
-
-
-# With shear reinforcement
-
-
-# Equation (6.8 & 6.13)
-# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
-def VRds(
-    Asw: float,
-    s: float,
-    z: float,
-    theta: float,
-    fyk: float,
-    alpha: float = 90.0,
-    gamma_s: float = 1.15,
-) -> float:
-    """Calculate the shear resistance of vertical shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.8)
-
-    Args:
-        Asw (float): the cross-sectional area of the shear reinforcement in
-            mm2.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fyk (float): The characteristic strength of the reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        gamma_s (float): Partial factor of the reinforcement steel. Default
-            value = 1.15. Value might differ between National Annexes.
-
-    Returns:
-        float: The shear resistance of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    fywd = fyk / gamma_s
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Asw
-        / s
-        * z
-        * fywd
-        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        * math.sin(alpha)
-    )
-
-
-# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
-def Asw_s_required(
-    Ved: float,
-    z: float,
-    theta: float,
-    fywd: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the required shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        Ved (float): The shear force in N.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The amount of required shear reinforcement in mm2/mm.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Ved
-        / z
-        / fywd
-        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / math.sin(alpha)
-    )
-
-
-# Equation (6.9 & 6.14)
-# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
-def VRdmax(
-    bw: float,
-    z: float,
-    fck: float,
-    theta: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    alpha: float = 90.0,
-    limit_fyd: bool = False,
-) -> float:
-    """Calculate the maximum shear strength of the compression strut.
-
-    EN 1992-1-1 (2005). Eq. (6.9)
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        z (float): The inner lever arm of internal forces in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        theta (float): The angle of the compression strut in degrees.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        limit_fyd (bool): Flag to indicate if the design yield stress is
-            limited to 0.8 * fyk or not. This controls whether the stress
-            reduction factor of concrete is given by Eq. (6.6) (False) or
-            (6.10) (True).
-
-    Returns:
-        float: The shear strength of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-        ValueError: When sigma_cp > fcd.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    strength_reduction = v(fck) if not limit_fyd else v1(fck)
-    return (
-        alpha_cw(NEd, Ac, fcd)
-        * bw
-        * z
-        * strength_reduction
-        * fcd
-        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / (1 + 1.0 / math.tan(theta) ** 2)
-    )
-
-
-# Equation (6.12 & 6.15)
-# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
-def Asw_max(
-    fcd: float,
-    fck: float,
-    bw: float,
-    s: float,
-    fywd: float,
-    NEd: float,
-    Ac: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the maximum cross-sectional area of the shear reinforcement,
-    based on the assumption 1/tan(theta) == 1.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        fcd (float): The design strength of the concrete in MPa.
-        fck (float): The characteristic compressive strength in MPa.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The maximum allowable cross-sectional area of the shear
-        reinforcement in mm2.
-
-    Raises:
-        ValueError: When sigma_cp > fcd.
-    """
-    alpha = math.radians(alpha)
-    return (
-        1.0
-        / 2.0
-        * alpha_cw(NEd, Ac, fcd)
-        * v(fck)
-        * fcd
-        * bw
-        * s
-        / (fywd * math.sin(alpha))
-    )
+"""Design rules according to EN 1992-1-1 regarding shear."""
+
+import math
+import typing as t
+
+# General functions
+
+
+# Part of Equation (6.2).
+def _k(d: float) -> float:
+    """Compute a correction factor.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: Correction factor to account for the cross-sectional size on the
+        shear resistance.
+    """
+    return min(1.0 + math.sqrt(200.0 / d), 2.0)
+
+
+# Part of Equation (6.2).
+def _rho_L(Asl: float, bw: float, d: float) -> float:
+    """Compute the longitudinal reinforcement ratio.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored at least (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The maximum allowable reinforcement ratio of the longitudinal
+        reinforcement, unitless.
+    """
+    return min(Asl / (bw * d), 0.02)
+
+
+# Part of Equation(6.2).
+def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
+    """Calculate the average prestress stress in the cross-section.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable average prestress in the cross-section in
+        MPa.
+    """
+    return min(NEd / Ac, 0.2 * fcd)
+
+
+# Part of Equation (6.4)
+def _alpha_l(L_x, L_pt2) -> float:
+    """Compute the relative anchorage length for prestreched prestressing
+    steel.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18).
+
+    Returns:
+        float: Fraction (relative anchorage length) for determining the amount
+        of prestress that may be used when determining the shear resistance
+        using Mohr's circle.
+    """
+    return min(L_x / L_pt2, 1.0)
+
+
+# Equation (6.7N)
+def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
+    """Check if the provided angle theta is within the bounds provided by the
+    code.
+
+    EN 1992-1-1 (2005). Eq. (6.7N)
+
+    Args:
+        theta (float): The chosen angle of the compression strut in degrees.
+
+    Keyword Args:
+        cot_min (float): The minimum value for cot(theta). Default value is
+            1.0. Different value might be provided in the National Annexes.
+        cot_max (float): The maximum value for cot(theta). Default value is
+            2.5. Different value might be provided in the National Annexes.
+
+    Raises:
+        ValueError if the chosen angle is not within the given bounds.
+    """
+    # Use round to allow less precise angles (i.e. 21.8 degrees instead
+    # of 21.801..... degrees for cot_max = 2.5).
+    theta_ = math.radians(theta)
+    if (
+        round(1.0 / math.tan(theta_), 2) < cot_min
+        or round(1.0 / math.tan(theta_), 2) > cot_max
+    ):
+        raise ValueError(
+            'Wrong value for theta is chosen. Theta has '
+            f'to be chosen such that 1/tan(theta) lies between '
+            f'{cot_min} and {cot_max}. This corresponds to an angle '
+            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
+            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
+            f'degrees, respectively. Current angle is set at {theta}'
+            ' degrees.'
+        )
+
+
+# Equation (6.11N)
+def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
+    """Calculate factor that affects the maximum shear resistance of the
+    concrete based on the prestress.
+
+    EN 1992-1-1 (2005). Eq. (6.11N)
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design strength of the concrete in MPa.
+
+    Returns:
+        float: Factor that affects the maximum shear resistance of the concrete
+        based on the level of prestress.
+
+    Raises:
+        ValueError: The applied prestress exceeds the concrete design strength.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = Ned / Ac
+    if sigma_cp <= 0.0:
+        value = 1.0
+    elif sigma_cp <= 0.25 * fcd:
+        value = 1.0 + sigma_cp / fcd
+    elif sigma_cp <= 0.5 * fcd:
+        value = 1.25
+    elif sigma_cp < fcd:
+        value = 2.5 * (1 - sigma_cp / fcd)
+    else:
+        raise ValueError(
+            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
+            ' than design compressive strength.'
+        )
+    return value
+
+
+# Without shear reinforcement
+
+
+# Equation (6.2 a + b)
+def VRdc(
+    fck: float,
+    d: float,
+    Asl: float,
+    bw: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    k1: float = 0.15,
+    gamma_c: float = 1.5,
+    CRdc: t.Optional[float] = None,
+) -> float:
+    """Compute the design strength of the shear resistance.
+
+    EN 1992-1-1 (2005), Eq. (6.2)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored atleast (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        k1 (float): Factor used to include the effect of the normal stress
+            into the shear resistance of the concrete. Default value = 0.15,
+            value might differ between National Annexes.
+        gamma_c (float): Partial factor for concrete. Default value = 1.5,
+            value might differ between National Annexes.
+        CRdc (Optional[float]): Scaling factor for the shear resistance.
+            Default value is 0.18 / gamma_c.
+
+    Returns:
+        float: The concrete shear resistance in MPa.
+    """
+    CRdc = CRdc or 0.18 / gamma_c
+    return max(
+        max(
+            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
+            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
+            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
+        )
+        * bw
+        * d,
+        0,
+    )
+
+
+# Equation (6.3N)
+def vmin(fck: float, d: float) -> float:
+    """Compute the minimum shear resistance of the concrete.
+
+    EN 1992-1-1 (2005), Eq. (6.3)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The minimal shear stress resistance of the concrete in MPa.
+    """
+    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
+
+
+# Equation (6.4)
+def VRdc_prin_stress(
+    Iy: float,
+    bw: float,
+    S: float,
+    fctd: float,
+    NEd: float,
+    Ac: float,
+    L_x: float = None,
+    L_pt2: float = None,
+) -> float:
+    """Calculate the shear resistance in uncracked, prestressed elements
+    without shear reinforcement, value is determined via Mohr's circle.
+
+    The maximal value of the principle tensile stress does no necessarily lay
+    at the centre of gravity. If this is the ase the minimum value of the shear
+    resistance and corresponding stress needs to be found at the relevant
+    location.
+
+    EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        Iy (float): The second moment of area of the considered cross-section
+            in mm4.
+        bw (float): The width of the cross-section at the centre of gravity.
+        S (float): The first moment of area of the considered cross-section of
+            the part above the centre of gravity, and with respect to the
+            centre of gravity in mm3.
+        fctd (float): Design value of the tensile strength of the concrete.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+            This value should be provided when the prestressing steel is
+            prestreched. Default value is None.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18). This value should be
+            provided when the prestressing steel is prestreched. Default value
+            is None.
+
+    Returns:
+        float: The maximum allowable shear force in N for an uncracked,
+        prestressed element without shear reinforcement, determined from
+        maximum allowable principle stress.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = NEd / Ac
+    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
+
+    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
+
+
+# Equation (6.5)
+def VEdmax_unreinf(
+    bw: float,
+    d: float,
+    fck: float,
+    fcd: float,
+) -> float:
+    """Calculate the maximum allowable shear force for cross-sections without
+    shear reinforcement.
+
+    En 1992-1-1 (2005), Eq. (6.5).
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable shear force in the cross-section in N.
+        When a reduced shear force may be considered for the calculations, the
+        unreduced shear force has to comply to this value.
+    """
+    return 0.5 * bw * d * v(fck) * fcd
+
+
+# Equation (6.6N)
+def v(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.6N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 * (1 - fck / 250.0)
+
+
+# Equation (6.10N)
+def v1(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.10N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
+
+
+# With shear reinforcement
+
+
+# Equation (6.8 & 6.13)
+# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
+def VRds(
+    Asw: float,
+    s: float,
+    z: float,
+    theta: float,
+    fyk: float,
+    alpha: float = 90.0,
+    gamma_s: float = 1.15,
+) -> float:
+    """Calculate the shear resistance of vertical shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.8)
+
+    Args:
+        Asw (float): the cross-sectional area of the shear reinforcement in
+            mm2.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fyk (float): The characteristic strength of the reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        gamma_s (float): Partial factor of the reinforcement steel. Default
+            value = 1.15. Value might differ between National Annexes.
+
+    Returns:
+        float: The shear resistance of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    fywd = fyk / gamma_s
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Asw
+        / s
+        * z
+        * fywd
+        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        * math.sin(alpha)
+    )
+
+
+# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
+def Asw_s_required(
+    Ved: float,
+    z: float,
+    theta: float,
+    fywd: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the required shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        Ved (float): The shear force in N.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The amount of required shear reinforcement in mm2/mm.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Ved
+        / z
+        / fywd
+        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / math.sin(alpha)
+    )
+
+
+# Equation (6.9 & 6.14)
+# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
+def VRdmax(
+    bw: float,
+    z: float,
+    fck: float,
+    theta: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    alpha: float = 90.0,
+    limit_fyd: bool = False,
+) -> float:
+    """Calculate the maximum shear strength of the compression strut.
+
+    EN 1992-1-1 (2005). Eq. (6.9)
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        z (float): The inner lever arm of internal forces in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        theta (float): The angle of the compression strut in degrees.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        limit_fyd (bool): Flag to indicate if the design yield stress is
+            limited to 0.8 * fyk or not. This controls whether the stress
+            reduction factor of concrete is given by Eq. (6.6) (False) or
+            (6.10) (True).
+
+    Returns:
+        float: The shear strength of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+        ValueError: When sigma_cp > fcd.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    strength_reduction = v(fck) if not limit_fyd else v1(fck)
+    return (
+        alpha_cw(NEd, Ac, fcd)
+        * bw
+        * z
+        * strength_reduction
+        * fcd
+        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / (1 + 1.0 / math.tan(theta) ** 2)
+    )
+
+
+# Equation (6.12 & 6.15)
+# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
+def Asw_max(
+    fcd: float,
+    fck: float,
+    bw: float,
+    s: float,
+    fywd: float,
+    NEd: float,
+    Ac: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the maximum cross-sectional area of the shear reinforcement,
+    based on the assumption 1/tan(theta) == 1.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        fcd (float): The design strength of the concrete in MPa.
+        fck (float): The characteristic compressive strength in MPa.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The maximum allowable cross-sectional area of the shear
+        reinforcement in mm2.
+
+    Raises:
+        ValueError: When sigma_cp > fcd.
+    """
+    alpha = math.radians(alpha)
+    return (
+        1.0
+        / 2.0
+        * alpha_cw(NEd, Ac, fcd)
+        * v(fck)
+        * fcd
+        * bw
+        * s
+        / (fywd * math.sin(alpha))
+    )
-- 
2.43.0


From 858ccff6820b5b54325b26ac2f11211bea1cf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 33/45] fix: reject a negative tensile area and angles out of
 range in crack control

---
 structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
index e0a4ae2..16197c9 100644
--- a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
+++ b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
@@ -224,6 +224,8 @@ def kc_flanges_area(f_cr: float, A_ct: float, fct_eff: float) -> float:
     Raises:
         ValueError: If A_ct is less than 0mm2.
     """
+    if A_ct < 0:
+        raise ValueError(f'A_ct={A_ct} must be larger than 0')
     f_cr = abs(f_cr)
     return max(0.9 * f_cr * 1000 / A_ct / fct_eff, 0.5)
 
@@ -907,6 +909,8 @@ def sr_max_theta(sr_max_y: float, sr_max_z: float, theta: float) -> float:
         raise ValueError(f'sr_max_y={sr_max_y} cannot be less than zero')
     if sr_max_z < 0:
         raise ValueError(f'sr_max_z={sr_max_z} cannot be less than zero')
+    if theta < 0 or theta > math.pi / 2:
+        raise ValueError(f'theta={theta} must be between 0 and pi/2')
 
     a = math.cos(theta) / sr_max_y
     b = math.sin(theta) / sr_max_z
-- 
2.43.0


From 5a0e1497c0fc6f094bcceaaf0cddd35d757fd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 34/45] fix: sigma_s rejects a ratio of ultimate to yield
 stress below one

---
 structuralcodes/codes/ec2_2023/_section5_materials.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/codes/ec2_2023/_section5_materials.py b/structuralcodes/codes/ec2_2023/_section5_materials.py
index 921016f..9ff165f 100644
--- a/structuralcodes/codes/ec2_2023/_section5_materials.py
+++ b/structuralcodes/codes/ec2_2023/_section5_materials.py
@@ -957,15 +957,15 @@ def sigma_s(
         raise ValueError(f'eps_u={eps_u} must be larger than 0')
     if eps > eps_u and k > 1:
         raise ValueError(
-            f'eps={eps} must be equal o less than'
-            + 'eps_uk={eps_u} when k is larger than 1'
+            f'eps={eps} must be equal or less than '
+            + f'eps_uk={eps_u} when k is larger than 1'
         )
     if Es <= 0:
         raise ValueError(f'Es={Es} must be larger than 0')
     if fy <= 0:
         raise ValueError(f'fyk={fy} must be larger than 0')
-    if k < 0:
-        raise ValueError(f'k={k} must be larger than 1')
+    if k < 1:
+        raise ValueError(f'k={k} must be larger or equal to 1')
 
     eps_y = fy / Es
 
-- 
2.43.0


From 1f7b0ab7e12d1255eb88e6474919096d60af3707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 35/45] fix: remove a name that does not exist from
 ec2_2023.__all__

---
 structuralcodes/codes/ec2_2023/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2023/__init__.py b/structuralcodes/codes/ec2_2023/__init__.py
index c866214..801b0d0 100644
--- a/structuralcodes/codes/ec2_2023/__init__.py
+++ b/structuralcodes/codes/ec2_2023/__init__.py
@@ -81,7 +81,6 @@ __all__ = [
     'phi_50y_t0',
     'phi_correction_factor',
     'reinforcement_duct_props',
-    'sigma_c',
     'sigma_p',
     'sigma_s',
     'weight_c',
-- 
2.43.0


From de62e1c643bd00e73be6a01957c0c190bf48de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 36/45] fix: report an invalid approximation level in t_rd_max

---
 structuralcodes/codes/mc2010/_concrete_torsion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/codes/mc2010/_concrete_torsion.py b/structuralcodes/codes/mc2010/_concrete_torsion.py
index 1ce8331..fe474f1 100644
--- a/structuralcodes/codes/mc2010/_concrete_torsion.py
+++ b/structuralcodes/codes/mc2010/_concrete_torsion.py
@@ -75,6 +75,9 @@ def t_rd_max(
         )
         k_epsilon = min(1 / (1.2 + 55 * epsilon_1), 0.65)
 
+    else:
+        raise ValueError('Invalid approx level')
+
     k_c = eta_fc(f_ck) * k_epsilon
     return (
         k_c
-- 
2.43.0


From 5621c842b4e849ce89e5aed60f4a7203a6c2bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:48 +0000
Subject: [PATCH 37/45] fix: use the steel safety factor that is given in v_rd

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..2f3587f 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,10 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+
+        if V_rdc + V_rds < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +201,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From c935c79a9f17e644fe2034993736e47cef7ea0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 38/45] fix: a design code given to a material does not replace
 the one set globally

---
 structuralcodes/codes/__init__.py | 35 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..d5604da 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -43,24 +43,28 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+    # Reset to None, or set the requested design code
+    _CODE = None if design_code is None else _find_design_code(design_code)
+
+
+def _find_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Find the module that represents a design code."""
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
         # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
+        return _DESIGN_CODES[design_code.lower()]
+    if isinstance(design_code, types.ModuleType) and all(
         name in dir(design_code)
         for name in ('__title__', '__year__', '__materials__')
     ):
         # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +101,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # Use this design code without changing the one that is set globally
+    return _find_design_code(design_code)
-- 
2.43.0


From 00446662ce40b504b81824ee01c495c256bfd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 39/45] fix: do not write derived dimensions into the tables of
 the profiles

---
 structuralcodes/geometry/profiles/_ipn.py | 2 ++
 structuralcodes/geometry/profiles/_l.py   | 2 ++
 structuralcodes/geometry/profiles/_li.py  | 2 ++
 structuralcodes/geometry/profiles/_u.py   | 2 ++
 structuralcodes/geometry/profiles/_upn.py | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/structuralcodes/geometry/profiles/_ipn.py b/structuralcodes/geometry/profiles/_ipn.py
index 1c9a231..229ad16 100644
--- a/structuralcodes/geometry/profiles/_ipn.py
+++ b/structuralcodes/geometry/profiles/_ipn.py
@@ -222,6 +222,8 @@ class IPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        # Work on a copy to leave the table unaltered
+        parameters = dict(parameters)
         parameters['slope'] = 0.14
         return _create_taper_I_section(
             **{
diff --git a/structuralcodes/geometry/profiles/_l.py b/structuralcodes/geometry/profiles/_l.py
index 8339fbf..4b00153 100644
--- a/structuralcodes/geometry/profiles/_l.py
+++ b/structuralcodes/geometry/profiles/_l.py
@@ -434,6 +434,8 @@ class L(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        # Work on a copy to leave the table unaltered
+        parameters = dict(parameters)
         parameters['t1'] = parameters['t']
         parameters['t2'] = parameters['t']
         return _create_L_section(
diff --git a/structuralcodes/geometry/profiles/_li.py b/structuralcodes/geometry/profiles/_li.py
index 6dfdb84..847b798 100644
--- a/structuralcodes/geometry/profiles/_li.py
+++ b/structuralcodes/geometry/profiles/_li.py
@@ -123,6 +123,8 @@ class LI(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        # Work on a copy to leave the table unaltered
+        parameters = dict(parameters)
         parameters['t1'] = parameters['t']
         parameters['t2'] = parameters['t']
         return _create_L_section(
diff --git a/structuralcodes/geometry/profiles/_u.py b/structuralcodes/geometry/profiles/_u.py
index ccbfc35..19b88de 100644
--- a/structuralcodes/geometry/profiles/_u.py
+++ b/structuralcodes/geometry/profiles/_u.py
@@ -65,6 +65,8 @@ class U(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        # Work on a copy to leave the table unaltered
+        parameters = dict(parameters)
         parameters['slope'] = 0.08
         parameters['u'] = parameters['b'] / 2.0
         return _create_taper_U_section(
diff --git a/structuralcodes/geometry/profiles/_upn.py b/structuralcodes/geometry/profiles/_upn.py
index 8211d30..65960ea 100644
--- a/structuralcodes/geometry/profiles/_upn.py
+++ b/structuralcodes/geometry/profiles/_upn.py
@@ -197,6 +197,8 @@ class UPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        # Work on a copy to leave the table unaltered
+        parameters = dict(parameters)
         if parameters['h'] <= 300:
             parameters['slope'] = 0.08
             parameters['u'] = parameters['b'] / 2.0
-- 
2.43.0


From fc019fc2886eea9cb057e6bb610926469630435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 40/45] fix: initialise the principal angle of the profiles

---
 structuralcodes/geometry/profiles/_base_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index 8b8ff12..6b11c1c 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -26,6 +26,7 @@ class BaseProfile:
         self._Iz: float = None
         self._Icsi: float = None
         self._Ieta: float = None
+        self._theta: float = None
         self._Iyz: float = None
         self._Wely: float = None
         self._Welz: float = None
-- 
2.43.0


From c2085494666da02b592ddf6c961f97b63ca99035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 41/45] fix: UserDefined and Parallel keep copies of the given
 data

---
 structuralcodes/materials/constitutive_laws/_parallel.py    | 2 +-
 structuralcodes/materials/constitutive_laws/_userdefined.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 27f5588..04c7529 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -47,7 +47,7 @@ class Parallel(ConstitutiveLaw):
                     f'Element at index {idx} is of type {type(law)}, expected',
                     ' ConstitutiveLaw',
                 )
-        self._wrapped_laws = constitutive_laws
+        self._wrapped_laws = list(constitutive_laws)
 
         if weights is None:
             self._weights = np.ones(len(constitutive_laws))
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index fc27554..25cafa8 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -48,8 +48,8 @@ class UserDefined(ConstitutiveLaw):
         """
         name = name if name is not None else 'UserDefinedLaw'
         super().__init__(name=name)
-        x = np.atleast_1d(np.asarray(x))
-        y = np.atleast_1d(np.asarray(y))
+        x = np.atleast_1d(np.array(x))
+        y = np.atleast_1d(np.array(y))
         if len(x) != len(y):
             raise ValueError('The two arrays should have the same length')
         if not np.any(x < 0):
-- 
2.43.0


From fffc9013a7337e3807763d284ba60dc250dbc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 42/45] fix: keep the line ends of shear.py

---
 structuralcodes/codes/ec2_2004/shear.py | 1104 +++++++++++------------
 1 file changed, 552 insertions(+), 552 deletions(-)

diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index 672d566..9e6ac0c 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -1,552 +1,552 @@
-"""Design rules according to EN 1992-1-1 regarding shear."""
-
-import math
-import typing as t
-
-# General functions
-
-
-# Part of Equation (6.2).
-def _k(d: float) -> float:
-    """Compute a correction factor.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: Correction factor to account for the cross-sectional size on the
-        shear resistance.
-    """
-    return min(1.0 + math.sqrt(200.0 / d), 2.0)
-
-
-# Part of Equation (6.2).
-def _rho_L(Asl: float, bw: float, d: float) -> float:
-    """Compute the longitudinal reinforcement ratio.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored at least (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The maximum allowable reinforcement ratio of the longitudinal
-        reinforcement, unitless.
-    """
-    return min(Asl / (bw * d), 0.02)
-
-
-# Part of Equation(6.2).
-def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
-    """Calculate the average prestress stress in the cross-section.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.2).
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable average prestress in the cross-section in
-        MPa.
-    """
-    return min(NEd / Ac, 0.2 * fcd)
-
-
-# Part of Equation (6.4)
-def _alpha_l(L_x, L_pt2) -> float:
-    """Compute the relative anchorage length for prestreched prestressing
-    steel.
-
-    Defined in EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18).
-
-    Returns:
-        float: Fraction (relative anchorage length) for determining the amount
-        of prestress that may be used when determining the shear resistance
-        using Mohr's circle.
-    """
-    return min(L_x / L_pt2, 1.0)
-
-
-# Equation (6.7N)
-def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
-    """Check if the provided angle theta is within the bounds provided by the
-    code.
-
-    EN 1992-1-1 (2005). Eq. (6.7N)
-
-    Args:
-        theta (float): The chosen angle of the compression strut in degrees.
-
-    Keyword Args:
-        cot_min (float): The minimum value for cot(theta). Default value is
-            1.0. Different value might be provided in the National Annexes.
-        cot_max (float): The maximum value for cot(theta). Default value is
-            2.5. Different value might be provided in the National Annexes.
-
-    Raises:
-        ValueError if the chosen angle is not within the given bounds.
-    """
-    # Use round to allow less precise angles (i.e. 21.8 degrees instead
-    # of 21.801..... degrees for cot_max = 2.5).
-    theta_ = math.radians(theta)
-    if (
-        round(1.0 / math.tan(theta_), 2) < cot_min
-        or round(1.0 / math.tan(theta_), 2) > cot_max
-    ):
-        raise ValueError(
-            'Wrong value for theta is chosen. Theta has '
-            f'to be chosen such that 1/tan(theta) lies between '
-            f'{cot_min} and {cot_max}. This corresponds to an angle '
-            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
-            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
-            f'degrees, respectively. Current angle is set at {theta}'
-            ' degrees.'
-        )
-
-
-# Equation (6.11N)
-def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
-    """Calculate factor that affects the maximum shear resistance of the
-    concrete based on the prestress.
-
-    EN 1992-1-1 (2005). Eq. (6.11N)
-
-    Args:
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design strength of the concrete in MPa.
-
-    Returns:
-        float: Factor that affects the maximum shear resistance of the concrete
-        based on the level of prestress.
-
-    Raises:
-        ValueError: The applied prestress exceeds the concrete design strength.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = Ned / Ac
-    if sigma_cp <= 0.0:
-        value = 1.0
-    elif sigma_cp <= 0.25 * fcd:
-        value = 1.0 + sigma_cp / fcd
-    elif sigma_cp <= 0.5 * fcd:
-        value = 1.25
-    elif sigma_cp < fcd:
-        value = 2.5 * (1 - sigma_cp / fcd)
-    else:
-        raise ValueError(
-            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
-            ' than design compressive strength.'
-        )
-    return value
-
-
-# Without shear reinforcement
-
-
-# Equation (6.2 a + b)
-def VRdc(
-    fck: float,
-    d: float,
-    Asl: float,
-    bw: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    k1: float = 0.15,
-    gamma_c: float = 1.5,
-    CRdc: t.Optional[float] = None,
-) -> float:
-    """Compute the design strength of the shear resistance.
-
-    EN 1992-1-1 (2005), Eq. (6.2)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-        Asl (float): The cross-sectional area of the tensile reinforcement,
-            anchored atleast (lbd + d) beyond the considered cross-section, in
-            mm2.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        k1 (float): Factor used to include the effect of the normal stress
-            into the shear resistance of the concrete. Default value = 0.15,
-            value might differ between National Annexes.
-        gamma_c (float): Partial factor for concrete. Default value = 1.5,
-            value might differ between National Annexes.
-        CRdc (Optional[float]): Scaling factor for the shear resistance.
-            Default value is 0.18 / gamma_c.
-
-    Returns:
-        float: The concrete shear resistance in MPa.
-    """
-    CRdc = CRdc or 0.18 / gamma_c
-    return max(
-        max(
-            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
-            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
-            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
-        )
-        * bw
-        * d,
-        0,
-    )
-
-
-# Equation (6.3N)
-def vmin(fck: float, d: float) -> float:
-    """Compute the minimum shear resistance of the concrete.
-
-    EN 1992-1-1 (2005), Eq. (6.3)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-        d (float): The effective depth of the cross-section in mm.
-
-    Returns:
-        float: The minimal shear stress resistance of the concrete in MPa.
-    """
-    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
-
-
-# Equation (6.4)
-def VRdc_prin_stress(
-    Iy: float,
-    bw: float,
-    S: float,
-    fctd: float,
-    NEd: float,
-    Ac: float,
-    L_x: float = None,
-    L_pt2: float = None,
-) -> float:
-    """Calculate the shear resistance in uncracked, prestressed elements
-    without shear reinforcement, value is determined via Mohr's circle.
-
-    The maximal value of the principle tensile stress does no necessarily lay
-    at the centre of gravity. If this is the ase the minimum value of the shear
-    resistance and corresponding stress needs to be found at the relevant
-    location.
-
-    EN 1992-1-1 (2005), Eq. (6.4).
-
-    Args:
-        Iy (float): The second moment of area of the considered cross-section
-            in mm4.
-        bw (float): The width of the cross-section at the centre of gravity.
-        S (float): The first moment of area of the considered cross-section of
-            the part above the centre of gravity, and with respect to the
-            centre of gravity in mm3.
-        fctd (float): Design value of the tensile strength of the concrete.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        L_x (float): Distance from the considered cross-section until the
-            starting point of the transference length of the prestress steel.
-            This value should be provided when the prestressing steel is
-            prestreched. Default value is None.
-        L_pt2 (float): Maximum value of the transference length of the
-            prestress steel, according to Eq. (8.18). This value should be
-            provided when the prestressing steel is prestreched. Default value
-            is None.
-
-    Returns:
-        float: The maximum allowable shear force in N for an uncracked,
-        prestressed element without shear reinforcement, determined from
-        maximum allowable principle stress.
-    """
-    # No function call for sigma_cp, value is allowed to be higher than
-    # 0.2fcd.
-    sigma_cp = NEd / Ac
-    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
-
-    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
-
-
-# Equation (6.5)
-def VEdmax_unreinf(
-    bw: float,
-    d: float,
-    fck: float,
-    fcd: float,
-) -> float:
-    """Calculate the maximum allowable shear force for cross-sections without
-    shear reinforcement.
-
-    En 1992-1-1 (2005), Eq. (6.5).
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        d (float): The effective depth of the cross-section in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        fcd (float): The design compressive strength in MPa.
-
-    Returns:
-        float: The maximum allowable shear force in the cross-section in N.
-        When a reduced shear force may be considered for the calculations, the
-        unreduced shear force has to comply to this value.
-    """
-    return 0.5 * bw * d * v(fck) * fcd
-
-
-# Equation (6.6N)
-def v(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.6N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 * (1 - fck / 250.0)
-
-
-# Equation (6.10N)
-def v1(fck: float) -> float:
-    """Calculate a strength redcution factor for concrete cracked by shear
-    forces.
-
-    EN 1992-1-1 (2005), Eq. (6.10N)
-
-    Args:
-        fck (float): The characteristic compressive strength in MPa.
-
-    Returns:
-        float: A concrete reduction factor to account for concrete cracked by
-        shear forces.
-    """
-    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
-
-
-# With shear reinforcement
-
-
-# Equation (6.8 & 6.13)
-# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
-def VRds(
-    Asw: float,
-    s: float,
-    z: float,
-    theta: float,
-    fyk: float,
-    alpha: float = 90.0,
-    gamma_s: float = 1.15,
-) -> float:
-    """Calculate the shear resistance of vertical shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.8)
-
-    Args:
-        Asw (float): the cross-sectional area of the shear reinforcement in
-            mm2.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fyk (float): The characteristic strength of the reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        gamma_s (float): Partial factor of the reinforcement steel. Default
-            value = 1.15. Value might differ between National Annexes.
-
-    Returns:
-        float: The shear resistance of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    fywd = fyk / gamma_s
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Asw
-        / s
-        * z
-        * fywd
-        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        * math.sin(alpha)
-    )
-
-
-# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
-def Asw_s_required(
-    Ved: float,
-    z: float,
-    theta: float,
-    fywd: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the required shear reinforcement.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        Ved (float): The shear force in N.
-        z (float): The inner lever arm of internal forces in mm.
-        theta (float): The angle of the compression strut in degrees.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The amount of required shear reinforcement in mm2/mm.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    return (
-        Ved
-        / z
-        / fywd
-        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / math.sin(alpha)
-    )
-
-
-# Equation (6.9 & 6.14)
-# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
-def VRdmax(
-    bw: float,
-    z: float,
-    fck: float,
-    theta: float,
-    NEd: float,
-    Ac: float,
-    fcd: float,
-    alpha: float = 90.0,
-    limit_fyd: bool = False,
-) -> float:
-    """Calculate the maximum shear strength of the compression strut.
-
-    EN 1992-1-1 (2005). Eq. (6.9)
-
-    Args:
-        bw (float): The smallest width of the cross-section in tension in mm.
-        z (float): The inner lever arm of internal forces in mm.
-        fck (float): The characteristic compressive strength in MPa.
-        theta (float): The angle of the compression strut in degrees.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-        fcd (float): The design compressive strength in MPa.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-        limit_fyd (bool): Flag to indicate if the design yield stress is
-            limited to 0.8 * fyk or not. This controls whether the stress
-            reduction factor of concrete is given by Eq. (6.6) (False) or
-            (6.10) (True).
-
-    Returns:
-        float: The shear strength of the shear reinforcement in N.
-
-    Raises:
-        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
-        ValueError: When sigma_cp > fcd.
-    """
-    _theta(theta)
-    theta = math.radians(theta)
-    alpha = math.radians(alpha)
-    strength_reduction = v(fck) if not limit_fyd else v1(fck)
-    return (
-        alpha_cw(NEd, Ac, fcd)
-        * bw
-        * z
-        * strength_reduction
-        * fcd
-        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
-        / (1 + 1.0 / math.tan(theta) ** 2)
-    )
-
-
-# Equation (6.12 & 6.15)
-# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
-def Asw_max(
-    fcd: float,
-    fck: float,
-    bw: float,
-    s: float,
-    fywd: float,
-    NEd: float,
-    Ac: float,
-    alpha: float = 90.0,
-) -> float:
-    """Calculate the maximum cross-sectional area of the shear reinforcement,
-    based on the assumption 1/tan(theta) == 1.
-
-    EN 1992-1-1 (2005). Eq. (6.13)
-
-    Args:
-        fcd (float): The design strength of the concrete in MPa.
-        fck (float): The characteristic compressive strength in MPa.
-        bw (float): The smallest width of the cross-section in tension in mm.
-        s (float): The centre-to-centre distance of the shear reinforcement in
-            mm.
-        fywd (float): The design strength of the shear reinforcement steel in
-            MPa.
-        NEd (float): The normal force in the cross-section due to loading or
-            prestress (NEd > 0 for compression) in N.
-        Ac (float): The cross-sectional area of the concrete in mm2.
-
-    Keyword Args:
-        alpha (float): The angle of the shear reinforcement with respect to the
-            neutral axis in degrees. Default value = 90 degrees.
-
-    Returns:
-        float: The maximum allowable cross-sectional area of the shear
-        reinforcement in mm2.
-
-    Raises:
-        ValueError: When sigma_cp > fcd.
-    """
-    alpha = math.radians(alpha)
-    return (
-        1.0
-        / 2.0
-        * alpha_cw(NEd, Ac, fcd)
-        * v(fck)
-        * fcd
-        * bw
-        * s
-        / (fywd * math.sin(alpha))
-    )
+"""Design rules according to EN 1992-1-1 regarding shear."""
+
+import math
+import typing as t
+
+# General functions
+
+
+# Part of Equation (6.2).
+def _k(d: float) -> float:
+    """Compute a correction factor.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: Correction factor to account for the cross-sectional size on the
+        shear resistance.
+    """
+    return min(1.0 + math.sqrt(200.0 / d), 2.0)
+
+
+# Part of Equation (6.2).
+def _rho_L(Asl: float, bw: float, d: float) -> float:
+    """Compute the longitudinal reinforcement ratio.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored at least (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The maximum allowable reinforcement ratio of the longitudinal
+        reinforcement, unitless.
+    """
+    return min(Asl / (bw * d), 0.02)
+
+
+# Part of Equation(6.2).
+def _sigma_cp(NEd: float, Ac: float, fcd: float) -> float:
+    """Calculate the average prestress stress in the cross-section.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.2).
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable average prestress in the cross-section in
+        MPa.
+    """
+    return min(NEd / Ac, 0.2 * fcd)
+
+
+# Part of Equation (6.4)
+def _alpha_l(L_x, L_pt2) -> float:
+    """Compute the relative anchorage length for prestreched prestressing
+    steel.
+
+    Defined in EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18).
+
+    Returns:
+        float: Fraction (relative anchorage length) for determining the amount
+        of prestress that may be used when determining the shear resistance
+        using Mohr's circle.
+    """
+    return min(L_x / L_pt2, 1.0)
+
+
+# Equation (6.7N)
+def _theta(theta: float, cot_min: float = 1.0, cot_max: float = 2.5) -> None:
+    """Check if the provided angle theta is within the bounds provided by the
+    code.
+
+    EN 1992-1-1 (2005). Eq. (6.7N)
+
+    Args:
+        theta (float): The chosen angle of the compression strut in degrees.
+
+    Keyword Args:
+        cot_min (float): The minimum value for cot(theta). Default value is
+            1.0. Different value might be provided in the National Annexes.
+        cot_max (float): The maximum value for cot(theta). Default value is
+            2.5. Different value might be provided in the National Annexes.
+
+    Raises:
+        ValueError if the chosen angle is not within the given bounds.
+    """
+    # Use round to allow less precise angles (i.e. 21.8 degrees instead
+    # of 21.801..... degrees for cot_max = 2.5).
+    theta_ = math.radians(theta)
+    if (
+        round(1.0 / math.tan(theta_), 2) < cot_min
+        or round(1.0 / math.tan(theta_), 2) > cot_max
+    ):
+        raise ValueError(
+            'Wrong value for theta is chosen. Theta has '
+            f'to be chosen such that 1/tan(theta) lies between '
+            f'{cot_min} and {cot_max}. This corresponds to an angle '
+            f'between {round(math.degrees(math.atan(1 / cot_min)), 2)} '
+            f'and {round(math.degrees(math.atan(1 / cot_max)), 2)} '
+            f'degrees, respectively. Current angle is set at {theta}'
+            ' degrees.'
+        )
+
+
+# Equation (6.11N)
+def alpha_cw(Ned: float, Ac: float, fcd: float) -> float:
+    """Calculate factor that affects the maximum shear resistance of the
+    concrete based on the prestress.
+
+    EN 1992-1-1 (2005). Eq. (6.11N)
+
+    Args:
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design strength of the concrete in MPa.
+
+    Returns:
+        float: Factor that affects the maximum shear resistance of the concrete
+        based on the level of prestress.
+
+    Raises:
+        ValueError: The applied prestress exceeds the concrete design strength.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = Ned / Ac
+    if sigma_cp <= 0.0:
+        value = 1.0
+    elif sigma_cp <= 0.25 * fcd:
+        value = 1.0 + sigma_cp / fcd
+    elif sigma_cp <= 0.5 * fcd:
+        value = 1.25
+    elif sigma_cp < fcd:
+        value = 2.5 * (1 - sigma_cp / fcd)
+    else:
+        raise ValueError(
+            f'sigma_cp/fcd={sigma_cp / fcd}. Prestress has to be smaller'
+            ' than design compressive strength.'
+        )
+    return value
+
+
+# Without shear reinforcement
+
+
+# Equation (6.2 a + b)
+def VRdc(
+    fck: float,
+    d: float,
+    Asl: float,
+    bw: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    k1: float = 0.15,
+    gamma_c: float = 1.5,
+    CRdc: t.Optional[float] = None,
+) -> float:
+    """Compute the design strength of the shear resistance.
+
+    EN 1992-1-1 (2005), Eq. (6.2)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+        Asl (float): The cross-sectional area of the tensile reinforcement,
+            anchored atleast (lbd + d) beyond the considered cross-section, in
+            mm2.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        k1 (float): Factor used to include the effect of the normal stress
+            into the shear resistance of the concrete. Default value = 0.15,
+            value might differ between National Annexes.
+        gamma_c (float): Partial factor for concrete. Default value = 1.5,
+            value might differ between National Annexes.
+        CRdc (Optional[float]): Scaling factor for the shear resistance.
+            Default value is 0.18 / gamma_c.
+
+    Returns:
+        float: The concrete shear resistance in MPa.
+    """
+    CRdc = CRdc or 0.18 / gamma_c
+    return max(
+        max(
+            CRdc * _k(d) * (100 * _rho_L(Asl, bw, d) * fck) ** (1.0 / 3.0)
+            + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdc
+            vmin(fck, d) + k1 * _sigma_cp(NEd, Ac, fcd),  # VRdcmin
+        )
+        * bw
+        * d,
+        0,
+    )
+
+
+# Equation (6.3N)
+def vmin(fck: float, d: float) -> float:
+    """Compute the minimum shear resistance of the concrete.
+
+    EN 1992-1-1 (2005), Eq. (6.3)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+        d (float): The effective depth of the cross-section in mm.
+
+    Returns:
+        float: The minimal shear stress resistance of the concrete in MPa.
+    """
+    return 0.035 * _k(d) ** (3.0 / 2.0) * fck ** (1 / 2)
+
+
+# Equation (6.4)
+def VRdc_prin_stress(
+    Iy: float,
+    bw: float,
+    S: float,
+    fctd: float,
+    NEd: float,
+    Ac: float,
+    L_x: float = None,
+    L_pt2: float = None,
+) -> float:
+    """Calculate the shear resistance in uncracked, prestressed elements
+    without shear reinforcement, value is determined via Mohr's circle.
+
+    The maximal value of the principle tensile stress does no necessarily lay
+    at the centre of gravity. If this is the ase the minimum value of the shear
+    resistance and corresponding stress needs to be found at the relevant
+    location.
+
+    EN 1992-1-1 (2005), Eq. (6.4).
+
+    Args:
+        Iy (float): The second moment of area of the considered cross-section
+            in mm4.
+        bw (float): The width of the cross-section at the centre of gravity.
+        S (float): The first moment of area of the considered cross-section of
+            the part above the centre of gravity, and with respect to the
+            centre of gravity in mm3.
+        fctd (float): Design value of the tensile strength of the concrete.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        L_x (float): Distance from the considered cross-section until the
+            starting point of the transference length of the prestress steel.
+            This value should be provided when the prestressing steel is
+            prestreched. Default value is None.
+        L_pt2 (float): Maximum value of the transference length of the
+            prestress steel, according to Eq. (8.18). This value should be
+            provided when the prestressing steel is prestreched. Default value
+            is None.
+
+    Returns:
+        float: The maximum allowable shear force in N for an uncracked,
+        prestressed element without shear reinforcement, determined from
+        maximum allowable principle stress.
+    """
+    # No function call for sigma_cp, value is allowed to be higher than
+    # 0.2fcd.
+    sigma_cp = NEd / Ac
+    alpha_L = 1.0 if L_x is None or L_pt2 is None else _alpha_l(L_x, L_pt2)
+
+    return Iy * bw / S * math.sqrt(fctd**2 + alpha_L * sigma_cp * fctd)
+
+
+# Equation (6.5)
+def VEdmax_unreinf(
+    bw: float,
+    d: float,
+    fck: float,
+    fcd: float,
+) -> float:
+    """Calculate the maximum allowable shear force for cross-sections without
+    shear reinforcement.
+
+    En 1992-1-1 (2005), Eq. (6.5).
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        d (float): The effective depth of the cross-section in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        fcd (float): The design compressive strength in MPa.
+
+    Returns:
+        float: The maximum allowable shear force in the cross-section in N.
+        When a reduced shear force may be considered for the calculations, the
+        unreduced shear force has to comply to this value.
+    """
+    return 0.5 * bw * d * v(fck) * fcd
+
+
+# Equation (6.6N)
+def v(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.6N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 * (1 - fck / 250.0)
+
+
+# Equation (6.10N)
+def v1(fck: float) -> float:
+    """Calculate a strength redcution factor for concrete cracked by shear
+    forces.
+
+    EN 1992-1-1 (2005), Eq. (6.10N)
+
+    Args:
+        fck (float): The characteristic compressive strength in MPa.
+
+    Returns:
+        float: A concrete reduction factor to account for concrete cracked by
+        shear forces.
+    """
+    return 0.6 if fck <= 60 else max(0.9 - fck / 200.0, 0.5)
+
+
+# With shear reinforcement
+
+
+# Equation (6.8 & 6.13)
+# For alpha == 90 degrees, Equation (6.13) reduces to Equation (6.8).
+def VRds(
+    Asw: float,
+    s: float,
+    z: float,
+    theta: float,
+    fyk: float,
+    alpha: float = 90.0,
+    gamma_s: float = 1.15,
+) -> float:
+    """Calculate the shear resistance of vertical shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.8)
+
+    Args:
+        Asw (float): the cross-sectional area of the shear reinforcement in
+            mm2.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fyk (float): The characteristic strength of the reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        gamma_s (float): Partial factor of the reinforcement steel. Default
+            value = 1.15. Value might differ between National Annexes.
+
+    Returns:
+        float: The shear resistance of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    fywd = fyk / gamma_s
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Asw
+        / s
+        * z
+        * fywd
+        * (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        * math.sin(alpha)
+    )
+
+
+# Equation (6.8 & 6.13) -> Reinforcement ratio isolated from the equation.
+def Asw_s_required(
+    Ved: float,
+    z: float,
+    theta: float,
+    fywd: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the required shear reinforcement.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        Ved (float): The shear force in N.
+        z (float): The inner lever arm of internal forces in mm.
+        theta (float): The angle of the compression strut in degrees.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The amount of required shear reinforcement in mm2/mm.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    return (
+        Ved
+        / z
+        / fywd
+        / (1 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / math.sin(alpha)
+    )
+
+
+# Equation (6.9 & 6.14)
+# For alpha == 90 degrees, Equation (6.14) reduces to Equation (6.9).
+def VRdmax(
+    bw: float,
+    z: float,
+    fck: float,
+    theta: float,
+    NEd: float,
+    Ac: float,
+    fcd: float,
+    alpha: float = 90.0,
+    limit_fyd: bool = False,
+) -> float:
+    """Calculate the maximum shear strength of the compression strut.
+
+    EN 1992-1-1 (2005). Eq. (6.9)
+
+    Args:
+        bw (float): The smallest width of the cross-section in tension in mm.
+        z (float): The inner lever arm of internal forces in mm.
+        fck (float): The characteristic compressive strength in MPa.
+        theta (float): The angle of the compression strut in degrees.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+        fcd (float): The design compressive strength in MPa.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+        limit_fyd (bool): Flag to indicate if the design yield stress is
+            limited to 0.8 * fyk or not. This controls whether the stress
+            reduction factor of concrete is given by Eq. (6.6) (False) or
+            (6.10) (True).
+
+    Returns:
+        float: The shear strength of the shear reinforcement in N.
+
+    Raises:
+        ValueError: When theta < 21.8 degrees or theta > 45 degrees.
+        ValueError: When sigma_cp > fcd.
+    """
+    _theta(theta)
+    theta = math.radians(theta)
+    alpha = math.radians(alpha)
+    strength_reduction = v(fck) if not limit_fyd else v1(fck)
+    return (
+        alpha_cw(NEd, Ac, fcd)
+        * bw
+        * z
+        * strength_reduction
+        * fcd
+        * (1.0 / math.tan(theta) + 1.0 / math.tan(alpha))
+        / (1 + 1.0 / math.tan(theta) ** 2)
+    )
+
+
+# Equation (6.12 & 6.15)
+# For alpha == 90 degrees, Equation (6.15) reduces to Equation (6.12).
+def Asw_max(
+    fcd: float,
+    fck: float,
+    bw: float,
+    s: float,
+    fywd: float,
+    NEd: float,
+    Ac: float,
+    alpha: float = 90.0,
+) -> float:
+    """Calculate the maximum cross-sectional area of the shear reinforcement,
+    based on the assumption 1/tan(theta) == 1.
+
+    EN 1992-1-1 (2005). Eq. (6.13)
+
+    Args:
+        fcd (float): The design strength of the concrete in MPa.
+        fck (float): The characteristic compressive strength in MPa.
+        bw (float): The smallest width of the cross-section in tension in mm.
+        s (float): The centre-to-centre distance of the shear reinforcement in
+            mm.
+        fywd (float): The design strength of the shear reinforcement steel in
+            MPa.
+        NEd (float): The normal force in the cross-section due to loading or
+            prestress (NEd > 0 for compression) in N.
+        Ac (float): The cross-sectional area of the concrete in mm2.
+
+    Keyword Args:
+        alpha (float): The angle of the shear reinforcement with respect to the
+            neutral axis in degrees. Default value = 90 degrees.
+
+    Returns:
+        float: The maximum allowable cross-sectional area of the shear
+        reinforcement in mm2.
+
+    Raises:
+        ValueError: When sigma_cp > fcd.
+    """
+    alpha = math.radians(alpha)
+    return (
+        1.0
+        / 2.0
+        * alpha_cw(NEd, Ac, fcd)
+        * v(fck)
+        * fcd
+        * bw
+        * s
+        / (fywd * math.sin(alpha))
+    )
-- 
2.43.0


From b8ae5f788f43b2c77e459593e627ca7ebd4ebf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 43/45] fix: correct the root radius of UBP305x305x186

---
 structuralcodes/geometry/profiles/_ubp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/profiles/_ubp.py b/structuralcodes/geometry/profiles/_ubp.py
index 5e6f0d1..fc8818d 100644
--- a/structuralcodes/geometry/profiles/_ubp.py
+++ b/structuralcodes/geometry/profiles/_ubp.py
@@ -99,7 +99,7 @@ class UBP(BaseProfile):
             'b': 321.0,
             'tw': 25.5,
             'tf': 25.6,
-            'r': 2.0,
+            'r': 20.0,
         },
         'UBP305x305x223': {
             'h': 338.0,
-- 
2.43.0


From f5f7bd74ee07f1c3f7dc8c109ad63b58a32732fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 44/45] fix: keep surfaces that are not concrete in the cracked
 section

---
 structuralcodes/sections/_rc_utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index 7003398..70aa1f6 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -35,8 +35,8 @@ def calculate_elastic_cracked_properties(
     """Calculates the cracked section properties of a reinforced concrete
     section. (GenericSection). Materials in surface geometries and point
     geometries are elastic-linear in order to make the cracking properties
-    independent of the stress state. Tension in all surface geometries is
-    neglected.
+    independent of the stress state. Tension in all concrete surface geometries
+    is neglected.
 
     Args:
         section (GenericSection): The section to use as basis for the
@@ -112,10 +112,16 @@ def calculate_elastic_cracked_properties(
 
     # Cutting concrete geometries and retaining the compressed block
     cut_geom = None
-    for part in rotated_geometry.geometries:
-        upper_div, lower_div = part.split(((0, z_na), 0))
-        # Convert to SurfaceGeometry
-        subpart = _create_surface_geometries(upper_div, part.material)
+    for original, part in zip(
+        section.geometry.geometries, rotated_geometry.geometries
+    ):
+        if original.concrete:
+            upper_div, lower_div = part.split(((0, z_na), 0))
+            # Convert to SurfaceGeometry
+            subpart = _create_surface_geometries(upper_div, part.material)
+        else:
+            # It is not concrete and works also in tension
+            subpart = CompoundGeometry([part])
         if cut_geom is None:
             cut_geom = subpart
         else:
-- 
2.43.0


From 7b112ab8a103a535c09cf32bd130f9f674aa1f98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:53:00 +0000
Subject: [PATCH 45/45] fix: do not place two bars at the start of a whole
 circle

---
 structuralcodes/geometry/_reinforcement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index c319b3f..0dbcc65 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,10 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
-        # the special case
-        whole = False
+        # In this case we only need to deal with the special case when the
+        # spacing fits the whole circle exactly, i.e. when the last bar would
+        # coincide with the first one
+        whole = whole and math.isclose(length, needed_length, abs_tol=1e-4)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0

