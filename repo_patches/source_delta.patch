From 6ce0afaa5450651a9c67c18b5c5b0a2c316f67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 01/54] fix: constitutive laws no longer modify the strain
 array of the caller

---
 structuralcodes/core/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..1296174 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -211,9 +211,11 @@ class ConstitutiveLaw(abc.ABC):
             if np.isclose(eps, eps_min, atol=1e-6):
                 return eps_min
             return eps
-        idxs = np.isclose(eps, np.zeros_like(eps) + eps_max, atol=1e-6)
+        # Work on a copy (as floats) to avoid modifying the input
+        eps = np.array(eps, dtype=float)
+        idxs = np.isclose(eps, eps_max, atol=1e-6)
         eps[idxs] = eps_max
-        idxs = np.isclose(eps, np.zeros_like(eps) + eps_min, atol=1e-6)
+        idxs = np.isclose(eps, eps_min, atol=1e-6)
         eps[idxs] = eps_min
 
         return eps
-- 
2.43.0


From ae055795e6d84552729f2b3d5bd05ea7016e7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 02/54] fix: BilinearCompression tangent is the same for
 scalars and arrays

---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..a69d3ac 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones_like(eps) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From 07b7fd4899678b62897f8bcdada0ce9cca86f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 03/54] fix: constitutive laws handle arrays of integer strains

---
 structuralcodes/core/base.py                                  | 2 +-
 .../materials/constitutive_laws/_bilinearcompression.py       | 2 +-
 structuralcodes/materials/constitutive_laws/_elastic.py       | 2 +-
 .../materials/constitutive_laws/_elasticplastic.py            | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py         | 2 +-
 structuralcodes/materials/constitutive_laws/_parallel.py      | 4 ++--
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 1296174..6a0e582 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -304,7 +304,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros_like(eps, dtype=float)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index a69d3ac..18420e3 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -74,7 +74,7 @@ class BilinearCompression(ConstitutiveLaw):
             return 0
 
         # If it is an array
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > 0] = 0
         tangent[eps <= self._eps_c] = 0
 
diff --git a/structuralcodes/materials/constitutive_laws/_elastic.py b/structuralcodes/materials/constitutive_laws/_elastic.py
index d085257..6ed79fa 100644
--- a/structuralcodes/materials/constitutive_laws/_elastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elastic.py
@@ -61,7 +61,7 @@ class Elastic(ConstitutiveLaw):
         if np.isscalar(eps):
             return self._E
         eps = np.atleast_1d(eps)
-        return np.ones_like(eps) * self._E
+        return np.ones_like(eps, dtype=float) * self._E
 
     def __marin__(
         self, strain: t.Tuple[float, float]
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..b576efb 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..9a606ed 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros_like(eps, dtype=float)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..b037c94 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From 20a814a88e091c731dee8555a6982d2bc8f2c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 04/54] fix: the marin coefficients do not modify the strain
 profile passed in

---
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index 18420e3..33b6599 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index b576efb..ae7aae9 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 9a606ed..78590be 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From 7a199763c0c1b2d3a2773298270d04f2901f61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/54] fix: InitialStrain accepts lists and returns one
 tangent per strain

---
 .../materials/constitutive_laws/_initial_strain.py           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..d313531 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,10 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            return tangent if np.isscalar(eps) else np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
-- 
2.43.0


From a232232abc7adf11ce62970c4bb1a29ad252cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/54] fix: marin integration honours strain_compatibility of
 InitialStrain

---
 .../materials/constitutive_laws/_initial_strain.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index d313531..af6669a 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -100,6 +100,9 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            # The stress is the initial stress irrespective of the strain
+            return None, [(self._initial_stress,)]
         return self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
@@ -118,6 +121,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self.get_tangent(0.0),)]
         return self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
-- 
2.43.0


From e538b0778a006dbeaf1f143364bd38fc98b4a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/54] fix: Parallel can be integrated with laws that are
 discretized for marin

---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index b037c94..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From 760fe3039e29c01f36cff9519a6a24440fc450a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 08/54] fix: laws without strain ranges contribute to Parallel
 outside the branches of the others

---
 structuralcodes/materials/constitutive_laws/_parallel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 27f5588..5006a73 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -105,6 +105,13 @@ class Parallel(ConstitutiveLaw):
                         breakpoints.add(eps0)
                         breakpoints.add(eps1)
 
+            # A law without ranges is valid for any strain, i.e. it also
+            # contributes where the other laws have no stress
+            if breakpoints and any(ranges is None for ranges, _ in laws_marin):
+                for law, (ranges, _) in zip(self.wrapped_laws, laws_marin):
+                    if ranges is not None:
+                        breakpoints.update(law.get_ultimate_strain())
+
             return sorted(breakpoints)  # Sort them
 
         breakpoints = _collect_breakpoints(laws_marin)
-- 
2.43.0


From 957c72800cf6d87e38bed0e599897f9e96f82b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 09/54] fix: strain ranges of the marin coefficients of
 InitialStrain refer to the applied strain

---
 .../constitutive_laws/_initial_strain.py      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index af6669a..65b865f 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -86,6 +86,19 @@ class InitialStrain(ConstitutiveLaw):
             return tangent if np.isscalar(eps) else np.full(eps.shape, tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
+    def _shift_ranges(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """Express the strain ranges of the wrapped law in terms of the strain
+        applied to this law.
+        """
+        if strains is None:
+            return None
+        return [
+            (eps0 - self._initial_strain, eps1 - self._initial_strain)
+            for eps0, eps1 in strains
+        ]
+
     def __marin__(
         self, strain: t.Tuple[float, float]
     ) -> t.Tuple[t.List[t.Tuple], t.List[t.Tuple]]:
@@ -103,9 +116,10 @@ class InitialStrain(ConstitutiveLaw):
         if not self._strain_compatibility:
             # The stress is the initial stress irrespective of the strain
             return None, [(self._initial_stress,)]
-        return self._wrapped_law.__marin__(
+        strains, coeff = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_ranges(strains), coeff
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -123,9 +137,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self.get_tangent(0.0),)]
-        return self._wrapped_law.__marin_tangent__(
+        strains, coeff = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_ranges(strains), coeff
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From 3555b1244a2cc0fa509950d42cc9a57d28c19a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 10/54] fix: Sargin rejects a non-positive plasticity number as
 documented

---
 structuralcodes/materials/constitutive_laws/_sargin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_sargin.py b/structuralcodes/materials/constitutive_laws/_sargin.py
index 4b5d6f1..5c46b99 100644
--- a/structuralcodes/materials/constitutive_laws/_sargin.py
+++ b/structuralcodes/materials/constitutive_laws/_sargin.py
@@ -57,6 +57,8 @@ class Sargin(ConstitutiveLaw):
         self._fc = -abs(fc)
         self._eps_c1 = -abs(eps_c1)
         self._eps_cu1 = -abs(eps_cu1)
+        if k <= 0:
+            raise ValueError('Plasticity number k must be greater than zero.')
         self._k = k
 
     def get_stress(
-- 
2.43.0


From a8be27a1a8545a0f34a8ee9f7506d0c9fa38f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 11/54] fix: near-vertical lines span the height of the
 bounding box

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..7d6a817 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 026e11f550cc6ab2e5b0703a6b6850d5b61097d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 12/54] fix: CompoundGeometry built from a MultiPolygon has the
 reinforced_concrete property

---
 structuralcodes/geometry/_geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7d6a817..f28ce4b 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -758,8 +758,7 @@ class CompoundGeometry(Geometry):
             # useful for representation in svg
             geoms_representation = [g.polygon for g in self.geometries]
             self.geom = MultiPolygon(geoms_representation)
-            return
-        if isinstance(geometries, list):
+        elif isinstance(geometries, list):
             self.geometries, self.point_geometries = _process_geometries_list(
                 geometries
             )
-- 
2.43.0


From 45091233f18ece208100b7a7fbd75b23faa43c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 13/54] fix: transformed surface geometries keep their name and
 group label

---
 structuralcodes/geometry/_geometry.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index f28ce4b..5e6125e 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -582,6 +582,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def rotate(
@@ -609,6 +611,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -631,6 +635,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     @staticmethod
@@ -668,7 +674,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo.name,
+            group_label=geo.group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From a03e8f4c5a743bd8170cf202961be987a3f43e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 14/54] fix: subtracting geometries keeps the concrete flag and
 can cut a surface into parts

---
 structuralcodes/geometry/_geometry.py | 29 +++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 5e6125e..bca307f 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -540,14 +540,18 @@ class SurfaceGeometry(Geometry):
         # get the intersection
         return self.polygon.intersection(lines_polygon)
 
-    def __sub__(self, other: Geometry) -> SurfaceGeometry:
+    def __sub__(
+        self, other: Geometry
+    ) -> t.Union[SurfaceGeometry, CompoundGeometry]:
         """Add operator "-" for geometries.
 
         Arguments:
             other (Geometry): The other geometry to be subtracted.
 
         Returns:
-            SurfaceGeometry: The resulting SurfaceGeometry.
+            Union(SurfaceGeometry, CompoundGeometry): The resulting
+            SurfaceGeometry, or a CompoundGeometry if the subtraction cuts the
+            surface into several parts.
         """
         material = self.material
 
@@ -562,7 +566,21 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        def _to_surface(polygon: Polygon) -> SurfaceGeometry:
+            return SurfaceGeometry(
+                poly=polygon,
+                material=material,
+                concrete=self.concrete,
+                name=self.name,
+                group_label=self.group_label,
+            )
+
+        if isinstance(sub_polygon, MultiPolygon):
+            # The surface is cut into several parts
+            return CompoundGeometry(
+                [_to_surface(polygon) for polygon in sub_polygon.geoms]
+            )
+        return _to_surface(sub_polygon)
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
@@ -909,7 +927,10 @@ class CompoundGeometry(Geometry):
         # Otherwise perform subtraction
         processed_geoms = []
         for g in self.geometries:
-            processed_geoms.append(g - other)
+            new_geom = g - other
+            # Nothing is left if the surface is completely removed
+            if new_geom.area > 0:
+                processed_geoms.append(new_geom)
         for pg in self.point_geometries:
             processed_geoms.append(pg)
         return CompoundGeometry(geometries=processed_geoms)
-- 
2.43.0


From 9fe931afc560aecfb95ec29646b0c430730f97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 15/54] fix: marin integration handles bars of several
 materials in different numbers

---
 .../sections/section_integrators/_marin_integrator.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..a3988db 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -240,7 +240,8 @@ class MarinIntegrator(SectionIntegrator):
             z.append(reinf_data[1])
             IA.append(integrand * reinf_data[2])
 
-        input.append((1, np.array(y), np.array(z), np.array(IA)))
+        if len(y) > 0:
+            input.append((1, np.hstack(y), np.hstack(z), np.hstack(IA)))
         return integration_data
 
     def prepare_input(
-- 
2.43.0


From c4d1505a9f2a858d41946d4be90ab9d514237d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 16/54] fix: gross properties of sections with separate
 surfaces can be calculated

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..c5f3c09 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -150,8 +150,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From 4325696e203a8fd86d231474eba9d2e8508d6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 17/54] fix: principal moments of sections are real and belong
 to the reported axis

---
 structuralcodes/sections/_generic.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c5f3c09..a670b06 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -279,12 +279,17 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
-            max_idx = np.argmax(eigres[0])
-            min_idx = 0 if max_idx == 1 else 1
-            i11 = eigres[0][max_idx]
-            i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            # The matrix is symmetric: eigh returns real values in ascending
+            # order
+            eigres = np.linalg.eigh(np.array([[iyy, iyz], [iyz, izz]]))
+            i22, i11 = eigres[0]
+            v = eigres[1][:, 1]
+            # Inclination of the axis with the maximum second moment in the
+            # range from -pi/2 to pi/2. It does not depend on the arbitrary
+            # sign of the eigenvector.
+            theta = np.arccos(min(abs(v[0]), 1.0))
+            if v[0] * v[1] > 0:
+                theta = -theta
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From 5168118675046d35ccbcd857dcf35de179fe539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 18/54] fix: principal moments of profiles are real and theta
 is their inclination

---
 .../geometry/profiles/_base_profile.py        | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..0200019 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -27,6 +27,7 @@ class BaseProfile:
         self._Icsi: float = None
         self._Ieta: float = None
         self._Iyz: float = None
+        self._theta: float = None
         self._Wely: float = None
         self._Welz: float = None
         self._iy: float = None
@@ -117,16 +118,17 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
+        # The matrix is symmetric: eigh returns real values in ascending order
+        eigres = np.linalg.eigh(
             np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
         )
-        max_idx = np.argmax(eigres[0])
-        min_idx = 0 if max_idx == 1 else 1
-        self._Icsi = eigres[0][max_idx]
-        self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
-        )
+        self._Ieta, self._Icsi = eigres[0]
+        v = eigres[1][:, 1]
+        # Inclination of the axis with the maximum second moment in the range
+        # from -pi/2 to pi/2. It does not depend on the arbitrary sign of the
+        # eigenvector.
+        theta = np.arccos(min(abs(v[0]), 1.0))
+        self._theta = -theta if v[0] * v[1] > 0 else theta
 
     @property
     def A(self) -> float:
@@ -200,7 +202,7 @@ class BaseProfile:
 
     @property
     def theta(self) -> float:
-        """Returns angle between x and principal eta axis.
+        """Returns angle between x and principal csi axis.
 
         It is assumed that Icsi is maximum second moment, while Ieta is the
         minimum one.
-- 
2.43.0


From 972aaa6e8d27d558697b0989ca36cd80a91f7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 19/54] fix: reading Wplz does not modify the polygon of the
 profile

---
 structuralcodes/geometry/profiles/_base_profile.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index 0200019..5e5b458 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -276,10 +276,15 @@ class BaseProfile:
             ymax = max(abs(bounds[1]), bounds[3])
             # Compute plastic section modulus
             # # find plastic neutral axis parallel to z
-            self._polygon = rotate(geom=self._polygon, angle=90, origin=(0, 0))
+            polygon = self._polygon
+            self._polygon = rotate(geom=polygon, angle=90, origin=(0, 0))
+            try:
+                y_pna = self._find_plastic_neutral_axis_y()
+                poly = translate(self._polygon, xoff=0, yoff=-y_pna)
+            finally:
+                # Restore the original polygon
+                self._polygon = polygon
             self._Wplz = 0
-            y_pna = self._find_plastic_neutral_axis_y()
-            poly = translate(self._polygon, xoff=0, yoff=-y_pna)
             result = split(
                 poly,
                 LineString([[-ymax * 1.05, 0], [ymax * 1.05, 0]]),
@@ -287,9 +292,6 @@ class BaseProfile:
             for poly in result.geoms:
                 xy = poly.exterior.coords.xy
                 self._Wplz += abs(marin_integration(xy[0], xy[1], 0, 1))
-            self._polygon = rotate(
-                geom=self._polygon, angle=-90, origin=(0, 0)
-            )
         return self._Wplz
 
     @property
-- 
2.43.0


From c3a179df4458f635605ce59c0d6d828333b866e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 20/54] fix: a failed calculation does not leave rotated
 integration data behind

---
 structuralcodes/sections/_generic.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index a670b06..8e6cf3f 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -94,6 +95,25 @@ class GenericSection(Section):
         return self._gross_properties
 
 
+def _restore_integration_data(method: t.Callable) -> t.Callable:
+    """Restores the integration data of the calculator if method raises.
+
+    The integration data are rotated during the calculation: if no solution is
+    found they should not be left in the rotated reference system.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSectionCalculator(SectionCalculator):
     """Calculator class implementing analysis algorithms for code checks."""
 
@@ -736,6 +756,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_restore_integration_data
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -794,6 +815,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_restore_integration_data
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From 3f33b1075b5c22bab8c767443aeac9e6f578aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/54] fix: moment-curvature results are not truncated for
 integer curvatures

---
 structuralcodes/sections/_generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 8e6cf3f..f2ceeee 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -909,11 +909,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(eps_a)
+        mz = np.zeros_like(eps_a)
+        chi_y = np.zeros_like(eps_a)
+        chi_z = np.zeros_like(eps_a)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From e3f8504833ea302393a5853f42e324f92544614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 22/54] fix: the NMM domain has a field number for each point

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index f2ceeee..e156f0f 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1379,9 +1379,10 @@ class GenericSectionCalculator(SectionCalculator):
         thetas = np.linspace(0, np.pi * 2, num_theta)
         # Initialize an empty array with the correct shape
         strains = np.empty((0, 3))
+        field_num = np.empty(0, dtype=int)
         for theta in thetas:
             # Get ultimate strain profiles for theta angle
-            strain, field_num = self._compute_ultimate_strain_profiles(
+            strain, field_num_theta = self._compute_ultimate_strain_profiles(
                 theta=theta,
                 num_1=num_1,
                 num_2=num_2,
@@ -1397,6 +1398,7 @@ class GenericSectionCalculator(SectionCalculator):
                 type_6=type_6,
             )
             strains = np.vstack((strains, strain))
+            field_num = np.concatenate((field_num, field_num_theta))
 
         # integrate all strain profiles
         forces = np.zeros_like(strains)
-- 
2.43.0


From 9de6683aed41df6aa5fad5ed0ce43d82d043c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 23/54] fix: the mesh size of the section is used by all
 calculations

---
 structuralcodes/sections/_generic.py  | 7 ++++++-
 structuralcodes/sections/_rc_utils.py | 4 +---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index e156f0f..594b77b 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -579,7 +579,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1408,6 +1411,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1496,6 +1500,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..7003398 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -57,9 +57,7 @@ def calculate_elastic_cracked_properties(
 
     # Get the integrator properties
     if isinstance(section.section_calculator.integrator, FiberIntegrator):
-        mesh_size = getattr(
-            section.section_calculator.integrator, 'mesh_size', 0.01
-        )
+        mesh_size = section.section_calculator.mesh_size
         integrator = 'fiber'
     else:
         mesh_size = None
-- 
2.43.0


From 5c5a9a8d1a82752877c1f461c7dcabd0d324a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 24/54] fix: the fiber integrator meshes sections with
 non-convex holes

---
 .../sections/section_integrators/_fiber_integrator.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..392373c 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,10 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            # A point inside the hole (the centroid of a non-convex hole may
+            # lie outside)
+            c = Polygon(interior).representative_point()
+            holes.append([c.x, c.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From 267dbdb8433ee1eda938a7410518010c62811301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 25/54] fix: the mesh size of the fiber integrator is respected
 for small areas

---
 .../sections/section_integrators/_fiber_integrator.py           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 392373c..ee0bebe 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -88,6 +88,8 @@ class FiberIntegrator(SectionIntegrator):
             tri = self.prepare_triangulation(g)
             # define the maximum area of the triangles
             max_area = g.area * mesh_size
+            # scientific notation is not understood by triangle
+            max_area = np.format_float_positional(max_area, trim='-')
             # triangulate the geometry getting back the mesh
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
-- 
2.43.0


From fdb7faaa41b5e7e85a4bc7ee865dab164d4905e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 26/54] fix: a single bar can be added with
 add_reinforcement_line and add_reinforcement_circle

---
 structuralcodes/geometry/_reinforcement.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..aae1d8c 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -93,8 +93,8 @@ def add_reinforcement_line(
             )
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
-        # Provided the number of bars
-        s = distance / (n - 1)
+        # Provided the number of bars (a single bar is placed in coords_i)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From 6f8ed254465b62bf383cc77ab4c41c0d774a4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 27/54] fix: no coincident bars when the spacing divides the
 whole circle

---
 structuralcodes/geometry/_reinforcement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index aae1d8c..c0081cd 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,9 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
-        # the special case
-        whole = False
+        # We need to deal with the special case of the whole circle only if
+        # the last bar coincides with the first one
+        whole = whole and math.isclose(needed_length, length, rel_tol=1e-6)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0


From ad9c6873692bbda5f0f0e332fdae4d72a8ddc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 28/54] fix: a line along an edge does not drop the part
 between two lines

---
 structuralcodes/geometry/_geometry.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index bca307f..b763729 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -538,7 +538,20 @@ class SurfaceGeometry(Geometry):
         lines_polygon = multi_line.convex_hull
 
         # get the intersection
-        return self.polygon.intersection(lines_polygon)
+        result = self.polygon.intersection(lines_polygon)
+        if isinstance(result, (Polygon, MultiPolygon)):
+            return result
+
+        # When a line runs along an edge, the intersection has also lines or
+        # points: keep only the polygons
+        polygons = [
+            part
+            for part in getattr(result, 'geoms', [])
+            if isinstance(part, Polygon)
+        ]
+        if len(polygons) == 1:
+            return polygons[0]
+        return MultiPolygon(polygons) if polygons else Polygon()
 
     def __sub__(
         self, other: Geometry
-- 
2.43.0


From fdb9866048e1f87d2f5b236951f2f1306a809e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 29/54] fix: splitting along a line that almost coincides with
 an edge loses no part

---
 structuralcodes/geometry/_geometry.py | 45 ++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index b763729..7edc78f 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -371,6 +371,35 @@ def create_line_point_angle(
     return LineString([(x1, y1), (x2, y2)])
 
 
+def _polygons(geom) -> t.List[Polygon]:
+    """Return the polygons of the result of a set operation, without the lines
+    and points.
+    """
+    parts = getattr(geom, 'geoms', [geom])
+    return [
+        part
+        for part in parts
+        if isinstance(part, Polygon) and not part.is_empty
+    ]
+
+
+def _split_half_planes(polygon: Polygon, line: LineString) -> t.List[Polygon]:
+    """Return the parts of the polygon on the two sides of a line given by two
+    points.
+    """
+    start, end = np.array(line.coords)
+    direction = (end - start) / np.linalg.norm(end - start)
+    normal = np.array([-direction[1], direction[0]])
+    # A rectangle that covers everything on the left of the line
+    size = polygon.length + line.length
+    start = start - direction * size
+    end = end + direction * size
+    left = Polygon([start, end, end + normal * size, start + normal * size])
+    return _polygons(polygon.intersection(left)) + _polygons(
+        polygon.difference(left)
+    )
+
+
 class SurfaceGeometry(Geometry):
     """Class for a surface geometry with material.
 
@@ -494,9 +523,15 @@ class SurfaceGeometry(Geometry):
         above_polygons = []
         below_polygons = []
         if line.intersects(self.polygon):
-            result = split(self.polygon, line)
+            parts = list(split(self.polygon, line).geoms)
+            area = sum(part.area for part in parts)
+            if len(line.coords) == 2 and not np.isclose(
+                area, self.polygon.area, rtol=1e-9, atol=0.0
+            ):
+                # Parts can get lost if the line almost coincides with an edge
+                parts = _split_half_planes(self.polygon, line)
             # divide polygons "above" and "below" line
-            for geom in result.geoms:
+            for geom in parts:
                 if LinearRing(
                     (line.coords[0], line.coords[1], geom.centroid.coords[0])
                 ).is_ccw:
@@ -544,11 +579,7 @@ class SurfaceGeometry(Geometry):
 
         # When a line runs along an edge, the intersection has also lines or
         # points: keep only the polygons
-        polygons = [
-            part
-            for part in getattr(result, 'geoms', [])
-            if isinstance(part, Polygon)
-        ]
+        polygons = _polygons(result)
         if len(polygons) == 1:
             return polygons[0]
         return MultiPolygon(polygons) if polygons else Polygon()
-- 
2.43.0


From 3c30c7e837b20560538b6517a4c7568db96ccb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 30/54] fix: PointGeometry discards the extra coordinates, as
 it says it does

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7edc78f..683b993 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -169,7 +169,7 @@ class PointGeometry(Geometry):
                 warn_str += ' coords provided. The extra entries will be'
                 warn_str += ' discarded'
                 warnings.warn(warn_str)
-            point = Point(coords)
+            point = Point(coords[:2])
         if not isinstance(material, Material):
             raise TypeError(
                 f'mat should be a valid structuralcodes.base.Material object. \
-- 
2.43.0


From 94d22692a542ad83e494d1ad379f191964f73c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 31/54] fix: bending strength never returns a strain profile
 out of equilibrium

---
 structuralcodes/sections/_generic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 594b77b..81eb9c1 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -460,6 +460,7 @@ class GenericSectionCalculator(SectionCalculator):
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
         dn_b = n_int - n
+        chi_c, dn_c = chi_b, dn_b
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
@@ -483,6 +484,14 @@ class GenericSectionCalculator(SectionCalculator):
         if it >= ITMAX:
             s = f'Last iteration reached a unbalance of {dn_c}'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
+        if not yielding and abs(dn_c) > 1e-2:
+            # The axial force never changes sign between the balanced failure
+            # and the uniform strain: what was found is not in equilibrium
+            raise ValueError(
+                'No ultimate strain profile in equilibrium with the axial '
+                f'load {n} was found.\nLast iteration reached a unbalance of '
+                f'{dn_c}'
+            )
         # Found equilibrium
         # Return the strain distribution
         return [eps_0, chi_c, 0]
-- 
2.43.0


From 8955f94f98fb6e25e97ca9deef5db4e77aa51507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 32/54] fix: moment-curvature starts its search inside the
 section, wherever it is

---
 structuralcodes/sections/_generic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 81eb9c1..7caf185 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -926,16 +926,20 @@ class GenericSectionCalculator(SectionCalculator):
         mz = np.zeros_like(eps_a)
         chi_y = np.zeros_like(eps_a)
         chi_z = np.zeros_like(eps_a)
-        # Previous position of strain at (0,0)
-        strain = [0, 0, 0]
+        # Previous strain at mid-depth of the rotated section. Since the section
+        # can be far from (0,0), the strain there is no good first attempt.
+        _, _, z_min, z_max = rotated_geom.calculate_extents()
+        z_mid = 0.5 * (z_min + z_max)
+        eps_mid = 0.0
         # For each value of curvature
         for i, curv in enumerate(chi):
             # find the new position of neutral axis for mantaining equilibrium
             # store the information in the results object for the current
             # value of curvature
             strain = self.find_equilibrium_fixed_curvature(
-                rotated_geom, n, curv, strain[0]
+                rotated_geom, n, curv, eps_mid - curv * z_mid
             )
+            eps_mid = strain[0] + curv * z_mid
             (
                 _,
                 My,
-- 
2.43.0


From d323fef8a4b1acb702bf56851b7981de6266cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 33/54] fix: no strain profile out of equilibrium when no range
 with the solution is found

---
 structuralcodes/sections/_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 7caf185..4568ae5 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -552,7 +552,7 @@ class GenericSectionCalculator(SectionCalculator):
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
-- 
2.43.0


From a48a3769f46e591ab503bb878f374d197f86813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 34/54] fix: moment-curvature does not miss the known strain
 profile at failure

---
 structuralcodes/sections/_generic.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4568ae5..64b3c49 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -874,12 +874,17 @@ class GenericSectionCalculator(SectionCalculator):
             # Rotate also triangulated data!
             self._rotate_integration_data(-theta)
 
+        # Strain profile at failure, when it is calculated
+        strain_ultimate = None
+
         if chi is None:
             # Find ultimate curvature from the strain distribution
             # corresponding to failure and equilibrium with external axial
             # force
-            strain = self.find_equilibrium_fixed_pivot(rotated_geom, n)
-            chi_ultimate = strain[1]
+            strain_ultimate = self.find_equilibrium_fixed_pivot(
+                rotated_geom, n
+            )
+            chi_ultimate = strain_ultimate[1]
             # Find the yielding curvature
             strain = self.find_equilibrium_fixed_pivot(
                 rotated_geom, n, yielding=True
@@ -936,9 +941,16 @@ class GenericSectionCalculator(SectionCalculator):
             # find the new position of neutral axis for mantaining equilibrium
             # store the information in the results object for the current
             # value of curvature
-            strain = self.find_equilibrium_fixed_curvature(
-                rotated_geom, n, curv, eps_mid - curv * z_mid
-            )
+            try:
+                strain = self.find_equilibrium_fixed_curvature(
+                    rotated_geom, n, curv, eps_mid - curv * z_mid
+                )
+            except ValueError:
+                if strain_ultimate is None or curv != strain_ultimate[1]:
+                    raise
+                # The search can miss the strain profile at failure, where the
+                # materials are at their limits, but here it is already known
+                strain = strain_ultimate
             eps_mid = strain[0] + curv * z_mid
             (
                 _,
-- 
2.43.0


From b9ec4e0903a6acb75fbdbfed3318918442bc702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 35/54] fix: bisection does not leave the exact solution when a
 midpoint hits it

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 64b3c49..3cbf4a2 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -474,7 +474,7 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
-            if dn_c * dn_a < 0:
+            if dn_c * dn_a <= 0:
                 chi_b = chi_c
                 dn_b = dn_c
             else:
@@ -618,7 +618,7 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_c = n_int - n
-            if dn_a * dn_c < 0:
+            if dn_a * dn_c <= 0:
                 dn_b = dn_c
                 eps_0_b = eps_0_c
             else:
-- 
2.43.0


From 1a00985d5ed01a42dad16232021847c0402dba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 36/54] fix: moment-curvature works in double precision
 whatever the curvatures given

---
 structuralcodes/sections/_generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 3cbf4a2..552a3e3 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -926,7 +926,8 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi, dtype=float)
+        chi = np.asarray(chi, dtype=float)
+        eps_a = np.zeros_like(chi)
         my = np.zeros_like(eps_a)
         mz = np.zeros_like(eps_a)
         chi_y = np.zeros_like(eps_a)
-- 
2.43.0


From 9ec599028086b917f44e37c0569d04a5d1d27216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 37/54] fix: the search for equilibrium at a given curvature
 does not step over the solution

---
 structuralcodes/sections/_generic.py | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 552a3e3..9b8856a 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -511,7 +511,7 @@ class GenericSectionCalculator(SectionCalculator):
         apply the bisection algorithm.
         """
         ITMAX = 20
-        MAXRESTATTEMPTS = 20
+        MAXRESTATTEMPTS = 40
         sign = -1 if dn_a > 0 else 1
         found = False
         it = 0
@@ -519,7 +519,6 @@ class GenericSectionCalculator(SectionCalculator):
         delta = 1e-3
         # Use a growth factor for an exponential finding
         r = 2.0
-        diverging = False
         diverging_steps = 0
         while not found and it < ITMAX and restarts < MAXRESTATTEMPTS:
             eps_0_b = eps_0_a + sign * delta * r ** (it)
@@ -534,24 +533,27 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_b = n_int - n
+            it += 1
             if dn_a * dn_b < 0:
                 found = True
             elif abs(dn_b) > abs(dn_a):
                 # we are driving away from the solution, probably due
                 # to failure of a material
-                diverging = True
-                if diverging:
-                    # Count for how many steps we are diverging
-                    diverging_steps += 1
-                # If we are consistently diverging for more than 10 steps,
-                # Restart the process with a small delta
-                if diverging_steps > 10:
-                    delta /= 2
-                    it = 0
-                    restarts += 1
-                    diverging = False
-                    diverging_steps = 0
-            it += 1
+                # Count for how many steps we are diverging
+                diverging_steps += 1
+            # If we are consistently diverging for more than 10 steps, or if
+            # the solution was stepped over, restart the process with smaller
+            # steps that are no multiples of the previous ones
+            if not found and (diverging_steps > 10 or it >= ITMAX):
+                delta /= 1.5
+                it = 0
+                restarts += 1
+                diverging_steps = 0
+                if restarts == MAXRESTATTEMPTS // 2:
+                    # No solution there: a material has already failed in the
+                    # first attempt and the solution is on the other side
+                    sign = -sign
+                    delta = 1e-3
         if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
-- 
2.43.0


From 173ea2682c4c743cfc7bfa7678994dcdf114b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 38/54] fix: geometric spacing of a field of the domain that
 has no extent

---
 structuralcodes/sections/_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 9b8856a..73f84c6 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1256,6 +1256,9 @@ class GenericSectionCalculator(SectionCalculator):
             if type.lower() == 'linear':
                 return np.linspace(a, b, n, endpoint=endpoint)
             if type.lower() == 'geometric':
+                if a == b:
+                    # Also when both are 0
+                    return np.full(n, float(a))
                 if b != 0 and a != 0:
                     return np.geomspace(a, b, n, endpoint=endpoint)
                 small_value = 1e-10
-- 
2.43.0


From b5c7f2c6070b4ab2e8f3aee545401869e3259159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 39/54] fix: an interrupted calculation does not leave rotated
 integration data behind

---
 structuralcodes/sections/_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 73f84c6..ae86588 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -107,7 +107,7 @@ def _restore_integration_data(method: t.Callable) -> t.Callable:
         integration_data = self.integration_data
         try:
             return method(self, *args, **kwargs)
-        except Exception:
+        except BaseException:
             self.integration_data = integration_data
             raise
 
-- 
2.43.0


From e71ee12360131a211e78f6999c892d8d41b2562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 40/54] fix: an explicit design code does not change the global
 selection

---
 structuralcodes/codes/__init__.py | 42 +++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..5d25908 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -43,24 +43,35 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+    _CODE = None if design_code is None else _get_design_code(design_code)
+
+
+def _get_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Get the module that represents a design code.
+
+    Args:
+        design_code (Union[str, Moduletype]): The abbreviation of the code
+            (str), or a module that represents the code (ModuleType).
+
+    Raises:
+        ValueError: If the design code is not valid.
+    """
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
         # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
+        return _DESIGN_CODES[design_code.lower()]
+    if isinstance(design_code, types.ModuleType) and all(
         name in dir(design_code)
         for name in ('__title__', '__year__', '__materials__')
     ):
         # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +108,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # The globally set design code is not changed
+    return _get_design_code(design_code)
-- 
2.43.0


From 64677591946b3d7b0500001f810e376f60afef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 41/54] fix: initial strain from initial stress converges for
 any magnitude of the stress

---
 structuralcodes/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 6a0e582..955146d 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -128,9 +128,9 @@ class Material(abc.ABC):
         """
         # Iteratively compute the initial strain that gives the desired
         # initial stress. Note that the wrapped law can be nonlinear
-        tol = 1e-12
         max_iter = 100
         target_stress = self._initial_stress
+        tol = 1e-12 * max(1.0, abs(target_stress))
         strain = 0.0
         stress = self._constitutive_law.get_stress(strain)
         d_stress = target_stress - stress
-- 
2.43.0


From f2d0bca5b590a16035a0f8d3509afd89b561e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 42/54] fix: names of constitutive laws are case insensitive
 for all materials

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From 61f36bbbfc88101c4ed57962807a1a74def23b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 43/54] fix: existing concrete is reported as not implemented
 instead of being ignored

---
 structuralcodes/materials/concrete/_concreteEC2_2004.py | 4 ++--
 structuralcodes/materials/concrete/_concreteEC2_2023.py | 4 ++--
 structuralcodes/materials/concrete/_concreteMC2010.py   | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/materials/concrete/_concreteEC2_2004.py b/structuralcodes/materials/concrete/_concreteEC2_2004.py
index f60f92b..f32483d 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2004.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2004.py
@@ -131,14 +131,14 @@ class ConcreteEC2_2004(Concrete):  # noqa: N801
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
-        del kwargs
+        existing = kwargs.get('existing', False)
         if name is None:
             name = f'C{round(fck):d}'
         super().__init__(
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteEC2_2023.py b/structuralcodes/materials/concrete/_concreteEC2_2023.py
index b73677b..bbaa203 100644
--- a/structuralcodes/materials/concrete/_concreteEC2_2023.py
+++ b/structuralcodes/materials/concrete/_concreteEC2_2023.py
@@ -124,7 +124,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             Warning: If eps_c2 is larger than 0.1.
             Warning: If eps_cu2 is larger than 0.1.
         """
-        del kwargs
+        existing = kwargs.get('existing', False)
         if name is None:
             name = f'C{round(fck):d}'
 
@@ -132,7 +132,7 @@ class ConcreteEC2_2023(Concrete):  # noqa: N801
             fck=fck,
             name=name,
             density=density,
-            existing=False,
+            existing=existing,
             gamma_c=gamma_c,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
diff --git a/structuralcodes/materials/concrete/_concreteMC2010.py b/structuralcodes/materials/concrete/_concreteMC2010.py
index a3ffdd1..457d909 100644
--- a/structuralcodes/materials/concrete/_concreteMC2010.py
+++ b/structuralcodes/materials/concrete/_concreteMC2010.py
@@ -133,7 +133,7 @@ class ConcreteMC2010(Concrete):
             Warning: If eps_c3 is larger than 0.1.
             Warning: If eps_cu3 is larger than 0.1.
         """
-        del kwargs
+        existing = kwargs.get('existing', False)
         if name is None:
             name = f'C{round(fck):d}'
         super().__init__(
@@ -141,6 +141,7 @@ class ConcreteMC2010(Concrete):
             name=name,
             density=density,
             gamma_c=gamma_c,
+            existing=existing,
             initial_strain=initial_strain,
             initial_stress=initial_stress,
             strain_compatibility=strain_compatibility,
-- 
2.43.0


From c8c77bfdab99047bffc0d091b0109c316f71c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 44/54] fix: eps_cu1 of C50 according to Table 3.1 of EN
 1992-1-1:2004

---
 structuralcodes/codes/ec2_2004/_concrete_material_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
index 24664da..a7647a3 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
@@ -124,7 +124,7 @@ def eps_cu1(fck: float) -> float:
     fck = abs(fck)
     return (
         3.5 / 1000
-        if fck < 50
+        if fck <= 50
         else (2.8 + 27 * ((98 - fcm(fck)) / 100) ** 4) / 1000
     )
 
-- 
2.43.0


From 28ba8e0d7dd5c32475a532bdca225bec49f6d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 45/54] fix: material, creep and shrinkage functions accept
 lists where array-likes are documented

---
 .../codes/ec2_2004/_concrete_material_properties.py      | 3 +++
 .../codes/mc2010/_concrete_creep_and_shrinkage.py        | 9 +++++++++
 .../codes/mc2010/_concrete_material_properties.py        | 8 +++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
index a7647a3..5e8e5be 100644
--- a/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
+++ b/structuralcodes/codes/ec2_2004/_concrete_material_properties.py
@@ -266,6 +266,7 @@ def beta_cc(t: ArrayLike, s: float) -> ArrayLike:
     Returns:
         ArrayLike: The value of the time development function.
     """
+    t = t if np.isscalar(t) else np.asarray(t)
     return np.exp(s * (1 - np.sqrt(28 / t)))
 
 
@@ -359,6 +360,7 @@ def fcm_time(fcm: float, beta_cc: ArrayLike) -> ArrayLike:
     Note:
         The value of beta_cc should be calculated with the function beta_cc.
     """
+    beta_cc = beta_cc if np.isscalar(beta_cc) else np.asarray(beta_cc)
     return fcm * beta_cc
 
 
@@ -403,4 +405,5 @@ def Ecm_time(fcm: float, fcm_time: ArrayLike, Ecm: float) -> ArrayLike:
         Alternatively, the time development function for the Young's modulus
         could be calculated directly with the function beta_E.
     """
+    fcm_time = fcm_time if np.isscalar(fcm_time) else np.asarray(fcm_time)
     return np.pow(fcm_time / fcm, 0.3) * Ecm
diff --git a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
index 7a44b9b..5d11588 100644
--- a/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
+++ b/structuralcodes/codes/mc2010/_concrete_creep_and_shrinkage.py
@@ -376,6 +376,7 @@ def eps_cds(
         Union(ArrayLike, float): The drying shrinkage strains for the given
         times, no units.
     """
+    beta_ds = beta_ds if np.isscalar(beta_ds) else np.asarray(beta_ds)
     return eps_cds0 * beta_rh * beta_ds
 
 
@@ -437,6 +438,7 @@ def eps_cbs(
         Union(ArrayLike, float): The basic shrinkage strains for the given
         times.
     """
+    beta_bs = beta_bs if np.isscalar(beta_bs) else np.asarray(beta_bs)
     return eps_cbs0 * beta_bs
 
 
@@ -476,6 +478,7 @@ def beta_bc_t(
     Returns:
         Union(ArrayLike, float): Multiplication factors beta_bc_t.
     """
+    time = time if np.isscalar(time) else np.asarray(time)
     return np.log(((30 / t0_adj + 0.035) ** 2) * (time - t0) + 1)
 
 
@@ -497,6 +500,7 @@ def phi_bc(
     Returns:
         Union(ArrayLike, float): The basic creep coefficient.
     """
+    beta_bc_t = beta_bc_t if np.isscalar(beta_bc_t) else np.asarray(beta_bc_t)
     return beta_bc_fcm * beta_bc_t
 
 
@@ -632,6 +636,7 @@ def beta_dc_t(
         Union(ArrayLike, float): Multiplcation factor beta_dc_t for the
         considered values of time.
     """
+    time = time if np.isscalar(time) else np.asarray(time)
     return ((time - t0) / (beta_h + (time - t0))) ** gamma_t0
 
 
@@ -662,6 +667,7 @@ def phi_dc(
     Returns:
         Union(ArrayLike, float): Drying creep coeffcient.
     """
+    beta_dc_t = beta_dc_t if np.isscalar(beta_dc_t) else np.asarray(beta_dc_t)
     return beta_dc_fcm * beta_dc_RH * beta_dc_t0 * beta_dc_t
 
 
@@ -708,6 +714,8 @@ def phi(
     Returns:
         Union(ArrayLike, float): The creep coefficient.
     """
+    phi_bc = phi_bc if np.isscalar(phi_bc) else np.asarray(phi_bc)
+    phi_dc = phi_dc if np.isscalar(phi_dc) else np.asarray(phi_dc)
     # Calculate the creep coefficient (phi) (see Eq. 5.1-63)
     _phi = phi_bc + phi_dc
     # Include the effect of high stress if needed (see Eq. 5.1-74 of [1]):
@@ -735,4 +743,5 @@ def calc_J(
     Returns:
         Union(ArrayLike, float): The creep compliance function.
     """
+    phi = phi if np.isscalar(phi) else np.asarray(phi)
     return (1 / E_ci_t0) + (phi / E_ci)
diff --git a/structuralcodes/codes/mc2010/_concrete_material_properties.py b/structuralcodes/codes/mc2010/_concrete_material_properties.py
index c73a186..279b562 100644
--- a/structuralcodes/codes/mc2010/_concrete_material_properties.py
+++ b/structuralcodes/codes/mc2010/_concrete_material_properties.py
@@ -157,6 +157,7 @@ def beta_cc(
     Returns:
         numpy.ndarray: Multiplication factor beta_cc.
     """
+    time = time if np.isscalar(time) else np.asarray(time)
     if fcm > 60:
         return np.exp(0.2 * (1 - np.sqrt(28 / time)))
     return np.exp(S_CEM[cem_class.upper()] * (1 - np.sqrt(28 / time)))
@@ -195,6 +196,7 @@ def Eci_t(beta_e: npt.ArrayLike, Eci: float) -> np.ndarray:
         numpy.ndarray: The modulus of elasticity for normal weight concrete at
         time 'time' (not 28 days) in MPa.
     """
+    beta_e = beta_e if np.isscalar(beta_e) else np.asarray(beta_e)
     return beta_e * Eci
 
 
@@ -264,7 +266,7 @@ def eps_c1(fck: float) -> float:
     if fck < grade.min() or fck > grade.max():
         raise ValueError(
             f'fck must be between {grade.min()} MPa and {grade.max()} MPa.'
-            ' fck = {fck} given.'
+            f' fck = {fck} given.'
         )
     return np.interp(fck, grade, eps_c1) / 1000
 
@@ -310,7 +312,7 @@ def eps_clim(fck: float) -> float:
     if fck < grade.min() or fck > grade.max():
         raise ValueError(
             f'fck must be between {grade.min()} MPa and {grade.max()} MPa.'
-            ' fck = {fck} given.'
+            f' fck = {fck} given.'
         )
     return np.interp(fck, grade, eps_clim) / 1000
 
@@ -354,7 +356,7 @@ def k_sargin(fck: float) -> float:
     if fck < grade.min() or fck > grade.max():
         raise ValueError(
             f'fck must be between {grade.min()} MPa and {grade.max()} MPa.'
-            ' fck = {fck} given.'
+            f' fck = {fck} given.'
         )
     return np.interp(fck, grade, k)
 
-- 
2.43.0


From 612bdfcb438bbd2eaea5574395447d07b2408ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 46/54] fix: EC2:2004 shear and crack control reject angles and
 areas as documented

---
 structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py | 5 +++++
 structuralcodes/codes/ec2_2004/shear.py                      | 1 +
 2 files changed, 6 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
index e0a4ae2..9d20420 100644
--- a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
+++ b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
@@ -224,6 +224,9 @@ def kc_flanges_area(f_cr: float, A_ct: float, fct_eff: float) -> float:
     Raises:
         ValueError: If A_ct is less than 0mm2.
     """
+    if A_ct < 0:
+        raise ValueError(f'A_ct={A_ct} cannot be less than 0')
+
     f_cr = abs(f_cr)
     return max(0.9 * f_cr * 1000 / A_ct / fct_eff, 0.5)
 
@@ -907,6 +910,8 @@ def sr_max_theta(sr_max_y: float, sr_max_z: float, theta: float) -> float:
         raise ValueError(f'sr_max_y={sr_max_y} cannot be less than zero')
     if sr_max_z < 0:
         raise ValueError(f'sr_max_z={sr_max_z} cannot be less than zero')
+    if theta < 0 or theta > math.pi / 2:
+        raise ValueError(f'theta={theta} must be between 0 and pi/2')
 
     a = math.cos(theta) / sr_max_y
     b = math.sin(theta) / sr_max_z
diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index b6efa3f..9e6ac0c 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -430,6 +430,7 @@ def Asw_s_required(
     Raises:
         ValueError: When theta < 21.8 degrees or theta > 45 degrees.
     """
+    _theta(theta)
     theta = math.radians(theta)
     alpha = math.radians(alpha)
     return (
-- 
2.43.0


From 8212667fd003ab006e9694602ba03d428a10dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 47/54] fix: EC2:2023 steel stresses check the hardening ratio
 and allow a horizontal branch without strain limit

---
 .../codes/ec2_2023/_section5_materials.py            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/codes/ec2_2023/_section5_materials.py b/structuralcodes/codes/ec2_2023/_section5_materials.py
index 921016f..bd6039a 100644
--- a/structuralcodes/codes/ec2_2023/_section5_materials.py
+++ b/structuralcodes/codes/ec2_2023/_section5_materials.py
@@ -953,19 +953,19 @@ def sigma_s(
     """
     if eps < 0:
         raise ValueError(f'eps={eps} must be larger or equal to 0')
-    if eps_u <= 0:
+    if eps_u <= 0 and k > 1:
         raise ValueError(f'eps_u={eps_u} must be larger than 0')
     if eps > eps_u and k > 1:
         raise ValueError(
             f'eps={eps} must be equal o less than'
-            + 'eps_uk={eps_u} when k is larger than 1'
+            + f'eps_uk={eps_u} when k is larger than 1'
         )
     if Es <= 0:
         raise ValueError(f'Es={Es} must be larger than 0')
     if fy <= 0:
         raise ValueError(f'fyk={fy} must be larger than 0')
-    if k < 0:
-        raise ValueError(f'k={k} must be larger than 1')
+    if k < 1:
+        raise ValueError(f'k={k} must be larger or equal to 1')
 
     eps_y = fy / Es
 
@@ -974,6 +974,8 @@ def sigma_s(
         return eps * Es
 
     # If in plastic area
+    if k == 1:
+        return fy
     m = fy * (k - 1) / (eps_u - eps_y)
     return fy + m * (eps - eps_y)
 
@@ -1125,6 +1127,8 @@ def sigma_p(
         return eps * Ep
 
     # If plastic
+    if fpu == fpy:
+        return fpy
     m = (fpu - fpy) / (eps_u - eps_y)
     return fpy + m * (eps - eps_y)
 
-- 
2.43.0


From d5ef1c43165d88db5f32759805173400482a06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 48/54] fix: MC2010 v_rd applies the steel safety factor it is
 given, once

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..9ea7408 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,10 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+
+        if (V_rdc + V_rds) < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +201,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From 39b67fbfb3614a66c9fea2d4c03338021e49db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:06 +0000
Subject: [PATCH 49/54] fix: Sargin law can be evaluated at the strain of its
 pole, in tension or beyond the ultimate strain

---
 .../materials/constitutive_laws/_sargin.py       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_sargin.py b/structuralcodes/materials/constitutive_laws/_sargin.py
index 5c46b99..9832c96 100644
--- a/structuralcodes/materials/constitutive_laws/_sargin.py
+++ b/structuralcodes/materials/constitutive_laws/_sargin.py
@@ -68,6 +68,9 @@ class Sargin(ConstitutiveLaw):
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         # Preprocess eps array in order
         eps = self.preprocess_strains_with_limits(eps=eps)
+        # Outside the polynomial branch stress is 0.0
+        if np.isscalar(eps) and (eps < self._eps_cu1 or eps > 0):
+            return 0.0
         # Compute stress
         # Polynomial branch
         eta = eps / self._eps_c1
@@ -75,10 +78,7 @@ class Sargin(ConstitutiveLaw):
         sig = self._fc * (self._k * eta - eta**2) / (1 + (self._k - 2) * eta)
 
         # Elsewhere stress is 0.0
-        if np.isscalar(eps):
-            if eps < self._eps_cu1 or eps > 0:
-                return 0.0
-        else:
+        if not np.isscalar(eps):
             sig[eps < self._eps_cu1] = 0.0
             sig[eps > 0] = 0.0
 
@@ -89,6 +89,9 @@ class Sargin(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
+        # Outside the polynomial branch tangent is zero
+        if np.isscalar(eps) and (eps < self._eps_cu1 or eps > 0):
+            return 0
         # polynomial branch
         eta = eps / self._eps_c1
 
@@ -99,10 +102,7 @@ class Sargin(ConstitutiveLaw):
             / (1 + (self._k - 2) * eta) ** 2
         )
         # Elsewhere tangent is zero
-        if np.isscalar(eps):
-            if eps < self._eps_cu1 or eps > 0:
-                return 0
-        else:
+        if not np.isscalar(eps):
             tangent[eps < self._eps_cu1] = 0.0
             tangent[eps > 0] = 0.0
 
-- 
2.43.0


From 596fad246bd6a5eff42b6f147f6701b63ec812aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 50/54] fix: marin integration of polygons with nearly
 coincident vertices

orient() decides by the signed area, is_ccw by three vertices: for slivers
the two may differ and the check raised an error for a valid polygon.
---
 .../sections/section_integrators/_marin_integrator.py      | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index a3988db..a3f4acb 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -70,11 +70,6 @@ class MarinIntegrator(SectionIntegrator):
         if polygon.is_empty:
             return
         polygon = orient(polygon, 1)
-        if not polygon.exterior.is_ccw:
-            raise ValueError(
-                'The exterior of a polygon should have vertices \
-                            ordered ccw'
-            )
         # Manage exterior part
         x, y = polygon.exterior.coords.xy
         x = np.array(x)
@@ -82,8 +77,6 @@ class MarinIntegrator(SectionIntegrator):
         input.append((0, np.array(x), np.array(y), np.array(coeffs)))
         # Manage holes
         for i in polygon.interiors:
-            if i.is_ccw:
-                raise ValueError('A inner hole should have cw coordinates')
             x, y = i.coords.xy
             input.append((0, np.array(x), np.array(y), np.array(coeffs)))
 
-- 
2.43.0


From 846a2399c53cec6f7b72f61b73cc01d518855154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 51/54] fix: moment-curvature results contain the angle of the
 neutral axis

---
 structuralcodes/sections/_generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index ae86588..4d34bef 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -869,6 +869,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
-- 
2.43.0


From 6bb735ee05d15a199162135867d14f5277313853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 52/54] fix: interaction domain of reinforcement yielding under
 its initial strain

With an initial strain beyond the yield strain the transition between
fields 3 and 4 was negative, and the geometric spacing of field 3 gave NaN
strain profiles.
---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 4d34bef..d6ba73c 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1235,7 +1235,9 @@ class GenericSectionCalculator(SectionCalculator):
         y_n, y_p, strain = self.get_balanced_failure_strain(
             geom=rotated_geom, yielding=True
         )
-        eps_p_y = strain[0] + strain[1] * y_p
+        # Reinforcement yielding already due to its initial strain: there is no
+        # positive strain left for field 4
+        eps_p_y = max(strain[0] + strain[1] * y_p, 0.0)
         eps_n_y = strain[0] + strain[1] * y_n
         # Find balanced failure: this defines the transition
         # between fields 2 and 3
-- 
2.43.0


From 176712eac21448142583784643e090d7836c1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:16 +0000
Subject: [PATCH 53/54] fix: moment-curvature of sections whose yield strain is
 close to failure

The search for equilibrium can step over the profile at yield, which is
known already, when the concrete fails just beyond it.
---
 structuralcodes/sections/_generic.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index d6ba73c..ae49493 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -877,8 +877,8 @@ class GenericSectionCalculator(SectionCalculator):
             # Rotate also triangulated data!
             self._rotate_integration_data(-theta)
 
-        # Strain profile at failure, when it is calculated
-        strain_ultimate = None
+        # Strain profiles at failure and at yield, when they are calculated
+        known_strains = []
 
         if chi is None:
             # Find ultimate curvature from the strain distribution
@@ -888,11 +888,13 @@ class GenericSectionCalculator(SectionCalculator):
                 rotated_geom, n
             )
             chi_ultimate = strain_ultimate[1]
+            known_strains.append(strain_ultimate)
             # Find the yielding curvature
             strain = self.find_equilibrium_fixed_pivot(
                 rotated_geom, n, yielding=True
             )
             chi_yield = strain[1]
+            known_strains.append(strain)
             if chi_ultimate * chi_yield < 0:
                 # They cannot have opposite signs!
                 raise ValueError(
@@ -950,11 +952,23 @@ class GenericSectionCalculator(SectionCalculator):
                     rotated_geom, n, curv, eps_mid - curv * z_mid
                 )
             except ValueError:
-                if strain_ultimate is None or curv != strain_ultimate[1]:
+                # The search can miss the strain profiles at failure and at
+                # yield, where the materials are at their limits, but these
+                # are already known
+                for strain in known_strains:
+                    if curv != strain[1]:
+                        continue
+                    n_int = (
+                        self.integrator.integrate_strain_response_on_geometry(
+                            geo=rotated_geom,
+                            strain=strain,
+                            integration_data=self.integration_data,
+                        )[0]
+                    )
+                    if abs(n_int - n) <= 1e-2:
+                        break
+                else:
                     raise
-                # The search can miss the strain profile at failure, where the
-                # materials are at their limits, but here it is already known
-                strain = strain_ultimate
             eps_mid = strain[0] + curv * z_mid
             (
                 _,
-- 
2.43.0


From 30024d836691de77376ffc810c272f8b9de8c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:08 +0000
Subject: [PATCH 54/54] fix: moment-curvature searches again after a point with
 a failed material

If no equilibrium is found with the strain of the previous point as first
attempt, start from zero strain as for the first point.
---
 structuralcodes/sections/_generic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index ae49493..bf994ca 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -968,7 +968,13 @@ class GenericSectionCalculator(SectionCalculator):
                     if abs(n_int - n) <= 1e-2:
                         break
                 else:
-                    raise
+                    if eps_mid == 0.0:
+                        raise
+                    # The previous point can be a bad first attempt, e.g. if
+                    # a material has failed there
+                    strain = self.find_equilibrium_fixed_curvature(
+                        rotated_geom, n, curv, -curv * z_mid
+                    )
             eps_mid = strain[0] + curv * z_mid
             (
                 _,
-- 
2.43.0

