From 70e6e14c64a18c9da7439f44867943e858f76828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:37 +0000
Subject: [PATCH 01/55] fix: Standardize guards every constant column against
 division by zero

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 60361427177918312217653cbe38ba3e989f71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 02/55] fix: multi-response PLS keeps the mean and standard
 deviation of each response column

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From 5446e70735dc8c992a4b56fdebaa408e4a933562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 03/55] fix: NIPALS scales its coefficients with multiple
 response columns

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..91de6c6 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -153,7 +153,7 @@ class NIPALS(AbstractMultiResponsePLS):
             self.Y_rotations = factory.filled(1, 1, ONE)
 
         # Calculate regression coefficients
-        y_stds: Matrix = self.standardize_Y.get_std_devs()
+        y_stds: Matrix = self.standardize_Y.get_std_devs().transpose()
         self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
         return None
 
-- 
2.43.0


From 4a9ecb4556d9786b7ce3e1495d4f97de166e85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 04/55] fix: CCAFilter forgets the centers of earlier training
 data on reset

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..20c4ca1 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None or y is None:
-- 
2.43.0


From 35010ed2a5c73449634f495ba5ebbfa859683c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 05/55] fix: CCAFilter reports a missing matrix instead of
 silently succeeding

---
 src/wai/ma/algorithm/_CCAFilter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 20c4ca1..8b07621 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -56,7 +56,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
@@ -64,15 +64,13 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.center_X = Center()
             self.center_Y = Center()
         else:
-            x = x.copy()
-            y = y.copy()
-
             self.reset()
 
             result = self.check(x, y)
 
             if result is None:
-                result = self.do_initialize(x, y)
+                # Always work on copies
+                result = self.do_initialize(x.copy(), y.copy())
                 self.initialised = (result is None)
 
             return result
-- 
2.43.0


From ff56b64dd86cc58473f9883eecd4282be7e83e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 06/55] fix: CCAFilter projects the response with the right
 singular vectors

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 8b07621..87b56ab 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -106,7 +106,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         omega: Matrix = Cxx_inv_sqrt.mul(Cxy).mul(Cyy_inv_sqrt)
 
         U: Matrix = omega.svd_U().normalized(0)
-        V: Matrix = omega.svd_V().normalized(0)
+        V: Matrix = omega.svd_V().transpose().normalized(0)
 
         C: Matrix = U.get_sub_matrix((0, U.num_rows()), (0, self.kcca))
         D: Matrix = V.get_sub_matrix((0, V.num_rows()), (0, self.kcca))
-- 
2.43.0


From 69e12c91c7d6de7b5234ce39433dd756a5122370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 07/55] fix: FastICA forgets the center and sources of earlier
 data on reset

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..5255676 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -73,6 +73,8 @@ class FastICA(AbstractAlgorithm, Filter):
         self.components = None
         self.mixing = None
         self.whitening = None
+        self.sources = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From b3e0980000e8fd25820d79b3d162fc3e738c8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 08/55] fix: PLS and GLSW training report a missing matrix
 instead of crashing

---
 src/wai/ma/algorithm/glsw/_GLSW.py       | 7 ++-----
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 707e7e3..992d580 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -40,16 +40,13 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
             super().initialize()
             self.alpha = 1e-3
         else:
-            # Always work on copies
-            x1 = x1.copy()
-            x2 = x2.copy()
-
             self.reset()
 
             result: Optional[str] = self.check(x1, x2)
 
             if result is None:
-                result = self.do_initialize(x1, x2)
+                # Always work on copies
+                result = self.do_initialize(x1.copy(), x2.copy())
                 self.initialised = result is None
 
             return result
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..1316003 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -44,16 +44,13 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             :param response:    The dependent variable(s).
             :return:            None if successful, otherwise error message.
             """
-            # Always work on copies
-            predictors = predictors.copy()
-            response = response.copy()
-
             self.reset()
 
             result = self.check(predictors, response)
 
             if result is None:
-                result = self.do_initialize(predictors, response)
+                # Always work on copies
+                result = self.do_initialize(predictors.copy(), response.copy())
                 self.initialised = result is None
 
             return result
-- 
2.43.0


From ea0721854d17022cc6b246f5769ed745468718c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 09/55] fix: in-place matrix updates discard cached
 decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 src/wai/ma/core/matrix/helper.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..fa60751 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -550,6 +550,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From e8c131c7cf41da740477fc4ee9e104e2d12809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 10/55] fix: get_eigenvalue_decomposition_V returns a copy of
 the cached eigenvectors

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index fa60751..b569749 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From fcc426152d42ad87527e4b1ffb9e6d279513fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 11/55] fix: get_singular_values computes the decomposition
 when it is missing

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index b569749..97d289c 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From 691191b9a5176240391075c7c91dfc49b2613674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 12/55] fix: comparing matrices of different shapes gives False
 instead of an error

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 97d289c..fb925cc 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -510,6 +510,9 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
+        if not self.same_shape_as(other):
+            return False
+
         diff: Matrix = self.sub(other)
 
         return not diff.data.any()
-- 
2.43.0


From ed92951930d6a0cb03eefcd4f0550fcec86ac48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 13/55] fix: contains_NaN detects NaN elements

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index fb925cc..9b114ca 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -464,9 +464,8 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
         def element_is_NaN(el):
-            return el == NaN
+            return el != el
         return self.any(element_is_NaN)
 
     def any(self, function: Callable[[real], bool]) -> bool:
-- 
2.43.0


From 0115a1ff3db20f1869d90bb5d96f62cf08cee396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:58 +0000
Subject: [PATCH 14/55] fix: helper.equal no longer treats NaN as equal to any
 number

---
 src/wai/ma/core/matrix/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..c8ffea7 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -87,7 +87,8 @@ def equal(m1: Matrix, m2: Matrix, epsilon: real = real(0)) -> bool:
 
     for row in range(m1.num_rows()):
         for col in range(m1.num_columns()):
-            if np.abs(m1.get(row, col) - m2.get(row, col)) > epsilon:
+            v1, v2 = m1.get(row, col), m2.get(row, col)
+            if np.isnan(v1) != np.isnan(v2) or np.abs(v1 - v2) > epsilon:
                 return False
 
     return True
-- 
2.43.0


From a36f454e419d60ae226325ccc1e689027ece305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 15/55] fix: max_index returns the index of the maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From 78f0197bcac0a528d569ab699c8afc2f3cda769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:05 +0000
Subject: [PATCH 16/55] fix: real_to_string_fixed formats NaN as documented

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..c754794 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if value != value:
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From 35e17a3f2159aad51f0fdc9a4e136bdc93434610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 17/55] fix: utils.sort sorts lists of plain Python numbers

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index c754794..0827559 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -74,7 +74,7 @@ def partition(array, index: List[int], l: int, r: int, pivot: Optional[real] = N
 
     :return:        The index of the middle element.
     """
-    if isinstance(array[0], real):
+    if pivot is not None:
         return _partition_real(array, index, l, r, pivot)
     else:
         return _partition_int(array, index, l, r)
-- 
2.43.0


From 7491c4f81f6ebeb889b6ec92a5d853c1335951c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 18/55] fix: save_state accepts a file name without a directory
 part

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..daf6611 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From c2caba900e2360401317fcb31d426a61c53364fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 19/55] fix: serialise_big_int leaves room for the sign bit

---
 src/wai/ma/core/_Serialisable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index daf6611..8fb51b5 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -92,8 +92,8 @@ class Serialisable(ABC):
         :param value:   The integer to serialise.
         :return:        The bytes representation of the value.
         """
-        # Get the number of bits required to represent this value.
-        bit_length: int = value.bit_length()
+        # Get the number of bits required to represent this value, including its sign.
+        bit_length: int = (value if value >= 0 else ~value).bit_length() + 1
 
         # Get the number of bytes required to represent this value
         byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
-- 
2.43.0


From 978690a29c2bffd692fecfd1bbf0bf073902643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 20/55] fix: helper.read reports empty file handles with its
 own error

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index c8ffea7..0cdea6d 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -110,12 +110,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 598c65949578af1cc3cceb7bd42bdca824d7f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 21/55] fix: EPO handles more requested eigenvectors than
 columns

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 2 +-
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..1b516dc 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..ee63b44 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From 50c05ba5bcddb714c93c43b0b37f185f22b49c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 22/55] fix: PLS prediction and transformation preprocess the
 data as training did

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py  | 3 +++
 src/wai/ma/algorithm/pls/_AbstractPLS.py               | 5 +++++
 src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py | 3 +++
 src/wai/ma/algorithm/pls/_OPLS.py                      | 2 +-
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..b5796d3 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -133,6 +133,9 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index 1316003..02d8f2f 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -20,6 +20,7 @@ from ...core import SupervisedFilter
 from ...algorithm import AbstractAlgorithm
 from ...core import PreprocessingType
 from ...core.matrix import Matrix
+from ...transformation import AbstractTransformation
 
 
 class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
@@ -27,6 +28,7 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         super().__init__()
         self.preprocessing_type: PreprocessingType = PreprocessingType.NONE  # The preprocessing type to perform
         self.num_components: int = 5  # The maximum number of components to generate
+        self.trans_predictors: Optional[AbstractTransformation] = None  # The transformation for the predictors
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -176,6 +178,9 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         if not self.is_initialised():
             raise RuntimeError('Algorithm has not been initialised!')
 
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         return self.do_transform(predictors)
 
     @abstractmethod
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..72e4008 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -94,6 +94,9 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..f7f5ab9 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -189,5 +189,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From d00effebe031dab61c68bde0d51996491346a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 23/55] fix: inverse transforming leaves RowNorm able to
 normalise other matrices

---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From aa0fe4dcf1ea7dc0786b9f63c48c4f3fde2d9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 24/55] fix: OPLS reports a failure to train its base algorithm

---
 src/wai/ma/algorithm/pls/_OPLS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index f7f5ab9..32114ea 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -147,9 +148,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From f7a4b38baaa40b094bae2183b419bfc5f55f909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 25/55] fix: SIMPLS discards its Q matrix on reset

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From bfcb61d0168af2eea438df755bf5db64c16b1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 26/55] fix: kernels derive the default gamma from the data at
 hand every time

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 14 ++++++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..9e2e352 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -40,19 +40,21 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = self.gamma
+        if gamma is NAN:
+            gamma = ONE / X.num_columns()
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = self.gamma
+        if gamma is NAN:
+            gamma = ONE / x.num_columns()
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..341070d 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -33,9 +33,10 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = self.gamma
+        if gamma is NAN:
+            gamma = ONE / x.num_columns()
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From d484e28a8fa13dad9af1beec4daa57ae1d623444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 27/55] fix: PRM reduces wide data with the right singular
 vectors

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..a191a21 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -219,7 +219,7 @@ class PRM(AbstractSingleResponsePLS):
         if has_more_columns_than_rows:
             X_t: Matrix = X.transpose()
             U = X_t.svd_U()
-            V: Matrix = X_t.svd_V()
+            V: Matrix = X_t.svd_V().transpose()
             S: Matrix = X_t.svd_S()
 
             # Replace X with n x n matrix
-- 
2.43.0


From 31bdd9483d3c7db25adb29747fab753d83bf4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 28/55] fix: PRM transforms data with more columns than rows

---
 src/wai/ma/algorithm/pls/_PRM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index a191a21..79b1aa4 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.U: Optional[Matrix] = None  # Basis of the reduced predictors, if there are more columns than rows
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.U = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -267,6 +269,7 @@ class PRM(AbstractSingleResponsePLS):
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
             self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
+            self.U = U
 
         return None
 
@@ -274,6 +277,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.U is not None:
+            predictors = predictors.mul(self.U)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From 6884b5738d8864a20c814824e6e9b9db48dd6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 29/55] fix: FastICA reconstructs its input in the orientation
 it was given

---
 src/wai/ma/algorithm/ica/_FastICA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 5255676..571fad6 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -254,7 +254,8 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            result: Matrix = self.sources.mul(self.mixing.transpose())
+            return self.center.inverse_transform(result) if self.whiten else result
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From 46d8e91c3d93e480bb07aa3a434fac74cbddecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 30/55] fix: PCA loadings cover every input column when
 constant columns are dropped

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..1f7ed78 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -37,6 +37,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sorted_eigens: List[int] = []
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
+        self.num_cols_all: int = 0
         self.num_rows: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
@@ -109,6 +110,7 @@ class PCA(AbstractAlgorithm, Filter):
         :param instances:   The data to process.
         """
         self.train = instances.copy()
+        self.num_cols_all = self.train.num_columns()
 
         # Delete any attributes with only one distinct value or are all missing
         self.keep_cols = []
@@ -234,15 +236,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_cols_all, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_cols_all):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_cols_all):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From 5b9f70657256f1e4b64333d5448d7505d5f21e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 31/55] fix: PCA reports that it has been trained

---
 src/wai/ma/algorithm/_PCA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 1f7ed78..74f19b4 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -268,6 +268,7 @@ class PCA(AbstractAlgorithm, Filter):
         result = self.do_transform(data)
         self.scores = result
         self.loadings = self.extract_loadings()
+        self.initialised = True
 
         return result
 
-- 
2.43.0


From 4f35d32bc35ecf6ab5658018e3c0aa2459d81e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 32/55] fix: changing a NIPALS parameter discards the trained
 model

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 91de6c6..369ffcf 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -68,6 +68,14 @@ class NIPALS(AbstractMultiResponsePLS):
         else:
             return super().initialize(predictors, response)
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     @staticmethod
     def validate_max_iter(value: int) -> bool:
         return value >= 0
-- 
2.43.0


From 47180bb16ee9dd9f1427f5abd4034900a42e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 33/55] fix: changing a FastICA parameter discards the trained
 model

---
 src/wai/ma/algorithm/ica/_FastICA.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 571fad6..a3aab4c 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -50,6 +50,14 @@ class FastICA(AbstractAlgorithm, Filter):
     def validate_whiten(value: bool) -> bool:
         return True
 
+    @staticmethod
+    def validate_fun(value: NegEntropyApproximationFunction) -> bool:
+        return True
+
+    @staticmethod
+    def validate_algorithm(value: 'Algorithm') -> bool:
+        return True
+
     @staticmethod
     def validate_max_iter(value: int) -> bool:
         return value >= 0
-- 
2.43.0


From 11fe8efcb8a6ceae51d1998dc5b817b4fb1a6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 34/55] fix: changing any parameter of a scikit-learn based
 transformation reconfigures it

---
 src/wai/ma/transformation/_PowerTransformer.py    |  3 +++
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 src/wai/ma/transformation/_RobustScaler.py        |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..4133a41 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,9 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, value: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..8e49d3d 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,18 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, value: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, value: bool):
+        pass
+
+    def validate_subsample(self, value: int):
+        pass
+
+    def validate_random_state(self, value: Optional[int]):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..15f0df3 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -46,6 +46,12 @@ class RobustScaler(AbstractTransformation):
 
         super().__setattr__(key, value)
 
+    def validate_with_centering(self, value: bool):
+        pass
+
+    def validate_with_scaling(self, value: bool):
+        pass
+
     def validate_quantile_range(self, selection: Tuple[float, float]):
         if not (0.0 < selection[0] < selection[1] < 100.0):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
-- 
2.43.0


From 8ccaff9486444a68f17ff4ed7deeaffb010186b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 35/55] fix: NIPALS iterates on the updated Y scores

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 369ffcf..e522c96 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -219,7 +219,7 @@ class NIPALS(AbstractMultiResponsePLS):
                 Y_weight = Y_weight.div(Y_weight.norm2() + eps)
 
             # 4) Calculate ykScores
-            Y_score: Matrix = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
+            y_score = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
 
             X_weight_diff: Matrix = X_weight.sub(X_weight_old)
 
-- 
2.43.0


From dc3640fb604e724f9a955f3331ff0daea8b5da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:23 +0000
Subject: [PATCH 36/55] fix: FastICA keeps the requested number of components
 when data has fewer

---
 src/wai/ma/algorithm/ica/_FastICA.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index a3aab4c..0beea28 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -94,13 +94,14 @@ class FastICA(AbstractAlgorithm, Filter):
 
         min_NP: int = min(n, p)
 
+        num_components: int = self.num_components
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -111,7 +112,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -119,7 +120,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -145,9 +146,10 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        num_components: int = W_init.num_rows()
+        W: Matrix = zeros(num_components, num_components)
 
-        for j in range(self.num_components):
+        for j in range(num_components):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 70e0f84e9ad7ceb63ad97eb6c8a71a515974293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 37/55] fix: PRM reports its weights as unavailable before
 training

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 79b1aa4..22c9c41 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -103,6 +103,8 @@ class PRM(AbstractSingleResponsePLS):
             if case('Wx'):
                 return self.W_x
             if case('W'):
+                if self.W_r is None or self.W_x is None:
+                    return None
                 return self.W_r.mul_elementwise(self.W_x)
         return None
 
-- 
2.43.0


From 13f3cc51979ac12e7a69becfe2b7155eca69e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 38/55] fix: a single-element vector fits a single-row matrix
 as its column vector

---
 src/wai/ma/core/matrix/_Matrix.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 9b114ca..b48a990 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -557,12 +557,9 @@ class Matrix(Serialisable):
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-        if not vector.is_vector():
-            return False
-        elif vector.is_row_vector():
-            return self.num_columns() == vector.num_columns()
-        else:
-            return self.num_rows() == vector.num_rows()
+        # N.B. A single element is both a row and a column vector
+        return (vector.is_row_vector() and self.num_columns() == vector.num_columns()) or \
+               (vector.is_column_vector() and self.num_rows() == vector.num_rows())
 
     def ensure_vector_size_matches(self, vector: 'Matrix'):
         if not self.vector_size_matches(vector):
-- 
2.43.0


From 24881127fe3015e08dc32299f288f3a109ef0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:03 +0000
Subject: [PATCH 39/55] fix: constant columns and rows have unit deviation
 whatever their value

---
 src/wai/ma/transformation/_RowNorm.py     | 6 +++---
 src/wai/ma/transformation/_Standardize.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..a775a81 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -16,7 +16,6 @@
 
 from typing import Optional
 
-from ..core import real
 from ..core.matrix import Matrix
 from ..core.matrix.helper import row_means, row_stdevs
 from ._AbstractTransformation import AbstractTransformation
@@ -36,9 +35,10 @@ class RowNorm(AbstractTransformation):
     def configure(self, data: Matrix):
         self.means = row_means(data)
         self.std_devs = row_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (the deviation of a
+        # constant row is only zero up to rounding)
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
+            if (data.data[i] == data.get(i, 0)).all():
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index acf672d..d7602bd 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -16,7 +16,7 @@
 
 from typing import Optional, IO
 
-from ..core import real, Serialisable
+from ..core import Serialisable
 from ..core.matrix import Matrix
 from ..core.matrix.helper import column_stdevs, column_means
 from ._AbstractTransformation import AbstractTransformation
@@ -36,9 +36,10 @@ class Standardize(AbstractTransformation, Serialisable):
     def configure(self, data: Matrix):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (the deviation of a
+        # constant column is only zero up to rounding)
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) == real(0):
+            if (data.data[:, i] == data.get(0, i)).all():
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From 99063eab3efd03885ce6bd15bbfb5e57019e3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:22 +0000
Subject: [PATCH 40/55] fix: semi-supervised DIPLS handles domains of different
 size

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..6af5665 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -140,7 +140,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From 9a88a56be306ef4f0c98c922c9119c819fad0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:11 +0000
Subject: [PATCH 41/55] fix: orthogonal eigenvectors for repeated eigenvalues
 of symmetric matrices

---
 src/wai/ma/algorithm/glsw/_GLSW.py |  1 +
 src/wai/ma/core/matrix/_Matrix.py  | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 992d580..b335861 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -61,6 +61,7 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
         super().initialize()
 
         C: Matrix = self.get_covariance_matrix(x1, x2)
+        C = C.add(C.transpose()).div(2)  # Exactly symmetric
 
         # SVD
         V: Matrix = self.get_eigenvector_matrix(C)
diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index b48a990..0670a63 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,16 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+            data = np.real(self.data)
+            if not np.any(np.imag(self.data)) and np.array_equal(data, data.T):
+                # The general solver doesn't give orthogonal eigenvectors for the repeated eigenvalues of
+                # a symmetric matrix, so replace them with orthogonal ones in the same order and direction
+                order = np.argsort(np.argsort(eigenvalues.real, kind='stable'))
+                values, vectors = np.linalg.eigh(data)
+                values, vectors = values[order], vectors[:, order]
+                signs = np.where(np.sum(vectors * eigenvectors.real, axis=0) < 0, -1.0, 1.0)
+                eigenvalues = values.astype(eigenvalues.dtype)
+                eigenvectors = (vectors * signs).astype(eigenvectors.dtype)
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From 1c0a57acee90b9c8b655d77577ad6bc1acab0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:08 +0000
Subject: [PATCH 42/55] fix: PLS training that fails leaves no partial model
 behind

---
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index 02d8f2f..c1bfd45 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -51,9 +51,14 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             result = self.check(predictors, response)
 
             if result is None:
-                # Always work on copies
-                result = self.do_initialize(predictors.copy(), response.copy())
-                self.initialised = result is None
+                try:
+                    # Always work on copies
+                    result = self.do_initialize(predictors.copy(), response.copy())
+                    self.initialised = result is None
+                finally:
+                    # Don't keep half a model
+                    if not self.initialised:
+                        self.reset()
 
             return result
 
-- 
2.43.0


From d55f3f300758c79dc96cef8d64a5f981d5eef676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 43/55] fix: DIPLS discards its model when a training call
 fails early

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 6af5665..1496b0a 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -246,6 +246,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_source_domain:      Response from source domain.
         :return:                            Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.UNSUPERVISED
@@ -268,6 +269,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:      Response from target domain.
         :return:                            Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SUPERVISED
@@ -292,6 +294,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:              Response from target domain.
         :return:                                    Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SEMISUPERVISED
-- 
2.43.0


From 51d0d251961335523f3d254e074a575d83b8c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 44/55] fix: modifying the result of FastICA leaves its sources
 alone

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 0beea28..5c774ef 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -253,7 +253,7 @@ class FastICA(AbstractAlgorithm, Filter):
         :param data:    The original data to transform.
         :return:        The transformed data.
         """
-        return self.sources
+        return self.sources.copy()
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-- 
2.43.0


From 83a5a1de0f10ee18adeee892b8e15db2a0f43516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:57 +0000
Subject: [PATCH 45/55] fix: modifying the result of PCA leaves its scores
 alone

---
 src/wai/ma/algorithm/_PCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 74f19b4..9dcb287 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -266,7 +266,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.reset()
         self.configure(data)
         result = self.do_transform(data)
-        self.scores = result
+        self.scores = result.copy()
         self.loadings = self.extract_loadings()
         self.initialised = True
 
-- 
2.43.0


From fb63f61a972d8a90dc80422a30c556b149930580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:21 +0000
Subject: [PATCH 46/55] fix: DIPLS refuses a plain training call also after an
 earlier domain training

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 1496b0a..088a226 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -53,6 +53,9 @@ class DIPLS(AbstractSingleResponsePLS):
             self.X_t_center = Center()
             self.X_s_center = Center()
         else:
+            # Only the three methods below know the domains
+            self.ns = 0
+            self.nt = 0
             return super().initialize(predictors, response)
 
     def reset(self):
@@ -253,7 +256,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_supervised(self,
                               predictors_source_domain: Matrix,
@@ -276,7 +279,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_semisupervised(self,
                                   predictors_source_domain: Matrix,
@@ -303,7 +306,7 @@ class DIPLS(AbstractSingleResponsePLS):
                     .concat_along_rows(predictors_target_domain_unlabeled)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
 
 class ModelAdaptionStrategy(Enum):
-- 
2.43.0


From a837e11d2e59a94aead3c2fc554a1bc83a0cdbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:26 +0000
Subject: [PATCH 47/55] fix: NIPALS stops when the predictors are used up
 exactly

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index e522c96..8c330d7 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -121,6 +121,10 @@ class NIPALS(AbstractMultiResponsePLS):
                 self.logger.warning('Y residual constant at iteration ' + str(k))
                 break
 
+            if X.mul_elementwise(X).sum() < eps:
+                self.logger.warning('X residual is null at component ' + str(k))
+                break
+
             res: NipalsLoopResult = self.nipals_loop(X, Y)
             xk_weight: Matrix = res.X_weights
             yk_weight: Matrix = res.Y_weights
-- 
2.43.0


From 010ee9e1195d482228ecf5e5337e1375717dce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:15 +0000
Subject: [PATCH 48/55] fix: a matrix with an infinite value equals its copy

---
 src/wai/ma/core/matrix/_Matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 0670a63..e83e4b1 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -522,9 +522,7 @@ class Matrix(Serialisable):
         if not self.same_shape_as(other):
             return False
 
-        diff: Matrix = self.sub(other)
-
-        return not diff.data.any()
+        return bool((self.data == other.data).all())
 
     def __hash__(self):
         # TODO
-- 
2.43.0


From c102f3376adc758cc47591b4d07079d96cb42977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 49/55] fix: a refused configuration leaves the earlier one of
 a transformer in place

---
 src/wai/ma/transformation/_PowerTransformer.py    |  5 +++--
 src/wai/ma/transformation/_QuantileTransformer.py | 13 +++++++------
 src/wai/ma/transformation/_RobustScaler.py        |  9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index 4133a41..5e24b75 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -58,8 +58,9 @@ class PowerTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(method=self.method, standardize=self.standardise)
-        self._intern.fit(data.data)
+        intern = Intern(method=self.method, standardize=self.standardise)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index 8e49d3d..3127f66 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -70,12 +70,13 @@ class QuantileTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(n_quantiles=self.n_quantiles,
-                              output_distribution=self.output_distribution,
-                              ignore_implicit_zeros=self.ignore_implicit_zeroes,
-                              subsample=self.subsample,
-                              random_state=self.random_state)
-        self._intern.fit(data.data)
+        intern = Intern(n_quantiles=self.n_quantiles,
+                        output_distribution=self.output_distribution,
+                        ignore_implicit_zeros=self.ignore_implicit_zeroes,
+                        subsample=self.subsample,
+                        random_state=self.random_state)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 15f0df3..c40ff88 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -62,10 +62,11 @@ class RobustScaler(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(with_centering=self.with_centering,
-                              with_scaling=self.with_scaling,
-                              quantile_range=self.quantile_range)
-        self._intern.fit(data.data)
+        intern = Intern(with_centering=self.with_centering,
+                        with_scaling=self.with_scaling,
+                        quantile_range=self.quantile_range)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 3a76266ea372e14d309a885688ff43baaf418baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 50/55] fix: CCAFilter keeps no projection when a training
 fails on the way

---
 src/wai/ma/algorithm/_CCAFilter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 87b56ab..3910f35 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -69,9 +69,14 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             result = self.check(x, y)
 
             if result is None:
-                # Always work on copies
-                result = self.do_initialize(x.copy(), y.copy())
-                self.initialised = (result is None)
+                try:
+                    # Always work on copies
+                    result = self.do_initialize(x.copy(), y.copy())
+                    self.initialised = (result is None)
+                finally:
+                    # Don't keep half a model
+                    if not self.initialised:
+                        self.reset()
 
             return result
 
-- 
2.43.0


From 1606066eaacb5d2556741550647b2b44689464ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 51/55] fix: FastICA holds no model after a training call that
 failed at its end

---
 src/wai/ma/algorithm/ica/_FastICA.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 5c774ef..fcd8a1e 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -258,7 +258,13 @@ class FastICA(AbstractAlgorithm, Filter):
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
         self.configure(data)
-        result: Matrix = self.do_transform(data)
+
+        try:
+            result: Matrix = self.do_transform(data)
+        except Exception:
+            # Don't keep the model of a call that failed
+            self.reset()
+            raise
 
         return result
 
-- 
2.43.0


From b53bd30ac90fa361b2ccbfb1cd2a2969612e2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 52/55] fix: Savitzky-Golay sums of powers overflowed 64-bit
 integers in wide windows

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..ddd4d0c 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -114,7 +114,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -125,7 +125,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0


From 7b124e0e2e7048761aebb20c0671ffa151dd0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 53/55] fix: utils.sort ran out of stack on orders that split
 badly

---
 src/wai/ma/core/utils.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0827559..4bf77d2 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -145,6 +145,25 @@ def quick_sort(array: List[real], index: List[int], left: int, right: int):
     """
     diff: int = right - left
 
+    while diff > 2:
+        # Establish pivot
+        pivot_location: int = sort_left_right_and_center(array, index, left, right)
+
+        # Move pivot to right, partition, and restore pivot
+        swap(index, pivot_location, right - 1)
+        center: int = partition(array, index, left, right, array[index[right - 1]])
+        swap(index, center, right - 1)
+
+        # Sort the smaller part recursively and carry on with the larger
+        # one, so that the recursion stays shallow for every order
+        if center - left < right - center:
+            quick_sort(array, index, left, center - 1)
+            left = center + 1
+        else:
+            quick_sort(array, index, center + 1, right)
+            right = center - 1
+        diff = right - left
+
     if diff == 0:
         # No need to do anything
         return
@@ -158,18 +177,6 @@ def quick_sort(array: List[real], index: List[int], left: int, right: int):
         conditional_swap(array, index, left, right)
         conditional_swap(array, index, left + 1, right)
         return
-    else:
-        # Establish pivot
-        pivot_location: int = sort_left_right_and_center(array, index, left, right)
-
-        # Move pivot to right, partition, and restore pivot
-        swap(index, pivot_location, right - 1)
-        center: int = partition(array, index, left, right, array[index[right - 1]])
-        swap(index, center, right - 1)
-
-        # Sort recursively
-        quick_sort(array, index, left, center - 1)
-        quick_sort(array, index, center + 1, right)
 
 
 def sort(array: List[real]) -> List[int]:
-- 
2.43.0


From c4133a3ddd773e51901e6687cbed7df867a74daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:59 +0000
Subject: [PATCH 54/55] fix: PLS training on data that yields undefined values
 (NaN) is not a success

---
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index c1bfd45..647a079 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -54,6 +54,8 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
                 try:
                     # Always work on copies
                     result = self.do_initialize(predictors.copy(), response.copy())
+                    if result is None and self.has_undefined_values():
+                        result = 'Data does not allow to train a model (undefined values)!'
                     self.initialised = result is None
                 finally:
                     # Don't keep half a model
@@ -62,6 +64,15 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
 
             return result
 
+    def has_undefined_values(self) -> bool:
+        """
+        Whether any of the model matrices has elements that are not a number.
+
+        :return:    True if there are undefined values.
+        """
+        matrices = (self.get_matrix(name) for name in self.get_matrix_names())
+        return any(matrix is not None and matrix.contains_NaN() for matrix in matrices)
+
     @staticmethod
     def validate_preprocessing_type(value: PreprocessingType) -> bool:
         return True
-- 
2.43.0


From a5401cb50ab980d1d4fd7b751ac6094328fbda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 55/55] fix: PLS training refuses data with undefined or
 infinite values

---
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index 647a079..4b66717 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -14,6 +14,7 @@
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from abc import abstractmethod
+from math import isfinite
 from typing import List, Optional
 
 from ...core import SupervisedFilter
@@ -130,6 +131,10 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             return 'No predictors matrix provided!'
         if response is None:
             return 'No response matrix provided!'
+        if predictors.any(lambda value: not isfinite(value)):
+            return 'Predictors contain undefined or infinite values!'
+        if response.any(lambda value: not isfinite(value)):
+            return 'Response contains undefined or infinite values!'
         return None
 
     @abstractmethod
-- 
2.43.0

