From 7fab6def51e9a4bbad4c08067935223c5e5d93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:40 +0000
Subject: [PATCH 01/61] fix: set_error_id_local stores the local error
 identifiers where they are read

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b4543b8..9837d30 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -624,7 +624,7 @@ class sample_set_base(object):
         :param error_id: array of error identifiers
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
-        self._error_local = error_id
+        self._error_id_local = error_id
 
     def get_error_id_local(self):
         """
-- 
2.43.0


From edbcc9012a521fca8df2422147d938e089708aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:48 +0000
Subject: [PATCH 02/61] fix: discretization.global_to_local distributes the
 emulated output set

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9837d30..adc56b6 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2846,4 +2846,4 @@ class discretization(object):
         if self._emulated_input_sample_set is not None:
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
-            self._emulated_output_sample_set.global_to_local
+            self._emulated_output_sample_set.global_to_local()
-- 
2.43.0


From 1226d304e31c6f30be9edf014d877284a6dc8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 03/61] fix: discretization local/global conversion includes
 the observed output set

---
 bet/sample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index adc56b6..328f97f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2831,6 +2831,8 @@ class discretization(object):
             self._emulated_input_sample_set.local_to_global()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.local_to_global()
+        if self._output_observed_set is not None:
+            self._output_observed_set.local_to_global()
 
     def global_to_local(self):
         """
@@ -2847,3 +2849,5 @@ class discretization(object):
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.global_to_local()
+        if self._output_observed_set is not None:
+            self._output_observed_set.global_to_local()
-- 
2.43.0


From 6f0432e60508f7e2892a035c870011f5de965f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:46 +0000
Subject: [PATCH 04/61] fix: discard the k-d tree of a sample set when its
 values change

---
 bet/sample.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 328f97f..d20cd54 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -371,6 +371,7 @@ class sample_set_base(object):
 
             self._domain_original = np.copy(self._domain)
             self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
+            self._discard_kdtree()
 
     def undo_normalize_domain(self):
         """
@@ -412,6 +413,7 @@ class sample_set_base(object):
 
             self._domain = np.copy(self._domain_original)
             self._domain_original = None
+            self._discard_kdtree()
 
     def set_p_norm(self, p_norm):
         """
@@ -674,6 +676,7 @@ class sample_set_base(object):
         """
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
+        self._discard_kdtree()
 
     def append_values_local(self, values_local):
         """
@@ -814,6 +817,7 @@ class sample_set_base(object):
 
         """
         self._values = util.fix_dimensions_data(values, self._dim)
+        self._discard_kdtree()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
 
@@ -1087,6 +1091,14 @@ class sample_set_base(object):
                 self._values_local.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
 
+    def _discard_kdtree(self):
+        """
+        Discards the k-d tree, because the values it was built from changed.
+        """
+        self._kdtree = None
+        self._kdtree_values = None
+        self._kdtree_values_local = None
+
     def set_kdtree(self):
         """
         Creates a :class:`scipy.spatial.KDTree` for this set of samples.
@@ -1233,6 +1245,8 @@ class sample_set_base(object):
             if current_array_local is not None:
                 setattr(self, array_name,
                         util.get_global_values(current_array_local))
+        if self._values_local is not None:
+            self._discard_kdtree()
 
     def query(self, x, k=1):
         """
-- 
2.43.0


From 1fbe6d55405bd50f1179a74ae356a1ba07b9c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:46 +0000
Subject: [PATCH 05/61] fix: clip also clips quantities that are only held
 locally

---
 bet/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index d20cd54..85f15ba 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -705,10 +705,11 @@ class sample_set_base(object):
         """
         sset = self.copy()
         sset.check_num()
-        if sset._values is None:
-            sset.local_to_global()
         for array_name in self.array_names:
             current_array = getattr(sset, array_name)
+            local_array = getattr(sset, array_name + '_local')
+            if current_array is None and local_array is not None:
+                current_array = util.get_global_values(local_array)
             if current_array is not None:
                 new_array = current_array[0:cnum]
                 setattr(sset, array_name, new_array)
-- 
2.43.0


From 96b292c99840ab965d0677b2f6f017473649151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:46 +0000
Subject: [PATCH 06/61] fix: merging discretizations without emulated sets

---
 bet/sample.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 85f15ba..8c41da4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2769,10 +2769,13 @@ class discretization(object):
         """
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
-        mei = self._emulated_input_sample_set.merge(disc.
-                                                    _emulated_input_sample_set)
-        meo = self._emulated_output_sample_set.merge(disc.
-                                                     _emulated_output_sample_set)
+        mei, meo = None, None
+        if self._emulated_input_sample_set is not None:
+            mei = self._emulated_input_sample_set.merge(disc.
+                                                        _emulated_input_sample_set)
+        if self._emulated_output_sample_set is not None:
+            meo = self._emulated_output_sample_set.merge(disc.
+                                                         _emulated_output_sample_set)
 
         return discretization(input_sample_set=mi,
                               output_sample_set=mo,
-- 
2.43.0


From e179d3a91ab20d12ef2a8ec23fbd7a1190072f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 07/61] fix: normalize_domain does not modify arrays shared
 with the caller or the local view

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8c41da4..3d4f3ba 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -354,7 +354,7 @@ class sample_set_base(object):
             for obj in rescale_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val *= (self._domain[:, 1] - self._domain[:, 0])
+                    val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
@@ -365,7 +365,7 @@ class sample_set_base(object):
             for obj in shift_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val -= self._domain[:, 0]
+                    val = val - self._domain[:, 0]
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
-- 
2.43.0


From 9cf0fcac25d99363f9a7b0f3a827725b19e3cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 08/61] fix: equality of sets and discretizations with missing,
 ragged, not-a-number or model data

---
 bet/sample.py | 80 ++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 3d4f3ba..ba67230 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -158,6 +158,39 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         raise wrong_input("This type of probability density is not yet supported.")
 
 
+def equal_data(data1, data2):
+    """
+    Checks whether two pieces of data carried by a sample set or discretization
+    (arrays, lists, probability models, sample sets, missing data, ...) agree.
+    Entries which are not a number agree with each other.
+
+    :param data1: first piece of data
+    :param data2: second piece of data
+    :return: True for equality and False for not
+    :rtype: bool
+    """
+    if data1 is None or data2 is None:
+        return data1 is data2
+    if isinstance(data1, np.ndarray) or isinstance(data2, np.ndarray):
+        if type(data1) is not type(data2) or data1.shape != data2.shape:
+            return False
+        return bool(np.all(np.logical_or(data1 == data2, np.logical_and(
+            data1 != data1, data2 != data2))))
+    if isinstance(data1, (list, tuple)) and isinstance(data2, (list, tuple)):
+        return type(data1) is type(data2) and len(data1) == len(data2) and \
+            all(equal_data(x, y) for x, y in zip(data1, data2))
+    if isinstance(data1, dict) and isinstance(data2, dict):
+        return data1.keys() == data2.keys() and \
+            all(equal_data(data1[key], data2[key]) for key in data1)
+    if isinstance(data1, scipy.stats.gaussian_kde) and \
+            isinstance(data2, scipy.stats.gaussian_kde):
+        return all(equal_data(getattr(data1, name), getattr(data2, name))
+                   for name in ['dataset', 'weights', 'covariance'])
+    if isinstance(data1, sample_set_base) or isinstance(data2, sample_set_base):
+        return data1.__class__ == data2.__class__ and data1 == data2
+    return bool(data1 == data2) or bool(data1 != data1 and data2 != data2)
+
+
 class sample_set_base(object):
     """
 
@@ -300,32 +333,8 @@ class sample_set_base(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.meta_fields
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif field == "_cluster_maps":
-                    cluster_maps = getattr(self, field)
-                    cluster_maps_other = getattr(other, field)
-                    if type(cluster_maps_other) != type(cluster_maps):
-                        return False
-                    if type(cluster_maps) is list:
-                        for k in range(len(cluster_maps)):
-                            if not np.array_equal(cluster_maps[k], cluster_maps_other[k]):
-                                return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if type(compare) is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(equal_data(getattr(self, field), getattr(other, field))
+                       for field in self.meta_fields)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
@@ -2326,23 +2335,8 @@ class discretization(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.sample_set_names + self.vector_names
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if compare is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(equal_data(getattr(self, field), getattr(other, field))
+                       for field in self.sample_set_names + self.vector_names)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
-- 
2.43.0


From f409e48ae8911fe3d17bb09ae0f3b729ec51c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 09/61] fix: rectangle and ball queries for three or more cells
 list each cell once

---
 bet/sample.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index ba67230..18cfaea 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2009,15 +2009,11 @@ class rectangle_sample_set(sample_set_base):
             in_l = np.all(np.greater(x, self._left[i, :]), axis=1)
             in_rec = np.logical_and(in_r, in_l)
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
@@ -2180,15 +2176,11 @@ class ball_sample_set(sample_set_base):
             in_rec = np.less(linalg.norm(x - self._values[i, :], self._p_norm,
                                          axis=1), self._radii[i])
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
-- 
2.43.0


From b91d31256d50a7915f58ca1b85c7d50479ba85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 10/61] fix: replacing a member set of a discretization
 discards the pointers that refer to it

---
 bet/calculateP/calculateP.py |  2 ++
 bet/calculateP/simpleFunP.py | 12 ++++++------
 bet/sample.py                | 24 +++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 210b42e..88d53bc 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -40,6 +40,8 @@ def prob_on_emulated_samples(discretization, globalize=True):
     # Check for necessary properties
     if discretization._io_ptr_local is None:
         discretization.set_io_ptr(globalize=True)
+    elif discretization._io_ptr is None:
+        discretization.globalize_ptrs()
     if discretization._emulated_ii_ptr_local is None:
         discretization.set_emulated_ii_ptr(globalize=False)
 
diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index af76e47..7fde4be 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -249,7 +249,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     different set of parameter samples and model solves.
     '''
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -420,7 +420,7 @@ def regular_partition_uniform_distribution_rectangle_size(data_set, Q_ref=None,
     s_set.set_probabilities(prob)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -551,7 +551,7 @@ def uniform_partition_uniform_distribution_data_samples(data_set):
     s_set.set_probabilities(np.ones((num,), dtype=np.float) / num)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -648,7 +648,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -733,7 +733,7 @@ def uniform_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -840,6 +840,6 @@ def user_partition_user_distribution(data_set, data_partition_set,
     s_set.set_probabilities(rho_D_M)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
diff --git a/bet/sample.py b/bet/sample.py
index 18cfaea..2ee51e2 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2376,6 +2376,16 @@ class discretization(object):
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
 
+    def _discard_ptrs(self, *names):
+        """
+        Forgets pointers that refer to a member set which has been replaced.
+
+        :param names: names of the (global) pointers
+        """
+        for name in names:
+            setattr(self, name, None)
+            setattr(self, name + '_local', None)
+
     def set_io_ptr(self, globalize=True):
         """
 
@@ -2393,6 +2403,8 @@ class discretization(object):
 
         if globalize:
             self._io_ptr = util.get_global_values(self._io_ptr_local)
+        else:
+            self._io_ptr = None
 
     def get_io_ptr(self):
         """
@@ -2433,6 +2445,8 @@ class discretization(object):
         if globalize:
             self._emulated_ii_ptr = util.get_global_values(
                 self._emulated_ii_ptr_local)
+        else:
+            self._emulated_ii_ptr = None
 
     def get_emulated_ii_ptr(self):
         """
@@ -2474,6 +2488,8 @@ class discretization(object):
         if globalize:
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
+        else:
+            self._emulated_oo_ptr = None
 
     def get_emulated_oo_ptr(self):
         """
@@ -2524,6 +2540,7 @@ class discretization(object):
         """
         if isinstance(input_sample_set, sample_set_base):
             self._input_sample_set = input_sample_set
+            self._discard_ptrs('_emulated_ii_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2549,6 +2566,7 @@ class discretization(object):
         """
         if isinstance(output_sample_set, sample_set_base):
             self._output_sample_set = output_sample_set
+            self._discard_ptrs('_io_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2613,7 +2631,9 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
-        if self._output_sample_set._values_local is not None:
+        self._discard_ptrs('_io_ptr', '_emulated_oo_ptr')
+        if self._output_sample_set is not None and \
+                self._output_sample_set._values_local is not None:
             if output_probability_set._values is not None:
                 self.set_io_ptr(globalize=False)
 
@@ -2653,6 +2673,7 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._discard_ptrs('_emulated_oo_ptr')
 
     def get_emulated_input_sample_set(self):
         """
@@ -2686,6 +2707,7 @@ class discretization(object):
                 self._emulated_input_sample_set = emulated_input_sample_set
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
+        self._discard_ptrs('_emulated_ii_ptr')
 
     def estimate_input_volume_emulated(self):
         """
-- 
2.43.0


From 900e6e1103d3275915023d2f91d50eb29fbff37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:06 +0000
Subject: [PATCH 11/61] fix: transferred probabilities also reach the
 distributed part of the new set

---
 bet/calculateP/calculateP.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 88d53bc..9fca05a 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -204,6 +204,8 @@ def prob_from_sample_set_with_emulated_volumes(set_old, set_new,
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.global_to_local()
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -247,6 +249,8 @@ def prob_from_sample_set(set_old, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.global_to_local()
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -298,5 +302,7 @@ def prob_from_discretization_input(disc, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.global_to_local()
     set_new.set_prob_type('voronoi')
     return prob_new
-- 
2.43.0


From 7c195058eb578f9eabcbd256a207507915351ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:53 +0000
Subject: [PATCH 12/61] fix: exact one-dimensional volumes of a set with a
 single sample

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 2ee51e2..f792dfb 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1448,7 +1448,7 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 1D domains.")
 
         # sort the samples
-        sort_ind = np.squeeze(np.argsort(self._values, 0))
+        sort_ind = np.argsort(self._values[:, 0])
         sorted_samples = self._values[sort_ind]
         domain_width = self._domain[:, 1] - self._domain[:, 0]
 
@@ -1460,7 +1460,7 @@ class voronoi_sample_set(sample_set_base):
                                 [self._domain[:, 1]]))
         # calculate difference between right and left of each cell
         # and renormalize
-        sorted_lam_vol = np.squeeze(edges[1:, :] - edges[:-1, :])
+        sorted_lam_vol = edges[1:, 0] - edges[:-1, 0]
         lam_vol = np.zeros(sorted_lam_vol.shape)
         lam_vol[sort_ind] = sorted_lam_vol
         lam_vol = lam_vol / domain_width
-- 
2.43.0


From 2928f230ad8de92706c4577437d33e58efe6c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:49 +0000
Subject: [PATCH 13/61] fix: estimating radii does not fail for cells without
 Monte Carlo points

---
 bet/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index f792dfb..574df94 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1600,7 +1600,8 @@ class voronoi_sample_set(sample_set_base):
         for i in range(num):
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1662,7 +1663,8 @@ class voronoi_sample_set(sample_set_base):
             vol[i] = np.sum(np.equal(emulate_ptr, i))
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
-- 
2.43.0


From 906ce74fa8a6b60d57011dd1be6c4fac52430d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 14/61] fix: a globalized object is saved by one process, not
 by all at once

---
 bet/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index ca0f49e..99d0347 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -249,7 +249,10 @@ def save_object(save_set, file_name, globalize=True):
     if globalize:
         save_set.local_to_global()
     comm.barrier()
-    pickle.dump(save_set, open(local_file_name + '.p', "wb"))
+    # a file that belongs to all processes is written by one of them
+    if not globalize or comm.rank == 0:
+        with open(local_file_name + '.p', "wb") as save_file:
+            pickle.dump(save_set, save_file)
     comm.barrier()
     return local_file_name
 
-- 
2.43.0


From 7003c5bd4e7a707cc7dc59a4b3b4d97ad03e3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 15/61] fix: loading distributed objects from directories and
 next to files with similar names

---
 bet/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 99d0347..162f3d2 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -14,6 +14,7 @@ important methods are:
 import sys
 import collections.abc
 import os
+import re
 import glob
 import logging
 import numpy as np
@@ -272,7 +273,9 @@ def load_object(file_name, localize=False):
     if file_name.startswith('proc_'):
         # logging.warning("Avoid starting filenames with 'proc_'. Unable to localize.")
         localize = False
-    elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
+    elif not os.path.exists(file_name+'.p') and \
+            os.path.exists(os.path.join(os.path.dirname(file_name),
+                                        'proc0_'+os.path.basename(file_name)+'.p')):
         return load_object_parallel(file_name)
     loaded_set = pickle.load(open(file_name+'.p', "rb"))
     if localize:
@@ -291,7 +294,9 @@ def load_object_parallel(file_name):
     """
     save_dir = os.path.dirname(file_name)
     base_name = os.path.basename(file_name)
-    files = glob.glob(os.path.join(save_dir, "proc*_{}".format(base_name+'.p')))
+    # other objects may have been saved to names that end with this one
+    files = [name for name in glob.glob(os.path.join(glob.escape(save_dir), "proc*_*.p"))
+             if re.fullmatch(r"proc\d+_" + re.escape(base_name+'.p'), os.path.basename(name))]
     if len(files) == comm.size:
         logging.info("Loading sample set using parallel files (same nproc)")
         # if the number of processors is the same then set mdat to
-- 
2.43.0


From 0737def149fdc251fe004b3d878a4632c538ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 16/61] fix: local/global conversion of a discretization
 includes its pointers

---
 bet/sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 574df94..b0c9fe4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2861,6 +2861,7 @@ class discretization(object):
             self._emulated_output_sample_set.local_to_global()
         if self._output_observed_set is not None:
             self._output_observed_set.local_to_global()
+        self.globalize_ptrs()
 
     def global_to_local(self):
         """
@@ -2879,3 +2880,11 @@ class discretization(object):
             self._emulated_output_sample_set.global_to_local()
         if self._output_observed_set is not None:
             self._output_observed_set.global_to_local()
+        # the pointers are distributed like the samples they belong to
+        for ptr, sset in (('_io_ptr', self._output_sample_set),
+                          ('_emulated_ii_ptr', self._emulated_input_sample_set),
+                          ('_emulated_oo_ptr', self._emulated_output_sample_set)):
+            if getattr(self, ptr) is not None and sset is not None \
+                    and sset._values is not None:
+                setattr(self, ptr + '_local',
+                        np.array_split(getattr(self, ptr), comm.size)[comm.rank])
-- 
2.43.0


From 26a4c1124583fc1fe7b6474a9222231623343a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:59 +0000
Subject: [PATCH 17/61] fix: normal partition gives each bin the normal
 distribution's mass

---
 bet/calculateP/simpleFunP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 7fde4be..df8e5d6 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -639,8 +639,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     cvolumes = np.copy(volumes)
     comm.Allreduce([volumes, MPI.DOUBLE], [cvolumes, MPI.DOUBLE], op=MPI.SUM)
     volumes = cvolumes
-    rho_D_M = count_neighbors.astype(np.float64) * volumes
-    rho_D_M = rho_D_M / np.sum(rho_D_M)
+    rho_D_M = count_neighbors.astype(np.float64) / float(num_d_emulate)
     s_set.set_probabilities(rho_D_M)
     s_set.set_volumes(volumes)
 
-- 
2.43.0


From b7df8cf1742cd8861f6aafc852f41bf0ad6aebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:25 +0000
Subject: [PATCH 18/61] fix: normal distributions for arrays of data and
 rectangle sizes given as lists

---
 bet/calculateP/simpleFunP.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index df8e5d6..6844eb5 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -29,6 +29,8 @@ def check_type(val, data_set=None):
         dim = data_set._output_sample_set.get_dim()
     elif isinstance(data_set, samp.sample_set_base):
         dim = data_set.get_dim()
+    elif isinstance(data_set, np.ndarray):
+        dim = data_set.shape[1]
     else:
         dim = 1
     if isinstance(val, float) or isinstance(val, int):
@@ -80,7 +82,7 @@ def check_inputs(data_set, Q_ref):
                 raise wrong_argument_type("Missing reference value.")
             else:
                 logging.info("Using reference value from output sample set.")
-                Q_ref = data_set._reference_value
+                Q_ref = data_set._output_sample_set._reference_value
     elif isinstance(data_set, np.ndarray):
         num = data_set.shape[0]
         dim = data_set.shape[1]
@@ -177,6 +179,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     if np.any(np.less_equal(rect_size, 0)):
         msg = 'rect_size must be greater than 0'
         raise wrong_argument_type(msg)
+    rect_size = np.array(rect_size)
 
     r'''
     Create M samples defining M Voronoi cells (i.e., "bins") in D used to
-- 
2.43.0


From 07b3548fba78806ca3975841b7799db5882a5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 19/61] fix: kernel density estimates of single and of empty
 clusters given by cluster maps

---
 bet/calculateP/calculateR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 05bf6cb..2806fd4 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -48,7 +48,7 @@ def generate_output_kdes(discretization, bw_method=None):
     obs_kdes = []
     for i in range(num_clusters):
         if predict_set.get_cluster_maps() is not None:
-            if len(predict_set.get_cluster_maps()) > 1:
+            if len(predict_set.get_cluster_maps()[i]) > 1:
                 if predict_set.get_weights_init() is None:
                     predict_kdes.append(gaussian_kde(predict_set.get_cluster_maps()[i].T, bw_method=bw_method))
                 else:
@@ -71,7 +71,7 @@ def generate_output_kdes(discretization, bw_method=None):
                 predict_kdes.append(None)
 
         if obs_set.get_cluster_maps() is not None:
-            if len(obs_set.get_cluster_maps()) > 1:
+            if len(obs_set.get_cluster_maps()[i]) > 1:
                 obs_kdes.append(gaussian_kde(obs_set.get_cluster_maps()[i].T, bw_method=bw_method))
             else:
                 obs_kdes.append(None)
-- 
2.43.0


From 96ba31cd9860334bc863aed3e3be69d531762250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 20/61] fix: clusters without predicted or without observed
 samples contribute nothing to an update

---
 bet/calculateP/calculateR.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 2806fd4..f1ff41e 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -111,13 +111,14 @@ def invert(discretization, bw_method=None):
             vals = predict_set.get_values()[predict_pointer]
         else:
             vals = predict_set.get_cluster_maps()[i]
-        if len(predict_pointer) > 0:
+        if len(predict_pointer) > 0 and predict_kdes[i] is not None and obs_kdes[i] is not None:
             r.append(np.divide(obs_kdes[i](vals.T), predict_kdes[i](vals.T)))
             rs.append((r[i].mean()))
         else:
             r.append(None)
             rs.append(None)
-        weights[predict_pointer] = r[i]
+        if r[i] is not None:
+            weights[predict_pointer] = r[i]
         lam_ptr.append(predict_pointer)
     discretization.get_input_sample_set().set_weights(weights)
     return rs, r, lam_ptr
@@ -187,6 +188,8 @@ def invert_rejection_sampling(discretization, bw_method=None):
     discretization.get_input_sample_set().local_to_global()
     new_vals = []
     for i in range(num_clusters):
+        if r[i] is None:
+            continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
@@ -309,7 +312,8 @@ def invert_to_multivariate_gaussian(discretization, bw_method=None):
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     mean, cov = weighted_mean_and_cov(params, total_weights)
     means = [mean]
     covariances = [cov]
@@ -380,7 +384,8 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     total_weights = np.round(num_reweighted * total_weights/np.sum(total_weights)).astype(int)
     reweighted_vals = np.repeat(params, total_weights, axis=0)
 
-- 
2.43.0


From 48ed9777cbc31e8312c739ee3b41177d057cb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:21 +0000
Subject: [PATCH 21/61] fix: rejection sampling keeps the same samples on all
 processes

---
 bet/calculateP/calculateR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index f1ff41e..79f4a89 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -15,6 +15,7 @@ to update an initial density on the parameter space.
 import bet.sample
 import numpy as np
 import logging
+from bet.Comm import comm
 
 
 def generate_output_kdes(discretization, bw_method=None):
@@ -191,6 +192,7 @@ def invert_rejection_sampling(discretization, bw_method=None):
         if r[i] is None:
             continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
+        check = comm.bcast(check, root=0)  # the same samples are kept on all processes
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
         new_vals.append(discretization.get_input_sample_set().get_values()[lam_ptr[i][idx]])
-- 
2.43.0


From d0978f7e35ed129948721cfa83f39b66881938f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:12 +0000
Subject: [PATCH 22/61] fix: the parts of a Latin hypercube sample on several
 processes form one Latin hypercube

---
 bet/sampling/basicSampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index efb0f48..d0d75a5 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -223,7 +223,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     # update the bounds based on the number of samples
     input_sample_set.update_bounds(num_samples)
     input_values = np.copy(input_sample_set._width)
-    input_values = input_values * lhs(dim, num_samples, criterion)
+    # one design for all processes, each of which takes its part of it
+    input_values = input_values * comm.bcast(lhs(dim, num_samples, criterion), root=0)
     input_values = input_values + input_sample_set._left
     input_sample_set.set_values_local(np.array_split(input_values, comm.size)[comm.rank])
 
-- 
2.43.0


From 79f8544236f73cee72adc3b93ae1dd16fe365e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:12 +0000
Subject: [PATCH 23/61] fix: samples drawn from updated distributions keep
 their coordinates together

---
 bet/sampling/basicSampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index d0d75a5..6fef240 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -63,7 +63,7 @@ def sample_from_updated(input_set, num_samples, globalize=True):
             for j in range(input_set.get_dim()):
                 v_inner.append(param_marginals[j][i].resample(num_samples_local))
             v_outer.append(np.vstack(v_inner))
-        vals_local = np.hstack(v_outer)
+        vals_local = np.hstack(v_outer).T
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('kde')
         new_set.set_prob_parameters_init((param_marginals, cluster_weights))
@@ -77,7 +77,9 @@ def sample_from_updated(input_set, num_samples, globalize=True):
             num_samples_clust = round(w * num_samples)
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
+            v_outer.append(np.reshape(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i],
+                                                                    size=num_samples_local),
+                                      (num_samples_local, input_set.get_dim())))
         vals_local = np.vstack(v_outer)
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('gmm')
-- 
2.43.0


From cb64971bd7f9781eb174ed9d0fce42253e3ea36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:12 +0000
Subject: [PATCH 24/61] fix: sampling an updated distribution of several
 clusters gives the requested number of samples

---
 bet/sampling/basicSampling.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 6fef240..040966d 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -30,6 +30,26 @@ class bad_object(Exception):
     """
 
 
+def num_samples_of_clusters(cluster_weights, contributes, num_samples):
+    """
+    Divide a number of samples among clusters in proportion to their weights.
+    The numbers sum to ``num_samples``.
+
+    :param cluster_weights: Weights of the clusters
+    :type cluster_weights: list or :class:`numpy.ndarray`
+    :param contributes: Whether the probability measure has a part for each cluster
+    :type contributes: list of bool
+    :param int num_samples: Number of samples to divide
+
+    :return: number of samples for each cluster
+    :rtype: :class:`numpy.ndarray` of int
+
+    """
+    cumulated = np.cumsum(np.where(contributes, cluster_weights, 0.0))
+    cumulated = np.round(num_samples * cumulated / cumulated[-1]).astype(int)
+    return np.diff(cumulated, prepend=0)
+
+
 def sample_from_updated(input_set, num_samples, globalize=True):
     """
     Create a new sample set from resampling from the updated probability measure of another sample set.
@@ -55,9 +75,12 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'kde':
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
+        num_clust = num_samples_of_clusters(cluster_weights, [kde is not None for kde in param_marginals[0]],
+                                            num_samples)
+        for i, num_samples_clust in enumerate(num_clust):
+            if num_samples_clust == 0:
+                continue
             v_inner = []
-            num_samples_clust = round(w*num_samples)
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             for j in range(input_set.get_dim()):
@@ -73,8 +96,10 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'gmm':
         means, covariances, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
-            num_samples_clust = round(w * num_samples)
+        num_clust = num_samples_of_clusters(cluster_weights, [mean is not None for mean in means], num_samples)
+        for i, num_samples_clust in enumerate(num_clust):
+            if num_samples_clust == 0:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             v_outer.append(np.reshape(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i],
-- 
2.43.0


From a729ce4d1b25917936f7d20995c93fd2c537cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:48 +0000
Subject: [PATCH 25/61] fix: the model is evaluated at the reference value as
 at a sample

---
 bet/sampling/basicSampling.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 040966d..985220e 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -520,19 +520,13 @@ class sampler(object):
 
         if lam_ref is not None:
             try:
-                if not isinstance(lam_ref, collections.abc.Iterable):
-                    lam_ref = np.array([lam_ref])
-                Q_ref = self.lb_model(lam_ref)
-                output_sample_set.set_reference_value(Q_ref)
+                # the reference value is a single sample for the model
+                q_ref = self.lb_model(np.reshape(lam_ref, (1, -1)))
+                if isinstance(q_ref, tuple):
+                    q_ref = q_ref[0]
+                output_sample_set.set_reference_value(np.reshape(q_ref, (output_dim,)))
             except ValueError:
-                try:
-                    msg = "Model not mapping reference value as expected."
-                    msg += "Attempting reshape..."
-                    logging.log(20, msg)
-                    q_ref = self.lb_model(lam_ref.reshape(1, -1))
-                    output_sample_set.set_reference_value(q_ref)
-                except ValueError:
-                    logging.log(20, 'Unable to map reference value.')
+                logging.log(20, 'Unable to map reference value.')
 
         if self.error_estimates:
             output_sample_set.set_error_estimates_local(local_output_ee)
-- 
2.43.0


From 6ce1ad5373ae7af953157ca233305ff9dac5fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 26/61] fix: neighbours in one dimension are consecutive
 samples, whatever the order of the samples

---
 bet/calculateP/calculateError.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index eb87b01..8b67513 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -65,13 +65,9 @@ def cell_connectivity_exact(disc):
         # Adding contours on the left
         s_sort = disc._input_sample_set._values.flat[:].argsort()
         neiList = defaultdict(set)
-        for p in range(num):
-            order = s_sort[p]
-            if order > 0:
-                val = np.equal(s_sort, order - 1)
-                args = np.argwhere(val)
-                neiList[p].add(disc._io_ptr[args[0][0]])
-                neiList[args[0][0]].add(disc._io_ptr[p])
+        for i, j in zip(s_sort[:-1], s_sort[1:]):
+            neiList[i].add(disc._io_ptr[j])
+            neiList[j].add(disc._io_ptr[i])
     else:
         # Form Delaunay triangulation
         tri = Delaunay(disc._input_sample_set._values)
-- 
2.43.0


From 42852d0f3a5432c2e8f29ea183df2d91f86478c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 27/61] fix: Delaunay.vertices is no longer provided by scipy

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 8b67513..91c1d3a 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -74,7 +74,7 @@ def cell_connectivity_exact(disc):
 
         # Find neighbors
         neiList = defaultdict(set)
-        for p in tri.vertices:
+        for p in tri.simplices:
             for i, j in itertools.combinations(p, 2):
                 neiList[i].add(disc._io_ptr[j])
                 neiList[j].add(disc._io_ptr[i])
-- 
2.43.0


From 2e1ca5c237e11385a83ea17568a5129593c0ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 28/61] fix: bounds for a region leave those for contour events
 without inner cells undefined

---
 bet/calculateP/calculateError.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 91c1d3a..b3346ab 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -320,12 +320,12 @@ class sampling_error(object):
                 E = float(sum1) / float(sum2)
 
                 in_B_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.B_N[i]:
+                for j in self.B_N.get(i, []):
                     in_B_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_B_N)
 
                 in_C_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.C_N[i]:
+                for j in self.C_N.get(i, []):
                     in_C_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_C_N)
                 # sum3 :math:`\mu_{\Lambda}(A \cap B_N)`
-- 
2.43.0


From 53076e7e996b02ac732bc53b6f946d5c0cc57af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 29/61] fix: error estimates use volumes that are known locally
 only

---
 bet/calculateP/calculateError.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index b3346ab..057e1b2 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -191,6 +191,9 @@ class sampling_error(object):
         up_list = []
         low_list = []
         # Check for and possibly calculate volumes
+        if self.disc._input_sample_set._volumes is None and \
+                self.disc._input_sample_set._volumes_local is not None:
+            self.disc._input_sample_set.local_to_global()
         if self.disc._input_sample_set._volumes is None:
             if self.disc._emulated_input_sample_set is not None:
                 logging.warning("Using emulated points to estimate volumes.")
@@ -407,6 +410,9 @@ class model_error(object):
 
         """
         # Calculate volumes if necessary
+        if self.disc._input_sample_set._volumes is None and \
+                self.disc._input_sample_set._volumes_local is not None:
+            self.disc._input_sample_set.local_to_global()
         if self.disc._input_sample_set._volumes is None:
             if self.disc._emulated_input_sample_set is not None:
                 logging.warning("Using emulated points to estimate volumes.")
-- 
2.43.0


From 1d0c4a0a64f2c43aa782d10c37a27ad8a3efcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 30/61] fix: model error of a region by emulated points is
 infinite where it is undefined, as by samples

---
 bet/calculateP/calculateError.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 057e1b2..5d62100 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -535,8 +535,11 @@ class model_error(object):
                 JiAe = comm.allreduce(JiAe_local, op=MPI.SUM)
                 Jie_local = float(np.sum(in_Ai2))
                 Jie = comm.allreduce(Jie_local, op=MPI.SUM)
-                er_est += self.disc._output_probability_set._probabilities[i]\
-                    * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
+                if Ji * Jie == 0:
+                    er_est += np.inf
+                else:
+                    er_est += self.disc._output_probability_set._probabilities[i]\
+                        * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
 
         return er_est
 
-- 
2.43.0


From b329b10f9c1a49a3fac67e16e65c95ba26ea6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 31/61] fix: linear surrogates extrapolate from the training
 sample to the new input

---
 bet/surrogates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 47faff8..1e6364c 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -96,9 +96,9 @@ class piecewise_polynomial_surrogate(object):
 
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
-            diff_local = self.input_disc._input_sample_set._values[
-                self.dummy_disc._emulated_ii_ptr_local] - \
-                input_sample_set._values_local
+            diff_local = input_sample_set._values_local - \
+                self.input_disc._input_sample_set._values[
+                    self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
             new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
-- 
2.43.0


From e5fc3c9ad42984be0b4dd860a129c9dc944ca0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 32/61] fix: surrogates use volumes of the new inputs that are
 known globally only

---
 bet/surrogates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 1e6364c..1e4ebd4 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -142,6 +142,10 @@ class piecewise_polynomial_surrogate(object):
             raise calculateError.wrong_argument_type(msg)
 
         # Calculate probability of region
+        if self.surrogate_discretization._input_sample_set._volumes_local\
+                is None and self.surrogate_discretization.\
+                _input_sample_set._volumes is not None:
+            self.surrogate_discretization._input_sample_set.global_to_local()
         if self.surrogate_discretization._input_sample_set._volumes_local\
                 is None:
             self.surrogate_discretization._input_sample_set.\
-- 
2.43.0


From 7842d7bd23d62a8c34e94c09cc875e36ea6bfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 33/61] fix: probabilities from surrogates also reach the
 distributed part of the training set

---
 bet/surrogates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 1e4ebd4..224ac99 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -183,5 +183,7 @@ class piecewise_polynomial_surrogate(object):
                 error_id[i] = comm.allreduce(error_id_sum, op=MPI.SUM)
             self.input_disc._input_sample_set.set_probabilities(prob)
             self.input_disc._input_sample_set.set_error_id(error_id)
+            if self.input_disc._input_sample_set._values_local is not None:
+                self.input_disc._input_sample_set.global_to_local()
 
         return (probabilities, error_estimates)
-- 
2.43.0


From be50d5d5cda58634f352938bbc16bd88f9fe36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 34/61] fix: a refused surrogate leaves the current one as it
 is

---
 bet/surrogates.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 224ac99..ad8919a 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -71,6 +71,16 @@ class piecewise_polynomial_surrogate(object):
                 input_sample_set.set_p_norm(self.input_disc.
                                             _input_sample_set._p_norm)
 
+        # Piecewise linears need Jacobians
+        if order == 1:
+            if self.input_disc._input_sample_set._jacobians is None:
+                if self.input_disc._input_sample_set._jacobians_local is None:
+                    msg = "The input discretization must"
+                    msg += " have jacobians defined."
+                    raise calculateError.wrong_argument_type(msg)
+                else:
+                    self.input_disc._input_sample_set.local_to_global()
+
         # Setup dummy discretizion to get pointers
         # Assumes Voronoi sample set for now
         output_sample_set = sample.sample_set(self.input_disc.
@@ -86,14 +96,6 @@ class piecewise_polynomial_surrogate(object):
             output_sample_set.set_values_local(new_values_local)
         elif order == 1:
             # define new values based on piecewise linears using Jacobians
-            if self.input_disc._input_sample_set._jacobians is None:
-                if self.input_disc._input_sample_set._jacobians_local is None:
-                    msg = "The input discretization must"
-                    msg += " have jacobians defined."
-                    raise calculateError.wrong_argument_type(msg)
-                else:
-                    self.input_disc._input_sample_set.local_to_global()
-
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
             diff_local = input_sample_set._values_local - \
-- 
2.43.0


From daea4124af0848e83466453f59c3d42de333cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 35/61] fix: surrogates and model error estimates for integer
 outputs

---
 bet/calculateP/calculateError.py | 3 ++-
 bet/surrogates.py                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 5d62100..0a6deaf 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -394,7 +394,8 @@ class model_error(object):
         # Setup new discretization object adding error estimates
         #: :class:`bet.sample.discretiztion` from adding error estimates
         self.disc_new = disc.copy()
-        self.disc_new._output_sample_set._values_local += self.disc.\
+        self.disc_new._output_sample_set._values_local = self.disc.\
+            _output_sample_set._values_local + self.disc.\
             _output_sample_set._error_estimates_local
         self.disc_new.set_io_ptr(globalize=False)
         self.disc_new._io_ptr = None
diff --git a/bet/surrogates.py b/bet/surrogates.py
index ad8919a..98a776f 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -103,7 +103,8 @@ class piecewise_polynomial_surrogate(object):
                     self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
-            new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
+            new_values_local = new_values_local + \
+                np.einsum('ijk,ik->ij', jac_local, diff_local)
             output_sample_set.set_values_local(new_values_local)
 
         # if they exist, define error estimates with piecewise constants
-- 
2.43.0


From d3fb4f51dd7f613fb843b007eb3c0f8ae37a7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 36/61] fix: centred differences return the outputs of the
 centres

---
 bet/sensitivity/gradients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index bb83a34..5827a77 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -511,6 +511,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
     radii_vec = util.fix_dimensions_vector_2darray(radii_vec.diagonal())
 
     # Clean the data
+    center_data = util.clean_data(data[:num_centers])
     data = util.clean_data(data[num_centers:])
     gradient_tensor = np.zeros([num_centers, output_dim, input_dim])
 
@@ -546,7 +547,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
                                            _input_sample_set.get_domain())
     center_input_sample_set.set_jacobians(gradient_tensor)
     center_output_sample_set = sample.sample_set(output_dim)
-    center_output_sample_set.set_values(data[:num_centers, :])
+    center_output_sample_set.set_values(center_data)
     if cluster_discretization._output_sample_set.get_domain() is not None:
         center_output_sample_set.set_domain(cluster_discretization.
                                             _output_sample_set.get_domain())
-- 
2.43.0


From 6fd52ef073a0bcef350e490cdc036b1f204a4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 37/61] fix: radial basis functions are chosen by name, not by
 string identity

---
 bet/sensitivity/gradients.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 5827a77..9cb3cef 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -229,13 +229,13 @@ def radial_basis_function(r, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbf = (1 + (ep * r) + (ep * r)**2 / 3) * np.exp(-ep * r)
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbf = np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbf = (1 + (ep * r)**2)**(0.5)
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbf = 1 / ((1 + (ep * r)**2)**(0.5))
     else:
         raise ValueError("The kernel chosen is not currently available.")
@@ -264,13 +264,13 @@ def radial_basis_function_dxi(r, xi, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbfdxi = -2 * ep**2 * xi * np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbfdxi = (ep**2 * xi) / ((1 + (ep * r)**2)**(0.5))
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbfdxi = -(ep**2 * xi) / ((1 + (ep * r)**2)**(1.5))
     else:
         raise ValueError("The kernel chosen is not currently available")
-- 
2.43.0


From c50fdfd178b4074ea79e5b81c2d06374dc1f9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 38/61] fix: gradients by radial basis functions use the shape
 parameter and one norm throughout

---
 bet/sensitivity/gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 9cb3cef..25377b7 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -336,12 +336,13 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
     # point.
     for c in range(num_centers):
         # Find the k nearest neighbors and their distances to centers[c,:]
-        [r, nearest] = cluster_discretization._input_sample_set.query(
+        [_, nearest] = cluster_discretization._input_sample_set.query(
             centers[c, :], k=num_neighbors)
-        r = np.tile(r, (input_dim, 1))
 
-        # Compute the linf distances to each of the nearest neighbors
+        # Compute the displacements from each of the nearest neighbors
         diffVec = (centers[c, :] - samples[nearest, :]).transpose()
+        # and the l2 distances, whatever the norm of the sample set
+        r = np.tile(np.linalg.norm(diffVec, axis=0), (input_dim, 1))
 
         # Compute the l2 distances between pairs of nearest neighbors
         distMat = spatial.distance_matrix(
@@ -350,7 +351,7 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Solve for the rbf weights using interpolation conditions and
         # evaluate the partial derivatives
         rbf_mat_values = \
-            np.linalg.solve(radial_basis_function(distMat, RBF),
+            np.linalg.solve(radial_basis_function(distMat, RBF, ep),
                             radial_basis_function_dxi(r, diffVec, RBF, ep)
                             .transpose()).transpose()
 
-- 
2.43.0


From 676c78ecce33e80074c81b6f4cb0dfb1e786ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:46 +0000
Subject: [PATCH 39/61] fix: singular data of the best sets of QoIs from
 several processes stay with their sets

---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 82b12f1..b832ece 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -328,14 +328,13 @@ def chooseOptQoIs_verbose(input_set, qoiIndices=None, num_qois_return=None,
     # Gather the best sets and skewness values from each processor
     measure_skewness_indices_mat = np.array(comm.gather(
         measure_skewness_indices_mat, root=0))
-    optsingvals_tensor = np.array(comm.gather(optsingvals_tensor, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness values from all processors
     if comm.rank == 0:
         measure_skewness_indices_mat = measure_skewness_indices_mat.reshape(
             num_optsets_return * comm.size, num_qois_return + 1)
-        optsingvals_tensor = optsingvals_tensor.reshape(num_centers,
-                                                        num_qois_return, num_optsets_return * comm.size)
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
         order = measure_skewness_indices_mat[:, 0].argsort()
 
         measure_skewness_indices_mat = measure_skewness_indices_mat[order]
-- 
2.43.0


From 72d4a6c7153ba5c3bc58c7c5f6b6d1011f5a3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:46 +0000
Subject: [PATCH 40/61] fix: equally good sets of QoIs are all kept, with their
 singular data from all processes

---
 bet/sensitivity/chooseQoIs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index b832ece..1a51355 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -541,6 +541,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     # Gather the best sets and skewness values from each processor
     good_sets = comm.gather(good_sets, root=0)
     best_sets = np.array(comm.gather(best_sets, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
     count_qois = np.array(comm.gather(count_qois, root=0))
 
     # Find the num_optsets_return smallest skewness from all processors
@@ -549,10 +550,10 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         # Organize the best sets
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
-        [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
-        best_sets = best_sets[uniq_inds_best, :]
-        best_sets = best_sets[best_sets[:, 0].argsort()]
-        best_sets = best_sets[:num_optsets_return, :]
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
+        order = best_sets[:, 0].argsort()[:num_optsets_return]
+        best_sets = best_sets[order, :]
+        optsingvals_tensor = optsingvals_tensor[:, :, order]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
@@ -567,6 +568,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
 
     comm.Barrier()
     best_sets = comm.bcast(best_sets, root=0)
+    optsingvals_tensor = comm.bcast(optsingvals_tensor, root=0)
     good_sets = comm.bcast(good_sets, root=0)
 
     return (good_sets[1:].astype(int), best_sets, optsingvals_tensor)
-- 
2.43.0


From 8ffe368da92d547518b8a4ceb79a49adc48d199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:18 +0000
Subject: [PATCH 41/61] fix: condition number of a single QoI that vanishes at
 a center is infinite there

---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 1a51355..8f1e079 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -184,9 +184,8 @@ def calculate_avg_condnum(input_set, qoi_set=None):
     if np.sum(indz) == singvals.shape[0]:
         hmean_condnum = np.inf
     else:
-        singvals[indz, 0] = np.inf
-        singvals[indz, -1] = 1
-        condnums = singvals[:, 0] / singvals[:, -1]
+        condnums = np.full(singvals.shape[0], np.inf)
+        condnums[~indz] = singvals[~indz, 0] / singvals[~indz, -1]
         hmean_condnum = stats.hmean(condnums)
 
     return hmean_condnum, singvals
-- 
2.43.0


From 961b7900e126a5e6634fb7923eacd1ce9913618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 42/61] fix: sorting by density leaves out all samples of zero
 probability, also those without volume

---
 bet/postProcess/postTools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 251aeea..1cec86f 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -54,11 +54,11 @@ def sort_by_rho(sample_set):
     else:
         raise bad_object("Improper sample object")
 
-    nnz = np.sum(P_samples > 0)
+    nnz = np.flatnonzero(P_samples > 0)
     if lam_vol is None:
-        indices = np.argsort(P_samples)[::-1][0:nnz]
+        indices = nnz[np.argsort(P_samples[nnz])[::-1]]
     else:
-        indices = np.argsort(P_samples / lam_vol)[::-1][0:nnz]
+        indices = nnz[np.argsort(P_samples[nnz] / lam_vol[nnz])[::-1]]
     P_samples = P_samples[indices]
     samples = samples[indices, :]
     if lam_vol is not None:
-- 
2.43.0


From 3282ea9c7f8245f3e670c002255be759357d87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 43/61] fix: samples of highest and lowest probability without
 sorting

---
 bet/postProcess/postTools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 1cec86f..e8e0f7d 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -136,6 +136,8 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
             P_samples = sample_set.get_probabilities()
             lam_vol = sample_set.get_volumes()
             data = None
+    else:
+        indices = np.arange(len(P_samples))
     if descending:
         P_samples = P_samples[::-1]
         samples = samples[::-1]
@@ -146,7 +148,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(np.logical_and(0.0 < P_sum, P_sum <= percentile))
+    num_samples = np.sum(P_sum <= percentile)
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From f18686ae3cef3125f817346608bb029828290ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 44/61] fix: sorting a discretization without output values by
 density

---
 bet/postProcess/postTools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index e8e0f7d..71a534c 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -73,7 +73,8 @@ def sort_by_rho(sample_set):
         sample_set_out._input_sample_set.set_values(samples)
         sample_set_out._input_sample_set.set_probabilities(P_samples)
         sample_set_out._input_sample_set.set_volumes(lam_vol)
-        sample_set_out._output_sample_set.set_values(data)
+        if data is not None:
+            sample_set_out._output_sample_set.set_values(data)
     else:
         sample_set_out = sample.sample_set(sample_set.get_dim())
         sample_set_out.set_values(samples)
@@ -165,7 +166,8 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         sample_set_out._input_sample_set.set_values(samples)
         sample_set_out._input_sample_set.set_probabilities(P_samples)
         sample_set_out._input_sample_set.set_volumes(lam_vol)
-        sample_set_out._output_sample_set.set_values(data)
+        if data is not None:
+            sample_set_out._output_sample_set.set_values(data)
     else:
         sample_set_out = sample.sample_set(sample_set.get_dim())
         sample_set_out.set_values(samples)
-- 
2.43.0


From 8eae68a1c842c025b10df202c28bbb86f9856327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 45/61] fix: smoothing does not shift marginals

---
 bet/postProcess/plotP.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 26fe098..09e361d 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -380,7 +380,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft, fft
+    from scipy.fftpack import ifftshift, ifft, fft
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -390,7 +390,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         nx = len(bins[i]) - 1
         dx = bins[i][1] - bins[i][0]
         augx = int(math.ceil(3 * sigma[i] / dx))
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
+        x_kernel = dx * (np.arange(nx) - nx // 2)
         kernel = np.exp(-(x_kernel / sigma[i])**2)
         aug_kernel = np.zeros((nx + 2 * augx,))
         aug_marginals = np.zeros((nx + 2 * augx,))
@@ -398,7 +398,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         aug_kernel[augx:augx + nx] = kernel
         aug_marginals[augx:augx + nx] = marginals[i]
 
-        aug_kernel = fftshift(aug_kernel)
+        aug_kernel = ifftshift(aug_kernel)
 
         aug_marginals_smooth = np.real(
             ifft(fft(aug_kernel) * fft(aug_marginals)))
@@ -422,7 +422,7 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft2, fft2
+    from scipy.fftpack import ifftshift, ifft2, fft2
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -437,8 +437,8 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         augx = int(math.ceil(3 * sigma[i] / dx))
         augy = int(math.ceil(3 * sigma[j] / dy))
 
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        y_kernel = np.linspace(-ny * dy / 2, ny * dy / 2, ny)
+        x_kernel = dx * (np.arange(nx) - nx // 2)
+        y_kernel = dy * (np.arange(ny) - ny // 2)
         X, Y = np.meshgrid(x_kernel, y_kernel, indexing='ij')
 
         kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
@@ -448,8 +448,8 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         aug_kernel[augx:augx + nx, augy:augy + ny] = kernel
         aug_marginals[augx:augx + nx, augy:augy + ny] = marginals[(i, j)]
 
-        aug_kernel = fftshift(aug_kernel, 0)
-        aug_kernel = fftshift(aug_kernel, 1)
+        aug_kernel = ifftshift(aug_kernel, 0)
+        aug_kernel = ifftshift(aug_kernel, 1)
         aug_marginals_smooth = ifft2(fft2(aug_kernel) * fft2(aug_marginals))
         aug_marginals_smooth = np.real(aug_marginals_smooth)
         marginals_smooth[(i, j)] = aug_marginals_smooth[augx:augx + nx,
-- 
2.43.0


From 47de59bc671ef926d4922a33337e94c04c9243a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 46/61] fix: surface plots with matplotlib versions in which
 gca takes no projection

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 09e361d..3aae899 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -340,7 +340,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
                 fig = plt.figure(k)
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
                 X, Y = np.meshgrid(X, Y, indexing='ij')
-- 
2.43.0


From ea62710db77d339b74719f7aa099df1dadc4d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:41 +0000
Subject: [PATCH 47/61] fix: densities of kernel estimates and mixtures with
 clusters without samples

---
 bet/sample.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index b0c9fe4..2248c94 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -93,7 +93,9 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         mar = np.zeros((vals.shape[0],))
         num_clusters = len(cluster_weights)
         for i in range(num_clusters):
-            mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
+            # clusters without samples have no components
+            if means[i] is not None:
+                mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
         return mar
     elif prob_type == "voronoi":
         _, pt = prob_parameters.query(vals)
@@ -131,7 +133,9 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         num_clusters = len(cluster_weights)
         mar = np.zeros(x.shape[0])
         for j in range(num_clusters):
-            mar += param_marginals[i][j](x) * cluster_weights[j]
+            # clusters without samples have no components
+            if param_marginals[i][j] is not None:
+                mar += param_marginals[i][j](x) * cluster_weights[j]
         return mar
     elif prob_type == "rv":
         import scipy.stats as stats
@@ -146,6 +150,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         mar = np.zeros(x.shape)
         num_clusters = len(cluster_weights)
         for j in range(num_clusters):
+            if means[j] is None:
+                continue
             mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
         return mar
     elif prob_type == 'voronoi':
-- 
2.43.0


From 547406f91614650f7c5cfea066e6fb75d79fc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:41 +0000
Subject: [PATCH 48/61] fix: marginal densities of cell probabilities at points
 of all coordinates

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 2248c94..c01cae1 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -159,7 +159,7 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         logging.warning("Using kernel density estimate to estimate marginal PDF.")
         sam_set = prob_parameters
         kde = gaussian_kde(sam_set.get_values()[:, i], weights=sam_set.get_probabilities())
-        return kde(vals.T)
+        return kde(x)
     else:
         raise wrong_input("This type of probability density is not yet supported.")
 
-- 
2.43.0


From 24a83444e36c15f843f346a9f7545fe594cf789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:41 +0000
Subject: [PATCH 49/61] fix: densities of cells follow the current
 probabilities and volumes, also without a distributed part

---
 bet/sample.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index c01cae1..b62fd2d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -956,12 +956,18 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._densities_local is None:
-                if self._volumes_local is None:
-                    logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+            if self._volumes_local is None and self._volumes is None:
+                logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+                if self._values_local is not None:
                     self.estimate_volume_mc(globalize=False)
-                self.set_densities_local(self._probabilities_local/self._volumes_local)
+                else:
+                    num = self.check_num()
+                    self._volumes = 1.0 / float(num) * np.ones((num,))
+            # the probabilities or volumes may have changed
+            if self._probabilities_local is not None and self._volumes_local is not None:
+                self.set_densities_local()
             self.local_to_global()
+            self.set_densities()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
             return evaluate_pdf(self._prob_type, self._prob_parameters, vals)
@@ -1196,8 +1202,12 @@ class sample_set_base(object):
         else:
             msg = "Setting densities with probability/volume."
             logging.warning(msg)
+            if self._domain is None:
+                total_vol = 1.0
+            else:
+                total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
-            vols = self._volumes_local
+            vols = self._volumes_local * total_vol
             self._densities_local = probs / vols
 
     def get_densities_local(self):
-- 
2.43.0


From 8c0956e7ca74bd7690df7fa887cd58b0e9ee0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:51 +0000
Subject: [PATCH 50/61] fix: marginal densities of cells follow the current
 distributed probabilities

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b62fd2d..a644b1b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1004,7 +1004,7 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._probabilities is None:
+            if self._probabilities_local is not None:
                 self.local_to_global()
             return evaluate_pdf_marginal(self._prob_type, self, vals, i)
         else:
-- 
2.43.0


From 6e80b4aa54d0a1e61f5ce9b4044764de325a75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 51/61] fix: total variation distances with scipy versions that
 take one weight per entry

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 6e47517..da1d0a7 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -165,7 +165,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
         elif functional in ['norm']:
@@ -248,7 +248,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(pdfs1, pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-- 
2.43.0


From e092b410ad8266ed4331b4b27c63471db5e85d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 52/61] fix: random comparison points cover the range of the
 sets in every dimension and direction

---
 bet/postProcess/compareP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index da1d0a7..3398e1c 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -106,8 +106,9 @@ class compare:
                 rv_loc = ['uniform', {}]
                 delt = compare_factor * (maxes[i] - mins[i])
                 rv_loc[1]['loc'] = mins[i] - delt
-                rv_loc[1]['scale'] = maxes[i] - mins[i] + delt
-            unif_set = bsam.random_sample_set(rv=rv_loc, input_obj=self.set1.get_dim(),
+                rv_loc[1]['scale'] = maxes[i] - mins[i] + 2.0 * delt
+                rv.append(rv_loc)
+            unif_set = bsam.random_sample_set(rv=rv, input_obj=self.set1.get_dim(),
                                               num_samples=compare_set)
             self.compare_vals = unif_set.get_values()
         else:
-- 
2.43.0


From ba2130c7cc07a5e9813ec942fab6898ef6def11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 53/61] fix: marginals are compared on an interval that covers
 both sets

---
 bet/postProcess/compareP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 3398e1c..c278555 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -216,13 +216,13 @@ class compare:
         x = None
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
             if x is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.hstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
@@ -296,13 +296,13 @@ class compare:
         from scipy.integrate import quadrature
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
             if interval is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.hstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
-- 
2.43.0


From ecebea85371eb594378485666326aa4269d3ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 54/61] fix: distances do not depend on earlier ones, and
 Hellinger distances are normalized when asked

---
 bet/postProcess/compareP.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index c278555..a92a4f4 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -154,34 +154,35 @@ class compare:
         # Check inputs
         if self.compare_vals is None:
             raise samp.wrong_input("Compare set needed.")
-        if self.pdfs1 is None or self.pdfs2 is None:
-            self.evaluate_pdfs()
+        # the measures or the comparison points may have changed
+        self.evaluate_pdfs()
+        pdfs1 = self.pdfs1
+        pdfs2 = self.pdfs2
         if normalize:
-            self.pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
-            self.pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
+            pdfs1 = pdfs1 / np.sum(pdfs1)
+            pdfs2 = pdfs2 / np.sum(pdfs2)
             factor = 1.0
         else:
-            factor = 1.0 / (self.pdfs1.shape[0])
-
+            factor = 1.0 / (pdfs1.shape[0])
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
+            dist = factor * ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-            dist = factor * ds.norm(self.pdfs1 - self.pdfs2, **kwargs)
+            dist = factor * ds.norm(pdfs1 - pdfs2, **kwargs)
         elif functional in ['euclidean', '2-norm', '2']:
-            dist = (factor ** 0.5) * ds.minkowski(self.pdfs1, self.pdfs2, 2, **kwargs)
+            dist = (factor ** 0.5) * ds.minkowski(pdfs1, pdfs2, 2, **kwargs)
         elif functional in ['sqhell', 'sqhellinger']:
-            dist = factor * ds.sqeuclidean(np.sqrt(self.pdfs1), np.sqrt(self.pdfs2)) / 2.0
+            dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
-            return np.sqrt(self.distance('sqhell'))
+            return np.sqrt(self.distance('sqhell', normalize=normalize))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
-            dist = kl_div(self.pdfs1, self.pdfs2, **kwargs)
+            dist = kl_div(pdfs1, pdfs2, **kwargs)
         else:
-            dist = functional(self.pdfs1, self.pdfs2, **kwargs)
+            dist = functional(pdfs1, pdfs2, **kwargs)
         return dist
 
     def distance_marginal(self, i, interval=None, num_points=1000, compare_factor=0.0, normalize=False,
-- 
2.43.0


From b0cd8645d1ca83049e43d0383b52da94267b7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 55/61] fix: scatter without an MPI library on current Python
 versions

---
 bet/Comm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index 0934aec..ca69d71 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -5,7 +5,7 @@ This module provides a workaround for people without mpi4py installed
 to run BET.
 """
 
-import collections
+import collections.abc
 
 
 class comm_for_no_mpi4py(object):
@@ -94,7 +94,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
-        if isinstance(val1, collections.Iterable) and len(val1) == 1:
+        if isinstance(val1, collections.abc.Iterable) and len(val1) == 1:
             val1 = val1[0]
         return val1
 
-- 
2.43.0


From e180d1fbb624451670441e3dd747919aa3891482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 56/61] fix: buffer operations without an MPI library fill the
 receive buffer

---
 bet/Comm.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bet/Comm.py b/bet/Comm.py
index ca69d71..73c07a5 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -6,6 +6,24 @@ to run BET.
 """
 
 import collections.abc
+import numpy as np
+
+
+def _fill_buffer(send, recv):
+    """
+    Copy the contents of a send buffer into a receive buffer. Buffers are
+    arrays, or lists of an array and its type.
+
+    :param send: send buffer
+    :param recv: receive buffer
+
+    """
+    if isinstance(send, (list, tuple)) and len(send) > 0 and isinstance(send[0], np.ndarray):
+        send = send[0]
+    if isinstance(recv, (list, tuple)) and len(recv) > 0 and isinstance(recv[0], np.ndarray):
+        recv = recv[0]
+    if isinstance(send, np.ndarray) and isinstance(recv, np.ndarray):
+        recv.flat[:send.size] = send.flat
 
 
 class comm_for_no_mpi4py(object):
@@ -106,6 +124,7 @@ class comm_for_no_mpi4py(object):
         :returns: val
 
         """
+        _fill_buffer(val, val2)
         return val
 
     def Allreduce(self, val1, val2=None, op=None):
@@ -118,6 +137,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
+        _fill_buffer(val1, val2)
         return val1
 
     def Bcast(self, val, root=0):
@@ -141,6 +161,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
+        _fill_buffer(val1, val2)
         return val1
 
     def Barrier(self):
-- 
2.43.0


From 91ef17c252d618f6deaf1fcd1845e5c31a48e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 57/61] fix: values of a wrong shape are refused before they
 are stored

---
 bet/sample.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a644b1b..d9f13e4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -832,10 +832,11 @@ class sample_set_base(object):
         :type values: :class:`numpy.ndarray` of shape (num, dim)
 
         """
-        self._values = util.fix_dimensions_data(values, self._dim)
-        self._discard_kdtree()
-        if self._values.shape[1] != self._dim:
+        values = util.fix_dimensions_data(values, self._dim)
+        if len(values.shape) != 2 or values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values = values
+        self._discard_kdtree()
 
     def get_values(self):
         """
@@ -1108,10 +1109,10 @@ class sample_set_base(object):
         :type values_local: :class:`numpy.ndarray` of shape (local_num, dim)
 
         """
-        self._values_local = util.fix_dimensions_data(values_local, self._dim)
-        if len(self._values_local.shape) > 1 and \
-                self._values_local.shape[1] != self._dim:
+        values_local = util.fix_dimensions_data(values_local, self._dim)
+        if len(values_local.shape) != 2 or values_local.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values_local = values_local
 
     def _discard_kdtree(self):
         """
-- 
2.43.0


From 04223f121b90a5c926bd416e89534460125dc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 58/61] fix: domains of a wrong shape are refused

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index d9f13e4..4052482 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -856,7 +856,7 @@ class sample_set_base(object):
         :type domain: :class:`numpy.ndarray` of shape (dim, 2)
 
         """
-        if (domain.shape[0], 2) != (self._dim, 2):
+        if domain.shape != (self._dim, 2):
             raise dim_not_matching("dimension of values incorrect")
         else:
             self._domain = domain
-- 
2.43.0


From 6a36c496ca08f9bb5571a737b8ed9d7531c59dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 59/61] fix: domains given as lists of intervals

---
 bet/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 162f3d2..d44a1fa 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -162,11 +162,8 @@ def fix_dimensions_domain(domain):
 
     """
     if not isinstance(domain, np.ndarray):
-        if len(domain) == 2:
-            domain = np.expand_dims(domain, axis=0)
-        else:
-            raise TypeError("The length must be at least 2.")
-    elif len(domain.shape) == 1 and domain.shape[0] == 2:
+        domain = np.array(domain)
+    if len(domain.shape) == 1 and domain.shape[0] == 2:
         domain = np.expand_dims(domain, axis=0)
     elif len(domain.shape) == 2 and domain.shape[1] == 2:
         pass  # The shape is already correct!
-- 
2.43.0


From 214ec1341093c5d4fbe76082f65d42c9772546c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 60/61] fix: cleaning data does not change the caller's data

---
 bet/util.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index d44a1fa..dc1ddd3 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -11,7 +11,6 @@ important methods are:
 
 """
 
-import sys
 import collections.abc
 import os
 import re
@@ -217,10 +216,7 @@ def clean_data(data):
     :returns: array of shape (data.shape)
 
     """
-    data[np.isnan(data)] = 0.0
-    data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
-
-    return data
+    return np.nan_to_num(data)
 
 
 def save_object(save_set, file_name, globalize=True):
-- 
2.43.0


From caff6962bca651d1c47bc32ce36c480f7afc1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:04 +0000
Subject: [PATCH 61/61] fix: pairwise distances in the local volume estimate
 are taken in the set's norm

estimate_local_volume raised TypeError whenever a cell had no estimated radius:
pdist was given the order of the norm without the metric.
---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 4052482..ace5bf9 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1759,11 +1759,11 @@ class voronoi_sample_set(sample_set_base):
         if np.sum(sample_radii <= 0) > 0:
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
-                pairwise_distance = spatial.distance.pdist(samples,
+                pairwise_distance = spatial.distance.pdist(samples, 'minkowski',
                                                            p=self._p_norm)
             else:
                 pairwise_distance = spatial.distance.pdist(samples,
-                                                           p='chebyshev')
+                                                           'chebyshev')
             pairwise_distance = spatial.distance.squareform(pairwise_distance)
             pairwise_distance_ma = np.ma.masked_less_equal(pairwise_distance,
                                                            0.)
-- 
2.43.0

