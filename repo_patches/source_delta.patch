From 182f9bb9ac6cf3f65850566473e2a5d6b6bb369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 01/93] fix: CDMD and RDMD crashed with tikhonov_regularization

The norm used by the regularization was never computed for the compressed
operator.
---
 pydmd/cdmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 973b22e..ea3fc22 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -79,6 +79,8 @@ class CDMDOperator(DMDOperator):
 
         U, s, V = compute_svd(compressedX, svd_rank=self._svd_rank)
 
+        if self._tikhonov_regularization is not None:
+            self._norm_X = np.linalg.norm(compressedX)
         atilde = self._least_square_operator(U, s, V, compressedY)
 
         if self._forward_backward:
-- 
2.43.0


From 3122e52039fda569d6add26c52ed71d58321223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 02/93] fix: rescale_mode='auto' used the factors of the first
 fit for all later fits

---
 pydmd/dmdoperator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..db42957 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -54,6 +54,10 @@ class DMDOperator:
     ):
         self._exact = exact
         self._rescale_mode = rescale_mode
+        # if True, the factors in _rescale_mode are updated at each fit
+        self._auto_rescale = (
+            isinstance(rescale_mode, str) and rescale_mode == "auto"
+        )
         self._svd_rank = svd_rank
         self._forward_backward = forward_backward
         self._sorted_eigs = sorted_eigs
@@ -90,7 +94,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+        if self._auto_rescale:
             self._rescale_mode = s
 
         self._Atilde = atilde
-- 
2.43.0


From dd367202179d7e905310632ecc1b87edd00a51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:39 +0000
Subject: [PATCH 03/93] fix: rescale_mode='auto' was rejected by CDMD, RDMD and
 SubspaceDMD

The documented value raised ValueError at fit.
---
 pydmd/cdmd.py        | 3 +++
 pydmd/subspacedmd.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index ea3fc22..69c66ce 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -89,6 +89,9 @@ class CDMDOperator(DMDOperator):
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
+        if self._auto_rescale:
+            self._rescale_mode = s
+
         self._Atilde = atilde
         self._compute_eigenquantities()
         self._compute_modes(nonCompressedY, U, s, V)
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0818e1b..34be285 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -91,6 +91,8 @@ class SubspaceDMDOperator(DMDOperator):
         U, S, V = reducedsvd(Uq1)
 
         self._Atilde = self._least_square_operator(U, S, V, Uq2)
+        if self._auto_rescale:
+            self._rescale_mode = S
         self._compute_eigenquantities()
 
         M = Uq2.dot(V) * np.reciprocal(S)
-- 
2.43.0


From 2e8289bda63ff4d8f463b1dd836bd7962ce919fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:07 +0000
Subject: [PATCH 04/93] fix: SubspaceDMD(opt=True) raised AttributeError at fit

---
 pydmd/subspacedmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 34be285..747b393 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -159,6 +159,7 @@ class SubspaceDMD(DMDBase):
         self._original_time = None
         self._dmd_time = None
         self._opt = opt
+        self._exact = True
 
         self._b = None
         self._snapshots_holder = None
-- 
2.43.0


From 51a15d889114195b915c7ec8a7224a3c70cbc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:07 +0000
Subject: [PATCH 05/93] fix: OptDMD with factorization='evd' could not predict

predict() read an attribute which does not exist and used the eigenvalues in
place of the left eigenvectors; the pseudo-inverse of a complex diagonal lost
the imaginary part and dropped entries with negative real part, such that modes
with such eigenvalues were zero.
---
 pydmd/optdmd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 0ed6527..5ac779a 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -30,9 +30,10 @@ def pinv_diag(x):
     factor = {"f": 1e2, "d": 1e4}
     rcond = factor[t] * np.finfo(t).eps
 
-    y = np.zeros(*x.shape)
+    y = np.zeros_like(x)
 
-    y[x > rcond] = np.reciprocal(x[x > rcond])
+    nonzero = np.abs(x) > rcond
+    y[nonzero] = np.reciprocal(x[nonzero])
 
     return np.diag(y)
 
@@ -124,7 +125,7 @@ class DMDOptOperator(DMDOperator):
 
         # --> Rescale the left eigenvectors.
         m = np.diag(left_vecs.T.conj().dot(right_vecs))
-        left_vecs = left_vecs.dot(pinv_diag(m))
+        left_vecs = left_vecs.dot(pinv_diag(m.conj()))
 
         self._eigenvalues = vals
         self._eigenvectors = left_vecs
@@ -228,7 +229,7 @@ class OptDMD(DMDBase):
 
         elif self.factorization == "evd":
             # --> Compute DMD eigenvalues and right/left eigenvectors
-            self._input_space = self.eigs
+            self._input_space = self.operator.eigenvectors
             self._output_space = self.operator.right_eigenvectors
 
         return self
@@ -249,7 +250,7 @@ class OptDMD(DMDBase):
             Y = np.linalg.multi_dot(
                 [
                     self._output_space,
-                    np.diag(self._eigs),
+                    np.diag(self.eigs),
                     self._input_space.T.conj(),
                     X,
                 ]
-- 
2.43.0


From 67284c300423b58d1575c55e4658f3b2789e0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:04 +0000
Subject: [PATCH 06/93] fix: EDMD.eigenfunctions failed after a fit on
 sequential snapshots

---
 pydmd/edmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index b4374d8..63f2546 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -259,9 +259,12 @@ class EDMD(DMD):
         if not isinstance(x, np.ndarray) or np.ndim(x) != 1:
             raise ValueError("Input x must be a 1-D numpy array.")
 
+        # without left-hand side data, the last snapshot is not part of the
+        # right-hand side data used to compute the model
+        X = self.snapshots if self.snapshots_y is not None else self.snapshots[:, :-1]
         K_xx = pairwise_kernels(
             x[None],
-            self.snapshots.T,
+            X.T,
             self._kernel_metric,
             **self._kernel_params,
         )
-- 
2.43.0


From 40498f91b78f2e41a5edddf9423fe53bef6af873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 07/93] fix: NumPy integers were ignored as truncation rank,
 and rounding could exceed the available rank

---
 pydmd/edmd.py  | 4 +++-
 pydmd/utils.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index 63f2546..c8e0d03 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -172,7 +172,9 @@ class EDMDOperator(DMDOperator):
         if 0 < self._svd_rank < 1:
             cumulative_energy = np.cumsum(s**2 / (s**2).sum())
             return np.searchsorted(cumulative_energy, self._svd_rank) + 1
-        elif self._svd_rank >= 1 and isinstance(self._svd_rank, int):
+        elif self._svd_rank >= 1 and isinstance(
+            self._svd_rank, (int, np.integer)
+        ):
             return min(self._svd_rank, len(s))
         else:
             return len(s)
diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..78944ac 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -82,8 +82,11 @@ def _compute_rank(
         rank = _svht(sigma_svd, rows, cols)
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
-        rank = np.searchsorted(cumulative_energy, svd_rank) + 1
-    elif svd_rank >= 1 and isinstance(svd_rank, int):
+        # rounding may leave the total energy slightly below 1
+        rank = min(
+            np.searchsorted(cumulative_energy, svd_rank) + 1, sigma_svd.size
+        )
+    elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
         rank = min(rows, cols)
-- 
2.43.0


From 91326d42fbba71b3c24f82a14849fe1f7696d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 08/93] fix: HAVOK.compute_threshold failed for integer p

---
 pydmd/havok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..3fe8efd 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -565,7 +565,7 @@ class HAVOK:
             # Use Gaussian intersection.
             a = gauss - hy
             sgn = np.sign(a)
-            ind_signchange = np.where(sgn(a[:-1]) * sgn(a[1:]) > 0)[0]
+            ind_signchange = np.where(sgn[:-1] * sgn[1:] < 0)[0]
             thres_1 = np.abs(hx[ind_signchange])
             thres_2 = np.abs(hx[ind_signchange + 1])
             threshold_candidates = np.sort(0.5 * (thres_1 + thres_2))
-- 
2.43.0


From 3225a9d7da06cb7070ceb0ab0d5614b203b67a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:38 +0000
Subject: [PATCH 09/93] fix: HAVOK evolved the initial condition from time 0
 instead of from the first requested time

---
 pydmd/havok.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3fe8efd..c87d1c8 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -790,11 +790,13 @@ class HAVOK:
         D = 0.0 * self.B
         havok_system = StateSpace(self.A, self.B, C, D)
 
-        # Reconstruct the linear dynamics using the HAVOK system.
+        # Reconstruct the linear dynamics using the HAVOK system. Note that
+        # V0 is the state at the first time in the array of times.
+        time = np.asarray(time)
         embeddings = lsim(
             havok_system,
             U=forcing,
-            T=time,
+            T=time - time[0],
             X0=V0,
         )[1]
 
-- 
2.43.0


From e2055d9d37fd698515a6eafc89ffba1cdfeac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 10/93] fix: HAVOK could not reconstruct with a single linear
 coordinate

---
 pydmd/havok.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index c87d1c8..d4df27a 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -800,7 +800,8 @@ class HAVOK:
             X0=V0,
         )[1]
 
-        return embeddings
+        # lsim squeezes its output if there is a single linear coordinate.
+        return embeddings.reshape(len(time), -1)
 
     def _embeddings_to_original(self, V):
         """
-- 
2.43.0


From e044c683022da51255d4eb513608837b8655ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 11/93] fix: indexing a DMD instance with NumPy integers or
 integer arrays was refused

---
 pydmd/dmdbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..b38e2a7 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -511,8 +511,8 @@ class DMDBase:
         :rtype: DMDBase
         """
 
-        if isinstance(key, (slice, int, list, np.ndarray)):
-            filter_function = lambda x: isinstance(x, int)
+        if isinstance(key, (slice, int, np.integer, list, np.ndarray)):
+            filter_function = lambda x: isinstance(x, (int, np.integer))
 
             if isinstance(key, (list, np.ndarray)):
                 if not all(map(filter_function, key)):
-- 
2.43.0


From be35033c02752cbdadcac2180d56360fcc045cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 12/93] fix: indexing a DMD instance ignored pending edits and
 let the copy overwrite the original's modes

---
 pydmd/dmdbase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index b38e2a7..94fb17b 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -533,7 +533,11 @@ class DMDBase:
         mask[key] = True
 
         shallow_copy = copy(self)
-        shallow_copy._allocate_modes_bitmask_proxy()
+        # the copy needs the current values of modes, eigenvalues and
+        # amplitudes, and must not propagate changes to those of this instance
+        shallow_copy._modes_activation_bitmask_proxy = deepcopy(
+            self._modes_activation_bitmask_proxy
+        )
         shallow_copy.modes_activation_bitmask = mask
 
         return shallow_copy
-- 
2.43.0


From edc65afdf1f8cf8a4b70778c337451cfedfd8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:42 +0000
Subject: [PATCH 13/93] fix: select_modes hid the wrong modes when some modes
 were already disabled

---
 pydmd/dmd_modes_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..8e89b64 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -69,7 +69,8 @@ def select_modes(
 
     if len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
+        # `cut_indexes` refers to the modes which are currently active
+        tmp[np.where(tmp)[0][cut_indexes]] = False
         dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
-- 
2.43.0


From 3fcb1580c5a45560c9732665fdbc5471c945e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:42 +0000
Subject: [PATCH 14/93] fix: select_modes ignored nullify_amplitudes

---
 pydmd/dmd_modes_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 8e89b64..a427613 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -67,7 +67,9 @@ def select_modes(
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
-    if len(cut_indexes) > 0:
+    if len(cut_indexes) > 0 and nullify_amplitudes:
+        dmd.amplitudes[cut_indexes] = 0
+    elif len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
         # `cut_indexes` refers to the modes which are currently active
         tmp[np.where(tmp)[0][cut_indexes]] = False
-- 
2.43.0


From 8cc1cac82afa9494e1eb077243b5a80f314128fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:42 +0000
Subject: [PATCH 15/93] fix: integral_contribution(0) kept every mode and a
 failure left the time window replaced

---
 pydmd/dmd_modes_tuner.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index a427613..6aee78f 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -340,11 +340,12 @@ and `max_distance_from_unity_outside` can be not `None`"""
         temp = dmd.dmd_time
         dmd._dmd_time = dmd.original_time
 
-        dynamics = dmd.dynamics
-        modes = dmd.modes
-
-        # reset dmd_time
-        dmd._dmd_time = temp
+        try:
+            dynamics = dmd.dynamics
+            modes = dmd.modes
+        finally:
+            # reset dmd_time
+            dmd._dmd_time = temp
 
         n_of_modes = modes.shape[1]
         integral_contributions = [
@@ -352,7 +353,7 @@ and `max_distance_from_unity_outside` can be not `None`"""
             for tp in zip(modes.T, dynamics)
         ]
 
-        indexes_first_n = np.array(integral_contributions).argsort()[-n:]
+        indexes_first_n = np.array(integral_contributions).argsort()[::-1][:n]
 
         truefalse_array = np.array([False for _ in range(n_of_modes)])
         truefalse_array[indexes_first_n] = True
-- 
2.43.0


From 4e7fbbe558a2b266350d290496ff091b03b3d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 16/93] fix: mode selectors excluded their documented inclusive
 bounds and refused a zero distance

---
 pydmd/dmd_modes_tuner.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 6aee78f..e215584 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -182,8 +182,8 @@ class ModesSelectors:
         eigs_module = np.abs(dmd.eigs)
 
         return np.logical_and(
-            eigs_module < up_threshold,
-            eigs_module > low_threshold,
+            eigs_module <= up_threshold,
+            eigs_module >= low_threshold,
         )
 
     @staticmethod
@@ -278,18 +278,24 @@ class ModesSelectors:
             the criteria of stability.
         """
 
-        if max_distance_from_unity and max_distance_from_unity_inside:
+        if (
+            max_distance_from_unity is not None
+            and max_distance_from_unity_inside is not None
+        ):
             raise ValueError(
                 """Only one between `max_distance_from_unity`
 and `max_distance_from_unity_inside` can be not `None`"""
             )
-        if max_distance_from_unity and max_distance_from_unity_outside:
+        if (
+            max_distance_from_unity is not None
+            and max_distance_from_unity_outside is not None
+        ):
             raise ValueError(
                 """Only one between `max_distance_from_unity`
 and `max_distance_from_unity_outside` can be not `None`"""
             )
 
-        if max_distance_from_unity:
+        if max_distance_from_unity is not None:
             max_distance_from_unity_outside = max_distance_from_unity
             max_distance_from_unity_inside = max_distance_from_unity
 
-- 
2.43.0


From 914339052bebea9740ffc7eb11febf781cf3a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:39 +0000
Subject: [PATCH 17/93] fix: rounding of fractional time steps added an extra
 instant to the time windows

---
 pydmd/dmdbase.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 94fb17b..53eb1a5 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -196,6 +196,20 @@ class DMDBase:
 
         self._modes_activation_bitmask_proxy = None
 
+    @staticmethod
+    def _timesteps(time_dict):
+        """
+        Get the time instants described by a time dictionary.
+
+        :param dict time_dict: a dictionary like :func:`dmd_time`.
+        :return: the time instants from `t0` to `tend`.
+        :rtype: numpy.ndarray
+        """
+        t0, tend, dt = (time_dict[key] for key in ("t0", "tend", "dt"))
+        # rounding errors must not add (or remove) an instant
+        n_steps = np.ceil(np.round((tend - t0) / dt, 6))
+        return t0 + dt * np.arange(n_steps + 1, dtype=int)
+
     @property
     def dmd_timesteps(self):
         """
@@ -204,11 +218,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.dmd_time["t0"],
-            self.dmd_time["tend"] + self.dmd_time["dt"],
-            self.dmd_time["dt"],
-        )
+        return self._timesteps(self.dmd_time)
 
     @property
     def original_timesteps(self):
@@ -218,11 +228,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.original_time["t0"],
-            self.original_time["tend"] + self.original_time["dt"],
-            self.original_time["dt"],
-        )
+        return self._timesteps(self.original_time)
 
     @property
     def modes(self):
-- 
2.43.0


From 926c22b51b1408bd17f29e85b440634c661ea256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:39 +0000
Subject: [PATCH 18/93] fix: an indexed DMD instance shared its time windows
 with the original

---
 pydmd/dmdbase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 53eb1a5..595aace 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -545,6 +545,10 @@ class DMDBase:
             self._modes_activation_bitmask_proxy
         )
         shallow_copy.modes_activation_bitmask = mask
+        # the time windows are edited in place
+        if getattr(self, "_original_time", None) is not None:
+            shallow_copy._original_time = deepcopy(self._original_time)
+            shallow_copy._dmd_time = deepcopy(self._dmd_time)
 
         return shallow_copy
 
-- 
2.43.0


From 59c29a647207981abe846b24b89f24f37fe3f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:51 +0000
Subject: [PATCH 19/93] fix: RDMD reused the random test matrix of the first
 fit for all later fits

---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 2798ebdd4dd404710964109e3ad5e76864689559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:51 +0000
Subject: [PATCH 20/93] fix: VarProDMD kept the modes, eigenvalues and mask of
 an earlier fit

---
 pydmd/varprodmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..f3c6803 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -699,6 +699,8 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
+
         self._snapshots_holder = Snapshots(X)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
-- 
2.43.0


From ab56f57622fbc620350aa7bc6c66b47ebe0648f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:06 +0000
Subject: [PATCH 21/93] fix: VarProDMD failed when compression left fewer than
 two samples

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index f3c6803..3ad783f 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -392,7 +392,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-            indices = np.arange(res[2])
+            indices = np.arange(res[2].shape[-1])
 
     else:
         indices = np.arange(res[2].shape[-1])
-- 
2.43.0


From 14f6d18bea293437467b5157ba184b407fb79fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:06 +0000
Subject: [PATCH 22/93] fix: VarProDMD.forecast ignored disabled and edited
 modes

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 3ad783f..85aef1a 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -725,7 +725,7 @@ class VarProDMD(DMDBase):
             raise ValueError("Nothing fitted yet. Call fit-method first!")
 
         return varprodmd_predict(
-            self._Atilde.modes, self._Atilde.eigenvalues, self._b, time
+            self.modes, self.eigs, self.amplitudes, time
         )
 
     @property
-- 
2.43.0


From c3a18ba1fe5b4ed6ce7a3137fe32f20c68e7df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:56 +0000
Subject: [PATCH 23/93] fix: LANDO reported stale modes, amplitudes or linear
 operator after a further analysis or update

---
 pydmd/lando.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..ff37ce4 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -271,6 +271,7 @@ class LANDOOperator(DMDOperator):
         kernel_grad = kernel_gradient(self._sparse_dictionary, fixed_point)
         kernel_grad = np.multiply(kernel_grad, x_rescale)
         U, s, V = compute_svd(kernel_grad.T, self._svd_rank)
+        self._A = None
         if compute_A:
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
@@ -820,6 +821,10 @@ class LANDO(DMDBase):
             msg = "Input fixed point must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
 
+        # Discard the results of previous fixed point analyses.
+        self._modes_activation_bitmask_proxy = None
+        self._b = None
+
         self._compute_A = compute_A
         self._fixed_point = fixed_point
         self._bias = self.f(fixed_point[..., None])
@@ -871,6 +876,8 @@ class LANDO(DMDBase):
 
         # If a fixed point analysis was already done, redo it.
         if self.fitted:
+            self._modes_activation_bitmask_proxy = None
+            self._b = None
             self._bias = self.f(self._fixed_point[..., None])
             self.operator.compute_linear_operator(
                 self._rescale(self._fixed_point.flatten()),
-- 
2.43.0


From 76fe59e242151b0a53228dcce7c33e62f902d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 24/93] fix: LANDO kept the fixed point analysis of an earlier
 fit

---
 pydmd/lando.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ff37ce4..8a29135 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -250,6 +250,16 @@ class LANDOOperator(DMDOperator):
             else:  # use the pseudo-inverse
                 self._weights = Y.dot(np.linalg.pinv(K_mat))
 
+    def reset_linear_operator(self):
+        """
+        Discard the results of the last call to `compute_linear_operator`.
+        """
+        self._eigenvalues = None
+        self._eigenvectors = None
+        self._modes = None
+        self._Atilde = None
+        self._A = None
+
     def compute_linear_operator(
         self, fixed_point, compute_A, kernel_gradient, x_rescale
     ):
@@ -768,6 +778,9 @@ class LANDO(DMDBase):
         :type Y: numpy.ndarray or iterable
         """
         self._reset()
+        self.operator.reset_linear_operator()
+        self._fixed_point = None
+        self._bias = None
         self._snapshots_holder = Snapshots(X)
         self._check_x_rescale()
 
-- 
2.43.0


From b8373894038b0bd155e11bddba1d2dd184b349b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:42 +0000
Subject: [PATCH 25/93] fix: LANDO with an array x_rescale could not be fitted
 twice on multi-dimensional snapshots

---
 pydmd/lando.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 8a29135..7911ad5 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -512,7 +512,8 @@ class LANDO(DMDBase):
             lstsq=lstsq,
         )
 
-        # Keep track of the data rescaling factor.
+        # Keep track of the data rescaling factor (as given, and flattened).
+        self._x_rescale_input = x_rescale
         self._x_rescale = x_rescale
 
         # Keep track of the last fixed point analysis.
@@ -992,16 +993,17 @@ class LANDO(DMDBase):
         or a numpy array. Also ensures that if `x_rescale` is an array, then it
         must possess the same shape as the flattened input snapshots.
         """
-        if not isinstance(self._x_rescale, (int, float, np.ndarray)):
+        x_rescale = self._x_rescale_input
+        if not isinstance(x_rescale, (int, float, np.ndarray)):
             raise TypeError("x_rescale must be a float or a numpy array.")
-        if isinstance(self._x_rescale, np.ndarray):
-            if self._x_rescale.shape != self.snapshots_shape:
+        if isinstance(x_rescale, np.ndarray):
+            if x_rescale.shape != self.snapshots_shape:
                 msg = (
                     "If a numpy array, x_rescale must have the "
                     "same shape {} as the input features X."
                 )
                 raise ValueError(msg.format(self.snapshots_shape))
-            self._x_rescale = self._x_rescale.flatten()
+            self._x_rescale = x_rescale.flatten()
 
     def _test_kernel_inputs(self, kernel_metric, kernel_params):
         """
-- 
2.43.0


From 6abccd98dbe56673e038295946340d00ac77ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:55 +0000
Subject: [PATCH 26/93] fix: LANDO.predict failed for multi-dimensional
 snapshots and could return one point too many

---
 pydmd/lando.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 7911ad5..e2785e4 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -935,16 +935,17 @@ class LANDO(DMDBase):
             msg = "Input initial condition must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
         x0 = x0.flatten()
+        state_shape = (*self.snapshots_shape, 1)
 
         if continuous:
 
             def ode_sys(xt, x):
-                return self.f(x[..., None]).flatten()
+                return self.f(x.reshape(state_shape)).flatten()
 
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
 
-            t_eval = np.arange(0, tend * dt, dt)
+            t_eval = dt * np.arange(tend)
 
             sol = solve_ivp(
                 ode_sys,
@@ -960,7 +961,7 @@ class LANDO(DMDBase):
         Y = np.empty((len(x0), tend))
         Y[:, 0] = x0
         for i in range(tend - 1):
-            Y[:, i + 1] = self.f(Y[:, i][..., None]).flatten()
+            Y[:, i + 1] = self.f(Y[:, i].reshape(state_shape)).flatten()
 
         return Y
 
-- 
2.43.0


From fd356a9139a9de679de1848d45853aa1b7eae1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 27/93] fix: the gradient of the RBF kernel in LANDO had the
 wrong sign

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index e2785e4..31fe663 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -594,7 +594,7 @@ class LANDO(DMDBase):
         # Kernel metric is RBF.
         centered_X = X - y[..., None]
         return np.diag(
-            -2
+            2
             * gamma
             * np.exp(-gamma * np.linalg.norm(centered_X, 2, axis=0) ** 2)
         ).dot(centered_X.T)
-- 
2.43.0


From 9e07dbe52eeceb73e62dc88690ee6d475040cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:18 +0000
Subject: [PATCH 28/93] fix: BOPDMD with the 'stable' constraint overwrote the
 given init_alpha

---
 pydmd/bopdmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..0d9dba4 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -349,7 +349,9 @@ class BOPDMDOperator(DMDOperator):
 
         if "stable" in self._eig_constraints:
             right_half = eigenvalues.real > 0.0
-            eigenvalues[right_half] = 1j * eigenvalues[right_half].imag
+            eigenvalues = np.where(
+                right_half, 1j * eigenvalues.imag, eigenvalues
+            )
         elif "imag" in self._eig_constraints:
             eigenvalues = 1j * eigenvalues.imag
 
-- 
2.43.0


From 99d5f9ff625262e3a6ef87174eeda6bd17c5968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:21 +0000
Subject: [PATCH 29/93] fix: BOPDMD reused the rank, initial eigenvalues and
 projection basis of an earlier fit

---
 pydmd/bopdmd.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 0d9dba4..1e7d56c 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1045,11 +1045,11 @@ class BOPDMD(DMDBase):
         bag_maxfail=200,
         varpro_opts_dict=None,
     ):
-        self._svd_rank = svd_rank
+        self.svd_rank = svd_rank
         self._compute_A = compute_A
         self._use_proj = use_proj
-        self._init_alpha = init_alpha
-        self._proj_basis = proj_basis
+        self.init_alpha = init_alpha
+        self.proj_basis = proj_basis
         self._num_trials = num_trials
         self._trial_size = trial_size
         self._eig_sort = eig_sort
@@ -1098,6 +1098,7 @@ class BOPDMD(DMDBase):
     @svd_rank.setter
     def svd_rank(self, value):
         self._svd_rank = value
+        self._svd_rank_input = value
 
     @property
     def compute_A(self):
@@ -1136,6 +1137,7 @@ class BOPDMD(DMDBase):
         :param value: The new eigenvalue guess.
         """
         self._init_alpha = value
+        self._init_alpha_input = value
 
     @property
     def proj_basis(self):
@@ -1158,6 +1160,7 @@ class BOPDMD(DMDBase):
         :param new_proj_basis: The new projection basis to assign.
         """
         self._proj_basis = new_proj_basis
+        self._proj_basis_input = new_proj_basis
 
     @property
     def num_trials(self):
@@ -1353,6 +1356,15 @@ class BOPDMD(DMDBase):
                     msg = "Invalid eigenvalue constraint combination provided."
                     raise ValueError(msg)
 
+    def _restore_inputs(self):
+        """
+        Discard the rank, the initial eigenvalues and the projection basis
+        which were computed from the data used in the last call to `fit`.
+        """
+        self._svd_rank = self._svd_rank_input
+        self._init_alpha = self._init_alpha_input
+        self._proj_basis = self._proj_basis_input
+
     def _initialize_alpha(self, s=None, V=None):
         """
         Uses projected trapezoidal rule to approximate the eigenvalues of A in
@@ -1405,6 +1417,7 @@ class BOPDMD(DMDBase):
         """
         # Process the input data and convert to numpy.ndarrays.
         self._reset()
+        self._restore_inputs()
         self._snapshots_holder = Snapshots(X)
         self._time = np.array(t).squeeze()
 
@@ -1496,6 +1509,7 @@ class BOPDMD(DMDBase):
         :type t: numpy.ndarray
         """
         self._reset()
+        self._restore_inputs()
         self._time = np.asarray(t).squeeze()
         s = np.asarray(s).squeeze()
 
-- 
2.43.0


From 6c79e127d262d4fee748b68b23bd5bf5305b0d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:35 +0000
Subject: [PATCH 30/93] fix: MrDMD kept the reduced number of levels of a short
 record for all later fits

---
 pydmd/mrdmd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..704bdb5 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,6 +76,7 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self.max_level = max_level
+        self._requested_level = max_level
         self._build_tree()
 
     def __iter__(self):
@@ -482,9 +483,11 @@ Expected one item per level, got {} out of {} levels.""".format(
         lvl_threshold = (
             int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
         )
-        if self.max_level > lvl_threshold:
-            self.max_level = lvl_threshold
+        max_level = min(self._requested_level, lvl_threshold)
+        if self.max_level != max_level:
+            self.max_level = max_level
             self._build_tree()
+        if self._requested_level > lvl_threshold:
             print(
                 "Too many levels... "
                 "Redefining `max_level` to {}".format(self.max_level)
-- 
2.43.0


From 80fb695a195efc5d0bdbfbe5f3f5beb53810209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 31/93] fix: MrDMD truncated the residuals of integer snapshots

---
 pydmd/mrdmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 704bdb5..51f313d 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -496,7 +496,8 @@ Expected one item per level, got {} out of {} levels.""".format(
         def slow_modes(dmd, rho):
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
-        X = self.snapshots.copy()
+        # residuals of integer snapshots must not be truncated
+        X = self.snapshots.astype(np.result_type(self.snapshots, np.float32))
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0


From e2e5ff9fd305858250b1b56fdeda97a3085c7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 32/93] fix: HankelDMD windows with another start, step or
 beginning before the first snapshot were wrong

---
 pydmd/hankeldmd.py | 59 +++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..060f786 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -127,12 +127,25 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
-        return max(
-            0,
-            (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
+        return max(0, self._snapshot_index(time) - (self._d - 1))
+
+    def _snapshot_index(self, time):
+        """
+        Position of the given time instant(s) in the sequence of the original
+        snapshots (it is not an integer if the instant is between two of them).
+        """
+        # rounding errors must not move an instant to the previous snapshot
+        return np.round(
+            (time - self.original_time["t0"]) / self.original_time["dt"], 6
         )
 
+    def _hankel_row_block(self, index):
+        """
+        Row block of the first column in Hankel pseudo matrix which contains
+        the given snapshot index.
+        """
+        return int(np.clip(np.floor(index), 0, self._d - 1))
+
     def _update_sub_dmd_time(self):
         """
         Update the time dictionaries (`dmd_time` and `original_time`) of
@@ -140,28 +153,32 @@ class HankelDMD(DMDBase):
         time dictionaries of the time dictionaries of this instance of the
         higher level instance of `HankelDMD`.
         """
-        self._sub_dmd.dmd_time["t0"] = self._hankel_first_occurrence(
-            self.dmd_time["t0"]
-        )
-        self._sub_dmd.dmd_time["tend"] = self._hankel_first_occurrence(
-            self.dmd_time["tend"]
-        )
+        indexes = self._snapshot_index(self.dmd_timesteps)
+        self._set_sub_dmd_window(indexes[0], indexes[-1])
+
+    def _set_sub_dmd_window(self, first, last):
+        for key, index in (("t0", first), ("tend", last)):
+            self._sub_dmd.dmd_time[key] = index - self._hankel_row_block(index)
 
     @property
     def reconstructed_data(self):
-        self._update_sub_dmd_time()
+        indexes = self._snapshot_index(self.dmd_timesteps)
+        stride = self.dmd_time["dt"] / self.original_time["dt"]
 
         # we want to return only the requested timesteps
-        time_index = min(
-            self._d - 1,
-            int(
-                (self.dmd_time["t0"] - self.original_time["t0"])
-                // self.dmd_time["dt"]
-            ),
-        )
-        return self._sub_dmd.reconstructed_data[
-            :, time_index : time_index + len(self.dmd_timesteps)
-        ]
+        if np.isclose(stride, np.rint(stride), rtol=0, atol=1.0e-6):
+            self._update_sub_dmd_time()
+            row = self._hankel_row_block(indexes[0])
+            columns = row + int(np.rint(stride)) * np.arange(len(indexes))
+            return self._sub_dmd.reconstructed_data[:, columns]
+
+        # the requested timesteps do not lie on a common grid
+        columns = []
+        for index in indexes:
+            self._set_sub_dmd_window(index, index)
+            row = self._hankel_row_block(index)
+            columns.append(self._sub_dmd.reconstructed_data[:, row])
+        return np.stack(columns, axis=1)
 
     @property
     def modes(self):
-- 
2.43.0


From d78e93c6572557940a2e1965151fda6b6c0e6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 33/93] fix: HankelDMD failed on lists and scrambled
 multi-dimensional snapshots

---
 pydmd/hankeldmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 060f786..3fffc79 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -239,7 +239,7 @@ class HankelDMD(DMDBase):
 Expected at least d."""
             raise ValueError(msg.format(self._d))
 
-        self._sub_dmd.fit(X)
+        self._sub_dmd.fit(self.snapshots)
 
         # Default timesteps
         self._set_initial_time_dictionary(
-- 
2.43.0


From a5609089a77a28ab647bf82904f258178c5b4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 34/93] fix: svd_projection_preprocessing projected complex
 snapshots on the conjugate basis

---
 pydmd/preprocessing/svd_projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/svd_projection.py b/pydmd/preprocessing/svd_projection.py
index 7c6dc08..2d4bff3 100644
--- a/pydmd/preprocessing/svd_projection.py
+++ b/pydmd/preprocessing/svd_projection.py
@@ -52,7 +52,7 @@ class _SvdProjectionPrePostProcessing(PrePostProcessing):
             svd_rank = self._svd_rank
         projection_matrix, _, _ = compute_svd(X, svd_rank)
 
-        return projection_matrix, projection_matrix.T.dot(X)
+        return projection_matrix, projection_matrix.conj().T.dot(X)
 
     @override
     def post_processing(
-- 
2.43.0


From 3cc546cedb782f9577e66c2525545224cb139687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 35/93] fix: fit of a pre-processed DMD returned the wrapped
 instance, without the post-processing

---
 pydmd/preprocessing/pre_post_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..2d6e638 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,7 +98,8 @@ class PrePostProcessingDMD(Generic[S]):
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        self._dmd.fit(*new_args, **new_kwargs)
+        return self
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From bfdf99d03697fd81e837e7c4ab987c03102f65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 36/93] fix: assigning dmd_time to a pre-processed DMD had no
 effect

---
 pydmd/preprocessing/pre_post_processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 2d6e638..a951e88 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -90,6 +90,14 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    @property
+    def dmd_time(self):
+        return self._dmd.dmd_time
+
+    @dmd_time.setter
+    def dmd_time(self, value):
+        self._dmd.dmd_time = value
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From d31fa79d3e0ba25af03001b58599abaf386890a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 37/93] fix: saving a pre-processed DMD lost the
 pre/post-processing

---
 pydmd/preprocessing/pre_post_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index a951e88..38ab1ec 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,6 +98,13 @@ class PrePostProcessingDMD(Generic[S]):
     def dmd_time(self, value):
         self._dmd.dmd_time = value
 
+    def save(self, fname):
+        """
+        Save this instance, including the pre/post-processing, to `fname`. See
+        :meth:`pydmd.DMDBase.save`.
+        """
+        DMDBase.save(self, fname)
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From c3fececeffa56e20c8d14c9ba4eee31828324a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:45 +0000
Subject: [PATCH 38/93] fix: COSTS and mrCOSTS wrote into the pydmd_kwargs of
 the caller and shared them between levels

---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..c3354fb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -125,7 +125,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..fa16ec8 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -95,7 +95,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
-- 
2.43.0


From 0f8e13be020be22a95d4d0c9fdfef484eb39cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:45 +0000
Subject: [PATCH 39/93] fix: COSTS with a global SVD searched new initial
 eigenvalues for every window

---
 pydmd/costs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c3354fb..694079d 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -599,7 +599,10 @@ class COSTS:
             self._time_array[k] = original_time_window
 
             # Reset optdmd between iterations
-            if not self._global_svd:
+            if self._global_svd:
+                # Use the initial value from the first window for all windows.
+                optdmd.init_alpha = optdmd.init_alpha
+            else:
                 # The default behavior is to reset the optdmd object to use
                 # the initial value from the first window.
                 if not self._use_last_freq and not self._reset_alpha_init:
-- 
2.43.0


From 02287b9c2fe74943b3ae60afed4009fab1bda2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 40/93] fix: COSTS reused the rank and initial eigenvalues
 found in an earlier fit

---
 pydmd/costs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 694079d..417e10e 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -92,6 +92,7 @@ class COSTS:
         self._window_length = None
         self._n_components = n_components
         self._svd_rank = svd_rank
+        self._requested_svd_rank = svd_rank
         self._global_svd = global_svd
         self._initialize_artificially = initialize_artificially
         self._use_last_freq = use_last_freq
@@ -457,6 +458,7 @@ class COSTS:
         # Prepare window and data properties.
         self._window_length = window_length
         self._step_size = step_size
+        self._svd_rank = self._requested_svd_rank
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         if not self._n_time_steps == time.size:
@@ -534,12 +536,12 @@ class COSTS:
         self._window_means_array = np.zeros((self._n_slides, self._n_data_vars))
 
         # Get initial values for the eigenvalues.
-        self._init_alpha = self._build_initialization()
+        init_alpha = self._build_initialization()
 
         # Initialize the BOPDMD object.
         optdmd = BOPDMD(
             svd_rank=self._svd_rank,
-            init_alpha=self._init_alpha,
+            init_alpha=init_alpha,
             **self._pydmd_kwargs,
         )
 
@@ -606,7 +608,7 @@ class COSTS:
                 # The default behavior is to reset the optdmd object to use
                 # the initial value from the first window.
                 if not self._use_last_freq and not self._reset_alpha_init:
-                    optdmd.init_alpha = self._init_alpha
+                    optdmd.init_alpha = init_alpha
                 # Use the eigenvalues from this window to seed the next window.
                 elif self._use_last_freq:
                     optdmd.init_alpha = optdmd.eigs
@@ -1526,6 +1528,7 @@ class COSTS:
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
+        self._requested_svd_rank = self._svd_rank
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 31c8cb6189a6a20b8e012bb78247e4aa373d0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 41/93] fix: COSTS and mrCOSTS kept the frequency classes of an
 earlier fit

---
 pydmd/costs.py   | 1 +
 pydmd/mrcosts.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 417e10e..094e216 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -459,6 +459,7 @@ class COSTS:
         self._window_length = window_length
         self._step_size = step_size
         self._svd_rank = self._requested_svd_rank
+        self._omega_classes = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         if not self._n_time_steps == time.size:
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fa16ec8..5696f8a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -302,6 +302,10 @@ class mrCOSTS:
             self._global_svd_array = [True] * n_decompositions
 
         self._costs_array = []
+        self._da_omega = None
+        self._omega_classes = None
+        self._cluster_centroids = None
+        self._n_components_global = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
-- 
2.43.0


From 907c507913ff767e9a2e5786786809326900c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 42/93] fix: COSTS could not export variable ranks and could
 not be clustered again after an import

---
 pydmd/costs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 094e216..866a1bb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1481,7 +1481,7 @@ class COSTS:
             coords={
                 "window_time_means": np.mean(self.time_array, axis=1),
                 "slide": ("window_time_means", np.arange(self._n_slides)),
-                "svd_rank": np.arange(self.svd_rank),
+                "svd_rank": np.arange(self.omega_array.shape[1]),
                 "space": np.arange(self._n_data_vars),
                 "frequency_band": np.arange(self.n_components),
                 "window_index": np.arange(self._window_length),
@@ -1530,6 +1530,7 @@ class COSTS:
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
         self._requested_svd_rank = self._svd_rank
+        self._svd_rank_pre_allocate = self._omega_array.shape[1]
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 9f394118a3d6b5afb001503370522a5a55567159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 43/93] fix: mrCOSTS could not be fitted twice with a cluster
 sweep and overwrote the given numbers of components

---
 pydmd/mrcosts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 5696f8a..3695071 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -59,6 +59,7 @@ class mrCOSTS:
         transform_method=None,
     ):
         self._n_components_array = n_components_array
+        self._requested_n_components_array = n_components_array
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
         self._svd_rank_array = svd_rank_array
@@ -287,6 +288,7 @@ class mrCOSTS:
         transform_method = self._transform_method
 
         # Check for the n_components array and cluster sweeping.
+        self._n_components_array = copy.copy(self._requested_n_components_array)
         if self._cluster_sweep:
             if self._n_components_array is not None:
                 raise ValueError(
-- 
2.43.0


From 2e09513585ee36a1a3b8116f381d46a1343ad5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 44/93] fix: mrCOSTS lost the transformation of the frequencies
 when loaded from file

---
 pydmd/mrcosts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 3695071..52252da 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -558,6 +558,7 @@ class mrCOSTS:
             global_svd_array=global_svd_array,
             pydmd_kwargs=pydmd_kwargs,
             n_components_array=n_components_array,
+            transform_method=mrd_list[0]._transform_method,
         )
 
         # Initialize variables that are defined in fitting.
-- 
2.43.0


From c15d2865df3a7bbdf57223f3be08ab51a8893058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 45/93] fix: mrCOSTS assigned the frequency classes of a
 neighbour to windows and ranks without fast frequencies

---
 pydmd/mrcosts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 52252da..f346308 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -430,7 +430,7 @@ class mrCOSTS:
         ds_list = [c.to_xarray() for c in self._costs_array]
         # Remove the low-frequency bands.
         da_to_concat = [
-            ds_list[0].omega.where(ds_list[0].omega_classes > 0, drop=True)
+            ds_list[0].omega.where(ds_list[0].omega_classes > 0)
         ]
 
         # Interpolate the larger decomposition levels to the timestep of the
@@ -442,7 +442,7 @@ class mrCOSTS:
         # prior to discovering this mistake, but is more explicit than the
         # previous version.
         for ds in ds_list[1:]:
-            da = ds.omega.where(ds.omega_classes > 0, drop=True)
+            da = ds.omega.where(ds.omega_classes > 0)
             da_real = da.real
             da_imag = da.imag
 
-- 
2.43.0


From 41a2ed3cf3621d5833f81920b8293c928f99aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 46/93] fix: DMDc refused a known input matrix given as a list

---
 pydmd/dmdc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 63572a8..f19857d 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -326,6 +326,7 @@ class DMDc(DMDBase):
                 X, Y, self._controlin
             )
         else:
+            B = np.asarray(B)
             self._Atilde = DMDBKnownOperator(**self._dmd_operator_kwargs)
             U, _, _ = self.operator.compute_operator(X, Y, B, self._controlin)
 
-- 
2.43.0


From f3a191cb940266ebe7cfba455dac13652dbe1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 47/93] fix: DMDc accepted a single control input for several
 snapshots when B is known

---
 pydmd/dmdc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index f19857d..69d0ea1 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -316,6 +316,13 @@ class DMDc(DMDBase):
         X = self.snapshots[:, : -self._lag]
         Y = self.snapshots[:, self._lag :]
 
+        if self._controlin.shape[-1] != X.shape[-1]:
+            raise ValueError(
+                "Expected {} control inputs, got {}.".format(
+                    X.shape[-1], self._controlin.shape[-1]
+                )
+            )
+
         self._set_initial_time_dictionary(
             {"t0": 0, "tend": n_samples - 1, "dt": 1}
         )
-- 
2.43.0


From 71d2215da75f38e2f92d7a41b66ac05cf7c28ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:04 +0000
Subject: [PATCH 48/93] fix: BOPDMD.forecast with bagging failed after fit_econ
 and for a single time

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 1e7d56c..5792add 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1612,7 +1612,7 @@ class BOPDMD(DMDBase):
         if self.operator.eigenvalues_std is not None:
             # Compute num_trials many forecasts.
             all_x = np.empty(
-                (self._num_trials, self.snapshots.shape[0], len(t)),
+                (self._num_trials, self.modes.shape[0], t.size),
                 dtype="complex",
             )
 
-- 
2.43.0


From 223f402cced1d97fd7f95d6988351bd53090429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:04 +0000
Subject: [PATCH 49/93] fix: BOPDMD.forecast with bagging failed when modes are
 disabled

---
 pydmd/bopdmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 5792add..939735b 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1620,11 +1620,11 @@ class BOPDMD(DMDBase):
                 # Draw eigenvalues and amplitudes from random distribution.
                 eigs_k = self.eigs + np.multiply(
                     np.random.randn(*self.eigs.shape),
-                    self.operator.eigenvalues_std,
+                    self.operator.eigenvalues_std[self.modes_activation_bitmask],
                 )
                 b_k = self.amplitudes + np.multiply(
                     np.random.randn(*self.amplitudes.shape),
-                    self.operator.amplitudes_std,
+                    self.operator.amplitudes_std[self.modes_activation_bitmask],
                 )
                 # Compute forecast using average modes and eigs_k, b_k.
                 all_x[k] = np.linalg.multi_dot(
-- 
2.43.0


From b1d11de5f544fd8de80f7ffc0552ce804dcacdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:09 +0000
Subject: [PATCH 50/93] fix: VarProDMD with the default optimiser options could
 not be saved or copied

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 85aef1a..781a3c9 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -675,7 +675,7 @@ class VarProDMD(DMDBase):
         # not used.
 
         if optargs is None:
-            optargs = OPT_DEF_ARGS
+            optargs = dict(OPT_DEF_ARGS)
 
         self._Atilde = VarProOperator(
             svd_rank, exact, sorted_eigs, compression, optargs
-- 
2.43.0


From 57866f4c6b8a296dcc64c3c17832826ebacd3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:25 +0000
Subject: [PATCH 51/93] fix: MrDMD decomposed 16 bit integer snapshots in
 single precision

---
 pydmd/mrdmd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 51f313d..835016b 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -497,7 +497,11 @@ Expected one item per level, got {} out of {} levels.""".format(
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
         # residuals of integer snapshots must not be truncated
-        X = self.snapshots.astype(np.result_type(self.snapshots, np.float32))
+        X = self.snapshots.astype(
+            self.snapshots.dtype
+            if np.issubdtype(self.snapshots.dtype, np.inexact)
+            else float
+        )
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0


From bc4e431abf55c108d2404b89f8202f4f8eb462ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:21 +0000
Subject: [PATCH 52/93] fix: select_modes accepted criteria which do not return
 one item per mode

---
 pydmd/dmd_modes_tuner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e215584..0e79fcc 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -62,7 +62,13 @@ def select_modes(
     if not in_place:
         dmd = deepcopy(dmd)
 
-    selected_indexes = np.where(criteria(dmd))[0]
+    selected = np.asarray(criteria(dmd))
+    if selected.shape != (len(dmd.eigs),):
+        raise ValueError(
+            f"criteria must return one item per mode ({len(dmd.eigs)}), "
+            f"found shape {selected.shape}."
+        )
+    selected_indexes = np.where(selected)[0]
 
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
-- 
2.43.0


From aa1460870b9037568214c79b2cd38f5b558f4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:21 +0000
Subject: [PATCH 53/93] fix: OptDMD accepted unknown factorizations

---
 pydmd/optdmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 5ac779a..2b6278b 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -164,6 +164,10 @@ class OptDMD(DMDBase):
     """
 
     def __init__(self, factorization="evd", svd_rank=0, tlsq_rank=0, opt=False):
+        if factorization not in ("evd", "svd"):
+            raise ValueError(
+                f"factorization must be 'evd' or 'svd', found {factorization}."
+            )
         self._factorization = factorization
         self._tlsq_rank = tlsq_rank
 
-- 
2.43.0


From 90e1ae6a3fe48f6187d4030a1a4fdc279e05fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 54/93] fix: VarProDMD accepted negative compressions

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 781a3c9..0b270cf 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -388,7 +388,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
     res = _varpro_preprocessing(data, time, rank, use_proj)
     omegas = _compute_dmd_ev(res[0], res[1], res[-1].shape[-1])
 
-    if compression > 0:
+    if compression != 0:
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-- 
2.43.0


From ae12ddba48a06e4fe294f1252bbd037d5c0ac495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 55/93] fix: MrDMD returned an array of None as modes before
 the first fit

---
 pydmd/mrdmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 835016b..be34961 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -340,7 +340,9 @@ Expected one item per level, got {} out of {} levels.""".format(
         :rtype: numpy.ndarray
         """
         leaves = self.dmd_tree.index_leaves(level) if node is None else [node]
-        return np.hstack([self.dmd_tree[level, leaf].modes for leaf in leaves])
+        return np.concatenate(
+            [self.dmd_tree[level, leaf].modes for leaf in leaves], axis=1
+        )
 
     def partial_dynamics(self, level, node=None):
         """
-- 
2.43.0


From bbd417fe4c21cf5187b3360d54dd1664e48917ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:42 +0000
Subject: [PATCH 56/93] fix: HAVOK.compute_threshold wrote into the plot_kwargs
 of the caller

---
 pydmd/havok.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index d4df27a..1d67048 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -578,8 +578,7 @@ class HAVOK:
 
         if plot:
             # Set the plotting parameters first.
-            if plot_kwargs is None:
-                plot_kwargs = {}
+            plot_kwargs = dict(plot_kwargs or {})
             if "figsize" not in plot_kwargs:
                 plot_kwargs["figsize"] = (5, 4)
             if "semilogy" not in plot_kwargs:
-- 
2.43.0


From cf5dc6219cb2182471f9fd4b9b0db01d20471faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 57/93] fix: attributes assigned to a pre-processed DMD did not
 reach the wrapped instance

---
 pydmd/preprocessing/pre_post_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 38ab1ec..7e890ed 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -72,6 +72,13 @@ class PrePostProcessingDMD(Generic[S]):
             return object.__getattribute__(self._dmd, name)
         return None
 
+    def __setattr__(self, name, value):
+        own = ("_pre_post_processing", "_dmd", "_pre_processing_output")
+        if name in own or hasattr(PrePostProcessingDMD, name):
+            object.__setattr__(self, name, value)
+        else:
+            setattr(self._dmd, name, value)
+
     @property
     def pre_post_processed_dmd(self):
         """
-- 
2.43.0


From 576bd4651f7c5ede33a573deef089d566dfea43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 58/93] fix: MrDMD could not be fitted on three snapshots

---
 pydmd/mrdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index be34961..90927ab 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -483,7 +483,7 @@ Expected one item per level, got {} out of {} levels.""".format(
 
         # Redefine max level if it is too big.
         lvl_threshold = (
-            int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
+            int(np.floor(np.log2(self.snapshots.shape[1] / 4.0))) + 1
         )
         max_level = min(self._requested_level, lvl_threshold)
         if self.max_level != max_level:
-- 
2.43.0


From 2017d7552c3517ca3cf11059daea7015aeb8b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:44 +0000
Subject: [PATCH 59/93] fix: MrDMD overwrote the snapshots of its nodes with
 the residual

---
 pydmd/mrdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 90927ab..93c5a2e 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -523,7 +523,7 @@ Expected one item per level, got {} out of {} levels.""".format(
                     for leaf in self.dmd_tree.index_leaves(level)
                 ]
             ).astype(X.dtype)
-            X -= newX
+            X = X - newX
 
         self._set_initial_time_dictionary(
             dict(t0=0, tend=self.snapshots.shape[1], dt=1)
-- 
2.43.0


From 4bc8688b31c51e55524468c554c852b5357180e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 60/93] fix: the time intervals of MrDMD nodes did not match
 the snapshots they hold

---
 pydmd/mrdmd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 93c5a2e..7582340 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -450,10 +450,14 @@ Expected one item per level, got {} out of {} levels.""".format(
             raise ValueError("Invalid node")
 
         full_period = self.original_time["tend"] - self.original_time["t0"]
-        period = full_period / 2**level
-        t0 = self.original_time["t0"] + period * leaf
-        tend = t0 + period
-        return {"t0": t0, "tend": tend, "delta": period}
+        n_samples = self.snapshots.shape[1]
+        # the first bins of a level may hold one snapshot more, see `fit`
+        size, larger_bins = divmod(n_samples, 2**level)
+        first = leaf * size + min(leaf, larger_bins)
+        last = (leaf + 1) * size + min(leaf + 1, larger_bins)
+        t0 = self.original_time["t0"] + full_period * first / n_samples
+        tend = self.original_time["t0"] + full_period * last / n_samples
+        return {"t0": t0, "tend": tend, "delta": tend - t0}
 
     def enumerate(self):
         """
-- 
2.43.0


From fe18c0df8c9687f3f373e05c312d2a9d68cd8988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 61/93] fix: DMDc.reconstructed_data refused a single control
 input given as a vector

---
 pydmd/dmdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 69d0ea1..dacc626 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -256,7 +256,7 @@ class DMDc(DMDBase):
         :rtype: numpy.ndarray
         """
         controlin = (
-            np.asarray(control_input)
+            np.atleast_2d(np.asarray(control_input))
             if control_input is not None
             else self._controlin
         )
-- 
2.43.0


From 3b758b313467e43f8263f236c8785994e93f012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 62/93] fix: ParametricDMD failed for a single parameter when
 the interpolator drops axes of length one

---
 pydmd/paramdmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6c0d969..4d6fe74 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -525,7 +525,10 @@ Unknown parameters not found. Did you set `ParametricDMD.parameters`?"""
 
         def interpolate_future_pod_coefficients(time_slice):
             approx.fit(self.training_parameters, time_slice)
-            return approx.predict(self.parameters)
+            # some interpolators drop the axes of length one
+            return np.reshape(
+                approx.predict(self.parameters), (len(self.parameters), -1)
+            )
 
         return np.dstack(
             [
-- 
2.43.0


From 0357f05a58e940b2bccad3c0c3e39e3fdb4ea891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:26 +0000
Subject: [PATCH 63/93] fix: BOPDMD returned exponents which are not conjugate
 pairs under the conjugate_pairs constraint

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 939735b..f57a2a6 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -343,7 +343,7 @@ class BOPDMDOperator(DMDOperator):
                 a = 0.5 * (eig_1.real + eig_2.real)
                 b = 0.5 * (np.abs(eig_1.imag) + np.abs(eig_2.imag))
                 new_eigs[ind_1] = a + 1j * (b * np.sign(eig_1.imag))
-                new_eigs[ind_2] = a + 1j * (b * np.sign(eig_2.imag))
+                new_eigs[ind_2] = np.conj(new_eigs[ind_1])
 
             eigenvalues = np.copy(new_eigs)
 
-- 
2.43.0


From cc2ae19a97cb4ab67c64868bd8515bca78324532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:26 +0000
Subject: [PATCH 64/93] fix: BOPDMD.fit_econ failed for rank one factors

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index f57a2a6..6864f8c 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1511,7 +1511,7 @@ class BOPDMD(DMDBase):
         self._reset()
         self._restore_inputs()
         self._time = np.asarray(t).squeeze()
-        s = np.asarray(s).squeeze()
+        s = np.atleast_1d(np.asarray(s).squeeze())
 
         if self._proj_basis is None or not self._use_proj:
             msg = """
-- 
2.43.0


From b7299ea462e5c5dc323234b8af5f61c39504b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:46 +0000
Subject: [PATCH 65/93] fix: symmetric PiDMD dropped the imaginary part of
 complex operators

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..6198a7e 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -118,7 +118,7 @@ def compute_symmetric(X, Y, svd_rank, skew_symmetric=False):
                 atilde[i, j] /= s[i] ** 2 + s[j] ** 2
         atilde += -atilde.conj().T - 1j * np.diag(np.diag(atilde.imag))
     else:  # symmetric
-        atilde = np.diag(np.diagonal(C).real / s)[:r, :r]
+        atilde = np.diag(np.diagonal(C).real / s)[:r, :r].astype(C.dtype)
         for i in range(r):
             for j in range(i + 1, r):
                 atilde[i, j] = s[i] * np.conj(C[j, i]) + s[j] * C[i, j]
-- 
2.43.0


From 29abf957dfaab2dd964ba969b5b304dc8a9a983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:46 +0000
Subject: [PATCH 66/93] fix: circulant PiDMD was not optimal for complex
 snapshots

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 6198a7e..a8e9fb8 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -184,7 +184,7 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
     flag is not True. Returns a dictionary of computed values.
     """
     nx = len(X)
-    fX = fft(X, axis=0)
+    fX = fft(X.conj(), axis=0)
     fY = fft(Y.conj(), axis=0)
     fX_norm = np.linalg.norm(fX, axis=1)
     eigenvalues = np.divide(np.diag(fX.dot(fY.conj().T)), fX_norm**2)
-- 
2.43.0


From 016b30979365d174d5748add8ac41d46d01cdbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:00 +0000
Subject: [PATCH 67/93] fix: symmetric tridiagonal PiDMD was not optimal for
 complex snapshots

---
 pydmd/pidmd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index a8e9fb8..a68b8ac 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -227,11 +227,11 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
     T1 = sparse.diags(T1e)
 
     # Form the second and third blocks.
-    T2e = np.diag(X[1:].dot(X[:-1].T))
+    T2e = np.diag(X[1:].dot(X[:-1].conj().T))
     T2 = sparse.spdiags([T2e, T2e], diags=[-1, 0], m=nx, n=nx - 1)
 
     # Form the final block.
-    T3e = np.insert(np.diag(X[2:].dot(X[:-2].T)), 0, 0)
+    T3e = np.insert(np.diag(X[2:].dot(X[:-2].conj().T)), 0, 0)
     T3_offdiag = sparse.spdiags(T3e, diags=1, m=nx - 1, n=nx - 1)
     T3 = (
         sparse.spdiags(T1e[:-1] + T1e[1:], diags=0, m=nx - 1, n=nx - 1)
@@ -247,8 +247,8 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
     # Solve for c in the system Tc = d.
     d = np.concatenate(
         (
-            np.diag(X.dot(Y.T)),
-            np.diag(X[:-1].dot(Y[1:].T)) + np.diag(X[1:].dot(Y[:-1].T)),
+            np.diag(X.dot(Y.conj().T)),
+            np.diag(X[:-1].dot(Y[1:].conj().T)) + np.diag(X[1:].dot(Y[:-1].conj().T)),
         ),
         axis=None,
     )
-- 
2.43.0


From ae6fdb28bc8ed0b1adec9ea4efc0f2b571151911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:00 +0000
Subject: [PATCH 68/93] fix: diagonal and symmetric tridiagonal PiDMD failed
 without compute_A unless the rank was small

---
 pydmd/pidmd_utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index a68b8ac..58dd5ea 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -15,6 +15,20 @@ from scipy.linalg import block_diag, rq
 from .utils import compute_rank, compute_svd
 
 
+def _leading_eigs(A_sparse, r):
+    """
+    Compute the r eigenvalues with the largest magnitude of a sparse matrix
+    and the corresponding eigenvectors. ARPACK can only compute up to n-2 of
+    them, hence the dense solver is needed beyond.
+    """
+    nx = A_sparse.shape[0]
+    if r < nx - 1:
+        return sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = np.linalg.eig(A_sparse.toarray())
+    inds = np.argsort(-np.abs(eigenvalues))[:r]
+    return eigenvalues[inds], modes[:, inds]
+
+
 def compute_unitary(X, Y, svd_rank):
     """
     Given the data matrices X and Y and the rank truncation svd_rank, solves
@@ -96,7 +110,7 @@ def compute_diagonal(X, Y, svd_rank, manifold_opt, compute_A):
     if compute_A:
         return {"A": A_sparse.toarray()}
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _leading_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
@@ -265,7 +279,7 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
         return {"A": A_sparse.toarray()}
 
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    eigenvalues, modes = _leading_eigs(A_sparse, r)
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
-- 
2.43.0


From 6398c9d31ba02be85a3a0bdd12860748351eed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:04 +0000
Subject: [PATCH 69/93] fix: triangular PiDMD operators were not triangular
 when the snapshots have not full row rank

---
 pydmd/pidmd_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 58dd5ea..9a37816 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -49,6 +49,9 @@ def compute_uppertriangular(X, Y):
     uppertriangular matrix A that solves the relationship Y = AX.
     Returns a dictionary containing A.
     """
+    if np.linalg.matrix_rank(X) < len(X):
+        # R is not invertible, solve for each row of A.
+        return compute_diagonal(X, Y, -1, (1, len(X)), True)
     R, Q = rq(X, mode="economic")
     Ut = np.triu(Y.dot(Q.conj().T))
     A = np.linalg.lstsq(R.T, Ut.T, rcond=None)[0].T
-- 
2.43.0


From 1e39c8cbaab8f7804baaa12f09ed86d3526fdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 70/93] fix: SpDMD with an integer opt shifted the time of its
 amplitudes, which refer to the first snapshot

---
 pydmd/spdmd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydmd/spdmd.py b/pydmd/spdmd.py
index 7eb4df9..9e5d124 100644
--- a/pydmd/spdmd.py
+++ b/pydmd/spdmd.py
@@ -156,6 +156,18 @@ class SpDMD(DMD):
 
         return self
 
+    def _translate_eigs_exponent(self, tpow):
+        """
+        The sparsity-promoting amplitudes always refer to the first snapshot,
+        whatever the value of `opt`: no translation is needed.
+
+        :param tpow: the exponent(s) of Sigma in the original DMD formula.
+        :type tpow: int or np.ndarray
+        :return: the exponent(s), unchanged.
+        :rtype: int or np.ndarray
+        """
+        return tpow
+
     def _update_alpha(self, beta, lmbd):
         """
         Update the vector :math:`\\alpha_k` of DMD amplitudes.
-- 
2.43.0


From f2359180f7ffb94b06bc79ee5f9114d88f65700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 71/93] fix: CDMD could not sample rows when there are more
 snapshots than points

---
 pydmd/cdmd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 69c66ce..abe8c49 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -211,10 +211,9 @@ class CDMD(DMDBase):
             C = np.random.normal(0, 1, size=(C_shape))
         elif self.compression_matrix == "sample":
             C = np.zeros(C_shape)
-            C[
-                np.arange(self.snapshots.shape[1]),
-                np.random.choice(*self.snapshots.shape, replace=False),
-            ] = 1.0
+            # rows are drawn without replacement as long as there are enough
+            rows = np.random.permutation(C_shape[1])
+            C[np.arange(C_shape[0]), np.resize(rows, C_shape[0])] = 1.0
 
         # compress the matrix
         Y = C.dot(self.snapshots)
-- 
2.43.0


From 9b8b14e4c3201bd31684149ae68682402bcd21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 72/93] fix: LANDO failed to linearise kernels whose gamma is
 None

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 31fe663..0919d16 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -573,7 +573,7 @@ class LANDO(DMDBase):
             return X.T
 
         # Kernel metric must be polynomial or RBF.
-        if "gamma" in self._kernel_params:
+        if self._kernel_params.get("gamma") is not None:
             gamma = self._kernel_params["gamma"]
         else:  # set the pairwise_kernels gamma default
             gamma = 1.0 / X.shape[0]
-- 
2.43.0


From fa011e7514035fd5d04f93286d66ca5420f93971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 73/93] fix: VarProDMD started from the reciprocals of the
 estimated exponents

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 0b270cf..23bf0da 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -386,7 +386,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
 
     #  y_in, z_in, data_in, u_r
     res = _varpro_preprocessing(data, time, rank, use_proj)
-    omegas = _compute_dmd_ev(res[0], res[1], res[-1].shape[-1])
+    omegas = _compute_dmd_ev(res[1], res[0], res[-1].shape[-1])
 
     if compression != 0:
         indices = select_best_samples_fast(res[2], compression)
-- 
2.43.0


From c7d3483b2759bd18c4a53a004bc750621c14dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 74/93] fix: VarProDMD sorted_eigs='auto' compared signed
 instead of absolute parts

---
 pydmd/varprodmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 23bf0da..7b251a6 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -571,8 +571,8 @@ class VarProOperator(DMDOperator):
 
         if isinstance(self._sorted_eigs, str):
             if self._sorted_eigs == "auto":
-                eigs_real = self._eigenvalues.real
-                eigs_imag = self._eigenvalues.imag
+                eigs_real = np.abs(self._eigenvalues.real)
+                eigs_imag = np.abs(self._eigenvalues.imag)
                 _eigs_abs = np.abs(self._eigenvalues)
                 var_real = np.var(eigs_real)
                 var_imag = np.var(eigs_imag)
-- 
2.43.0


From 722be84e028af51135311629f9cd5d79e351529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:06 +0000
Subject: [PATCH 75/93] fix: VarProDMD returned the modes of the last trial
 step even if it was rejected

---
 pydmd/varprodmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 7b251a6..5168b87 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -415,6 +415,8 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         opthelper,
         **optargs,
     )
+    # the last point evaluated by the optimizer may be a rejected step
+    _compute_dmd_rho(opt.x, time[indices], res[2][:, indices].T, opthelper)
     omegas.real = opt.x[: opt.x.shape[-1] // 2]
     omegas.imag = opt.x[opt.x.shape[-1] // 2 :]
     xi = res[-1] @ opthelper.b_matrix.T if use_proj else opthelper.b_matrix.T
-- 
2.43.0


From 3c32533b491872d2a3da225f0668a84f94eb274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:36 +0000
Subject: [PATCH 76/93] fix: COSTS and mrCOSTS failed with the default
 transformation of the frequencies

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 866a1bb..3b9ab98 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -760,7 +760,7 @@ class COSTS:
         :rtype: numpy.ndarray
         """
         # Apply a transformation to omega to improve frequency band separation
-        if transform_method == "absolute":
+        if transform_method is None or transform_method == "absolute":
             omega_transform = np.abs(omega_array.imag.astype("float"))
             self._omega_label = r"$|\omega|$"
             self._hist_kwargs = {"bins": 64}
-- 
2.43.0


From 9392dbdd4bf23353330675324ad3d8eccb0f876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:36 +0000
Subject: [PATCH 77/93] fix: COSTS took the band of the shortest periods for
 the low frequencies

---
 pydmd/costs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 3b9ab98..ff45887 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -735,8 +735,10 @@ class COSTS:
         )
         cluster_centroids = clustering.cluster_centers_.flatten()
 
-        # Sort the clusters by the centroid magnitude.
+        # Sort the clusters from the lowest to the highest frequency.
         idx = np.argsort(cluster_centroids)
+        if transform_method == "period":
+            idx = idx[::-1]
         lut = np.zeros_like(idx)
         lut[idx] = np.arange(n_components)
         omega_classes = lut[omega_classes]
@@ -1007,7 +1009,7 @@ class COSTS:
                 ).real
 
                 # Add the constant offset to the lowest frequency cluster.
-                if include_means and j == np.argmin(self._cluster_centroids):
+                if include_means and j == 0:
                     xr_sep_window[j] += c
                 xr_sep_window[j] = xr_sep_window[j] * recon_filter
 
-- 
2.43.0


From dd6221c8049b40d4bd3d5c651bb50415512744ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:54 +0000
Subject: [PATCH 78/93] fix: mrCOSTS mixed the bands of the last clustering
 with the number of bands of a later sweep

---
 pydmd/mrcosts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index f346308..dd7e5bf 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -1036,11 +1036,14 @@ class mrCOSTS:
         :rtype: numpy.ndarray
         """
 
+        # The number of bands of the last global clustering.
+        n_components = len(self.cluster_centroids)
+
         # Each individual reconstructed window
         xr_sep = np.zeros(
             (
                 self.n_decompositions,
-                self._n_components_global,
+                n_components,
                 self._n_data_vars,
                 self._n_time_steps,
             )
@@ -1077,7 +1080,7 @@ class mrCOSTS:
                 # Reconstruct each frequency band separately.
                 xr_sep_window = np.zeros(
                     (
-                        self._n_components_global,
+                        n_components,
                         self._n_data_vars,
                         mrd.window_length,
                     )
@@ -1094,7 +1097,7 @@ class mrCOSTS:
                         k * mrd.step_size + mrd.window_length,
                     )
 
-                for j in np.arange(0, self._n_components_global):
+                for j in np.arange(0, n_components):
                     class_ind = classification == j
                     xr_sep_window[j, :, :] = np.linalg.multi_dot(
                         [
-- 
2.43.0


From 837f4a1d5661500de18cacc215e90db818be1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:54 +0000
Subject: [PATCH 79/93] fix: mrCOSTS truncated the frequency classes to the
 requested instead of the actual rank of a level

---
 pydmd/mrcosts.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index dd7e5bf..3d68694 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -1061,9 +1061,8 @@ class mrCOSTS:
 
             omega_classes = omega_classes_list[n_mrd]
 
-            if mrd.svd_rank < np.max(self._svd_rank_array):
-                truncate_slice = slice(None, mrd.svd_rank)
-                omega_classes = omega_classes[:, truncate_slice]
+            # Levels of lower rank are padded in the common array.
+            omega_classes = omega_classes[:, : mrd.omega_array.shape[1]]
 
             # Iterate over each window slide performed.
             for k in range(mrd.n_slides):
-- 
2.43.0


From 9a7a62c05604a9e5a1173809655f88634480fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:08 +0000
Subject: [PATCH 80/93] fix: COSTS plots wrote defaults into the keyword
 arguments of the caller

---
 pydmd/costs.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index ff45887..aa75036 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1097,19 +1097,16 @@ class COSTS:
             scale_reconstruction_kwargs
         )
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get("figsize", (6, 4))
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_high_frequency).max()
         )
@@ -1201,8 +1198,7 @@ class COSTS:
 
         xr_sep = self.scale_reconstruction(**scale_reconstruction_kwargs)
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get(
             "figsize", (6, 1.5 * len(self._cluster_centroids) + 1)
@@ -1210,15 +1206,13 @@ class COSTS:
 
         # Low frequency and input data often require separate plotting
         # parameters.
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
         # High frequency components often require separate plotting parameters.
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_sep[1:, :, :]).max()
         )
@@ -1302,8 +1296,7 @@ class COSTS:
         """
         if scale_reconstruction_kwargs is None:
             scale_reconstruction_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -3)
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", 3)
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "RdBu_r")
-- 
2.43.0


From 3384071a753d1ffd5fff84b9fa7f37596471c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:45 +0000
Subject: [PATCH 81/93] fix: COSTS rejected fractional ranks of the local SVD
 as odd

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index aa75036..bae1579 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -500,7 +500,7 @@ class COSTS:
             )
             self._svd_rank = compute_rank(data, svd_rank=self._svd_rank)
             self._svd_rank_pre_allocate = self._svd_rank
-        elif not self._global_svd and self._svd_rank > 0:
+        elif not self._global_svd and self._svd_rank >= 1:
             if self._force_even_eigs and self._svd_rank % 2:
                 raise ValueError(
                     "svd_rank is odd, but force_even_eigs is True."
-- 
2.43.0


From 0c7018cb4feb8ea4c448e4f64f3c6e02b2768240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 82/93] fix: mrCOSTS filled the ends of the common time base
 with a neighbouring window

---
 pydmd/mrcosts.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 3d68694..ac577cb 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -386,10 +386,8 @@ class mrCOSTS:
             dim="window_time_means"
         ).values[0]
 
-        # Backwards fill the last non-NaN to the beginning of the first window
-        first_window = da_interp.dropna(
-            dim="window_time_means", how="all"
-        ).isel(window_time_means=0)
+        # Backwards fill from the centre of the first window
+        first_window = da.isel(window_time_means=0, drop=True)
 
         da_interp = xr.where(
             (
@@ -401,10 +399,8 @@ class mrCOSTS:
             da_interp,
         )
 
-        # Forward fill the last non-NaN to the end of the last window
-        last_window = da_interp.dropna(dim="window_time_means", how="all").isel(
-            window_time_means=-1
-        )
+        # Forward fill from the centre of the last window
+        last_window = da.isel(window_time_means=-1, drop=True)
 
         da_interp = xr.where(
             (
@@ -457,8 +453,8 @@ class mrCOSTS:
             )
 
             # Complete the interpolation of the first and last window
-            da_imag = self.interp_fill(da_imag, da)
-            da_real = self.interp_fill(da_real, da)
+            da_imag = self.interp_fill(da_imag, da.imag)
+            da_real = self.interp_fill(da_real, da.real)
 
             da = da_real + 1j * da_imag
             da_to_concat.append(da)
-- 
2.43.0


From 905206bd6394f440fdbdf030d5927e5d412cd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 83/93] fix: COSTS fits with optimizer options could not be
 written to file

---
 pydmd/costs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index bae1579..7890c45 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -8,6 +8,7 @@ multiscale nonlinear physics. Physics Review E, 99(6),
 """
 
 import copy
+import json
 
 import numpy as np
 from sklearn.cluster import MiniBatchKMeans
@@ -1545,6 +1546,11 @@ class COSTS:
                     self._pydmd_kwargs[new_attr_name] = set(
                         self._pydmd_kwargs[new_attr_name]
                     )
+                elif new_attr_name == "varpro_opts_dict":
+                    opts = self._pydmd_kwargs[new_attr_name]
+                    self._pydmd_kwargs[new_attr_name] = opts and json.loads(
+                        opts
+                    )
             elif "omega_transformation" in attr:
                 self._transform_method = self._xarray_unsanitize(ds.attrs[attr])
 
@@ -1565,6 +1571,8 @@ class COSTS:
             value = "None"
         elif isinstance(value, set):
             value = list(value)
+        elif isinstance(value, dict):
+            value = json.dumps(value, default=float)
         elif callable(value):
             value = f"Custom function {value.__name__}"
         return value
-- 
2.43.0


From 76dd8a5320b62db7972c14888167809dfea059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 84/93] fix: COSTS split a single eigenvalue constraint read
 from file into letters

---
 pydmd/costs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 7890c45..857a514 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1543,9 +1543,12 @@ class COSTS:
                     ds.attrs[attr]
                 )
                 if new_attr_name == "eig_constraints":
-                    self._pydmd_kwargs[new_attr_name] = set(
-                        self._pydmd_kwargs[new_attr_name]
-                    )
+                    # files store a single constraint as a plain string
+                    constraints = self._pydmd_kwargs[new_attr_name]
+                    if constraints is not None:
+                        self._pydmd_kwargs[new_attr_name] = set(
+                            np.atleast_1d(constraints).tolist()
+                        )
                 elif new_attr_name == "varpro_opts_dict":
                     opts = self._pydmd_kwargs[new_attr_name]
                     self._pydmd_kwargs[new_attr_name] = opts and json.loads(
-- 
2.43.0


From 8b9552d5f38387e06bfd93ce919575161bd4d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 85/93] fix: mrCOSTS could not cluster levels of a single
 window

---
 pydmd/mrcosts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index ac577cb..dd4774a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -382,9 +382,9 @@ class mrCOSTS:
         :return: Interpolated eigenvalues with filled first and last windows.
         :rtype: xarray.DataArray
         """
-        window_delta = da.window_time_means.diff(
-            dim="window_time_means"
-        ).values[0]
+        # A single window stands for all times.
+        window_deltas = da.window_time_means.diff(dim="window_time_means")
+        window_delta = window_deltas.values[0] if window_deltas.size else np.inf
 
         # Backwards fill from the centre of the first window
         first_window = da.isel(window_time_means=0, drop=True)
-- 
2.43.0


From 2db3f2fc637d669943f69beac8edfdf0872a0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 86/93] fix: COSTS lost the window means when no frequency is
 in the lowest band

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 857a514..900980e 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -999,7 +999,7 @@ class COSTS:
             xr_sep_window = np.zeros(
                 (self._n_components, self._n_data_vars, self._window_length)
             )
-            for j in np.unique(self._omega_classes):
+            for j in range(self._n_components):
                 class_index = classification == j
                 xr_sep_window[j] = np.linalg.multi_dot(
                     [
-- 
2.43.0


From 8082e2672a658d2739c51044847199be4ab4d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 87/93] fix: CDMD forward-backward uses the rank of the forward
 operator

---
 pydmd/cdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index abe8c49..9f62e1e 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -85,7 +85,7 @@ class CDMDOperator(DMDOperator):
 
         if self._forward_backward:
             # b stands for "backward"
-            bU, bs, bV = compute_svd(compressedY, svd_rank=self._svd_rank)
+            bU, bs, bV = compute_svd(compressedY, svd_rank=len(s))
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
-- 
2.43.0


From a430eb4b74dd2b10e490f20e123e7304a720162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 88/93] fix: 2D plots of non-square snapshots keep the shape of
 the snapshots

---
 pydmd/plotter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 0dc2ec7..c85a0ca 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -382,8 +382,8 @@ def plot_modes_2D(
     # If domain dimensions have not been passed as argument,
     # use the snapshots dimensions
     if x is None and y is None:
-        x = np.arange(snapshots_shape[0])
-        y = np.arange(snapshots_shape[1])
+        x = np.arange(snapshots_shape[1])
+        y = np.arange(snapshots_shape[0])
 
     xgrid, ygrid = np.meshgrid(x, y)
 
@@ -497,8 +497,8 @@ def plot_snapshots_2D(
     # If domain dimensions have not been passed as argument,
     # use the snapshots dimensions
     if x is None and y is None:
-        x = np.arange(snapshots_shape[0])
-        y = np.arange(snapshots_shape[1])
+        x = np.arange(snapshots_shape[1])
+        y = np.arange(snapshots_shape[0])
 
     xgrid, ygrid = np.meshgrid(x, y)
 
-- 
2.43.0


From d3ba296e83d3d7dec6e81f102af932eb14c59591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 89/93] fix: plot_eigs_mrdmd shows only level 0 when level=0 is
 requested

---
 pydmd/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index c85a0ca..4fdfffd 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -241,7 +241,7 @@ def plot_eigs_mrdmd(
             "You have to perform the fit method."
         )
 
-    if level:
+    if level is not None:
         peigs = dmd.partial_eigs(level=level, node=node)
     else:
         peigs = dmd.eigs
@@ -251,7 +251,7 @@ def plot_eigs_mrdmd(
     plt.gcf()
     ax = plt.gca()
 
-    if not level:
+    if level is None:
         cmap = plt.get_cmap("viridis")
         colors = [cmap(i) for i in np.linspace(0, 1, len(dmd.dmd_tree.levels))]
 
@@ -306,7 +306,7 @@ def plot_eigs_mrdmd(
         )
 
     # legend
-    if level:
+    if level is not None:
         labels = [f"Eigenvalues - level {level}"]
     else:
         labels = [f"Eigenvalues - level {i}" for i in range(len(points))]
-- 
2.43.0


From 39cff7696b282ec4f06d135ae4ba6a6f75c8a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 90/93] fix: plot_summary of a model with a moved window

---
 pydmd/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 4fdfffd..9242024 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -750,7 +750,7 @@ def plot_summary(
                 )
         else:
             try:
-                time = dmd.original_timesteps
+                time = dmd.dmd_timesteps
                 dt = dmd.original_time["dt"]
             except AttributeError:
                 warnings.warn(
-- 
2.43.0


From 21c5ab2087208e8eae0195470a129f42b6728497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 91/93] fix: HAVOK.plot_summary when the forcing is never
 active

---
 pydmd/havok.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 1d67048..4c21706 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -825,6 +825,9 @@ class HAVOK:
             >>> _get_index_slices(a, min_jump_dist=2)
             [(2, 5), (10, 12), (25, 28)]
         """
+        if len(x) == 0:
+            return []
+
         # Get the locations within x where a significant jump occurs.
         jumps = x[1:] - x[:-1] > min_jump_dist
         jump_starts = np.insert(x[1:][jumps], 0, x[0])
-- 
2.43.0


From 02a48305de15d4af5a3a6967b1517886f544d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 92/93] fix: residual of COSTS.plot_time_series includes the
 mean

---
 pydmd/costs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 900980e..dd13cd3 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1412,7 +1412,9 @@ class COSTS:
         )
         if include_residual:
             ax.plot(
-                ground_truth - xr_sep.sum(axis=0)[space_index, :],
+                ground_truth
+                + ground_truth_mean
+                - xr_sep.sum(axis=0)[space_index, :],
                 label="Residual",
             )
             ax.set_title(
-- 
2.43.0


From bd61d71279138dbe898c55d2482e91ef76692a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 93/93] fix: mode plots of delayed models and of models fitted
 from an SVD

---
 pydmd/bopdmd.py  | 2 +-
 pydmd/plotter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 6864f8c..98849ae 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1715,7 +1715,7 @@ class BOPDMD(DMDBase):
 
         # By default, modes_shape is the flattened space dimension.
         if modes_shape is None:
-            modes_shape = (len(self.snapshots) // d,)
+            modes_shape = (nd // d,)
 
         # Order the modes and their standard deviations.
         mode_order = np.argsort(-np.abs(self.amplitudes))
diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 9242024..e308b1f 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -678,7 +678,7 @@ def plot_summary(
 
     # By default, snapshots_shape is the flattened space dimension.
     if snapshots_shape is None:
-        snapshots_shape = (len(dmd.snapshots) // d,)
+        snapshots_shape = (len(dmd.modes) // d,)
     # If provided, snapshots_shape must contain 2 entires.
     elif len(snapshots_shape) != 2:
         raise ValueError("snapshots_shape must be None or 2-D.")
-- 
2.43.0

