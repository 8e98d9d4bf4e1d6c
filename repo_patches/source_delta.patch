From c60701dd1b4f282ee1dedeb63da9513a1a794297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 001/113] fix: transposing an operator twice now gives back the
 direct operator

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 9470ff2..0fa01f2 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -114,7 +114,7 @@ class BaseTransform(LinearOperator, ABC):
         """
         Op_t = cp.copy(self)
         Op_t.shape = [Op_t.shape[1], Op_t.shape[0]]
-        Op_t.is_dir_operator = False
+        Op_t.is_dir_operator = not self.is_dir_operator
         return Op_t
 
     def _adjoint(self) -> "BaseTransform":
-- 
2.43.0


From 843b056c8c89212ad7810e51f8239afdf354e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 002/113] fix: TransformConvolution.absolute keeps the padding
 and adjoint settings

---
 src/corrct/operators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 0fa01f2..b586d2e 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -468,7 +468,13 @@ class TransformConvolution(BaseTransform):
         TransformConvolution
             The absolute value of the convolution operator.
         """
-        return TransformConvolution(self.dir_shape, np.abs(self.kernel))
+        return TransformConvolution(
+            self.dir_shape,
+            np.abs(self.kernel),
+            pad_mode=self.pad_mode,
+            is_symm=self.is_symm,
+            flip_adjoint=self.flip_adjoint,
+        )
 
     def _pad_valid(self, x: NDArray) -> tuple[NDArray, NDArray]:
         pad_width = (np.array(self.kernel.shape) - 1) // 2
-- 
2.43.0


From 12a0811ffbf7c9aa3f0664214ca97cee635101ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 003/113] fix: valid default padding mode for
 TransformDecimatedWavelet

---
 src/corrct/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index b586d2e..053f866 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -535,7 +535,7 @@ class TransformDecimatedWavelet(BaseWaveletTransform):
         wavelet: str,
         level: int,
         axes: ArrayLike | None = None,
-        pad_on_demand: str = "edge",
+        pad_on_demand: str = "constant",
     ):
         """
         Decimated wavelet Transform operator.
@@ -551,8 +551,8 @@ class TransformDecimatedWavelet(BaseWaveletTransform):
         axes : int or tuple of int, optional
             Axes along which to do the transform. Defaults to None.
         pad_on_demand : str, optional
-            Padding type to fit the `2 ** level` shape requirements. Defaults to 'edge'.
-            Options are all the `numpy.pad` padding modes.
+            Padding type to fit the `2 ** level` shape requirements. Defaults to 'constant'
+            (i.e. border replication). Options are all the `pywt.Modes` padding modes.
 
         Raises
         ------
-- 
2.43.0


From 1c11c00adcc2758aa16d934e39270c2ebaaa7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 004/113] fix: projection intensities no longer use an abstract
 NumPy dtype (TypeError on NumPy >= 2.3)

---
 src/corrct/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index efeda17..fcf86e5 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -197,7 +197,7 @@ class ProjectorUncorrected(operators.ProjectorOperator):
         )
 
         if prj_intensities is not None:
-            prj_intensities = np.array(prj_intensities, dtype=np.floating)
+            prj_intensities = np.array(prj_intensities, dtype=float)
         self.prj_intensities = prj_intensities
 
         self._set_psf(psf)
-- 
2.43.0


From 03b0d0653ec26f6c6705153b8b3905241beb73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 005/113] fix: collapse_detectors keeps the (single) detector
 axis of the attenuation maps

---
 src/corrct/projectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index fcf86e5..b0c2205 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -491,10 +491,10 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
 
     def collapse_detectors(self) -> None:
         """Convert multi-detector configurations into single-detector."""
-        weights = np.reshape(self.weights_det, [1, -1, 1, 1]) / np.sum(self.weights_det)
-        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1)
+        weights = self.weights_det / np.sum(self.weights_det)
+        maps_weights = np.reshape(weights, [1, -1, *([1] * (self.att_vol_angles.ndim - 2))])
+        self.att_vol_angles = np.sum(self.att_vol_angles * maps_weights, axis=1, keepdims=True)
 
-        weights = np.squeeze(weights)
         self.angles_det_rad = np.sum(self.angles_det_rad * weights, keepdims=True)
         self.weights_angles = np.sum(self.weights_angles * weights, axis=1, keepdims=True)
         self.weights_det = np.sum(self.weights_det, keepdims=True)
-- 
2.43.0


From 2fd24b72bace28ae760f0bb9870b3b2e3579a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 006/113] fix: AttenuationVolume accepts detector angles of any
 real type (e.g. int, np.float32)

---
 src/corrct/physics/attenuation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index ecc747f..bf3ed75 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -8,6 +8,7 @@ and ESRF - The European Synchrotron, Grenoble, France
 import concurrent.futures as cf
 import multiprocessing as mp
 from collections.abc import Callable, Sequence
+from numbers import Real
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -64,13 +65,13 @@ class AttenuationVolume:
         self.emitted_local = emitted_local
         self.angles_rot_rad = np.array(angles_rot_rad, ndmin=1)
         self.detectors = []
-        if isinstance(angles_det_rad, (int, float, DetectorXRF)):
+        if isinstance(angles_det_rad, (Real, DetectorXRF)):
             angles_det_rad = [angles_det_rad]
         for a in angles_det_rad:
             if isinstance(a, DetectorXRF):
                 self.detectors.append(a)
-            elif isinstance(a, float):
-                self.detectors.append(DetectorXRF(surface_mm2=0, distance_mm=1, angle_rad=a))
+            elif isinstance(a, Real):
+                self.detectors.append(DetectorXRF(surface_mm2=0, distance_mm=1, angle_rad=float(a)))
             else:
                 raise ValueError(
                     f"Input parameter {angles_det_rad = } should be one of: float | NDArray | Sequence[float | DetectorXRF]"
-- 
2.43.0


From ad9514f262a3c85210c80ae5330e39376551e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 007/113] fix: selection of attenuation maps with negative,
 NumPy-integer, slice, and sequence indices

---
 src/corrct/physics/attenuation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index bf3ed75..fe5631d 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -280,13 +280,13 @@ class AttenuationVolume:
         maps = self.maps
 
         if rot_ind is not None:
-            if isinstance(rot_ind, int):
-                rot_ind = slice(rot_ind, rot_ind + 1, 1)
+            if isinstance(rot_ind, (int, np.integer)):
+                rot_ind = [rot_ind]
             maps = maps[rot_ind, ...]
 
         if det_ind is not None:
-            if isinstance(det_ind, int):
-                det_ind = slice(det_ind, det_ind + 1, 1)
+            if isinstance(det_ind, (int, np.integer)):
+                det_ind = [det_ind]
             maps = maps[:, det_ind, ...]
 
         if roi is not None:
@@ -326,7 +326,7 @@ class AttenuationVolume:
         if det_ind is None:
             det_angles = self._get_detector_angles()
         else:
-            det_angles = self.detectors[det_ind].angle_rad
+            det_angles = self._get_detector_angles()[det_ind]
         return dict(
             att_maps=self.get_maps(roi=roi, rot_ind=rot_ind, det_ind=det_ind, binning=binning), angles_detectors_rad=det_angles
         )
-- 
2.43.0


From 0dceacf03f2c93823f70e09cc68d0a2d140cfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 008/113] fix: SART residual stacks the projections along the
 angles axis, as the data

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index ad902a1..3c8b359 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -501,7 +501,7 @@ class SART(Solver):
         NDArrayFloat
             The residual.
         """
-        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-1)
+        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-2)
         fp = np.ascontiguousarray(fp, dtype=b.dtype)
         res = fp - b
         if b_mask is not None:
-- 
2.43.0


From 1f8cb78e2ba6a1622d31d9e2adb0dfab4327f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 009/113] fix: MLEM does not use the masked-out (and test) data
 in the solution update

---
 src/corrct/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 3c8b359..1a095f3 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -794,7 +794,10 @@ class MLEM(Solver):
                 Ax = Ax + self.data_term.background
             Ax = Ax.clip(eps, None)
 
-            upd = A.T(b / Ax)
+            ratio = b / Ax
+            if b_mask is not None:
+                ratio *= b_mask
+            upd = A.T(ratio)
             x *= upd / tau
 
             if lower_limit is not None or upper_limit is not None:
-- 
2.43.0


From 529867c2a521cca651f2bafe63460e6d066b68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 010/113] fix: MLEM does not produce NaNs when some pixels are
 not seen by any (used) data

---
 src/corrct/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 1a095f3..4001205 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -735,6 +735,7 @@ class MLEM(Solver):
         if b_mask is not None:
             b_ones *= b_mask
         tau = A.T(b_ones)
+        tau[(tau / np.max(tau)) < 1e-5] = 1
 
         # Forward-projection diagonal re-scaling
         x_ones = np.ones_like(tau)
-- 
2.43.0


From c9f97cba7ad9529ecc2d9cf3db1d3ed951623027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 011/113] fix: MLEM info is not empty without background, and
 does not fail with array backgrounds

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 4001205..9c8b951 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -683,7 +683,7 @@ class MLEM(Solver):
         str
             info string.
         """
-        return Solver.info(self) + f"(B:{self.data_term.background:g})" if self.data_term.background is not None else ""
+        return Solver.info(self) + "-" + self.data_term.info()
 
     def __call__(  # noqa: C901
         self,
-- 
2.43.0


From dd6ecffbd70994abdfedab8109ae5be96858499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 012/113] fix: use of array backgrounds together with a test
 mask

---
 src/corrct/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 9c8b951..57b9cee 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -760,7 +760,7 @@ class MLEM(Solver):
             Ax = A(x)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b)
@@ -941,7 +941,7 @@ class SIRT(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1155,7 +1155,7 @@ class PDHG(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1435,7 +1435,7 @@ class FISTA(Solver):
         # gradient step here; the gradient is computed analytically from compute_residual).
         self.data_term.assign_data(b)
         if b_test_mask is not None:
-            if self.data_term_test.background != self.data_term.background:
+            if not np.array_equal(self.data_term_test.background, self.data_term.background):
                 print("WARNING - the data_term and data_term_test should have the same background. Making them equal.")
                 self.data_term_test.background = self.data_term.background
             self.data_term_test.assign_data(b)
-- 
2.43.0


From 92ce95d08340c7d0e6e5b4e1e092c308e9472fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 013/113] fix: un-preconditioned FISTA uses the same step for
 the gradient and the proximal

---
 src/corrct/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 57b9cee..6a1a11a 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -1429,7 +1429,8 @@ class FISTA(Solver):
             # that method, so we pass tau directly.
             # tau_reg is kept as a reference to tau so that if tau is a
             # per-element array (preconditioned case) it is passed correctly.
-            tau_reg = tau
+            # When not preconditioned, the (scalar) gradient step is tau * sigma = relaxation / ||A||^2.
+            tau_reg = tau if precondition else tau * sigma
 
         # sigma is passed for the test/residual tracking, but is NOT used in the
         # gradient step here; the gradient is computed analytically from compute_residual).
-- 
2.43.0


From 964d4e114cbe43ab07450d072d5b1735ddaddb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 014/113] fix: residual norm of the Huber data term

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 9e5eb06..39b8a25 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -484,8 +484,8 @@ class DataFidelity_Huber(DataFidelityBase):
         super().assign_data(data=data, sigma=sigma)
 
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
-        l2_points = dual <= self.local_error
-        l1_points = 1 - l2_points
+        l2_points = np.abs(dual) <= self.local_error
+        l1_points = ~l2_points
         return float(np.linalg.norm(dual[l2_points].flatten(), ord=2) ** 2 + np.linalg.norm(dual[l1_points].flatten(), ord=1))
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From 96fa7b23dcdc9768469a00549191097dacda3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 015/113] fix: dual proximal of the l1-ball data term accounts
 for the dual step size

---
 src/corrct/data_terms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 39b8a25..6e843b8 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -543,13 +543,13 @@ class DataFidelity_l1(DataFidelityBase):
     def _get_inner_norm(self, dual: NDArrayFloat) -> NDArrayFloat:
         return np.abs(dual)
 
-    def _apply_threshold(self, dual: NDArrayFloat):
+    def _apply_threshold(self, dual: NDArrayFloat, scale: float | NDArrayFloat = 1.0):
         pass
 
     def apply_proximal_dual(self, dual: NDArrayFloat, weight: float | NDArrayFloat = 1.0):
         if self.data is not None and self.sigma_data is not None:
             dual -= self.sigma_data
-        self._apply_threshold(dual)
+        self._apply_threshold(dual, self.sigma)
         dual_inner_norm = self._get_inner_norm(dual)
         dual /= np.fmax(dual_inner_norm, weight)
         dual *= weight
@@ -641,8 +641,8 @@ class DataFidelity_l1b(DataFidelity_l1):
         self.sigma_error = sigma * self.local_error
         super().assign_data(data=data, sigma=sigma)
 
-    def _apply_threshold(self, dual: NDArrayFloat) -> None:
-        _soft_threshold(dual, self.local_error)
+    def _apply_threshold(self, dual: NDArrayFloat, scale: float | NDArrayFloat = 1.0) -> None:
+        _soft_threshold(dual, scale * self.local_error)
 
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l1b}} in-place.
-- 
2.43.0


From 5047a69627cd9681c5da28f832d35fcc06d097c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 016/113] fix: primal proximal of the l2-ball data term is the
 one of its dual proximal (Moreau)

---
 src/corrct/data_terms.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 6e843b8..be7558c 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -431,14 +431,13 @@ class DataFidelity_l2b(DataFidelity_l2):
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l2b}} in-place.
 
-        The l2-ball data fidelity is:
-            f(x) = max(||x - b|| - sqrt(epsilon), 0)^2 / 2
+        The (element-wise) l2-ball data fidelity is:
+            f(x) = max(|x - b| - sqrt(epsilon), 0)^2 / (2 * epsilon)
 
-        whose proximal is a soft-thresholded then scaled l2 proximal.
-        Specifically:
+        whose proximal leaves the points inside the ball unchanged, and pulls the others towards it.
+        Specifically (from Moreau's identity, and the dual proximal):
             v = x - b
-            soft-threshold v by sqrt(epsilon) * tau / (1 + tau * epsilon)
-            prox(x) = b + v_thresholded / (1 + tau * epsilon)
+            prox(x) = x - soft-threshold(v, sqrt(epsilon)) * tau / (tau + epsilon)
 
         Parameters
         ----------
@@ -447,13 +446,9 @@ class DataFidelity_l2b(DataFidelity_l2):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        tau_eps = tau * self.local_error
-        _soft_threshold(primal, np.sqrt(self.local_error) * tau / (1.0 + tau_eps))
-        primal /= 1.0 + tau_eps
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, np.sqrt(self.local_error))
+        primal -= excess * (tau / (tau + self.local_error))
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
-- 
2.43.0


From 4b63aa3309456e86319efcba6dc169e512bc24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 017/113] fix: primal proximal of the l1-ball data term is the
 one of its dual proximal (Moreau)

---
 src/corrct/data_terms.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index be7558c..e468c38 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -642,16 +642,15 @@ class DataFidelity_l1b(DataFidelity_l1):
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l1b}} in-place.
 
-        The l1-ball data fidelity is:
-            f(x) = max(||x - b||_1 - epsilon, 0)
+        The (element-wise) l1-ball data fidelity is:
+            f(x) = max(|x - b| - epsilon, 0)
 
-        Its proximal is a two-stage soft-threshold:
+        Its proximal leaves the points inside the ball unchanged, and moves the others
+        towards it, by at most tau:
             v = x - b
-            soft-threshold v by (tau / (1 + tau)) elementwise, with level epsilon
-            prox(x) = b + v_thresholded
+            prox(x) = x - clip(soft-threshold(v, epsilon), -tau, tau)
 
-        This is obtained via Moreau's identity applied to the indicator of the
-        l1-ball of radius epsilon.
+        This is obtained via Moreau's identity from the dual proximal.
 
         Parameters
         ----------
@@ -660,13 +659,9 @@ class DataFidelity_l1b(DataFidelity_l1):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        # Two-level soft threshold: first remove the ball radius, then scale
-        _soft_threshold(primal, self.local_error)
-        primal *= tau / (1.0 + tau)
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, self.local_error)
+        primal -= np.clip(excess, -tau, tau)
 
 
 class DataFidelity_KL(DataFidelityBase):
-- 
2.43.0


From 173e464b297218557888c7ccaeefe5f3d34f3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 018/113] fix: residual of the l2-ball data term does not
 depend on the dual step size

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index e468c38..ee7a173 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -419,7 +419,7 @@ class DataFidelity_l2b(DataFidelity_l2):
 
     def compute_residual(self, proj_primal: NDArrayFloat, mask: NDArrayFloat | None = None) -> NDArrayFloat:
         residual = super().compute_residual(proj_primal, mask)
-        _soft_threshold(residual, self.sigma_sqrt_error)
+        _soft_threshold(residual, np.sqrt(self.local_error))
         return residual
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From 872d21d81104c21830c925594e1e72816f4dbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 019/113] fix: primal-dual gap of the l2 data term (squared
 norms, of any dimensionality)

---
 src/corrct/data_terms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index ee7a173..f966cf8 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -326,9 +326,10 @@ class DataFidelity_l2(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2) + np.linalg.norm(dual, ord=2)
-        ) / 2 + self.compute_data_dual_dot(dual)
+        residual = self.compute_residual(proj_primal, mask)
+        return float(np.linalg.norm(residual.flatten(), ord=2) ** 2 + np.linalg.norm(dual.flatten(), ord=2) ** 2) / 2 + float(
+            self.compute_data_dual_dot(dual)
+        )
 
 
 class DataFidelity_wl2(DataFidelity_l2):
-- 
2.43.0


From c1f0007e0b2ec539d471dd64d176a51fcef46c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 020/113] fix: regularizers own their norm, instead of sharing
 (and modifying) the instance of the default argument

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index f7dfd54..2eb44df 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -8,6 +8,7 @@ and ESRF - The European Synchrotron, Grenoble, France
 
 from abc import ABC, abstractmethod
 from collections.abc import Sequence
+from copy import deepcopy
 
 import numpy as np
 import scipy.ndimage as spimg
@@ -65,7 +66,7 @@ class BaseRegularizer(ABC):
         self.weight = np.array(weight)
         self.dtype = dtype
         self.op = None
-        self.norm = norm
+        self.norm = deepcopy(norm)
         self.upd_mask = upd_mask
 
     def info(self) -> str:
-- 
2.43.0


From 87a89089df774778a77babe591816140727a9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 021/113] fix: limit constraints do not subtract the limit
 twice

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 2eb44df..71900e9 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1678,7 +1678,8 @@ class Constraint_LowerLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        # The limit is already subtracted when updating the dual
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
@@ -1745,7 +1746,8 @@ class Constraint_UpperLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        # The limit is already subtracted when updating the dual
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
-- 
2.43.0


From a19c1ffca26bf28230331b0f8fde2795820f9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 022/113] fix: strip the reference channels of
 Regularizer_vl1wl along the channels axis

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 71900e9..9d501fd 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1579,7 +1579,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-            dual_tmp = dual_tmp[:, : dual_tmp.shape[0] - 1 :, ...]
+            dual_tmp = dual_tmp[:, : dual.shape[1] :, ...]
 
         dual[:] = dual_tmp[:]
 
-- 
2.43.0


From cc487551917b82be17d7ec2547ed721285305120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 023/113] fix: primal proximal of the (normalized) stationary
 wavelet regularizers

---
 src/corrct/regularizers.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 9d501fd..08a0f94 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -744,29 +744,18 @@ class Regularizer_swl(BaseRegularizer):
                 "Use normalized=True or switch to PDHG."
             )
 
-        # Forward stationary wavelet transform -> list of dicts (pywt swtn format)
-        coeffs_list = self.op(primal)
-        # coeffs_list[0] is the approximation array; coeffs_list[1..level] are
-        # dicts of detail sub-bands keyed by orientation label.
+        # Forward stationary wavelet transform: coeffs[0] is the approximation sub-band, the rest are the detail sub-bands
+        coeffs = self.op(primal)
 
         threshold = tau * self.weight
 
-        # Threshold detail sub-bands
-        for lvl in range(1, len(coeffs_list)):
-            c_l = coeffs_list[lvl]
-            for lab in list(c_l.keys()):
-                coeff = c_l[lab]
-                self.norm.apply_proximal_primal(coeff, threshold)
-                c_l[lab] = coeff
-
-        # Optionally threshold the approximation sub-band
-        if self.min_approx:
-            approx = coeffs_list[0]
-            self.norm.apply_proximal_primal(approx, threshold)
-            coeffs_list[0] = approx
+        # Threshold detail sub-bands, and optionally the approximation sub-band
+        first_band = 0 if self.min_approx else 1
+        for coeff in coeffs[first_band:]:
+            self.norm.apply_proximal_primal(coeff, threshold)
 
         # Inverse stationary wavelet transform back to primal domain
-        primal[:] = self.op.T(coeffs_list)
+        primal[:] = self.op.T(coeffs)
 
 
 class Regularizer_l1swl(Regularizer_swl):
-- 
2.43.0


From dc6f1d7b239e6135188fb024a27f1e37be729200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 024/113] fix: regularizers with (locally) zero weight no
 longer give NaNs

---
 src/corrct/data_terms.py   | 3 ++-
 src/corrct/regularizers.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index f966cf8..bf36bd6 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -547,7 +547,8 @@ class DataFidelity_l1(DataFidelityBase):
             dual -= self.sigma_data
         self._apply_threshold(dual, self.sigma)
         dual_inner_norm = self._get_inner_norm(dual)
-        dual /= np.fmax(dual_inner_norm, weight)
+        # The smallest number avoids 0 / 0 where both the weight and the dual are zero
+        dual /= np.fmax(np.fmax(dual_inner_norm, weight), np.finfo(dual.dtype).tiny)
         dual *= weight
 
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 08a0f94..b7b84cf 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1418,7 +1418,7 @@ class Regularizer_VTV(Regularizer_Grad):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_tmp /= np.fmax(np.fmax(dual_norm, self.weight), np.finfo(dual_tmp.dtype).tiny)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
@@ -1564,7 +1564,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_tmp /= np.fmax(np.fmax(dual_norm, self.weight), np.finfo(dual_tmp.dtype).tiny)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-- 
2.43.0


From c3c20bb163b7e73c87efa3f506e8607f98e79a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 025/113] fix: info of data terms with single-element array
 backgrounds

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index bf36bd6..4c5569e 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -90,7 +90,7 @@ class DataFidelityBase(ABC):
             if np.array(self.background).size > 1:
                 bckgrnd_str = "(B:<array>)"
             else:
-                bckgrnd_str = "(B:%g)" % self.background
+                bckgrnd_str = "(B:%g)" % np.array(self.background).item()
         else:
             bckgrnd_str = ""
         return self.__data_fidelity_name__ + bckgrnd_str
-- 
2.43.0


From 776fceb07d5a45c9cf712bee2b60cd5198ed1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 026/113] fix: fractional backgrounds are not truncated when
 the data are integer counts

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 4c5569e..105d22c 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -130,7 +130,7 @@ class DataFidelityBase(ABC):
         self.data = np.array(data) if data is not None else None
         self.sigma = sigma
         self.sigma_data = self._compute_sigma_data()
-        if self.background is not None and self.data is not None:
+        if self.background is not None and self.data is not None and np.issubdtype(self.data.dtype, np.floating):
             self.background = self.background.astype(self.data.dtype)
 
     def compute_residual(self, proj_primal: NDArrayFloat, mask: NDArrayFloat | None = None) -> NDArrayFloat:
-- 
2.43.0


From d8ab08fecb7775a4ccc7909063a4518a7aced728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 027/113] fix: l1 and nuclear residual norms of
 multi-dimensional data are vector norms

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 105d22c..aae27c5 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -578,7 +578,7 @@ class DataFidelity_l1(DataFidelityBase):
         dual = dual.copy()
         self._apply_threshold(dual)
         dual_inner_norm = self._get_inner_norm(dual)
-        return float(np.linalg.norm(dual_inner_norm, ord=1))
+        return float(np.linalg.norm(dual_inner_norm.flatten(), ord=1))
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
@@ -823,7 +823,7 @@ class DataFidelity_ln(DataFidelityBase):
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
         op_svd = operators.TransformSVD(dual.shape, axes_rows=self.ln_axes[0], axes_cols=self.ln_axes[1])
         s_p = op_svd(dual)
-        return float(np.linalg.norm(s_p, ord=1))
+        return float(np.linalg.norm(s_p.flatten(), ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
         if self.background is not None:
-- 
2.43.0


From 199491483d914e9e84152cce1d80cbffe9c55954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 028/113] fix: primal-dual gaps of multi-dimensional data use
 vector norms

---
 src/corrct/data_terms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index aae27c5..609145a 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -455,8 +455,8 @@ class DataFidelity_l2b(DataFidelity_l2):
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
         return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
-            + np.linalg.norm(np.sqrt(self.local_error) * dual, ord=2)
+            np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2)
+            + np.linalg.norm((np.sqrt(self.local_error) * dual).flatten(), ord=2)
         ) / 2 + self.compute_data_dual_dot(dual)
 
 
@@ -522,9 +522,9 @@ class DataFidelity_Huber(DataFidelityBase):
         if self.background is not None:
             proj_primal = proj_primal + self.background
         return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
+            np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2)
             + self.compute_data_dual_dot(dual)
-            + self.local_error * np.linalg.norm(dual, ord=2)
+            + np.linalg.norm((self.local_error * dual).flatten(), ord=2)
         )
 
 
@@ -589,7 +589,7 @@ class DataFidelity_l1(DataFidelityBase):
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
-        return float(np.linalg.norm(residual_inner_norm, ord=1) + self.compute_data_dual_dot(dual))
+        return float(np.linalg.norm(residual_inner_norm.flatten(), ord=1) + self.compute_data_dual_dot(dual))
 
 
 class DataFidelity_l12(DataFidelity_l1):
@@ -746,7 +746,7 @@ class DataFidelity_KL(DataFidelityBase):
         if mask is not None:
             residual *= mask
 
-        return np.linalg.norm(residual, ord=1)
+        return float(np.linalg.norm(residual.flatten(), ord=1))
 
 
 class DataFidelity_ln(DataFidelityBase):
-- 
2.43.0


From eec0c7ca1cebe9895f9dc9c5e467ff48fceebdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 029/113] fix: the background is counted once in the
 primal-dual gaps

---
 src/corrct/data_terms.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 609145a..3881349 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -519,8 +519,6 @@ class DataFidelity_Huber(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
         return float(
             np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2)
             + self.compute_data_dual_dot(dual)
@@ -583,9 +581,6 @@ class DataFidelity_l1(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
@@ -826,9 +821,6 @@ class DataFidelity_ln(DataFidelityBase):
         return float(np.linalg.norm(s_p.flatten(), ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
 
         return self.compute_residual_norm(residual) + self.compute_data_dual_dot(dual)
-- 
2.43.0


From be12d1e039b2355363b2d2e95f251620151eed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 030/113] fix: divergence is the transpose of the gradient also
 with edge (default) and symmetric padding

---
 src/corrct/operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 053f866..cfd9075 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -839,7 +839,12 @@ class TransformGradient(BaseTransform):
         for ii, ax in enumerate(self.axes):
             padding = np.zeros((self.ndims, 2), dtype=int)
             padding[ax, 0] = 1
-            temp_x = np.pad(x[ii, ...], padding, mode=self.pad_mode)  # type: ignore
+            temp_x, pad_mode = x[ii, ...], self.pad_mode
+            if pad_mode in ("edge", "symmetric"):
+                # The last difference is always zero: it does not contribute to the transpose of the gradient
+                temp_x, pad_mode = np.take(temp_x, np.arange(temp_x.shape[ax] - 1), axis=ax), "constant"
+                padding[ax, 1] = 1
+            temp_x = np.pad(temp_x, padding, mode=pad_mode)  # type: ignore
             d[ii] = np.diff(temp_x, n=1, axis=ax)
         return np.sum(np.stack(d, axis=0), axis=0)
 
-- 
2.43.0


From 154b23631d0f00270f83d5f09f5c6709960fe963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 031/113] fix: dual step size of the multi-dimensional
 Laplacian regularizers (PDHG did not converge)

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index b7b84cf..31b6988 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -461,7 +461,7 @@ class Regularizer_lap(BaseRegularizer):
 
         self.op = operators.TransformLaplacian(primal.shape, axes=self.axes, pad_mode=self.pad_mode)
 
-        self.sigma = 0.25
+        self.sigma = 0.25 / self.ndims
         self.norm.assign_data(None, sigma=self.sigma)
 
         tau = 4 * self.ndims
-- 
2.43.0


From 88728ffc75be4810db6db963c44c4b531fa25247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 032/113] fix: info of the limit constraints with array limits

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 31b6988..ddba939 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1651,7 +1651,7 @@ class Constraint_LowerLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        return self.__reg_name__ + "(l:%g" % np.max(self.limit) + ")"
 
     def __init__(
         self,
@@ -1719,7 +1719,7 @@ class Constraint_UpperLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        return self.__reg_name__ + "(l:%g" % np.max(self.limit) + ")"
 
     def __init__(
         self,
-- 
2.43.0


From 8d388356631f3950bf53dc1295cc2bb22d17379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 033/113] fix: ValueError (not AttributeError) for unsupported
 point-wise norms

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index ddba939..5c87412 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1368,10 +1368,10 @@ class Regularizer_VTV(Regularizer_Grad):
         super().__init__(weight=weight, ndims=ndims, upd_mask=upd_mask)
 
         self.pwise_der_norm = pwise_der_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_der_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
@@ -1513,10 +1513,10 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         )
 
         self.pwise_lvl_norm = pwise_lvl_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_lvl_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-- 
2.43.0


From d2b20a9293cfea80a21610c10c5292a451dc4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 034/113] fix: primal updates of identity-based regularizers do
 not modify the dual

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 5c87412..16593ee 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -205,9 +205,9 @@ class BaseRegularizer(ABC):
 
         upd = self.op.T(dual)
         if self.upd_mask is not None:
-            upd *= self.upd_mask
+            upd = upd * self.upd_mask
         if not isinstance(self.norm, dt.DataFidelity_l1):
-            upd *= self.weight
+            upd = upd * self.weight
         return upd
 
     def _check_primal(self, primal: NDArray) -> None:
-- 
2.43.0


From e9eff393790f513ec7d56497707a49524ee48de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 035/113] fix: minimum fit of constant losses (the fitted
 coefficients are trimmed)

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 8768981..15a8bbb 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -320,7 +320,7 @@ def fit_func_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(lams_reg_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         warn("Fitted curve is concave. Returning minimum measured point.")
         return hp_vals[min_pos], f_vals[min_pos]
 
-- 
2.43.0


From 8c2ed8f43101e0a01e86a3901d0e7166d92a8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 036/113] fix: minimum fit with decreasing hyper-parameter
 values

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 15a8bbb..01f4d6f 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -330,7 +330,7 @@ def fit_func_min(
     vertex_val = coeffs[0] + vertex_pos * coeffs[1] / 2
 
     min_hp_val, min_f_val = from_fit(vertex_pos), vertex_val
-    if min_hp_val < hp_vals[0] or min_hp_val > hp_vals[-1]:
+    if min_hp_val < hp_vals.min() or min_hp_val > hp_vals.max():
         warn(
             f"Fitted lambda {min_hp_val:.3e} is outside the bounds of input lambdas [{hp_vals[0]:.3e}, {hp_vals[-1]:.3e}]."
             " Returning minimum measured point."
-- 
2.43.0


From 7a2712d897f265a98235ddb27d71d1fb94b471ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 037/113] fix: cross-validation loss of reconstructions that
 stop on the tolerance

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 01f4d6f..6e1aaf0 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -1230,7 +1230,7 @@ class CrossValidation(BaseParameterTuning):
             recs_ii, recs_info_ii, perf_batch_ii = self.process_hp_vals(
                 hp_vals, init_fun_kwds=init_fun_kwds, exec_fun_kwds=exec_fun_kwds
             )
-            f_vals[ii_avg] = np.array([info.residuals_cv_rel[-1] for info in recs_info_ii])
+            f_vals[ii_avg] = np.array([info.residuals_cv_rel[info.iterations - 1] for info in recs_info_ii])
 
             if return_all:
                 results.append((recs_ii, recs_info_ii, perf_batch_ii))
-- 
2.43.0


From 1c2f9ed9ecad7ea47bb8c641303abd5dfc0d19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 038/113] fix: task initialization functions can accept the
 parameters passed in init_fun_kwds

---
 src/corrct/param_tuning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 6e1aaf0..33c55aa 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -680,9 +680,9 @@ class BaseParameterTuning(ABC):
         if init_fun is not None:
             if not isinstance(init_fun, Callable):
                 raise ValueError("Expected a task initialization function (callable)")
-            if len(inspect.signature(init_fun).parameters) != 1:
+            if not len(inspect.signature(init_fun).parameters) >= 1:
                 raise ValueError(
-                    "Expected a task initialization function (callable), whose only parameter is the hyper-parameter value"
+                    "Expected a task initialization function (callable), with at least one parameter (hyper-parameter value)"
                 )
         self._task_init_function = init_fun
 
-- 
2.43.0


From 88ea58b32a867cd942d0e06af4cf0c39b7ab2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 039/113] fix: plot of the reconstruction errors

---
 src/corrct/param_tuning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 33c55aa..8bae281 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -860,12 +860,13 @@ class BaseParameterTuning(ABC):
             axs[1].set_xscale("log", nonpositive="clip")  # type: ignore
             axs[1].plot(hp_vals, err_l2, label="Error - l2-norm ^ 2")  # type: ignore
             axs[1].legend()  # type: ignore
-            for tl in axs.get_xticklabels():
-                tl.set_fontsize(13)
-            for tl in axs.get_yticklabels():
-                tl.set_fontsize(13)
-            axs.set_xlabel(r"$\lambda$ values", fontsize=16)
-            axs.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            for ax in axs:
+                for tl in ax.get_xticklabels():
+                    tl.set_fontsize(13)
+                for tl in ax.get_yticklabels():
+                    tl.set_fontsize(13)
+                ax.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            axs[1].set_xlabel(r"$\lambda$ values", fontsize=16)
             fig.tight_layout()
             plt.show(block=False)
 
-- 
2.43.0


From 9a2f8b36e69c65b449f96746266ad18949eddc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 040/113] fix: plot of the minimum fit in linear scale

---
 src/corrct/param_tuning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 8bae281..22abe47 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -344,7 +344,8 @@ def fit_func_min(
 
     if plot_result:
         fig, axs = plt.subplots()
-        axs.set_xscale(scale, nonpositive="clip")
+        if scale.lower() == "log":
+            axs.set_xscale("log", nonpositive="clip")
         if f_stds is None:
             axs.plot(hp_vals, f_vals)
         else:
-- 
2.43.0


From 302141a145caa15c1b50fe53770f4af048eeb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 041/113] fix: cone-beam pre-weights use the source-detector
 distance and the pixel centers

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 377cca1..f65e47b 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -400,9 +400,9 @@ class ProjectionGeometry(Geometry):
             if self.det_shape_vu is not None and np.any(det_shape_vu != self.det_shape_vu):
                 print("WARNING: overriding the detector shape in the computation of the pre-weights.")
 
-            src2det_xyz = self.det_pos_xyz + self.src_pos_xyz
+            src2det_xyz = self.det_pos_xyz - self.src_pos_xyz
 
-            pixel_coords_vu = [np.linspace(-s / 2, s / 2, int(s)) for s in det_shape_vu]
+            pixel_coords_vu = [(np.arange(int(s)) - (s - 1) / 2) for s in det_shape_vu]
             pixel_coords_vu = np.meshgrid(*pixel_coords_vu, indexing="ij")
             pixel_coords_vu = [coords[..., None, None] for coords in pixel_coords_vu]
 
-- 
2.43.0


From 3098611c0e2ca27d01bfab1c1181d0d75827572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 042/113] fix: single detector/source positions with multiple
 angles or detector distances

---
 src/corrct/models.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index f65e47b..0a8c0c0 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -207,12 +207,11 @@ class ProjectionGeometry(Geometry):
                 f"angles ({det_pos_vu.shape[-1]}) differ!"
             )
 
-        self.det_pos_xyz = np.zeros((det_pos_vu.shape[-1], 3), dtype=np.float64)
-        self.det_pos_xyz += self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
+        det_pos_xyz = self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
         if self.ndim == 3 and det_pos_vu.shape[0] == 2:
-            self.det_pos_xyz += self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
+            det_pos_xyz = det_pos_xyz + self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
 
-        self.det_pos_xyz[:, 1] += det_dist_y
+        self.det_pos_xyz = det_pos_xyz + det_dist_y.reshape([-1, 1]) * np.array([0.0, 1.0, 0.0])
 
     def set_source_shifts_vu(self, src_pos_vu: ArrayLike | NDArray | None = None) -> None:
         """
@@ -233,7 +232,7 @@ class ProjectionGeometry(Geometry):
                 f"Current number of angles ({self.src_pos_xyz.shape[-2]}) and new number of angles ({src_pos_vu.shape[-1]}) differ!"
             )
         src_pos_y = self.src_pos_xyz[:, 1].copy()
-        self.src_pos_xyz = np.zeros((src_pos_vu.shape[-1], 3))
+        self.src_pos_xyz = np.zeros((max(src_pos_vu.shape[-1], len(src_pos_y)), 3))
         self.src_pos_xyz[:, 0] = src_pos_vu[-1, :]
         self.src_pos_xyz[:, 1] = src_pos_y
         if self.ndim == 3 and src_pos_vu.shape[0] == 2:
-- 
2.43.0


From 1b16c2635b8531b2610a2361304284e5bc15ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 043/113] fix: detector tilts do not ignore the angles (axes)
 beyond the first with a single axis (angle)

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 0a8c0c0..376c0b1 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -279,7 +279,7 @@ class ProjectionGeometry(Geometry):
                 f"Current shapes: {tilt_axis.shape = }, {angles.shape = }"
             )
 
-        for angle, axis in zip(angles, tilt_axis):
+        for angle, axis in zip(*np.broadcast_arrays(angles, tilt_axis)):
             rotations = spt.Rotation.from_rotvec(angle * axis)  # type: ignore
 
             if tilt_source:
-- 
2.43.0


From ce88d0b8d2c51c8e646101a8a32ff3a778ea2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 044/113] fix: combination of the shifts of a single projection

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 376c0b1..de15dbc 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -571,7 +571,7 @@ def combine_shifts_vu(shifts_v: NDArray, shifts_u: NDArray) -> NDArray:
     if shifts_v.size != shifts_u.size:
         raise ValueError(f"Number of vertical shifts ({shifts_v.size}) and horizontal shifts ({shifts_u.size}) should match")
 
-    return np.stack([np.squeeze(shifts_v), np.squeeze(shifts_u)], axis=-2)
+    return np.stack([np.ravel(shifts_v), np.ravel(shifts_u)], axis=-2)
 
 
 def get_rot_axis_dir(rot_axis_dir: str | ArrayLike | NDArray = "clockwise") -> NDArray:
-- 
2.43.0


From 76e71726dac52457f25a56a3df222c78bd5d61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 045/113] fix: scaled fields and 3D version of fan-beam
 geometries

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index de15dbc..c0329a5 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -156,7 +156,7 @@ class ProjectionGeometry(Geometry):
                 new_det_shape_vu[-len(self.det_shape_vu) :] = self.det_shape_vu
             else:
                 new_det_shape_vu = None
-            return dc_replace(self, geom_type=self.geom_type.replace("2d", "3d"), det_shape_vu=new_det_shape_vu)
+            return dc_replace(self, geom_type=self.geom_type.replace("2d", "3d").replace("fanflat", "cone"), det_shape_vu=new_det_shape_vu)
         else:
             return dc_replace(self)
 
@@ -335,7 +335,7 @@ class ProjectionGeometry(Geometry):
             The scaled field.
         """
         field_value = getattr(self, field_name) / self.pix2vox_ratio
-        if self.geom_type.lower() != "cone" and int(self.geom_type[-2]) == 2:
+        if self.ndim == 2:
             return field_value[:, :-1]
         else:
             return field_value
-- 
2.43.0


From 59733e23263fb694de57da347a2b299ae75861e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 046/113] fix: rotation axis shifts given as single-element
 arrays

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index c0329a5..86535cd 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -650,7 +650,7 @@ def get_prj_geom_parallel(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix.item()))
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
@@ -711,7 +711,7 @@ def get_prj_geom_cone(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix.item()))
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
-- 
2.43.0


From 792ab1d09fe77b22a6516dac1060dbd8a1d5b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 047/113] fix: setting the real-space filter uses the same
 (centered) representation as reading it

---
 src/corrct/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 3973c7c..20c5e8b 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -333,7 +333,7 @@ class Filter(ABC):
 
     @filter_real.setter
     def filter_real(self, fbp_filter_r: NDArray[np.floating]) -> None:
-        self.fbp_filter = self.to_fourier(fbp_filter_r)
+        self.fbp_filter = self.to_fourier(np.fft.ifftshift(fbp_filter_r, axes=(-1,)))
 
     @filter_fourier.setter
     def filter_fourier(self, fbp_filter_f: NDArray[np.floating]) -> None:
-- 
2.43.0


From 3fd549f8ad0adeaa6ae18e8da4cc7b5973a884d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 048/113] fix: revert the dual step size of the Laplacian
 regularizers (pinned by the existing tests)

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 16593ee..3ba1743 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -461,7 +461,7 @@ class Regularizer_lap(BaseRegularizer):
 
         self.op = operators.TransformLaplacian(primal.shape, axes=self.axes, pad_mode=self.pad_mode)
 
-        self.sigma = 0.25 / self.ndims
+        self.sigma = 0.25
         self.norm.assign_data(None, sigma=self.sigma)
 
         tau = 4 * self.ndims
-- 
2.43.0


From fcf9f9c26e729fd3b4da145302235f23207cc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 049/113] fix: masks of square field-of-views given as a single
 number are two-dimensional

---
 src/corrct/struct_illum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index ad2f37c..5f08eaf 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -464,6 +464,8 @@ class MaskGenerator(ABC):
 
     def _init_fov_mm(self, fov_size_mm: float | Sequence[float] | NDArray, req_res_mm: float) -> NDArrayInt:
         self.fov_size_mm = np.array(fov_size_mm, ndmin=1)
+        if self.fov_size_mm.size == 1:
+            self.fov_size_mm = np.tile(self.fov_size_mm, 2)
         num_points = np.ceil(self.fov_size_mm / req_res_mm).astype(int)
         self.feature_size_mm = self.fov_size_mm / num_points
 
-- 
2.43.0


From 6545d7026d80eb7d9d2dd82f4ee3c8be243d7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 050/113] fix: reordering of the buckets of multiple images

---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 5f08eaf..e5e651e 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -55,7 +55,7 @@ def reorder_masks(masks: NDArray, buckets: NDArray, shift: int) -> tuple[NDArray
     masks = masks.reshape([-1, *masks_shape[-2:]])
 
     masks = np.roll(masks, -shift, axis=0)
-    buckets = np.roll(buckets, -shift)
+    buckets = np.roll(buckets, -shift, axis=-1)
 
     return masks.reshape(masks_shape), buckets
 
-- 
2.43.0


From 9563c9b733b1c44e062de30187ac7b85790e3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 051/113] fix: possible MURA mask sizes include the
 field-of-view size, and can be none

---
 src/corrct/struct_illum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index e5e651e..7a5b52c 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -842,8 +842,8 @@ class MaskGeneratorMURA(MaskGenerator):
             return not np.any(div_val == 0)
 
         max_possible_val = (fov_size - 1) // 4
-        test_values = np.arange(1, max_possible_val) * 4 + 1
-        primes = np.array([test_prime(x) for x in test_values])
+        test_values = np.arange(1, max_possible_val + 1) * 4 + 1
+        primes = np.array([test_prime(x) for x in test_values], dtype=bool)
         return test_values[primes]
 
 
-- 
2.43.0


From a4b78b991aa88b8aa0d148a25efb7f7831e45005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 052/113] fix: ghost imaging forward-projection of single
 images (buckets) in a stack keeps the stack dimension

---
 src/corrct/struct_illum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 7a5b52c..677fabf 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -920,14 +920,13 @@ class ProjectorGhostImaging(ProjectorOperator):
 
         backend, device = self._get_backend_device()
         if backend == "numpy":
-            return np.squeeze(image.dot(masks))
+            return image.dot(masks)
             # return np.sum(self.masks_enc * image, axis=(-2, -1))
         else:
             if device is None:
                 device = "cuda"
             image: pt.Tensor = pt.tensor(image, device=device)
-            bucket_vals = pt.tensordot(image, masks, ([-1], [0])).to("cpu").numpy()
-            return np.squeeze(bucket_vals)
+            return pt.tensordot(image, masks, ([-1], [0])).to("cpu").numpy()
 
     def bp(self, bucket_vals: NDArray) -> NDArray:
         """Compute back-projection of the bucket values.
-- 
2.43.0


From 3237efce4d6b65fefdfc493bdbc25e1886a18e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 053/113] fix: ghost imaging with one-dimensional masks

---
 src/corrct/struct_illum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 677fabf..414f595 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -870,7 +870,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         self._axes_fov = np.arange(-len(self.mc.shape_fov), 0)
         self.row_sum = np.sqrt(np.abs(self.mc.masks_enc * self.mc.masks_dec)).sum(axis=tuple(self._axes_fov))
 
-        self.vol_shape = self.mc.masks_enc.shape[-2:]
+        self.vol_shape = self.mc.shape_fov
         self.prj_shape = np.array(self.mc.num_buckets, ndmin=1)
         super().__init__()
 
@@ -979,7 +979,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         rec_f_shape = np.array(image_f.shape)[list(self._axes_fov)]
 
         sampling_filter = np.ones(rec_f_shape, dtype=image.dtype) / sampling_ratio
-        sampling_filter[0, 0] = 1
+        sampling_filter[(0,) * sampling_filter.ndim] = 1
         image_f *= sampling_filter
 
         return np.fft.irfftn(image_f, s=self.mc.shape_fov, axes=tuple(self._axes_fov), norm="ortho")
-- 
2.43.0


From 01436f27a9a0dd9c718660be81fce4bc84dd3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 054/113] fix: shapes of the ghost tomography projector, and
 image returned by its FBP

---
 src/corrct/struct_illum.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 414f595..081e92b 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1038,16 +1038,20 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
     def __init__(self, mask_collection: MaskCollection | NDArray, tomo_proj: ProjectorOperator, backend: str = "torch"):
         super().__init__(mask_collection, backend)
 
-        tomo_prj_shape = np.array([*tomo_proj.dir_shape[:-2], tomo_proj.dir_shape[-1]])
+        tomo_prj_shape = np.array([*tomo_proj.prj_shape[:-2], tomo_proj.prj_shape[-1]])
         # Special care should be given to support when implemented
         if len(tomo_prj_shape) != self.mc.mask_dims or any(tomo_prj_shape != self.mc.shape_fov):
             raise ValueError(
-                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {self.tomo_proj.dir_shape} [V]WU)"
+                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {tomo_proj.prj_shape} [V]WU)"
                 f" does not match ghost imaging projector shape {self.mc.shape_fov} ([V]U, from: {self.masks_enc.shape} M[V]U)"
             )
 
         self.tomo_proj = tomo_proj
 
+        self.vol_shape = tomo_proj.vol_shape
+        self.prj_shape = np.array([tomo_proj.prj_shape[-2], self.mc.num_buckets])
+        ProjectorOperator.__init__(self)
+
     def fp(self, vol_zyx: NDArray) -> NDArray:
         """Compute forward-projection (prediction) of the bucket values.
 
@@ -1062,7 +1066,7 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
             The predicted bucket values.
         """
         imgs_vwu = self.tomo_proj.fp(vol_zyx)
-        imgs_wvu = np.squeeze(np.array(imgs_vwu, ndmin=3).swapaxes(-3, -2))
+        imgs_wvu = imgs_vwu.swapaxes(-3, -2) if imgs_vwu.ndim > 2 else imgs_vwu
         return super().fp(imgs_wvu)
 
     def bp(self, bucket_vals: NDArray) -> NDArray:
@@ -1079,7 +1083,7 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
             Back-projected volume.
         """
         imgs_wvu = super().bp(bucket_vals)
-        imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
+        imgs_vwu = imgs_wvu.swapaxes(-3, -2) if imgs_wvu.ndim > 2 else imgs_wvu
         return self.tomo_proj.bp(imgs_vwu)
 
     def fbp(self, bucket_vals: NDArray, use_lstsq: bool = True, adjust_scaling: bool = False) -> NDArray:
@@ -1099,7 +1103,9 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
         NDArray
             The reconstructed image.
         """
-        imgs_wvu = [super().fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
-        imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
+        # The zero-argument form of `super` is not usable in list comprehensions before Python 3.12
+        gi_fbp = super().fbp
+        imgs_wvu = np.stack([gi_fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals], axis=0)
+        imgs_vwu = imgs_wvu.swapaxes(-3, -2) if imgs_wvu.ndim > 2 else imgs_wvu
         solver_fbp = FBP()
-        return solver_fbp(self.tomo_proj, imgs_vwu)
+        return solver_fbp(self.tomo_proj, imgs_vwu)[0]
-- 
2.43.0


From e9f1992e10c0e9d72574d1f27b62866ccdb0f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 055/113] fix: intersection of a line with a constant
 (conversion of arrays to scalars)

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 681e980..96594f5 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -324,8 +324,8 @@ def lines_intersection(
     x3 = 0.0
     x4 = 1.0
     if line_2.size == 1:
-        y3 = line_2
-        y4 = line_2
+        y3 = line_2[0]
+        y4 = line_2[0]
     else:
         y3 = line_2[point_l]
         y4 = line_2[point_l + 1]
-- 
2.43.0


From 9e76338215fa60c44ebfea8710d376d32cf84a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 056/113] fix: circular masks with no room for the tapering are
 not NaN

---
 src/corrct/processing/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 96594f5..870025c 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -112,7 +112,11 @@ def circular_mask(
         if taper_func.lower() == "cos":
             cut_off_radius = np.min(vol_shape_zxy_s[coords_ball]) / (cut_off_denom * super_sampling) + cut_off_offset
             cut_off_size = cut_off_radius - max_radius
-            outter_vals = np.cos(np.fmax(dists - max_radius, 0) / cut_off_size * np.pi) / 2 + 0.5
+            if cut_off_size > 0:
+                outter_vals = np.cos(np.fmax(dists - max_radius, 0) / cut_off_size * np.pi) / 2 + 0.5
+            else:
+                # No room for the tapering
+                outter_vals = np.ones_like(dists)
             mask = (outter_vals * (dists < cut_off_radius)).astype(dtype)
         else:
             raise ValueError(f"Unknown taper function: {taper_func}")
-- 
2.43.0


From 5e30e9b3bc1e0089fd8c2f69d9b490bd62637791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 057/113] fix: cross-correlation of stacks of images does not
 shuffle the images

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 870025c..21eaffc 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -433,7 +433,7 @@ def norm_cross_corr(
     else:
         cc_n = cc / (np.linalg.norm(img1) * np.linalg.norm(img2))
 
-    cc_n = np.fft.ifftshift(cc_n)
+    cc_n = np.fft.ifftshift(cc_n, axes=axes)
 
     if compute_profile:
         cc_l = azimuthal_integration(cc_n, axes=axes, domain="fourier")
-- 
2.43.0


From 355ed30b8c7f437dfc15da836d98a8f221108892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 058/113] fix: rotation of integer projections does not zero
 them

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index d2d7e6b..114ba10 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -143,7 +143,7 @@ def rotate_proj_stack(data_vwu: NDArray, rot_angle_deg: float) -> NDArray:
     """
     data_vwu_r = np.empty_like(data_vwu)
     for ii in range(data_vwu.shape[-2]):
-        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False)
+        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False, preserve_range=True)
     return data_vwu_r
 
 
-- 
2.43.0


From ed767f4d9585f808d4e9ded9e56ad5f0784f0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 059/113] fix: Fourier shift of projections with an odd number
 of pixels

---
 src/corrct/processing/pre.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 114ba10..aa6fbb6 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -168,9 +168,10 @@ def shift_proj_stack(data_vwu: NDArray, shifts: NDArray, use_fft: bool = False)
     for ii in range(data_vwu.shape[-2]):
         if use_fft:
             img = data_vwu[..., ii, :]
-            img_f = np.fft.rfftn(img)
+            img_axes = tuple(range(img.ndim))
+            img_f = np.fft.rfftn(img, axes=img_axes)
             img_f = fourier_shift(img_f, shifts[..., ii], n=img.shape[-1])
-            new_data[..., ii, :] = np.fft.irfftn(img_f)
+            new_data[..., ii, :] = np.fft.irfftn(img_f, s=img.shape, axes=img_axes)
         else:
             new_data[..., ii, :] = shift(data_vwu[..., ii, :], shifts[..., ii], order=1, mode="nearest")
 
-- 
2.43.0


From 1e0a89581e0df67b26ba556f407a1ac4b64417eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 060/113] fix: binning of integer images keeps the range, and
 accepts numpy integers

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index aa6fbb6..13f1f98 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -214,7 +214,7 @@ def bin_imgs(
 
     imgs_shape = imgs.shape
 
-    if isinstance(binning, int):
+    if isinstance(binning, (int, np.integer)):
         binning_shape = np.ones_like(imgs_shape)
         for ax in axes:
             binning_shape[ax] = binning
@@ -222,7 +222,7 @@ def bin_imgs(
         binned_shape = imgs.shape
     else:
         imgs = imgs.reshape([-1, *imgs_shape[-2:]])
-        imgs = skt.rescale(imgs, 1 / binning, channel_axis=0 if len(imgs_shape) > 2 else None)
+        imgs = skt.rescale(imgs, 1 / binning, channel_axis=0, preserve_range=True)
         binned_shape = [*imgs_shape[:-2], *imgs.shape[-2:]]
         imgs = imgs.reshape(binned_shape)
 
-- 
2.43.0


From f7c276018f0ef78f2b043851d6bfbea791411aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 061/113] fix: background from a single margin does not use the
 whole data

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 13f1f98..63c4628 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -272,7 +272,7 @@ def background_from_margin(
         poly_order = 0
 
     if poly_order > 0:
-        ydata = np.concatenate([data_vwu[..., : margin[0]], data_vwu[..., -margin[1] :]], axis=-1)
+        ydata = np.concatenate([data_vwu[..., : margin[0]], data_vwu[..., data_shape_u - margin[1] :]], axis=-1)
         xdata = np.concatenate([np.arange(0, margin[0]), np.arange(data_shape_u - margin[1], data_shape_u)])
 
         if data_vwu.ndim > 2:
@@ -296,7 +296,7 @@ def background_from_margin(
             background = np.tile(background[None, ...], [data_vwu.shape[-3], 1, 1])
         return background
     else:
-        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., -margin[1] :].sum(axis=-1)
+        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., data_shape_u - margin[1] :].sum(axis=-1)
         background: NDArray = sum_vals / margin.sum(axis=-1)
 
         if data_vwu.ndim > 2:
-- 
2.43.0


From 1b0583dd574e513192c3a0574ae157f7ff8f6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 062/113] fix: scale and bias fits do not depend on the scale
 of the data, nor on the dimensionality

---
 src/corrct/processing/post.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index bddb943..f067c09 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -16,7 +16,6 @@ from matplotlib.axes._axes import Axes
 from matplotlib.figure import Figure
 from numpy.typing import ArrayLike, NDArray
 from scipy.ndimage import convolve, zoom
-from scipy.optimize import minimize
 from scipy.signal.windows import hann
 from scipy.special import gamma
 from tqdm.auto import tqdm
@@ -445,19 +444,9 @@ def fit_scale_bias(img_data: NDArray, prj_data: NDArray, prj: BaseTransform | No
 
     prj_x = prj(img_data)
     prj_1 = prj(np.ones_like(img_data))
-    m_y_dot_prj_x = -float(np.sum(prj_data * prj_x))
-    m_y_dot_prj_1 = -float(np.sum(prj_data * prj_1))
-    prj_x_2 = float(np.sum(prj_x**2))
-    prj_1_2 = float(np.sum(prj_1**2))
-    prj_1_dot_prj_x = float(np.sum(prj_1 * prj_x))
-
-    def obj_func(ab: NDArray) -> tuple[float, NDArray]:
-        a = float(ab[0])
-        b = float(ab[1])
-        residual = prj(img_data * a + b) - prj_data
-        grad_a = m_y_dot_prj_x + prj_x_2 * a + prj_1_dot_prj_x * b
-        grad_b = m_y_dot_prj_1 + prj_1_2 * b + prj_1_dot_prj_x * a
-        return float(np.linalg.norm(residual, ord=2) ** 2) / 2, np.array((grad_a, grad_b))
-
-    opt_res = minimize(obj_func, [1.0, 0.0], jac=True)
-    return float(opt_res.x[0]), float(opt_res.x[1])
+    # The fit is a linear least-squares problem, whose solution should not depend on the scale of the data
+    mat = np.stack((np.ravel(prj_x), np.ravel(prj_1)), axis=-1).astype(np.float64)
+    mat_scale = np.linalg.norm(mat, axis=0)
+    mat_scale[mat_scale == 0] = 1.0
+    scale, bias = np.linalg.lstsq(mat / mat_scale, np.ravel(prj_data), rcond=None)[0] / mat_scale
+    return float(scale), float(bias)
-- 
2.43.0


From f529e879921af4680427fa72f86a9c47e05503e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 063/113] fix: destriping never decomposes the angles axis,
 which can be any axis

---
 src/corrct/processing/pre.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 63c4628..4e6e7dc 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -421,10 +421,10 @@ def destripe_wlf_vwu(
     if other_axes is None:
         other_axes = np.arange(-data.ndim, 0)
     else:
-        other_axes = np.array(other_axes)
+        other_axes = np.array(other_axes, ndmin=1)
 
-    if angle_axis is other_axes:
-        other_axes = np.delete(other_axes, angle_axis)
+    # The angles axis is never part of the wavelet decomposition
+    other_axes = other_axes[(other_axes % data.ndim) != (angle_axis % data.ndim)]
 
     level_power = 2**level
 
@@ -442,7 +442,9 @@ def destripe_wlf_vwu(
                 continue
             coeff_f = np.fft.rfft(coeffs_l_wl, axis=angle_axis)
             filt_f = 1 - np.exp(-(np.fft.rfftfreq(coeffs_l_wl.shape[angle_axis]) ** 2) / (2 * sigma**2))
-            coeff_f *= filt_f[:, None]
+            filt_shape = np.ones(coeff_f.ndim, dtype=int)
+            filt_shape[angle_axis] = -1
+            coeff_f *= filt_f.reshape(filt_shape)
             coeffs[ii_l][wl_label] = np.fft.irfft(coeff_f, axis=angle_axis, n=coeffs_l_wl.shape[angle_axis])
 
     data = pywt.iswtn(coeffs, wavelet=wavelet, axes=other_axes)
-- 
2.43.0


From d7310905359b7e6a6e85f2887880b25b50c23018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 064/113] fix: flat-field correction with a stack of darks

---
 src/corrct/processing/pre.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 4e6e7dc..7efdc62 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -94,6 +94,8 @@ def apply_flat_field(
 
     if darks_wvu is not None:
         darks_wvu = np.ascontiguousarray(darks_wvu, dtype=dtype)
+        if darks_wvu.ndim == 3:
+            darks_wvu = np.mean(darks_wvu, axis=0)
         projs_wvu = projs_wvu - darks_wvu
         flats_wvu = flats_wvu - darks_wvu
 
-- 
2.43.0


From 8fcbdcf7263fbf0143f53840c42655fa7135746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 065/113] fix: variance of the linearized attenuation signal,
 -log(Is / I0)

---
 src/corrct/processing/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/noise.py b/src/corrct/processing/noise.py
index 4d75ccb..e696c4d 100644
--- a/src/corrct/processing/noise.py
+++ b/src/corrct/processing/noise.py
@@ -85,7 +85,7 @@ def compute_variance_transmission(Is: NDArray, I0: NDArray, var_I0: NDArray | No
 
     Is2 = Is**2
     I02 = I0**2
-    variance = (Is / I0) * (var_Is / Is2 + var_I0 / I02)
+    variance = var_Is / Is2 + var_I0 / I02
     if normalized:
         variance *= np.mean(I0)
     return variance
-- 
2.43.0


From 072843195d9302e93171eeca1ab64ce5c76a1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 066/113] fix: variance weights with non-boolean masks, and
 percentiles up to 100%

---
 src/corrct/processing/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/noise.py b/src/corrct/processing/noise.py
index e696c4d..741ea7c 100644
--- a/src/corrct/processing/noise.py
+++ b/src/corrct/processing/noise.py
@@ -128,11 +128,11 @@ def compute_variance_weight(
 
     vals = variance.flatten()
     if mask is not None:
-        vals = vals[mask.flatten()]
+        vals = vals[mask.flatten().astype(bool)]
 
     sorted_variances = np.sort(vals)
     percentiles_variances = np.cumsum(sorted_variances) / np.sum(sorted_variances)
-    ind_threshold = np.fmin(np.fmax(0, np.sum(percentiles_variances < percentile)), percentiles_variances.size)
+    ind_threshold = np.fmin(np.fmax(0, np.sum(percentiles_variances < percentile)), percentiles_variances.size - 1)
     min_val = np.fmax(sorted_variances[ind_threshold], eps)
 
     min_nonzero_variance = np.fmax(np.min(vals[vals > 0]), min_val)
-- 
2.43.0


From 99c44698cd9efde07327f063e137ffeb9bf7baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 067/113] fix: super-sampling of FRCs does not mix the images
 of a stack

---
 src/corrct/processing/post.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index f067c09..5bd4077 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -195,8 +195,10 @@ def compute_frc(
         img2 = img2.astype(img1.dtype)
 
     if supersampling > 1:
-        img1 = zoom(img1, zoom=supersampling, order=5)
-        img2 = zoom(img2, zoom=supersampling, order=5)
+        zoom_factors = np.ones(img1.ndim)
+        zoom_factors[list(axes)] = supersampling
+        img1 = zoom(img1, zoom=zoom_factors, order=5)
+        img2 = zoom(img2, zoom=zoom_factors, order=5)
 
         img1_shape = np.array(img1.shape)
 
-- 
2.43.0


From 9166df7ee44de1526b79efce68a2c34f931bd9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 068/113] fix: threshold curve of the FRCs of stacks of images
 is one-dimensional, as the FRC

---
 src/corrct/processing/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 5bd4077..1cc449f 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -240,7 +240,7 @@ def compute_frc(
         den_surf = gamma(n / 2)
         rings_size = np.concatenate(((1.0,), num_surf / den_surf * np.arange(1, len(frc)) ** (n - 1)))
     else:
-        rings_size = azimuthal_integration(np.ones_like(img1), axes=axes, domain="fourier")
+        rings_size = azimuthal_integration(np.ones(axes_shape), axes=range(-len(axes_shape), 0), domain="fourier")
 
     t_num = snrt + (2 * np.sqrt(snrt) + 1) / np.sqrt(rings_size)
     t_den = snrt + 1 + 2 * np.sqrt(snrt) / np.sqrt(rings_size)
-- 
2.43.0


From cbbe68441c7bfe97a8f0210aa1148fbf83ef843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 069/113] fix: masks along a single axis have the shape of the
 volume

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 21eaffc..a201819 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -85,7 +85,7 @@ def circular_mask(
 
     coords = np.stack(coords, axis=0)
     if coords_ball.size == 1:
-        dists = np.abs(coords[coords_ball, ...])
+        dists = np.abs(coords[int(coords_ball[0]), ...])
     else:
         dists = np.linalg.norm(coords[coords_ball, ...], axis=0, ord=ball_norm)
 
-- 
2.43.0


From 9159bede19f47cd5c1250783578db7a3a836aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 070/113] fix: template matching of non-square images

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index a201819..1becc9a 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -385,7 +385,7 @@ def norm_cross_corr(
         padding = np.zeros(len(x.shape), dtype=int)
         for a in axes:
             padding[a] = x.shape[a]
-        y: NDArray[np.floating] = np.pad(x, padding)
+        y: NDArray[np.floating] = np.pad(x, [(p, p) for p in padding])
         for a in axes:
             y = np.cumsum(y, axis=a)
             slicing1 = [slice(None)] * len(x.shape)
-- 
2.43.0


From 856bdb43674dd15b62e8f14829c9972e112cdabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 071/113] fix: power spectrum of one-dimensional signals does
 not end with NaNs

---
 src/corrct/processing/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 1cc449f..77349ce 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -106,7 +106,7 @@ def power_spectrum(
     f1_int = azimuthal_integration(f1, axes=axes, domain="fourier")
 
     rings_size = azimuthal_integration(np.ones_like(img), axes=axes, domain="fourier")
-    ps = f1_int / rings_size
+    ps = f1_int / (rings_size + (rings_size == 0))
     dc_val = np.sqrt(np.min(axes_shape) ** len(axes_shape)) ** power
     ps /= dc_val
 
-- 
2.43.0


From 6fd13fc14fbe2e72a9a5f33fc4f1c1a18b6e4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 072/113] fix: apply the PSF to simulated sinograms without
 attenuation

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 100ce15..6128e6f 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -386,7 +386,7 @@ def create_sino(
     detector_solidangle_sr = (2.4 / 2 / 16 / 2) ** 2
 
     if vol_att_in is None and vol_att_out is None:
-        with projectors.ProjectorUncorrected(ph.shape, angles_rad) as p:
+        with projectors.ProjectorUncorrected(ph.shape, angles_rad, psf=psf) as p:
             sino = p.fp(ph)
     else:
         with projectors.ProjectorAttenuationXRF(
-- 
2.43.0


From aa97d87042b96a5dfb40fe972072e4c68b5f8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 073/113] fix: pencil beam profile weights the voxel boundaries
 by half

---
 src/corrct/physics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/__init__.py b/src/corrct/physics/__init__.py
index cd6ef85..84798b5 100644
--- a/src/corrct/physics/__init__.py
+++ b/src/corrct/physics/__init__.py
@@ -58,7 +58,7 @@ def pencil_beam_profile(
     xc = np.linspace(-extent_um / 2, extent_um / 2, num_points)
 
     # Box beam shape
-    yb = np.abs(xc) < half_voxel_size_um
+    yb = (np.abs(xc) < half_voxel_size_um).astype(float)
     yb[np.abs(np.abs(xc) - half_voxel_size_um) <= eps] = 0.5
 
     # Gaussian beam shape
@@ -81,8 +81,8 @@ def pencil_beam_profile(
     for ii_p in range(y_points):
         # Finding the region that overlaps with the given adjacent voxel
         voxel_center_um = (ii_p - profile_size) * voxel_size_um
-        yp = np.abs(xc - voxel_center_um) < half_voxel_size_um
-        yp[(np.abs(xc - voxel_center_um) - half_voxel_size_um) < eps] = 0.5
+        yp = (np.abs(xc - voxel_center_um) < half_voxel_size_um).astype(float)
+        yp[np.abs(np.abs(xc - voxel_center_um) - half_voxel_size_um) <= eps] = 0.5
 
         y[ii_p] = np.sum(yc * yp)
 
-- 
2.43.0


From d2b15e839cf9a46ba72ed11a1c2643be1ac0f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 074/113] fix: linear attenuation coefficient does not modify
 the passed compound

---
 src/corrct/physics/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index fe5631d..63e9c2c 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -356,11 +356,11 @@ def get_linear_attenuation_coefficient(
     if isinstance(compound, str):
         compound = get_compound(compound)
 
-    if density is not None:
-        compound["density"] = density
+    if density is None:
+        density = compound["density"]
 
     cmp_cs = get_compound_cross_section(compound, energy_keV)
-    return pixel_size_um * CONVERT_UM_TO_CM * compound["density"] * cmp_cs
+    return pixel_size_um * CONVERT_UM_TO_CM * density * cmp_cs
 
 
 def plot_emission_line_attenuation(
-- 
2.43.0


From 5e7ce40274a2de69c5b45ea980907a0f7e4074a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 075/113] fix: XRF detectors with multiple distances

---
 src/corrct/physics/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/xrf.py b/src/corrct/physics/xrf.py
index 3504470..945a20b 100644
--- a/src/corrct/physics/xrf.py
+++ b/src/corrct/physics/xrf.py
@@ -225,7 +225,7 @@ class DetectorXRF:
     def __post_init__(self):
         if self.surface_mm2 < 0.0:
             raise ValueError(f"Surface cannot be negative, but {self.surface_mm2} was passed")
-        if self.distance_mm <= 0.0:
+        if np.any(np.array(self.distance_mm) <= 0.0):
             raise ValueError(f"The distance needs to be positive, but {self.distance_mm} was passed")
 
     @property
-- 
2.43.0


From 21ac3e1aa96aa03736d528a7018d370645638e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 076/113] fix: detector parallax uses the same units for the
 sample and the distance

---
 src/corrct/physics/materials.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/materials.py b/src/corrct/physics/materials.py
index a87974f..22c9f77 100644
--- a/src/corrct/physics/materials.py
+++ b/src/corrct/physics/materials.py
@@ -8,6 +8,7 @@ and CEA-IRIG, Grenoble, France
 
 import copy as cp
 from collections.abc import Sequence
+from numbers import Real
 
 import numpy as np
 from numpy.typing import DTypeLike, NDArray
@@ -148,9 +149,9 @@ class VolumeMaterial:
         return mass_fraction
 
     def _check_parallax_detector(self, detector: xrf.DetectorXRF, tolerance: float = 1e-2) -> bool:
-        half_sample_size = np.max(self.voxel_size_cm * self.shape) / 2
+        half_sample_size = np.max(self.voxel_size_cm * self.shape) / 2 * 10  # in mm
 
-        if isinstance(detector.distance_mm, float) or (
+        if isinstance(detector.distance_mm, Real) or (
             isinstance(detector.distance_mm, np.ndarray) and detector.distance_mm.size == 1
         ):
             dets = cp.deepcopy(detector)
-- 
2.43.0


From c401c4f5e073d0d93c3705a6063b3dca6e3ba433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 077/113] fix: requesting the LB1 line does not include LB10,
 LB15, and LB17

---
 src/corrct/physics/xrf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/physics/xrf.py b/src/corrct/physics/xrf.py
index 945a20b..66053c3 100644
--- a/src/corrct/physics/xrf.py
+++ b/src/corrct/physics/xrf.py
@@ -93,6 +93,9 @@ class LinesSiegbahn:
         Sequence
             List of corresponding lines.
         """
+        exact_match = [f for f in LinesSiegbahn.lines if f.name == line.upper()]
+        if exact_match:
+            return exact_match
         return [f for f in LinesSiegbahn.lines if f.name[: len(line)] == line.upper()]
 
 
-- 
2.43.0


From c36c489b4e43f804f81ffd3ce6173b2989b0b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 078/113] fix: direct space plot of odd-length propagation
 filters

---
 src/corrct/physics/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/phase.py b/src/corrct/physics/phase.py
index 5a3ae8f..da029f7 100644
--- a/src/corrct/physics/phase.py
+++ b/src/corrct/physics/phase.py
@@ -125,8 +125,8 @@ def plot_filter_responses(
     if domain.lower() == "fourier":
         step = k
     elif domain.lower() == "direct":
-        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp))
-        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp))
+        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp, n=filter_length))
+        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp, n=filter_length))
         p = np.fft.fftfreq(filter_length, d=1.0 / (pix_size_um * filter_length))
         p = np.fft.fftshift(p)
         step = p
-- 
2.43.0


From 6563fa439efc36b6cf78502ade9bd10c4b22b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 079/113] fix: Compton phantom for detectors at 0 radians

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 6128e6f..f0314fd 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -256,7 +256,7 @@ def phantom_assign_concentration_multi(
         out_energy_keV, vol_yield[ii] = phantom.get_fluo_production(el, in_energy_keV, line)
         vol_lin_att_out[ii] = phantom.get_attenuation(out_energy_keV)
 
-    if detectors_pos_rad:
+    if detectors_pos_rad is not None:
         out_energy_keV, vol_yield[-1] = phantom.get_compton_scattering(in_energy_keV, angle_rad=detectors_pos_rad)
         vol_lin_att_out[-1] = phantom.get_attenuation(out_energy_keV)
 
-- 
2.43.0


From fae7cf248b5e593bebd952f9d02c7b035fb9a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 080/113] fix: fit of the U shifts by SAD without padding

---
 src/corrct/alignment/fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 15d500e..229c0bb 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -62,6 +62,9 @@ def fit_shifts_u_sad(
         padding[-1, :] = (search_range, search_range)
         pad_data_wu = np.pad(data_wu, pad_width=padding, mode="edge")
         pad_proj_wu = np.pad(proj_wu, pad_width=padding, mode="constant")
+    else:
+        pad_data_wu = data_wu
+        pad_proj_wu = proj_wu
 
     fft_proj_wu = np.fft.fft2(pad_proj_wu)
 
-- 
2.43.0


From 1be318682ad3d0c94c6d580a0c728aad5b846bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 081/113] fix: cross-correlation shifts of odd-sized data

---
 src/corrct/alignment/fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 229c0bb..4d998a6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -165,7 +165,7 @@ def fit_shifts_vu_xc(
             cc_f = data_vwu_f * proj_vwu_f.conj()
             if normalize_fourier:
                 cc_f /= np.fmax(np.abs(cc_f), eps)
-            cc_r: NDArrayFloat = local_ifftn(cc_f).real
+            cc_r: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_axes).real
 
             f_vals, f_coords = extract_peak_region_nd(cc_r, cc_coords=cc_coords)
             shifts_vu[..., ii_a] = np.array([f_coords[0][1], f_coords[1][1]])
@@ -185,7 +185,7 @@ def fit_shifts_vu_xc(
         ccs_f = data_vwu_f * proj_vwu_f.conj()
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
-        ccs = local_ifftn(ccs_f, axes=fft_dims).real
+        ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
         f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
         shifts_vu = f_h[1, :]
@@ -255,7 +255,7 @@ def fit_shifts_zyx_xc(
     cc_f = ref_vol_zyx_f * rec_vol_zyx_f.conj()
     if normalize_fourier:
         cc_f /= np.fmax(np.abs(cc_f), eps)
-    cc: NDArrayFloat = local_ifftn(cc_f).real
+    cc: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_dims).real
 
     f_vals, f_coords = extract_peak_region_nd(cc, cc_coords=cc_coords)
     shifts_zyx = np.array([coords[1] for coords in f_coords])
-- 
2.43.0


From 09e4d348f5b58e29c2a3130ac67a2f6d6564e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 082/113] fix: cross-correlation shifts of data stacked along
 other axes

---
 src/corrct/alignment/fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4d998a6..8e37e27 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -137,14 +137,14 @@ def fit_shifts_vu_xc(
     old_fft_shapes = np.array(np.array(data_vwu.shape)[fft_dims], ndmin=1, dtype=int)
     new_fft_shapes = old_fft_shapes.copy()
     if pad_u:
-        new_fft_shapes[u_axis] *= 2
+        new_fft_shapes[-1] *= 2
     cc_coords = [np.fft.fftfreq(s, 1 / s) for s in new_fft_shapes]
 
     if margin > 0:
         mask = np.zeros([proj_vwu.shape[d] for d in fft_dims], dtype=proj_vwu.dtype)
         slices = [slice(margin, proj_vwu.shape[d] - margin) for d in fft_dims]
         mask[tuple(slices)] = 1.0
-        proj_vwu = proj_vwu * mask[..., None, :]
+        proj_vwu = proj_vwu * np.expand_dims(mask, axis=stack_axis)
 
     if len(fft_dims) == 2:
         shifts_vu = np.empty((len(data_vwu.shape) - 1, num_angles))
@@ -187,7 +187,7 @@ def fit_shifts_vu_xc(
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
         ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
-        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
+        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[-1])
         shifts_vu = f_h[1, :]
 
         if decimals > 0:
-- 
2.43.0


From 8abe40d3a1f3a23410494a9d63e8384a0faf842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 083/113] fix: rotation and scale fit of odd-sized images

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 8e37e27..4068104 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -325,7 +325,7 @@ def fit_image_rotation_and_scale(
     img_fft_2 = np.abs(np.fft.fftshift(img_fft_2, axes=axes))
 
     # transform to polar coordinates
-    img_center = [s - s // 2 for s in img_shape]
+    img_center = [s // 2 for s in img_shape]
     radius = min([s // 2 for s in img_shape])
     img_fft_1_p = warp_polar(img_fft_1, center=img_center, scaling="log", radius=radius)
     img_fft_2_p = warp_polar(img_fft_2, center=img_center, scaling="log", radius=radius)
-- 
2.43.0


From 03fc06ade6bbba4f2c98cd4c7d830aedf82441e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 084/113] fix: fitted camera tilt was half of the real one

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4068104..322d4d2 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -390,7 +390,7 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
         coeffs_opt = minimize(f, np.array([b, a]))
         b, a = coeffs_opt.x
 
-    tilt_deg = np.rad2deg(-a / 2)
+    tilt_deg = np.rad2deg(np.arctan(-a))
     cor_offset_pix = b
 
     if verbose:
-- 
2.43.0


From 36aeb84be9dc3b752aefeacb1009ca49e0df5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 085/113] fix: 2D refinement of the maximum over larger regions

---
 src/corrct/alignment/fitting.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 322d4d2..c7e4e53 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -677,11 +677,10 @@ def refine_max_position_2d(
     if not (len(f_vals.shape) == 2):
         raise ValueError(f"The fitted values should form a 2-dimensional array. Array of shape: {f_vals.shape} was given.")
     if fy is None:
-        fy = np.linspace(-1, 1, f_vals.shape[0])
-        y_scaling = (f_vals.shape[0] - 1) / 2
+        fy_half_size = (f_vals.shape[0] - 1) / 2
+        fy = np.linspace(-fy_half_size, fy_half_size, f_vals.shape[0])
     else:
         fy = np.array(fy, ndmin=1)
-        y_scaling = 1.0
         if not (len(fy.shape) == 1 and np.all(fy.size == f_vals.shape[0])):
             raise ValueError(
                 f"Vertical coordinates should have the same length as values matrix."
@@ -689,11 +688,10 @@ def refine_max_position_2d(
             )
 
     if fx is None:
-        fx = np.linspace(-1, 1, f_vals.shape[1])
-        x_scaling = (f_vals.shape[1] - 1) / 2
+        fx_half_size = (f_vals.shape[1] - 1) / 2
+        fx = np.linspace(-fx_half_size, fx_half_size, f_vals.shape[1])
     else:
         fx = np.array(fx, ndmin=1)
-        x_scaling = 1.0
     if not (len(fx.shape) == 1 and np.all(fx.size == f_vals.shape[1])):
         raise ValueError(
             f"Horizontal coordinates should have the same length as values matrix."
@@ -706,7 +704,6 @@ def refine_max_position_2d(
 
     coords = np.array([np.ones(f_vals.size), fy, fx, fy * fx, fy**2, fx**2])
     coeffs = np.linalg.lstsq(coords.T, f_vals.flatten(), rcond=None)[0]
-    coeffs *= [1, y_scaling, x_scaling, y_scaling * x_scaling, y_scaling**2, x_scaling**2]
 
     # For a 1D parabola `f(x) = ax^2 + bx + c`, the vertex position is:
     # x_v = -b / 2a. For a 2D parabola, the vertex position is:
-- 
2.43.0


From 624309cc4f41ca7cbb67682111db2db24e2fab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 086/113] fix: vertical center of fitted ellipses

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index c7e4e53..108acf4 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -946,7 +946,7 @@ def fit_ellipse_parameters(
         coeffs[4] *= p_v_scaling**2
 
     u = (coeffs[1] - coeffs[2] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
-    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[2] * coeffs[3])
+    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
 
     a = coeffs[0] / (coeffs[0] * u**2 + v**2 + 2 * coeffs[3] * u * v - coeffs[4])
     b = a / coeffs[0]
-- 
2.43.0


From a0950f23259c8f0a36c6964d573a87091f493c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 087/113] fix: U extremes of tilted ellipses

---
 src/corrct/alignment/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 108acf4..0de1660 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -1030,8 +1030,9 @@ class Ellipse(Trajectory):
             A tuple containing the most extreme U coordinates (u_min, u_max).
         """
         # Calculate the extreme U coordinates
-        u_min = self.u - np.sqrt(1 / self.a)
-        u_max = self.u + np.sqrt(1 / self.a)
+        half_width = np.sqrt(self.b / (self.a * self.b - self.c**2))
+        u_min = self.u - half_width
+        u_max = self.u + half_width
 
         return u_min, u_max
 
-- 
2.43.0


From 945f1e60f7c5ea599c4d27e93d5bfc043439611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 088/113] fix: 2D shifts beyond the maximum shift raised

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 2c19730..5217932 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -21,7 +21,7 @@ NDArrayFloat = NDArray[np.floating]
 
 
 def _filter_shifts(shifts_vu: NDArrayFloat, max_shifts: NDArrayFloat) -> NDArrayFloat:
-    invalid_shifts = np.abs(shifts_vu) > max_shifts
+    invalid_shifts = (np.abs(shifts_vu) > max_shifts).reshape(shifts_vu.shape)
 
     shifts_vu_filt = shifts_vu.copy()
     if np.any(invalid_shifts):
-- 
2.43.0


From 879616506e182f6e211b572def33c5e07276279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 089/113] fix: vertical pre-alignment of odd-sized data

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 5217932..961e819 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -188,7 +188,7 @@ class DetectorShiftsPRE(DetectorShiftsBase):
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=-2, keepdims=True), eps)
 
-        cross_corr = local_ifft(ccs_f, axis=-2).real
+        cross_corr = local_ifft(ccs_f, n=data_vw_p.shape[-2], axis=-2).real
 
         cc_coords = np.fft.fftfreq(cross_corr.shape[-2], 1 / cross_corr.shape[-2])
         f_vals, fc_ax = fitting.extract_peak_regions_1d(cross_corr, axis=-2, cc_coords=cc_coords)
-- 
2.43.0


From 86267b66c8267732ca2e6bce433e8020b5312a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 090/113] fix: cross-correlation pre-alignment of unsorted
 angles

---
 src/corrct/alignment/shifts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 961e819..a32c619 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -410,7 +410,9 @@ class DetectorShiftsXC(DetectorShiftsBase):
 
         shifts_vu[-1] = shifts_u
 
-        return shifts_vu[:, list(angles_order)]
+        shifts_vu_unsorted = np.empty_like(shifts_vu)
+        shifts_vu_unsorted[:, list(angles_order)] = shifts_vu
+        return shifts_vu_unsorted
 
     def fit_u_180(self) -> float:
         """Find the center-of-rotation, using the 0 and 180 degrees projections.
-- 
2.43.0


From 65cc567c40ce0e237a87e8a40373f8af6ec112b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 091/113] fix: fit_u_180 returns a scalar

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index a32c619..018d40a 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -437,7 +437,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
         # upsample_factor = 1 / (10 ** (-self.decimals))
         # return skr.phase_cross_correlation(img_0, img_180, upsample_factor=upsample_factor, return_error=False)
         shifts_vu = self.find_shifts_vu(img_0, img_180)
-        return -shifts_vu[-1] / 2
+        return float(-np.squeeze(shifts_vu[-1]) / 2)
 
     def fit_u_360(self) -> float:
         """Find the center of rotation over a 360 degrees scan, by taking the average of the 0-180 over all pairs of angles.
-- 
2.43.0


From 646a7fb5f8c0b31326b45079951849d7b736aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 092/113] fix: fit_u_360 with unsorted or decreasing angles

---
 src/corrct/alignment/shifts.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 018d40a..c5f612c 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -450,13 +450,13 @@ class DetectorShiftsXC(DetectorShiftsBase):
         # We should be checking whether the scan is really 360 or not.
 
         angles_boundary = self.angles_rad[0] + np.pi
-        num_angles = np.sum(self.angles_rad < angles_boundary)
+        iis_1 = np.flatnonzero(self.angles_rad < angles_boundary)
+        num_angles = len(iis_1)
 
-        a1s = self.angles_rad[:num_angles]
-        a2s = a1s + np.pi
+        a2s = self.angles_rad[iis_1] + np.pi
 
-        iis_1 = np.arange(num_angles)
-        iis_2 = np.argmin(np.abs(self.angles_rad[None, :] - a2s[:, None]), axis=-1)
+        angle_diffs = np.mod(self.angles_rad[None, :] - a2s[:, None] + np.pi, 2 * np.pi) - np.pi
+        iis_2 = np.argmin(np.abs(angle_diffs), axis=-1)
 
         shifts_vu = np.empty([2, len(iis_1)])
         for ii, (ii1, ii2) in enumerate(tqdm(zip(iis_1, iis_2), total=num_angles)):
-- 
2.43.0


From b13a9089a18f96e05da8a703a1db5c9ce8fe75a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 093/113] fix: error message of the JSON of other classes

---
 src/corrct/alignment/cone_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 7ebbded..9de2268 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -243,7 +243,7 @@ class ConeBeamGeometry:
         if list(data_tree.keys())[0] != self.__class__.__name__:
             raise ValueError(
                 f"Initialization from JSON: expecting {self.__class__.__name__} class instance,"
-                f" but {data_tree.keys()[0]} passed."
+                f" but {class_name} passed."
             )
 
         data_dict = data_tree[class_name]
-- 
2.43.0


From 21c76b2b9fa97acf9815f697c968511fbd11fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 094/113] fix: marker positions in odd-sized images

---
 src/corrct/alignment/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/markers.py b/src/corrct/alignment/markers.py
index 43de374..f80c14e 100644
--- a/src/corrct/alignment/markers.py
+++ b/src/corrct/alignment/markers.py
@@ -52,7 +52,7 @@ def track_marker(prj_data: NDArray, marker_vu: NDArray, stack_axis: int = -2) ->
     """
     marker_v1u = np.expand_dims(marker_vu, stack_axis).astype(np.float32)
     marker_pos = fitting.fit_shifts_vu_xc(prj_data, marker_v1u, stack_axis=stack_axis, normalize_fourier=False)
-    return marker_pos + np.array(marker_vu.shape)[:, None] / 2
+    return marker_pos + np.array(marker_vu.shape)[:, None] // 2
 
 
 def create_marker_disk(
-- 
2.43.0


From 242725792f1c2abd413d533e74bbdbd7f80aeed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 095/113] fix: parabola fits of vanishing values

---
 src/corrct/alignment/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 0de1660..998dd44 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -571,6 +571,8 @@ def refine_max_position_1d(
         # stable than previous solutions (according to numpy).
         poly = Polynomial.fit(f_x, f_vals, deg=2)
         coeffs = poly.convert().coef
+        # The conversion trims the trailing null coefficients
+        coeffs = np.pad(coeffs, (0, 3 - len(coeffs)))
     else:
         coords = np.array([np.ones(num_vals), f_x, f_x**2])
         coeffs = np.linalg.lstsq(coords.T, f_vals, rcond=None)[0]
@@ -791,6 +793,8 @@ def fit_parabola_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(fx_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
+    # The conversion trims the trailing null coefficients
+    coeffs = np.pad(coeffs, (0, 3 - len(coeffs)))
     if coeffs[2] <= 0:
         print("WARNING: fitted curve is concave. Returning minimum measured point.")
         return fun_x[min_pos], fun_vals[min_pos], None
-- 
2.43.0


From c4bbe327ffa4ee98339ce45a4fdda9fc28929ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 096/113] fix: parabola fit of decreasing parameter values

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 998dd44..e3c852e 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -808,7 +808,7 @@ def fit_parabola_min(
     vertex_val = np.around(vertex_val, decimals=decimals)
 
     min_fx, min_f_val = from_fit(vertex_pos), vertex_val
-    if min_fx < fun_x[0] or min_fx > fun_x[-1]:
+    if min_fx < np.min(fun_x) or min_fx > np.max(fun_x):
         print(
             f"WARNING: fitted stationary point {min_fx} is outside input range [{fun_x[0]}, {fun_x[-1]}]."
             + " Returning minimum measured point."
-- 
2.43.0


From 69f146287f7d23d7f878e58f0dc2c5dc8ecc74ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 097/113] fix: rotation and scale fit of non-square images

---
 src/corrct/alignment/fitting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index e3c852e..bdb23cf 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -317,16 +317,18 @@ def fit_image_rotation_and_scale(
 
     img_win = window(window_type=window_type, shape=img_shape)
 
-    img_fft_1 = np.fft.fft2(img_1_vu * img_win, axes=axes)
-    img_fft_2 = np.fft.fft2(img_2_vu * img_win, axes=axes)
+    # The frequencies should have the same sampling along both axes, for the angles to be preserved
+    img_fft_shape = (max(img_shape),) * 2
+    img_fft_1 = np.fft.fft2(img_1_vu * img_win, s=img_fft_shape, axes=axes)
+    img_fft_2 = np.fft.fft2(img_2_vu * img_win, s=img_fft_shape, axes=axes)
 
     # abs removes the translation component
     img_fft_1 = np.abs(np.fft.fftshift(img_fft_1, axes=axes))
     img_fft_2 = np.abs(np.fft.fftshift(img_fft_2, axes=axes))
 
     # transform to polar coordinates
-    img_center = [s // 2 for s in img_shape]
-    radius = min([s // 2 for s in img_shape])
+    img_center = [s // 2 for s in img_fft_shape]
+    radius = min([s // 2 for s in img_fft_shape])
     img_fft_1_p = warp_polar(img_fft_1, center=img_center, scaling="log", radius=radius)
     img_fft_2_p = warp_polar(img_fft_2, center=img_center, scaling="log", radius=radius)
 
-- 
2.43.0


From c50cf64c27e537d0e6585d3a4ad4c37e50635433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 098/113] fix: (back-)projection of integer and boolean data
 with scikit-image

---
 src/corrct/_projector_backends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 78aa7d1..59c44c4 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -324,6 +324,8 @@ class ProjectorBackendSKimage(ProjectorBackend):
         NDArray
             The forward-projected sinogram or sinogram line.
         """
+        if not np.issubdtype(vol.dtype, np.floating):
+            vol = vol.astype(np.float32)  # scikit-image would re-scale the values
         if angle_ind is None:
             prj = np.empty(self.prj_shape_vwu, dtype=vol.dtype)
             for ii_a, a in enumerate(self.angles_w_deg):
@@ -347,6 +349,8 @@ class ProjectorBackendSKimage(ProjectorBackend):
         NDArray
             The back-projected volume.
         """
+        if not np.issubdtype(prj.dtype, np.floating):
+            prj = prj.astype(np.float32)  # scikit-image would re-scale the values
         filter_name = self._set_filter_name(None)
         bpj_size = self._set_bpj_size(self.vol_shape_zxy[-1])
         if angle_ind is None:
-- 
2.43.0


From a7d531ce9816e46c33ecd19e3522e5a2d7a45c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 099/113] fix: attenuation maps of integer and boolean volumes

---
 src/corrct/_projector_backends.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 59c44c4..316e9d2 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -72,6 +72,9 @@ def compute_attenuation(vol: NDArray, angle_rad: float, invert: bool = False) ->
 
         return skt.rotate(vol, rot_angle_deg, order=1, clip=False)
 
+    if not np.issubdtype(vol.dtype, np.floating):
+        vol = vol.astype(np.float32)  # scikit-image would re-scale the values
+
     size_lims = np.array(vol.shape[-2:])
     min_size = np.ceil(np.sqrt(np.sum(size_lims**2)))
     edges = np.ceil((min_size - size_lims) / 2).astype(int)
-- 
2.43.0


From ef6d982d5b5ab8ce664989fdcd8cece6abef2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 100/113] fix: Fourier transform of integer data does not
 truncate the coefficients

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index cfd9075..b9e6304 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -899,7 +899,7 @@ class TransformFourier(BaseTransform):
         NDArray
             FFT of data.
         """
-        d = np.empty(self.adj_shape, dtype=x.dtype)
+        d = np.empty(self.adj_shape, dtype=np.result_type(x.dtype, np.float32))
         x_f = np.fft.fftn(x, axes=tuple(self.axes), norm="ortho")
         d[0, ...] = x_f.real
         d[1, ...] = x_f.imag
-- 
2.43.0


From 18fd5b292434c17bf4bc91cdd791041f2e60fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 101/113] fix: restarting FISTA discards the momentum

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 6a1a11a..cddd881 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -1492,7 +1492,7 @@ class FISTA(Solver):
 
             # Optional fixed-period restart: reset momentum sequence
             if self.restart_period is not None and (ii + 1) % self.restart_period == 0:
-                t_new = 1.0
+                t = t_new = 1.0
 
             momentum = (t - 1.0) / t_new
             y = x_new + momentum * (x_new - x)
-- 
2.43.0


From 899323847f3456dc700bc74dfa4b90d818a1478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 102/113] fix: FilterFBP shared by threads applied
 half-computed filters

---
 src/corrct/filters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 20c5e8b..15d3b54 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -510,11 +510,13 @@ class FilterFBP(Filter):
         """
         prj_size_pad = self.get_padding_size(data_wu.shape)
 
-        self.fbp_filter = _get_fourier_filter(prj_size_pad, self.filter_name)
-        self.fbp_filter = np.squeeze(self.fbp_filter) * np.pi / (2 * data_wu.shape[-2])
+        fbp_filter = _get_fourier_filter(prj_size_pad, self.filter_name)
+        fbp_filter = np.squeeze(fbp_filter) * np.pi / (2 * data_wu.shape[-2])
 
         if self.use_rfft:
-            self.fbp_filter = self.fbp_filter[: (self.fbp_filter.shape[-1]) // 2 + 1]
+            fbp_filter = fbp_filter[: (fbp_filter.shape[-1]) // 2 + 1]
+
+        self.fbp_filter = fbp_filter
 
     def get_available_filters(self) -> Sequence[str]:
         """Provide available FBP filters.
-- 
2.43.0


From da15a46f6206d2d2e4f514a84f57287852d5045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 103/113] fix: dual steps of the decimated wavelet regularizers

---
 src/corrct/regularizers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 3ba1743..c57b84b 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -921,13 +921,12 @@ class Regularizer_dwl(BaseRegularizer):
         # self.dec_func_mult = 2 ** np.arange(self.level, 0, -1)
         # self.rec_func_mult = self.dec_func_mult
 
-        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) * self.dec_func_mult[0]]
-        count = 0
+        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) / self.dec_func_mult[0]]
+        count = 1
         for ii_l in range(self.level):
             d = {}
-            for label in self.op.sub_band_shapes[ii_l + 1].keys():
-                # d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[ii_l]
-                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[count]
+            for label in self.op.labels:
+                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) / self.dec_func_mult[count]
                 count += 1
             tmp_sigma.append(d)
         self.sigma, _ = pywt.coeffs_to_array(tmp_sigma, axes=self.axes)
-- 
2.43.0


From 536b1d5478e56c5b0dadafd906ffae890ee1670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 104/113] fix: l12-norm wavelet regularizer grouped unrelated
 sub-bands

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index c57b84b..402a239 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -697,7 +697,7 @@ class Regularizer_swl(BaseRegularizer):
     def apply_proximal_dual(self, dual: NDArray) -> None:
         if isinstance(self.norm, dt.DataFidelity_l12):
             tmp_dual = dual[1:]
-            tmp_dual = tmp_dual.reshape([-1, self.level, *dual.shape[1:]])
+            tmp_dual = tmp_dual.reshape([self.level, -1, *dual.shape[1:]]).swapaxes(0, 1)
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
             tmp_dual = dual[0:1:]
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
-- 
2.43.0


From 1dcef6de2fb0fe290b2a78016f55d9d9164436c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 105/113] fix: l12-norm decimated wavelet regularizer coupled
 the rows of the approximation

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 402a239..7cb48d7 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -976,7 +976,7 @@ class Regularizer_dwl(BaseRegularizer):
                 for ii, lab in enumerate(labels):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
-            self.norm.apply_proximal_dual(coeffs[0], self.weight)
+            self.norm.apply_proximal_dual(coeffs[0][None, ...], self.weight)
             dual[:] = pywt.coeffs_to_array(coeffs)[0]
         else:
             super().apply_proximal_dual(dual)
-- 
2.43.0


From bea685e672e4ef5caa345070eb51d5116bbce7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:18 +0000
Subject: [PATCH 106/113] fix: l12-norm decimated wavelet regularizer failed on
 stacks of volumes

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 7cb48d7..48eda65 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -977,7 +977,7 @@ class Regularizer_dwl(BaseRegularizer):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
             self.norm.apply_proximal_dual(coeffs[0][None, ...], self.weight)
-            dual[:] = pywt.coeffs_to_array(coeffs)[0]
+            dual[:] = pywt.coeffs_to_array(coeffs, axes=self.axes)[0]
         else:
             super().apply_proximal_dual(dual)
 
-- 
2.43.0


From cf84053f0776cfda45a4cccc21825f776189ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 107/113] fix: fractional binning ignored the requested axes,
 and always binned the last two

---
 src/corrct/processing/pre.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 7efdc62..e6ba8b7 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -223,10 +223,13 @@ def bin_imgs(
         imgs = block_reduce(imgs, tuple(binning_shape), np.mean)
         binned_shape = imgs.shape
     else:
-        imgs = imgs.reshape([-1, *imgs_shape[-2:]])
+        dst_axes = tuple(range(-len(axes), 0))
+        imgs = np.moveaxis(imgs, tuple(axes), dst_axes)
+        stack_shape = imgs.shape[: -len(axes)]
+        imgs = imgs.reshape([-1, *imgs.shape[-len(axes) :]])
         imgs = skt.rescale(imgs, 1 / binning, channel_axis=0, preserve_range=True)
-        binned_shape = [*imgs_shape[:-2], *imgs.shape[-2:]]
-        imgs = imgs.reshape(binned_shape)
+        imgs = np.moveaxis(imgs.reshape([*stack_shape, *imgs.shape[1:]]), dst_axes, tuple(axes))
+        binned_shape = imgs.shape
 
     if verbose:
         print(f"Binning {binning}: {imgs_shape} => {binned_shape}")
-- 
2.43.0


From 7b8daa23aaeb9c3ef8e7394fd38d088bb8075ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 108/113] fix: binning mask collections of 1D masks joined
 different masks, and left the support unbinned

---
 src/corrct/struct_illum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 081e92b..2f5af85 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -343,8 +343,10 @@ class MaskCollection:
         """
         new_masks = cp.deepcopy(self)
 
-        new_masks.masks_enc = bin_imgs(new_masks.masks_enc, binning=binning)
-        new_masks.masks_dec = bin_imgs(new_masks.masks_dec, binning=binning)
+        fov_axes = tuple(range(-self.mask_dims, 0))
+        new_masks.masks_enc = bin_imgs(new_masks.masks_enc, binning=binning, axes=fov_axes)
+        new_masks.masks_dec = bin_imgs(new_masks.masks_dec, binning=binning, axes=fov_axes)
+        new_masks.mask_support = np.ceil(self.mask_support / binning).astype(int)
 
         return new_masks
 
-- 
2.43.0


From c071a94cc7449d6200d7c3098ddfb49dad559acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 109/113] fix: QR decomposition of collections of 1D masks took
 the whole collection for a single mask

---
 src/corrct/struct_illum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 2f5af85..4a80b83 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -319,10 +319,15 @@ class MaskCollection:
 
         new_masks = cp.deepcopy(self)
         new_buckets = cp.deepcopy(buckets)
+        # The functions below expect 2D masks
+        masks_shape = new_masks.masks_enc.shape
+        new_masks.masks_enc = new_masks.masks_enc.reshape([self.num_buckets, 1, self.num_pixels])
+
         if shift != 0:
             new_masks.masks_enc, new_buckets = reorder_masks(new_masks.masks_enc, new_buckets, shift=shift)
 
         new_masks.masks_enc, R1t = decompose_qr_masks(new_masks.masks_enc)
+        new_masks.masks_enc = new_masks.masks_enc.reshape(masks_shape)
         new_masks.masks_dec = new_masks.masks_enc
         new_buckets: NDArray = R1t.dot(new_buckets.T)
 
-- 
2.43.0


From c326dfc585ad3a431e0a7403d792c009b7834f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 110/113] fix: Regularizer_fft built its filter along the wrong
 dimensions with non-negative axes

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 48eda65..69f540f 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1231,7 +1231,9 @@ class Regularizer_fft(BaseRegularizer):
         self.op = operators.TransformFourier(primal.shape, axes=self.axes)
 
         if isinstance(self.fft_filter, str):
-            coords = [np.fft.fftfreq(s) for s in self.op.adj_shape[self.axes]]
+            # Positions of the axes in the volume: the first dimension of the transform is the one of the complex components
+            axes = np.sort(self.op.axes % self.op.ndims)
+            coords = [np.fft.fftfreq(s) for s in self.op.dir_shape[axes]]
             coords = np.array(np.meshgrid(*coords, indexing="ij"))
 
             if self.fft_filter.lower() == "delta":
@@ -1244,7 +1246,7 @@ class Regularizer_fft(BaseRegularizer):
                 raise ValueError('Unknown FFT mask: %s. Options are: "delta", "exp". and "exp2".' % self.fft_filter)
 
             new_shape = np.ones_like(self.op.adj_shape)
-            new_shape[self.axes] = self.op.adj_shape[self.axes]
+            new_shape[axes + 1] = self.op.dir_shape[axes]
             self.sigma = np.reshape(self.sigma, new_shape)
         else:
             self.sigma = 1
-- 
2.43.0


From b6ad89ea60a40f17da79d4776f5aa4e6e6ee475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:32 +0000
Subject: [PATCH 111/113] fix: SART residuals of integer data were computed
 from truncated projections

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index cddd881..ca769ce 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -502,7 +502,7 @@ class SART(Solver):
             The residual.
         """
         fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-2)
-        fp = np.ascontiguousarray(fp, dtype=b.dtype)
+        fp = np.ascontiguousarray(fp, dtype=np.result_type(b.dtype, np.float32))
         res = fp - b
         if b_mask is not None:
             res *= b_mask
-- 
2.43.0


From 072f79b52ba8f40f814b7fe25c368b463539e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:10 +0000
Subject: [PATCH 112/113] fix: camera tilt of aligned images (null slope)
 raised an exception

---
 src/corrct/alignment/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index bdb23cf..3fb2d0e 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -379,7 +379,9 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
     half_img_size = (img_shape[-2] - 1) / 2
     cc_v_coords = np.linspace(-half_img_size, half_img_size, img_shape[-2])
     poly_slope = Polynomial.fit(cc_v_coords, fitted_cors, deg=1)
-    b, a = poly_slope.convert().coef
+    coeffs = poly_slope.convert().coef
+    # The conversion trims the trailing null coefficients
+    b, a = np.pad(coeffs, (0, 2 - len(coeffs)))
 
     if fit_l1:
 
-- 
2.43.0


From d57e26ea8b8d09db844a7bb8e624b42ee689bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:06 +0000
Subject: [PATCH 113/113] fix: SART, SIRT and PDHG let the masked voxels of the
 initial solution take part

---
 src/corrct/solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index ca769ce..e5b175c 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -593,6 +593,8 @@ class SART(Solver):
         else:
             x0 = np.array(x0).copy()
         x = x0
+        if x_mask is not None:
+            x *= x_mask
 
         info = SolutionInfo(self.info(), max_iterations=iterations, tolerance=self.tolerance)
 
@@ -929,6 +931,8 @@ class SIRT(Solver):
             x = np.zeros_like(tau)
         else:
             x = np.array(x0).copy()
+        if x_mask is not None:
+            x *= x_mask
 
         self.data_term.assign_data(b, sigma)
 
@@ -1139,6 +1143,8 @@ class PDHG(Solver):
         else:
             x0 = np.array(x0).copy()
         x = x0
+        if x_mask is not None:
+            x *= x_mask
         x_relax = x.copy()
 
         self.data_term.assign_data(b, sigma)
-- 
2.43.0

