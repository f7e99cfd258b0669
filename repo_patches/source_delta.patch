From 26bfb0580b855d4e8e3037778f601f963c8376a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 01/13] fix: Zernike.n and Zernike.m raised AttributeError

Eager tensors have no value(); return the indices as plain integers.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..a5af0a8 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From 3599c82e7e55ceb7f6908ee96c84a080d0af19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 02/13] fix: Zernike accepted m < -n and silently evaluated to
 zero

The index is valid only for |m| <= n, as already enforced for positive m.
---
 pySLM2/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index a5af0a8..96cb375 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,7 +379,7 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
+        if not n >= abs(m):
             raise ValueError("Zernike index m must be >= index n")
 
         if (n - m) % 2 != 0:
-- 
2.43.0


From 9d52ec4d5c91cab43cb01029ca0b664dc50795fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 03/13] fix: scalar and constant profiles were not expanded to
 the SLM grid

profile_to_tensor documents that the returned tensor has the dimension of
the grid and that numbers are accepted, but a number or a ConstantProfile
gave a scalar, which made propagate_to_image and calculate_hologram fail.
---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..942f929 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,8 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From 0447eef78121a7a9eb3628638d2ad8017bba9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 04/13] fix: circular_patch rejected numpy scalars for the
 center and diameter

A numpy float64 (or integer) was turned into a tensor whose dtype does not
match the pixel grid of the backend.
---
 pySLM2/slm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 942f929..a3e2f02 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -259,6 +259,7 @@ class DMD(SLM):
         phase_out = self.profile_to_tensor(phase_out)
 
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
+        i, j, d = (tf.cast(v, dtype=BACKEND.dtype) for v in (i, j, d))
         mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
 
         x, y = self._fourier_plane_grid()
-- 
2.43.0


From 521e36656b2e5788067128dd2be0e67dbe7401de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 05/13] fix: circular_patch with method="ideal" lost the grey
 values

Assigning the grey scale grating into a boolean state turned every non-zero
pixel of the patch on. Let the state take the common dtype instead.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index a3e2f02..ededc97 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -268,7 +268,7 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        self.dmd_state = np.where(np.array(mask), dmd_state, self.dmd_state)
 
     @staticmethod
     @tf.function
-- 
2.43.0


From 88c23097d519402008801d1f194e82f8391d6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 06/13] fix: LCOS SLM simulation applied the conjugate of the
 hologram

calculate_hologram optimizes input * exp(1j * hologram), but the simulation
used exp(-1j * hologram), so the target appeared mirrored through the
origin and the input phase was doubled instead of compensated.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ededc97..03d53ad 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -485,7 +485,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j * tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From 856c336fd88480b5b5f501180da5e7bf68f025e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 07/13] fix: gs and mraf holograms ignored the phase of the
 input profile

The phase of the back-propagated field is the phase wanted behind the SLM;
the hologram has to make up only the difference to the input phase.
---
 pySLM2/_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..236b967 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -339,6 +339,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -350,7 +351,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
 
@@ -379,6 +380,7 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -399,6 +401,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
-- 
2.43.0


From de202ee740d00d4e736c79b371115d3fdc6f689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 08/13] fix: an input profile with dark pixels gave a NaN
 hologram

The amplitude ratio is infinite where the input vanishes, which turned the
normalization into zero efficiency and the whole DMD state into NaN. No
amplitude is needed at a pixel that receives no light.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 03d53ad..02d3d96 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -314,7 +314,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From 72c840075b5ca100916b732ffc817f0f29da8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 09/13] fix: BACKEND.dtype kept numpy types and names
 unnormalized

Values such as numpy.float64 were accepted, but arithmetic between real and
complex profiles then failed since it compares the dtype by identity.
---
 pySLM2/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/_backend.py b/pySLM2/_backend.py
index ecab800..77e84fc 100644
--- a/pySLM2/_backend.py
+++ b/pySLM2/_backend.py
@@ -32,7 +32,7 @@ class _BackEnd(object):
         if not (value == tf.float32 or value == tf.float64):
             raise ValueError()
         else:
-            self._dtype = value
+            self._dtype = tf.as_dtype(value)
 
     @property
     def dtype_complex(self):
-- 
2.43.0


From c88bc64b68cb2c52d66fe75e2907afc47abb9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:18 +0000
Subject: [PATCH 10/13] fix: ALPController.load_single waited for a trigger
 after load_multiple

load_multiple puts the device into slave mode; load_single displays its
image at once and therefore has to restore the master mode.
---
 pySLM2/util/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..12efa70 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -138,7 +138,10 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
-        
+
+        # Set to master mode, load_multiple leaves the device waiting for triggers
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From 5752e6d84a9de74e72862b24f5b267c20111b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 11/13] fix: high order Gaussian beams were NaN far from their
 centre

The polynomial overflows where the Gaussian factor underflows; inf * 0 put NaN
in the corners of the image plane and from there in the whole hologram.
---
 pySLM2/profile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 96cb375..6945a96 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -229,7 +229,8 @@ class HermiteGaussian(FunctionProfile):
         y_norm = (y - self._y0) / self._w
         h_n = tf.math.polyval(coeffs=self._hermite_n_coef, x=math.sqrt(2) * x_norm)
         h_m = tf.math.polyval(coeffs=self._hermite_m_coef, x=math.sqrt(2) * y_norm)
-        return self._a * h_n * h_m * tf.exp(-(x_norm ** 2 + y_norm ** 2))
+        # the polynomials may overflow where the Gaussian has vanished
+        return tf.math.multiply_no_nan(self._a * h_n * h_m, tf.exp(-(x_norm ** 2 + y_norm ** 2)))
 
     @property
     def x0(self):
@@ -291,8 +292,9 @@ class LaguerreGaussian(FunctionProfile):
         phi = tf.math.atan2(y-self._y0, x-self._x0)
         Lpl = tf.math.polyval(coeffs=self._genlaguerre_coef, x=2.0 * r2 / self._w ** 2)
 
-        amplitude = self._a * (math.sqrt(2) * r / self._w) ** (abs(self._l)) * tf.exp(
-            -r2 / self._w ** 2) * Lpl
+        # the polynomials may overflow where the Gaussian has vanished
+        amplitude = tf.math.multiply_no_nan(self._a * (math.sqrt(2) * r / self._w) ** (abs(self._l)) * Lpl,
+                                            tf.exp(-r2 / self._w ** 2))
 
         phase = tf.exp(-1j * self._l * tf.cast(phi, dtype=BACKEND.dtype_complex))
 
-- 
2.43.0


From c0115280f9a0faf6a5d521d43cc9702bda492f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:30 +0000
Subject: [PATCH 12/13] fix: ALPController never freed replaced image sequences

Every load allocated a new sequence on the board and kept the previous one, so a
feedback loop ended with ALP_MEMORY_FULL.
---
 pySLM2/util/controller.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 12efa70..70f58a5 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -142,6 +142,10 @@ class ALPController(DMDControllerBase):
         # Set to master mode, load_multiple leaves the device waiting for triggers
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
 
+        # Release the onboard memory of the previous image sequence
+        if self.alp._lastDDRseq is not None:
+            self.alp.FreeSeq()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
@@ -176,6 +180,10 @@ class ALPController(DMDControllerBase):
         # Set the trigger edge to be rising
         self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
 
+        # Release the onboard memory of the previous image sequence
+        if self.alp._lastDDRseq is not None:
+            self.alp.FreeSeq()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
 
-- 
2.43.0


From 390de8e234343113b05effd15e46953aa0bba889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 13/13] fix: a beam of the wrong shape no longer replaces the
 input field of a simulation before it is refused

---
 pySLM2/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 91d377f..48d6558 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -131,11 +131,11 @@ class SLMSimulation(object):
         """
         input_profile = self._slm.profile_to_tensor(input_profile, complex=True)
 
+        output_profile = input_profile * self._slm._state_tensor()
+
         self._input_field = tf.pad(input_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
-        output_profile = input_profile * self._slm._state_tensor()
-
         self._output_field = tf.pad(output_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
-- 
2.43.0

