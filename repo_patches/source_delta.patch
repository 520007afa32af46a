From 2d4a183ce3a1399e24a91b44bef5da17c4ea287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 01/18] fix: a closed DMD controller no longer reports itself
 as initialized

close() released the device but left the initialization flag set, so the
initialization guard let later loads through to a freed device handle.
---
 pySLM2/util/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..492b98a 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -42,7 +42,7 @@ class DMDControllerBase(object):
         return self._initialized
 
     def close(self):
-        pass
+        self._initialized = False
 
     @_check_initialization
     def load_single(self, dmd_state):
@@ -114,6 +114,7 @@ class ALPController(DMDControllerBase):
         if self.alp._lastDDRseq is not None:
             self.alp.FreeSeq()
         self.alp.Free()
+        super(ALPController, self).close()
 
     @property
     @_check_initialization
@@ -242,7 +243,7 @@ class LuxbeamController(DMDControllerBase):
         super(LuxbeamController, self).initialize()
 
     def close(self):
-        pass
+        super(LuxbeamController, self).close()
 
     @_check_initialization
     def load_single(self, dmd_state):
-- 
2.43.0


From 0fa456486c24ad470dca644ceae683cfd1a049c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 02/18] fix: ALP load_single leaves the slave mode set by an
 earlier load_multiple

load_multiple puts the projection in slave (triggered) mode, which is a device
setting that outlives the sequence. A later load_single was therefore not
displayed until an external trigger arrived.
---
 pySLM2/util/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 492b98a..bf8ce98 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -139,7 +139,10 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
-        
+
+        # Leave the slave mode set by load_multiple, otherwise the image waits for a trigger
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From 1b084287dda3e31eeb49f701595868837feccb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 03/18] fix: ALP loads release the onboard memory of the
 previous sequence

Every load allocated a new sequence and only the last one was freed, in
close(), so repeated loads exhausted the device memory. A freed sequence is
forgotten, so that a retried load or close() does not free it twice.
---
 pySLM2/util/controller.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index bf8ce98..885e8b0 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -111,11 +111,17 @@ class ALPController(DMDControllerBase):
 
     def close(self):
         self.alp.Halt()
-        if self.alp._lastDDRseq is not None:
-            self.alp.FreeSeq()
+        self._free_sequence()
         self.alp.Free()
         super(ALPController, self).close()
 
+    def _free_sequence(self):
+        # Release the onboard memory of the last image sequence (if any). The DMD must be halted.
+        # The sequence is forgotten first, so that it is never freed twice.
+        sequence_id, self.alp._lastDDRseq = self.alp._lastDDRseq, None
+        if sequence_id is not None:
+            self.alp.FreeSeq(sequence_id)
+
     @property
     @_check_initialization
     def Nx(self) -> int:
@@ -143,6 +149,9 @@ class ALPController(DMDControllerBase):
         # Leave the slave mode set by load_multiple, otherwise the image waits for a trigger
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
 
+        # Release the onboard memory of the previous image sequence
+        self._free_sequence()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
@@ -177,6 +186,9 @@ class ALPController(DMDControllerBase):
         # Set the trigger edge to be rising
         self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
 
+        # Release the onboard memory of the previous image sequence
+        self._free_sequence()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
 
-- 
2.43.0


From a1314dae46cb79fd819e6ad713e7c596ef12b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 04/18] fix: a failed propagation no longer mixes the fields of
 two propagations

propagate_to_image stored the new input and output fields before computing the
image plane, so an error in between left the new input with the old image.
---
 pySLM2/simulation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 91d377f..92147f4 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -131,19 +131,22 @@ class SLMSimulation(object):
         """
         input_profile = self._slm.profile_to_tensor(input_profile, complex=True)
 
-        self._input_field = tf.pad(input_profile,
+        input_field = tf.pad(input_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
         output_profile = input_profile * self._slm._state_tensor()
 
-        self._output_field = tf.pad(output_profile,
+        output_field = tf.pad(output_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
         _image_plane_field_unormalized = tf.signal.fftshift(
-            _lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field)))
+            _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))
 
         # TODO proper explanation
-        self._image_plane_field = _image_plane_field_unormalized * (self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)
+        image_plane_field = _image_plane_field_unormalized * (self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)
+
+        # Publish the results together, so that a failed propagation does not mix two of them.
+        self._input_field, self._output_field, self._image_plane_field = input_field, output_field, image_plane_field
 
     @tf.function
     def _field_to_intensity(self, field_tensor):
-- 
2.43.0


From 6989525a6718a0c0c54075bd0e17885a8a5f75e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 05/18] fix: simulated LCOS hologram modulates with the phase
 that was calculated

calculate_hologram (gs and mraf) finds the phase for exp(+1j * phase), the
simulation applied exp(-1j * phase), so the simulated image came out rotated by
180 degrees for any target that is not symmetric.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..9ad99fd 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -482,7 +482,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From bb04cc1a0e7fde64042ec8e1ec44345c01f95781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 06/18] fix: a grayscale circular patch is not turned into an
 all-on patch

With method="ideal" the grayscale patch was written into the boolean state, which
made every nonzero gray level an on pixel.
---
 pySLM2/slm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 9ad99fd..a0d8877 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -265,7 +265,10 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        # A grayscale patch on a binary state (or the other way round) promotes the state
+        new_state = self.dmd_state.astype(np.result_type(self.dmd_state, dmd_state))
+        new_state[mask] = dmd_state[mask]
+        self.dmd_state = new_state
 
     @staticmethod
     @tf.function
-- 
2.43.0


From d968551f0741af7028afa2374640bf78e3340692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 07/18] fix: Zernike n and m can be read

They called value() on a constant tensor, which has none, and raised
AttributeError.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..a5af0a8 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From f9618719f3ef024673575bb2010df68cf7e4520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 08/18] fix: precision given as a numpy dtype or name is stored
 as a tensorflow dtype

The setter accepts e.g. numpy.float64, but stored it as it is. The identity
comparisons with the tensor dtypes then failed, and so did mixing a real and a
complex profile.
---
 pySLM2/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/_backend.py b/pySLM2/_backend.py
index ecab800..77e84fc 100644
--- a/pySLM2/_backend.py
+++ b/pySLM2/_backend.py
@@ -32,7 +32,7 @@ class _BackEnd(object):
         if not (value == tf.float32 or value == tf.float64):
             raise ValueError()
         else:
-            self._dtype = value
+            self._dtype = tf.as_dtype(value)
 
     @property
     def dtype_complex(self):
-- 
2.43.0


From 72454bb666e8bf4a9d3300302a54ca8fe19b5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 09/18] fix: unlit pixels no longer blank the whole DMD
 hologram

Where the input beam is exactly zero (a clipped beam, the node of a mode) the
amplitude ratio was infinite, and normalizing by it made the amplitude 0 or NaN
on every pixel and the efficiency 0.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index a0d8877..8c78599 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -314,7 +314,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From 4961d035f06e1542121274a873a065ece0e23961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:13 +0000
Subject: [PATCH 10/18] fix: numbers and constant profiles are sampled on the
 whole grid

profile_to_tensor documents that its result has the dimensions of the grid, and
numbers as valid profiles, but it returned a scalar for them (and for a
ConstantProfile), which propagate_to_image, calculate_hologram and
calculate_dmd_state then failed on.
---
 pySLM2/profile.py | 2 +-
 pySLM2/slm.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index a5af0a8..ea956b0 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -175,7 +175,7 @@ class ConstantProfile(FunctionProfile):
 
     @tf.function
     def _func(self, x, y):
-        return self._c
+        return self._c * tf.ones_like(x + y, dtype=self._c.dtype)
 
     @property
     def c(self):
diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 8c78599..11b7fab 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,8 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From a5f963e81fdd074bd90e61959554d578c9d40023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 11/18] fix: LCOS holograms account for the phase of the input
 beam

The Gerchberg-Saxton and MRAF loops multiply the displayed phase onto the input
beam, but took the full back-propagated phase as the displayed phase, without
subtracting that of the input. For an aberrated or sign changing input beam
they did not converge.
---
 pySLM2/_lib.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..7dd74bf 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -319,6 +319,13 @@ def calculate_lcos_slm_hologram(input_profile, target_amp_profile, method="gs",
         raise ValueError("{0} is not a valid method!".format(method))
 
 
+def _phase_difference(phase, phase_in):
+    phase = phase - phase_in
+    phase = tf.where(phase > math.pi, phase - 2 * math.pi, phase)
+    phase = tf.where(phase < -math.pi, phase + 2 * math.pi, phase)
+    return phase
+
+
 @tf.function
 def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
     '''
@@ -339,6 +346,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    input_phase = tf.math.angle(input_profile)
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -350,7 +358,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = _phase_difference(tf.math.angle(_fourier_transform(profile_corrected)), input_phase)
 
     return phase_profile
 
@@ -379,6 +387,7 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    input_phase = tf.math.angle(input_profile)
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -399,6 +408,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = _phase_difference(tf.math.angle(_fourier_transform(profile_corrected)), input_phase)
 
     return phase_profile
-- 
2.43.0


From bef8567f983365ba9b3e2952073d86a38f33444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 12/18] fix: a failed re-initialization leaves the controller
 uninitialized

---
 pySLM2/util/controller.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 885e8b0..1161f58 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -104,6 +104,9 @@ class ALPController(DMDControllerBase):
         super(ALPController, self).__init__(invert=invert)
 
     def initialize(self):
+        # A failed (re)initialization leaves the controller uninitialized
+        self._initialized = False
+
         self.alp.Initialize()
         if self.invert:
             self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
@@ -234,6 +237,9 @@ class LuxbeamController(DMDControllerBase):
         super(LuxbeamController, self).__init__(invert=invert)
 
     def initialize(self): 
+        # A failed (re)initialization leaves the controller uninitialized
+        self._initialized = False
+
         seq = Luxbeam.LuxbeamSequencer()
         # ======= Sequencer ============
         reg0 = seq.assign_var_reg(regno=0) # reg0 is the total number of images
-- 
2.43.0


From b77794650e89094790ebba3ba2dcba8a8b77ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 13/18] fix: a refused DMD hologram leaves the DMD state
 untouched

---
 pySLM2/slm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 11b7fab..9a6b385 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -372,12 +372,15 @@ class DMD(SLM):
             kwargs["signal_window"] = self.profile_to_tensor(kwargs["signal_window"], at_fourier_plane=False,
                                                              complex=True)
 
-        self.dmd_state = np.array(
+        dmd_state = np.array(
             _lib.calculate_dmd_grating(amp_scaled, phase_in, phase_out, x, y, self._p, self._theta,
                                        method=method, negative_order=self.negative_order,
                                        **kwargs))
 
         eta = self.pixel_size ** 2 / self.scaling_factor * self.Nx * self.Ny / float(one_over_eta_fft)
+
+        # Nothing can fail anymore (a dark target has no efficiency), the state is only set now.
+        self.dmd_state = dmd_state
         return eta
 
     @property
-- 
2.43.0


From a6839bd8672197dc961b631ac7e39308a93c73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:46 +0000
Subject: [PATCH 14/18] fix: LCOS holograms became NaN when the beam's tail
 underflowed

tf.math.angle may return NaN for subnormal numbers; one such pixel of the input
beam turned the phases of the whole hologram into NaN.
---
 pySLM2/_lib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 7dd74bf..f0432db 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -319,6 +319,12 @@ def calculate_lcos_slm_hologram(input_profile, target_amp_profile, method="gs",
         raise ValueError("{0} is not a valid method!".format(method))
 
 
+def _input_phase(input_profile):
+    # The angle of subnormal numbers may be NaN. Pixels with that little light have no phase to correct.
+    dark = tf.math.abs(input_profile) < 2 * np.finfo(BACKEND.dtype.as_numpy_dtype).tiny
+    return tf.where(dark, tf.zeros_like(input_profile, dtype=BACKEND.dtype), tf.math.angle(input_profile))
+
+
 def _phase_difference(phase, phase_in):
     phase = phase - phase_in
     phase = tf.where(phase > math.pi, phase - 2 * math.pi, phase)
@@ -346,7 +352,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
-    input_phase = tf.math.angle(input_profile)
+    input_phase = _input_phase(input_profile)
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -387,7 +393,7 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
-    input_phase = tf.math.angle(input_profile)
+    input_phase = _input_phase(input_profile)
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
-- 
2.43.0


From 72649a3b731e9e1d29b7bf1b69529c828f060418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 15/18] fix: DMD holograms were NaN or empty when the beam's
 tail underflowed outside the window

With method ideal the pattern held NaN where the beam is subnormal, with ifta
one such pixel turned off the whole pattern.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 9a6b385..4c2d3a6 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -304,7 +304,7 @@ class DMD(SLM):
         if window is not None:
             target_profile_fp = target_profile_fp * window
 
-        phase_in = tf.math.angle(input_profile)
+        phase_in = _lib._input_phase(input_profile)
         amp_in = tf.math.abs(input_profile)
 
         amp_out = tf.math.abs(target_profile_fp)
-- 
2.43.0


From 5fc5fad1989c1c254a18786ddb5a14430a09e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:08 +0000
Subject: [PATCH 16/18] fix: circular patches accept numpy numbers and do not
 trace a new graph for every position

---
 pySLM2/slm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 4c2d3a6..79fb1f0 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -258,6 +258,9 @@ class DMD(SLM):
         phase_in = self.profile_to_tensor(phase_in)
         phase_out = self.profile_to_tensor(phase_out)
 
+        # As tensors, otherwise a new graph is traced (and kept forever) for every position
+        i, j, d = (tf.constant(value, dtype=BACKEND.dtype) for value in (i, j, d))
+
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
         mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
 
-- 
2.43.0


From 3cb274d86ecbf9f606e40aff8b07fe81cc1a7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:27 +0000
Subject: [PATCH 17/18] fix: simple and IFTA gratings failed after the
 modulator they were first used with was gone

---
 pySLM2/_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index f0432db..0804e05 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -66,6 +66,9 @@ def calculate_dmd_grating(amp, phase_in, phase_out, x, y, p, theta, method="rand
         Additional parameters for the selected method.
     '''
     negative_order = tf.constant(negative_order, dtype=tf.bool)
+    # Not as variables: the traced graphs are reused by other modulators and must not depend on one that is gone.
+    p = tf.constant(p, dtype=BACKEND.dtype)
+    theta = tf.constant(theta, dtype=BACKEND.dtype)
     if method == "ideal":
         return _calculate_dmd_grating_ideal(amp, phase_in, phase_out, x, y, p, theta, negative_order=negative_order)
     elif method == "simple":
-- 
2.43.0


From e6f36148391924838b6a04f206d057977858721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:27 +0000
Subject: [PATCH 18/18] fix: discarded modulators and simulations release their
 grids

---
 pySLM2/simulation.py |  7 +++----
 pySLM2/slm.py        | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 92147f4..d007034 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 import math
 
 import numpy as np
@@ -6,7 +5,7 @@ import tensorflow as tf
 
 from . import _lib
 from ._backend import BACKEND
-from .slm import SLM, DMD
+from .slm import SLM, DMD, _cache_on_instance
 from typing import Tuple
 
 __all__ = ["SLMSimulation", "DMDSimulation"]
@@ -91,7 +90,7 @@ class SLMSimulation(object):
     def Ny(self) -> int:
         return self._slm.Ny + 2 * self._padding_y
 
-    @lru_cache()
+    @_cache_on_instance
     def _image_plane_padded_grid(self):
         kx_atom, ky_atom = tf.constant(np.fft.fftfreq(self.Nx, self._slm.pixel_size),
                                        dtype=BACKEND.dtype), \
@@ -108,7 +107,7 @@ class SLMSimulation(object):
         x, y = self._image_plane_padded_grid()
         return np.array(x), np.array(y)
 
-    @lru_cache()
+    @_cache_on_instance
     def _fourier_plane_padded_grid(self):
         pix_j = tf.range(-self._padding_x, self._slm.Nx + self._padding_x, dtype=BACKEND.dtype)
         pix_i = tf.range(-self._padding_y, self._slm.Ny + self._padding_y, dtype=BACKEND.dtype)
diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 79fb1f0..ac32888 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -1,7 +1,7 @@
 import tensorflow as tf
 import numpy as np
 from scipy.constants import micro
-from functools import lru_cache
+from functools import wraps
 from .profile import FunctionProfile
 from . import _lib
 from ._backend import BACKEND
@@ -10,6 +10,18 @@ from typing import Union, Tuple
 __all__ = ["SLM", "DMD", "DLP7000", "DLP9500", "DLP9000", "LCOS_SLM", "PLUTO_2"]
 
 
+def _cache_on_instance(method):
+    # The cache lives as long as the object (lru_cache would keep the object and its grids alive).
+    name = "_cache_of_" + method.__qualname__
+
+    @wraps(method)
+    def wrapper(self):
+        if name not in self.__dict__:
+            self.__dict__[name] = method(self)
+        return self.__dict__[name]
+    return wrapper
+
+
 class SLM(object):
     """Base class for a spatial light modulators.
 
@@ -95,13 +107,13 @@ class SLM(object):
         i = self._Ny - i
         return i, j
 
-    @lru_cache()
+    @_cache_on_instance
     def _fourier_plane_pixel_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
         pix_j = tf.range(self.Nx, dtype=BACKEND.dtype)
         pix_i = tf.range(self.Ny, dtype=BACKEND.dtype)
         return tf.meshgrid(pix_i, pix_j, indexing="ij")
 
-    @lru_cache()
+    @_cache_on_instance
     def _fourier_plane_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
         return self._convert_pixel_index_to_dmd_coordinate(pix_ii, pix_jj)
@@ -112,7 +124,7 @@ class SLM(object):
         x, y = self._fourier_plane_grid()
         return np.array(x), np.array(y)
 
-    @lru_cache()
+    @_cache_on_instance
     def _image_plane_grid(self):
         kx_atom, ky_atom = tf.constant(np.fft.fftfreq(self.Nx, self._pixel_size), dtype=BACKEND.dtype), \
                            tf.constant(-np.fft.fftfreq(self.Ny, self._pixel_size), dtype=BACKEND.dtype)
-- 
2.43.0

