From 6eb1fa4f784ab0463b42a16f04acd06521c98427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 01/55] fix: only parse start and end times as dates in
 get_entry_info

---
 src/cdtools/tools/data/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 89879dd..2320640 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -80,7 +80,8 @@ def get_entry_info(cxi_file):
                 if attr in e1}
     
 
-    for attr in metadata_attrs:
+    # Only these are dates, other strings (e.g. a title) may look like one
+    for attr in ['start_time', 'end_time']:
         if attr in e1:
             try:
                 metadata[attr] = dateutil.parser.parse(str(e1[attr][()].decode()))
-- 
2.43.0


From bff6df276443bc367fbca7b0ccc1f8e4b4d96707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 02/55] fix: create the cxi groups when saving a CDataset by
 file name

---
 src/cdtools/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index 3f8ec8c..f482287 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -235,7 +235,7 @@ class CDataset(torchdata.Dataset):
 
         # If a bare string is passed
         if isinstance(cxi_file, str) or isinstance(cxi_file, pathlib.Path):
-            with h5py.File(cxi_file,'w') as f:
+            with cdtdata.create_cxi(cxi_file) as f:
                 return self.to_cxi(f)
 
         if self.entry_info is not None:
-- 
2.43.0


From 358850cba2e700fadf4c42335f7b388266285983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 03/55] fix: count skipped epochs on the model when running
 unthreaded

---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index ed8afc1..8809455 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -323,7 +323,7 @@ class Reconstructor:
         if not thread:
             for it in range(iterations):
                 if self.model.skip_computation():
-                    self.epoch = self.epoch + 1
+                    self.model.epoch = self.model.epoch + 1
                     if len(self.model.loss_history) >= 1:
                         yield self.model.loss_history[-1]
                     else:
-- 
2.43.0


From bfe2bca60a8f95c7de8cd67fec8a8027cf22ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 04/55] fix: stop the computation thread on any error while
 waiting for it

---
 src/cdtools/reconstructors/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 8809455..4bc0e23 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -378,7 +378,9 @@ class Reconstructor:
 
                         time.sleep(0.01)
 
-                except KeyboardInterrupt as e:
+                # Whatever interrupts the wait (Ctrl-C, or an error from a
+                # figure callback), the thread must not outlive it
+                except BaseException as e:
                     stop_event.set()
                     print('\nAsking execution thread to stop cleanly - ' +
                           'please be patient.')
-- 
2.43.0


From 49e43a280e2721d2c660b788f51118c10b365cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 05/55] fix: build the data loader when no batch size is given

---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 4bc0e23..7751152 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -100,7 +100,7 @@ class Reconstructor:
                                              batch_size=batch_size,
                                              shuffle=shuffle)
         else:
-            self.data_loader = td.Dataloader(self.dataset)
+            self.data_loader = td.DataLoader(self.dataset, shuffle=shuffle)
 
             
     def adjust_optimizer(self, **kwargs):
-- 
2.43.0


From 45bc478192c5ad695bb6b5cbe4631d776ca79374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 06/55] fix: expose the current optimizer on the model for
 checkpointing

---
 src/cdtools/reconstructors/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 7751152..88853ee 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -317,7 +317,7 @@ class Reconstructor:
 
         # We store the current optimizer as a model parameter so that
         # it can be saved and loaded for checkpointing
-        self.current_optimizer = self.optimizer
+        self.model.current_optimizer = self.optimizer
 
         # If we don't want to run in a different thread, this is easy
         if not thread:
@@ -396,4 +396,4 @@ class Reconstructor:
                 yield res
 
         # And finally, we unset the current optimizer:
-        self.current_optimizer = None
+        self.model.current_optimizer = None
-- 
2.43.0


From 7005ddda2992627fccd7f0b9d6084cded10ab94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 07/55] fix: load checkpoints, which hold more than tensors,
 under torch >= 2.6

---
 src/cdtools/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 943f5ed..02155f7 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -372,7 +372,7 @@ class CDIModel(t.nn.Module):
                 + '_' + str(self.current_checkpoint_id) + '.pt'
             )
 
-        checkpoint = t.load(checkpoint_file)
+        checkpoint = t.load(checkpoint_file, weights_only=False)
         
         state_dict = nested_dict_to_torch(checkpoint['state_dict'])
         self.load_state_dict(state_dict)
-- 
2.43.0


From 2ebb7fa45808eab0c6ec98dcfa9c16cef22b74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 08/55] fix: let models without weights save their results

---
 src/cdtools/models/bragg_2d_ptycho.py   | 6 ++++--
 src/cdtools/models/fancy_ptycho.py      | 6 ++++--
 src/cdtools/models/multislice_ptycho.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 04f4369..bd6aa34 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -758,7 +758,6 @@ class Bragg2DPtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
@@ -771,8 +770,11 @@ class Bragg2DPtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        # A model defined without weights has none to save
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy()
+
         return {**base_results, **results}
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 505a22d..6a3b9c6 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -1214,7 +1214,6 @@ class FancyPtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
@@ -1227,10 +1226,13 @@ class FancyPtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        # A model defined without weights has none to save
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy()
+
         return {**base_results, **results}
 
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 3547351..3eb0cbd 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -958,7 +958,6 @@ class MultislicePtycho(CDIModel):
         probe = probe * self.probe_norm.detach().cpu().numpy()
         obj = self.obj.detach().cpu().numpy()
         background = self.background.detach().cpu().numpy()**2
-        weights = self.weights.detach().cpu().numpy()
         oversampling = self.oversampling.cpu().numpy()
         wavelength = self.wavelength.cpu().numpy()
 
@@ -971,8 +970,11 @@ class MultislicePtycho(CDIModel):
             'obj': obj,
             'background': background,
             'oversampling': oversampling,
-            'weights': weights,
             'wavelength': wavelength,
         }
 
+        # A model defined without weights has none to save
+        if self.weights is not None:
+            results['weights'] = self.weights.detach().cpu().numpy()
+
         return {**base_results, **results}
-- 
2.43.0


From e6fce9aa52a1a2806d410d6705ede6014cf97274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 09/55] fix: initialize the probe Fourier shifts from their own
 argument

---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 6a3b9c6..2b6ba27 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -185,7 +185,7 @@ class FancyPtycho(CDIModel):
             self.probe_fourier_shifts = None
         else:
             self.probe_fourier_shifts = t.nn.Parameter(
-                t.as_tensor(translation_offsets, dtype=t.float32)
+                t.as_tensor(probe_fourier_shifts, dtype=t.float32)
             )
 
         self.register_buffer('translation_scale',
-- 
2.43.0


From 5b53073180f829e65cb568899c528aea1afb887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 10/55] fix: import warnings where SGDReconstructor warns about
 unused factors

---
 src/cdtools/reconstructors/sgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/reconstructors/sgd.py b/src/cdtools/reconstructors/sgd.py
index c5c495a..69fb3f4 100644
--- a/src/cdtools/reconstructors/sgd.py
+++ b/src/cdtools/reconstructors/sgd.py
@@ -8,6 +8,7 @@ the 'training' of a model given some dataset and optimizer.
 """
 from __future__ import annotations
 from typing import TYPE_CHECKING
+import warnings
 
 import torch as t
 from typing import List, Union
-- 
2.43.0


From 7a69737efdb4dcc65246bac18eb6e46d34f059c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 11/55] fix: pass the shuffle option of
 SGDReconstructor.optimize on

---
 src/cdtools/reconstructors/sgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/reconstructors/sgd.py b/src/cdtools/reconstructors/sgd.py
index 69fb3f4..3c15b5a 100644
--- a/src/cdtools/reconstructors/sgd.py
+++ b/src/cdtools/reconstructors/sgd.py
@@ -253,4 +253,5 @@ class SGDReconstructor(Reconstructor):
             regularization_factor=regularization_factor,
             thread=thread,
             calculation_width=calculation_width,
+            shuffle=shuffle,
         )
-- 
2.43.0


From 98e48d2757c2405bfe2575b975242caa50a78af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 12/55] fix: use the saturation given to RPI.from_calibration

---
 src/cdtools/models/rpi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 6e94103..84bdb8b 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -355,6 +355,7 @@ class RPI(CDIModel):
             dummy_init_obj,
             background=background,
             mask=mask,
+            saturation=saturation,
             exponentiate_obj=exponentiate_obj,
             phase_only=phase_only,
             panel_plot_mode=panel_plot_mode,
-- 
2.43.0


From 352655dda40ecfc05977f5c435d2be93014b3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 13/55] fix: scale the MultislicePtycho weights with the root
 of the intensities

---
 src/cdtools/models/multislice_ptycho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 3eb0cbd..235b60b 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -360,8 +360,10 @@ class MultislicePtycho(CDIModel):
             Ws = t.ones(len(dataset))
 
         if hasattr(dataset, 'intensities') and dataset.intensities is not None:
-            Ws *= (dataset.intensities.to(dtype=Ws.dtype)[:,...]
-                   / t.mean(dataset.intensities))
+            intensities = dataset.intensities.to(dtype=Ws.dtype)[:,...]
+            weights = t.sqrt(intensities)
+            Ws *= (weights / t.mean(weights)).reshape(
+                (len(weights),) + (1,)*(Ws.ndim - 1))
 
         if hasattr(dataset, 'mask') and dataset.mask is not None:
             mask = dataset.mask.to(t.bool)
-- 
2.43.0


From c7981518f1467d2712a5b1e4af37ff24aef0f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 14/55] fix: show the full MultislicePtycho object when
 obj_view_crop is 0

---
 src/cdtools/models/multislice_ptycho.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 235b60b..fb1ec53 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -105,8 +105,12 @@ class MultislicePtycho(CDIModel):
         self.obj = t.nn.Parameter(obj_guess)
 
 
-        self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
-                                    obj_view_crop:-obj_view_crop]
+        # With no crop, [0:-0] would be empty
+        if obj_view_crop > 0:
+            self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
+                                        obj_view_crop:-obj_view_crop]
+        else:
+            self.obj_view_slice = np.s_[:,:]
         
         # TODO: perhaps not working anymore for fourier cropped probes
         if background is None:
-- 
2.43.0


From aa9ae3e0e9b3b71d795ddef13bd9c77ecaf18959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 15/55] fix: keep the units of Bragg2DPtycho models without a
 probe basis

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index bd6aa34..e4bc759 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -116,7 +116,7 @@ class Bragg2DPtycho(CDIModel):
             self.register_buffer('probe_basis',
                                  t.as_tensor(probe_basis, dtype=dtype))        
 
-            self.units = units
+        self.units = units
 
         # calculate the surface normal from the object basis. Reminder
         # that for this model, the object basis should be defined in the
-- 
2.43.0


From 76ba88ed92d9807fcf720372bae1632a889af3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 16/55] fix: use the dtype given to RPI.from_dataset and
 RPI.from_calibration

---
 src/cdtools/models/rpi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 84bdb8b..ab463b8 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -281,6 +281,7 @@ class RPI(CDIModel):
                          panel_plot_mode=panel_plot_mode,
                          plot_level=plot_level,
                          loss=loss,
+                         dtype=dtype,
         )
 
         # I don't love this pattern, where I do the "real" obj initialization
@@ -361,6 +362,7 @@ class RPI(CDIModel):
             panel_plot_mode=panel_plot_mode,
             plot_level=plot_level,
             loss=loss,
+            dtype=dtype,
         )
 
         rpi_object.init_obj(initialization)
-- 
2.43.0


From edeb55639543dbff4e65c5beb0cef70091b22c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 17/55] fix: simulate_finite_pixels for non-square detectors
 and a real-valued intensity

The padding of the two axes was exchanged and both ifftshift calls shifted
axis -2 twice and never axis -1; intensity() also returned a complex array.
---
 src/cdtools/tools/measurements/measurements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cdtools/tools/measurements/measurements.py b/src/cdtools/tools/measurements/measurements.py
index c926568..da0c78d 100644
--- a/src/cdtools/tools/measurements/measurements.py
+++ b/src/cdtools/tools/measurements/measurements.py
@@ -46,8 +46,8 @@ def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None, ove
         pad1r = wavefield.shape[-2] - pad1l
         pad2l = wavefield.shape[-1]//2
         pad2r = wavefield.shape[-1] - pad2l
-        padded = t.nn.functional.pad(inverse_fft, (pad1l, pad1r, pad2l, pad2r))
-        upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-2)))
+        padded = t.nn.functional.pad(inverse_fft, (pad2l, pad2r, pad1l, pad1r))
+        upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-1)))
         upsampled_intensity = t.abs(upsampled_field)**2
         ifft_intensity = t.fft.fftshift(t.fft.ifft2(upsampled_intensity), dim=(-2,-1))
         # Now we take a sinc function
@@ -57,8 +57,8 @@ def intensity(wavefield, detector_slice=None, epsilon=1e-7, saturation=None, ove
         ys = (ys / t.max(ys)) * 2 - 1
         Xs, Ys = t.meshgrid(xs, ys, indexing='ij')
         mask = (t.special.sinc(Xs) * t.special.sinc(Ys)).to(device=ifft_intensity.device)
-        blurred_intensity = t.fft.fft2(t.fft.ifftshift(mask * ifft_intensity, dim=(-2,-2)))
-        output = blurred_intensity[...,::2,::2]
+        blurred_intensity = t.fft.fft2(t.fft.ifftshift(mask * ifft_intensity, dim=(-2,-1)))
+        output = t.abs(blurred_intensity[...,::2,::2])
     else:
         output = t.abs(wavefield)**2
 
@@ -119,8 +119,8 @@ def incoherent_sum(wavefields, detector_slice=None, epsilon=1e-7, saturation=Non
         pad1r = wavefields.shape[-2] - pad1l
         pad2l = wavefields.shape[-1]//2
         pad2r = wavefields.shape[-1] - pad2l
-        padded = t.nn.functional.pad(inverse_fft, (pad1l, pad1r, pad2l, pad2r))
-        upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-2)))
+        padded = t.nn.functional.pad(inverse_fft, (pad2l, pad2r, pad1l, pad1r))
+        upsampled_field = t.fft.fft2(t.fft.ifftshift(padded, dim=(-2,-1)))
         upsampled_intensity = t.sum(t.abs(upsampled_field)**2, dim=-3)
         ifft_intensity = t.fft.fftshift(t.fft.ifft2(upsampled_intensity), dim=(-2,-1))
         # Now we take a sinc function
@@ -130,7 +130,7 @@ def incoherent_sum(wavefields, detector_slice=None, epsilon=1e-7, saturation=Non
         ys = (ys / t.max(ys)) * 2 - 1
         Xs, Ys = t.meshgrid(xs, ys, indexing='ij')
         mask = (t.special.sinc(Xs) * t.special.sinc(Ys)).to(device=ifft_intensity.device)
-        blurred_intensity = t.fft.fft2(t.fft.ifftshift(mask * ifft_intensity, dim=(-2,-2)))
+        blurred_intensity = t.fft.fft2(t.fft.ifftshift(mask * ifft_intensity, dim=(-2,-1)))
         output = t.abs(blurred_intensity[...,::2,::2])
     else:
         output = t.sum(t.abs(wavefields)**2,dim=-3) 
-- 
2.43.0


From 45166b8cfbba627aad690fb0776cfa1415e511b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 18/55] fix: near-field backward_propagator of FancyPtycho uses
 the registered propagator

---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 2b6ba27..7ac915f 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -654,7 +654,7 @@ class FancyPtycho(CDIModel):
     def backward_propagator(self, wavefields):
         if self.near_field:
             return tools.propagators.near_field(
-                wavefields, self.inverse_angular_spectrum_propagator
+                wavefields, self.inv_angular_spectrum_propagator
             )
         else:
             return tools.propagators.inverse_far_field(wavefields)
-- 
2.43.0


From 06d0f32db11b82e4f23806d712b0fd564a92b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 19/55] fix: models without weights simulate single exposures
 and on their device

---
 src/cdtools/models/bragg_2d_ptycho.py   | 9 ++++++++-
 src/cdtools/models/fancy_ptycho.py      | 4 ++--
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index e4bc759..f18aed5 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -493,7 +493,14 @@ class Bragg2DPtycho(CDIModel):
         if self.translation_offsets is not None:
             pix_trans += self.translation_scale * self.translation_offsets[index]
 
-        Ws = self.weights[index]
+        if self.weights is not None:
+            Ws = self.weights[index]
+        else:
+            try:
+                Ws = t.ones(len(index), device=self.probe.device)
+            except TypeError:
+                Ws = t.ones([], device=self.probe.device)
+
         prs = Ws[...,None,None,None] * self.probe * self.probe_support[...,:,:]
         # Now we need to propagate each of the probes
 
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 7ac915f..7f4c206 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -570,9 +570,9 @@ class FancyPtycho(CDIModel):
             Ws = self.weights[index]
         else:
             try:
-                Ws = t.ones(len(index)) # I'm positive this introduced a bug
+                Ws = t.ones(len(index), device=self.probe.device)
             except TypeError:
-                Ws = 1
+                Ws = t.ones([], device=self.probe.device)
 
         if self.weights is None or len(self.weights[0].shape) == 0:
             # If a purely stable coherent illumination is defined
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index fb1ec53..2704965 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -464,9 +464,9 @@ class MultislicePtycho(CDIModel):
             Ws = self.weights[index]
         else:
             try:
-                Ws = t.ones(len(index)) # I'm positive this introduced a bug
+                Ws = t.ones(len(index), device=self.probe.device)
             except TypeError:
-                Ws = 1
+                Ws = t.ones([], device=self.probe.device)
 
         if self.weights is None or len(self.weights[0].shape) == 0:
             # If a purely stable coherent illumination is defined
-- 
2.43.0


From 35900c297c4feae76e319c4db92cfe362586bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 20/55] fix: interslice propagator on the oversampled grid,
 with the spacings in order

---
 src/cdtools/models/multislice_ptycho.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 2704965..f59ffba 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -388,14 +388,13 @@ class MultislicePtycho(CDIModel):
             probe_support = None
 
         # Here we define the inter-slice propagator
-        # TODO: this will probably fail for oversampling != 1 and
-        # for any non-square spacing (I didn't check if this was the
-        # correct ordering)
-        spacing = [np.abs(obj_basis[0,1]), np.abs(obj_basis[1,0])]
+        # on the (oversampled) grid of the exit waves
+        spacing = [np.abs(obj_basis[1,0]), np.abs(obj_basis[0,1])]
         
         interslice_propagator = \
             tools.propagators.generate_angular_spectrum_propagator(
-                det_shape, spacing, wavelength, dz)
+                [s * oversampling for s in det_shape],
+                spacing, wavelength, dz)
 
         if ((propagator_fourier_crop is not None)
             and (propagator_fourier_crop != 0)):
-- 
2.43.0


From 57e8b6413de741e450708bb58c80f4db7508d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 21/55] fix: probe basis of a Fourier-cropped probe with
 oversampling

---
 src/cdtools/models/bragg_2d_ptycho.py   | 3 ++-
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index f18aed5..6d326d8 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -395,13 +395,14 @@ class Bragg2DPtycho(CDIModel):
                                        dtype=t.float32)
 
         if probe_fourier_crop is not None:
+            initial_probe_shape = np.array(probe.shape)
             probe = tools.propagators.far_field(probe)
             probe = probe[...,
                           probe_fourier_crop[0]:-probe_fourier_crop[0],
                           probe_fourier_crop[1]:-probe_fourier_crop[1]]
             probe = tools.propagators.inverse_far_field(probe)
             
-            scale_factor = np.array(det_shape) / np.array(probe.shape)
+            scale_factor = initial_probe_shape / np.array(probe.shape)
             probe_basis = obj_basis * scale_factor[None,:]
         else:
             probe_basis = obj_basis.clone()
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index f59ffba..7c0fd8a 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -301,14 +301,14 @@ class MultislicePtycho(CDIModel):
                 dataset.patterns.shape[-2:], dtype=t.float32)
             
         if probe_fourier_crop is not None:
+            initial_probe_shape = np.array(probe.shape)
             probe = tools.propagators.far_field(probe)
             probe = probe[probe_fourier_crop : probe.shape[-2]
                           - probe_fourier_crop,
                           probe_fourier_crop : probe.shape[-1]
                           - probe_fourier_crop]
             probe = tools.propagators.inverse_far_field(probe)
-            # TODO: This may fail with oversampling != 1
-            scale_factor = np.array(det_shape) / np.array(probe.shape)
+            scale_factor = initial_probe_shape / np.array(probe.shape)
             probe_basis = obj_basis * scale_factor[None,:]
         else:
             probe_basis = obj_basis.clone()
-- 
2.43.0


From cf004e898a2af1449438f684c91d0a5764998612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 22/55] fix: Bragg2DPtycho.backward_propagator raises if the
 tilt correction has no inverse

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 6d326d8..75ca498 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -552,7 +552,7 @@ class Bragg2DPtycho(CDIModel):
 
     def backward_propagator(self, wavefields):
         if self.correct_tilt:
-            assert NotImplementedError('Backward propagator not defined with tilt correction')
+            raise NotImplementedError('Backward propagator not defined with tilt correction')
         else:
             return tools.propagators.inverse_far_field(wavefields)
 
-- 
2.43.0


From ede43585392fa8fbf5bee54d3215cfa3431d9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 23/55] fix: simulated probe translations for single exposures
 and without Fourier shifts

---
 src/cdtools/models/fancy_ptycho.py      | 10 +++++-----
 src/cdtools/models/multislice_ptycho.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 7f4c206..c239695 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -589,7 +589,7 @@ class FancyPtycho(CDIModel):
             if self.probe_fourier_shifts is not None:
                 det_pix_trans = self.probe_fourier_shifts[index]
             else:
-                det_pix_trans = t.zeros_like(translations)
+                det_pix_trans = t.zeros_like(pix_trans)
 
             if self.simulate_probe_translation:
                 det_pix_trans = det_pix_trans +  tools.interactions.translations_to_pixel(
@@ -598,10 +598,10 @@ class FancyPtycho(CDIModel):
                     surface_normal=self.surface_normal)
 
                 
-            probe_masks = t.exp(1j* (det_pix_trans[:,0,None,None] *
-                                     self.I_phase[None,...] +
-                                     det_pix_trans[:,1,None,None] *
-                                     self.J_phase[None,...]))
+            probe_masks = t.exp(1j* (det_pix_trans[...,0,None,None] *
+                                     self.I_phase +
+                                     det_pix_trans[...,1,None,None] *
+                                     self.J_phase))
             prs = prs * probe_masks[...,None,:,:]
 
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 7c0fd8a..29f3ac9 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -484,10 +484,10 @@ class MultislicePtycho(CDIModel):
                     translations,
                     surface_normal=self.surface_normal)
             
-            probe_masks = t.exp(1j* (det_pix_trans[:,0,None,None] *
-                                     self.I_phase[None,...] +
-                                     det_pix_trans[:,1,None,None] *
-                                     self.J_phase[None,...]))
+            probe_masks = t.exp(1j* (det_pix_trans[...,0,None,None] *
+                                     self.I_phase +
+                                     det_pix_trans[...,1,None,None] *
+                                     self.J_phase))
             prs = prs * probe_masks[...,None,:,:]
 
 
-- 
2.43.0


From 90f9ef189f3c05ad168c222eeed91e68ac88c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 24/55] fix: Bragg2DPtycho propagates all modes of a single
 exposure

---
 src/cdtools/models/bragg_2d_ptycho.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 75ca498..e1e84f3 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -517,13 +517,12 @@ class Bragg2DPtycho(CDIModel):
 
         # probe propagation
         if self.propagate_probe:
-            for j in range(prs.shape[0]):
-                # I believe this -1 sign is in error, but I need a dataset with
-                # well understood geometry to figure it out
-                propagator = t.exp(
-                    1j*(props[j]*(2*np.pi)/self.wavelength)
-                    * self.universal_propagator)
-                prs[j] = tools.propagators.near_field(prs[j], propagator)
+            # I believe this -1 sign is in error, but I need a dataset with
+            # well understood geometry to figure it out
+            propagator = t.exp(
+                1j*(props[...,None,None]*(2*np.pi)/self.wavelength)
+                * self.universal_propagator)
+            prs = tools.propagators.near_field(prs, propagator)
 
         # we do the upscaling after the propagation because the propagator
         # is calculated based on the probe basis (before upsampling)
-- 
2.43.0


From 25cdaccf6838a014470f04ff089e5a975ef4ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 25/55] fix: RPI object basis for objects and probes of
 different aspect ratio

---
 src/cdtools/models/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index ab463b8..9677cc3 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -80,8 +80,8 @@ class RPI(CDIModel):
         self.register_buffer('probe_basis',
                              t.as_tensor(probe_basis, dtype=dtype))
 
-        scale_factor = t.as_tensor([probe.shape[-1]/obj_guess.shape[-1],
-                                 probe.shape[-2]/obj_guess.shape[-2]])
+        scale_factor = t.as_tensor([probe.shape[-2]/obj_guess.shape[-2],
+                                 probe.shape[-1]/obj_guess.shape[-1]])
         self.register_buffer('obj_basis',
                              (self.probe_basis * scale_factor).to(dtype=dtype))
 
-- 
2.43.0


From 05b72bcd0d16c5471eab82123987d18b85f50573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 26/55] fix: keep the mask boolean when CDataset.to gets a
 positional dtype

---
 src/cdtools/datasets/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index f482287..deb32cb 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -109,7 +109,8 @@ class CDataset(torchdata.Dataset):
             pass
 
         if self.mask is not None:
-            self.mask = self.mask.to(*args,**mask_kwargs)
+            # A dtype may also be given positionally
+            self.mask = self.mask.to(*args,**mask_kwargs).to(dtype=t.bool)
         if self.qe_mask is not None:
             self.qe_mask = self.qe_mask.to(*args,**kwargs)
         if self.background is not None:
-- 
2.43.0


From 26c0755ef1e3a00e08f1ba6612b642e79da5f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 27/55] fix: pad the quantum efficiency mask along with the
 patterns

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 5a84ca1..0c19872 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -370,6 +370,8 @@ class Ptycho2DDataset(CDataset):
                 self.mask = t.nn.functional.pad(self.mask, to_pad, value=True)
         if self.background is not None:
             self.background = t.nn.functional.pad(self.background, to_pad)
+        if hasattr(self, 'qe_mask') and self.qe_mask is not None:
+            self.qe_mask = t.nn.functional.pad(self.qe_mask, to_pad, value=1)
         
 
     def downsample(self, factor=2):
-- 
2.43.0


From 3c55719a42dfeca6c69a3bef8f5829d5f5fe9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 28/55] fix: move the detector corner out when the patterns are
 padded

---
 src/cdtools/datasets/ptycho_2d_dataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 0c19872..0b1b40d 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -372,6 +372,14 @@ class Ptycho2DDataset(CDataset):
             self.background = t.nn.functional.pad(self.background, to_pad)
         if hasattr(self, 'qe_mask') and self.qe_mask is not None:
             self.qe_mask = t.nn.functional.pad(self.qe_mask, to_pad, value=1)
+
+        # The corner of the detector moves out with the added pixels
+        corner = (self.detector_geometry or {}).get('corner')
+        if corner is not None:
+            basis = t.as_tensor(self.detector_geometry['basis'])
+            self.detector_geometry['corner'] = (
+                t.as_tensor(corner)
+                - to_pad[2] * basis[:,0] - to_pad[0] * basis[:,1])
         
 
     def downsample(self, factor=2):
-- 
2.43.0


From ee71be7b433dd7f92fcf641da5e67c9f07486798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 29/55] fix: make the default mask of a dataset on the device
 of its patterns

A dataset simulated by a model on an accelerator, without a mask, filled
a mask on the CPU from patterns on the accelerator, which torch refuses.
---
 src/cdtools/datasets/ptycho_2d_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 0b1b40d..9fbd144 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -70,7 +70,8 @@ class Ptycho2DDataset(CDataset):
         self.patterns = t.as_tensor(patterns)
 
         if self.mask is None:
-            self.mask = t.ones(self.patterns.shape[-2:]).to(dtype=t.bool)
+            self.mask = t.ones(self.patterns.shape[-2:],
+                               device=self.patterns.device).to(dtype=t.bool)
         self.mask.masked_fill_(t.isnan(t.sum(self.patterns,dim=(0,))),0)
         self.patterns.masked_fill_(t.isnan(self.patterns),0)
 
-- 
2.43.0


From 83d69120b7693d9b122895b90e8e7d90276466f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 30/55] fix: scale the two directions of hann_window by their
 own lengths

---
 src/cdtools/tools/image_processing/image_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/image_processing/image_processing.py b/src/cdtools/tools/image_processing/image_processing.py
index b774daa..f6b916c 100644
--- a/src/cdtools/tools/image_processing/image_processing.py
+++ b/src/cdtools/tools/image_processing/image_processing.py
@@ -31,8 +31,8 @@ def hann_window(im):
         The image, apodized by a hann window
     """
     Xs, Ys = np.mgrid[:im.shape[0],:im.shape[1]]
-    Xhann = np.sin(np.pi*Xs/(im.shape[1]-1))**2
-    Yhann = np.sin(np.pi*Ys/(im.shape[0]-1))**2
+    Xhann = np.sin(np.pi*Xs/(im.shape[0]-1))**2
+    Yhann = np.sin(np.pi*Ys/(im.shape[1]-1))**2
     Hann = Xhann * Yhann
     return im * Hann
 
-- 
2.43.0


From a3821c3cdf4412b84a4f6fa325a1315fd41c8e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 31/55] fix: keep the zero frequency in the center when
 upsampling images of odd size

---
 src/cdtools/tools/image_processing/image_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/image_processing/image_processing.py b/src/cdtools/tools/image_processing/image_processing.py
index f6b916c..c83be11 100644
--- a/src/cdtools/tools/image_processing/image_processing.py
+++ b/src/cdtools/tools/image_processing/image_processing.py
@@ -330,8 +330,8 @@ def fourier_upsample(ims, upsample_factor=2, preserve_mean=False):
                            dtype=ims.dtype,
                            device=ims.device)
     
-    left = [((upsample_factor-1)*ims.shape[-2])//2,
-            ((upsample_factor-1)*ims.shape[-1])//2]
+    left = [(upsample_factor*ims.shape[-2])//2 - ims.shape[-2]//2,
+            (upsample_factor*ims.shape[-1])//2 - ims.shape[-1]//2]
     right = [left[0]+ims.shape[-2],
              left[1]+ims.shape[-1]]
     
-- 
2.43.0


From 8f43f11d6ad54931ad8dca4bd15025c92817078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 32/55] fix: calculate the centroid on the device of the image

---
 src/cdtools/tools/image_processing/image_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/image_processing/image_processing.py b/src/cdtools/tools/image_processing/image_processing.py
index c83be11..fa8f0f4 100644
--- a/src/cdtools/tools/image_processing/image_processing.py
+++ b/src/cdtools/tools/image_processing/image_processing.py
@@ -58,7 +58,8 @@ def centroid(im, dims=2):
         An (i,j) index or stack of indices
     """
     # For some reason this needs to be a list
-    indices = [t.arange(im.shape[-dims+i]).to(t.float32) for i in range(dims)]
+    indices = [t.arange(im.shape[-dims+i], device=im.device).to(t.float32)
+               for i in range(dims)]
     indices = t.meshgrid(*indices, indexing='ij')
 
     use_dims = [-dims+i for i in range(dims)]
-- 
2.43.0


From 5de8406f5e28da493fc4c064fab6dc6ec28511b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 33/55] fix: accept numpy arrays in calc_mode_power_fractions

---
 src/cdtools/tools/analysis/analysis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 9844edb..2325063 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -706,6 +706,11 @@ def calc_mode_power_fractions(
         The fraction of the total power in each mode
     """
 
+    return_np = isinstance(probes, np.ndarray)
+    probes = t.as_tensor(probes)
+    if weight_matrix is not None:
+        weight_matrix = t.as_tensor(weight_matrix)
+
     if not assume_preorthogonalized:
         ortho_probes = orthogonalize_probes(
             probes,
@@ -724,6 +729,8 @@ def calc_mode_power_fractions(
     dims = [-d-1 for d in range(n_probe_dims)]
     power = t.sum(t.abs(ortho_probes)**2, dim=dims)
     power_fractions = power / t.sum(power)
+    if return_np:
+        power_fractions = power_fractions.numpy()
     return power_fractions
 
 
-- 
2.43.0


From 392a682b16eedb5cbc5826b95f83eebe7d8fdf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 34/55] fix: normalize a single density matrix before
 calculating its entropy

---
 src/cdtools/tools/analysis/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 2325063..081a799 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -672,7 +672,8 @@ def calc_vn_entropy(matrix):
         return np.array(entropies)
     else:
         eig = np.linalg.eigh(matrix)[0]
-        entropy = -np.sum(special.xlogy(eig,eig))/np.sum(eig)
+        eig = eig / np.sum(eig)
+        entropy = -np.sum(special.xlogy(eig,eig))
         return entropy
 
 
-- 
2.43.0


From af0b4b78a43f5f732630272194d7b0fc7d48b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 35/55] fix: use the same threshold curve in
 calc_generalized_frc as in calc_frc

---
 src/cdtools/tools/analysis/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 081a799..2c61f69 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1057,7 +1057,7 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
     # This moves from combined-image SNR to single-image SNR
     snr /= 2
 
-    threshold = (snr + (2 * snr + 1) / np.sqrt(n_pix)) / \
+    threshold = (snr + (2 * np.sqrt(snr) + 1) / np.sqrt(n_pix)) / \
         (1 + snr + (2 * np.sqrt(snr)) / np.sqrt(n_pix))
 
     if not im_np:
-- 
2.43.0


From 952789d0e58733c759d3fd02c3d08dcc468d7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 36/55] fix: make the default number of bins of
 calc_generalized_frc work

---
 src/cdtools/tools/analysis/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 2c61f69..5be31b2 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1003,7 +1003,7 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
         im_slice = np.s_[...,:,:]
 
     if nbins is None:
-        nbins = np.max(fields_1[...,im_slice].shape[-2:]) // 4
+        nbins = np.max(fields_1[im_slice].shape[-2:]) // 4
 
 
     f1 = t.fft.fftshift(t.fft.fft2(fields_1[im_slice]),dim=(-1,-2))
-- 
2.43.0


From 4c08c2f333e9276a33284aa08b285ba298fb3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 37/55] fix: return the frequencies of calc_generalized_frc as
 numpy for numpy input

---
 src/cdtools/tools/analysis/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 5be31b2..7de5155 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1060,8 +1060,9 @@ def calc_generalized_frc(fields_1, fields_2, basis, im_slice=None, nbins=None, s
     threshold = (snr + (2 * np.sqrt(snr) + 1) / np.sqrt(n_pix)) / \
         (1 + snr + (2 * np.sqrt(snr)) / np.sqrt(n_pix))
 
-    if not im_np:
-        bins = t.tensor(bins)
+    if im_np:
+        bins = bins.numpy()
+    else:
         frc = t.tensor(frc)
         threshold = t.tensor(threshold)
 
-- 
2.43.0


From 96d5cb450458468cbb0ccd16cdb7164e9ad5be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 38/55] fix: read the object basis in make_illumination_map
 under the key it is saved as

---
 src/cdtools/tools/analysis/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 7de5155..5c174d0 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1140,7 +1140,7 @@ def make_illumination_map(results, total_probe_intensity=None, padding=200):
     illumination_map = np.zeros_like(results['obj'], dtype=np.float32)
     translations = t.as_tensor(results['translations'])
     pix_translations = cdtools.tools.interactions.translations_to_pixel(
-        t.as_tensor(results['basis']), translations)
+        t.as_tensor(results['obj_basis']), translations)
     
     # We use the min_translation stored in the model, which was calculated
     # from the uncorrected translations and therefore may be different from
-- 
2.43.0


From 72db7db8c4e8b876a1c7487bc656289c4dd634bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 39/55] fix: read the object basis in
 standardize_reconstruction_set under the key it is saved as

---
 src/cdtools/tools/analysis/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 5c174d0..75eefbb 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1222,17 +1222,17 @@ def standardize_reconstruction_set(
         obj_1, probe_1, weights_1 = remove_amplitude_exponent(
             obj_1, window, probe=probe_1,
             weights=half_1['weights'],
-            basis=half_1['basis'],
+            basis=half_1['obj_basis'],
             translations=half_1['translations'])
         obj_2, probe_2, weights_2 = remove_amplitude_exponent(
             obj_2, window, probe=probe_2,
             weights=half_2['weights'],
-            basis=half_2['basis'],
+            basis=half_2['obj_basis'],
             translations=half_2['translations'])
         obj, probe, weights = remove_amplitude_exponent(
             obj, window, probe=probe,
             weights=full['weights'],
-            basis=full['basis'],
+            basis=full['obj_basis'],
             translations=full['translations'])
 
     
-- 
2.43.0


From 68346603b04aafa8725b8fa491df07f13a672095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 40/55] fix: leave the probe of the caller alone in
 standardize_reconstruction_pair

---
 src/cdtools/tools/analysis/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 75eefbb..e157665 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1378,6 +1378,7 @@ def standardize_reconstruction_pair(
         t.as_tensor(probe_2[0]),
     )
     
+    probe_2 = probe_2.copy()
     for idx in range(probe_2.shape[0]):
         probe_2[idx] = ip.sinc_subpixel_shift(
             t.as_tensor(probe_2[idx]), probe_shift).numpy()
-- 
2.43.0


From fba4146673287d9d3037d7a1d65a4452bc6b0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 41/55] fix: align single probes in synthesize_reconstructions

---
 src/cdtools/tools/analysis/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index e157665..78e0b07 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -349,7 +349,10 @@ def synthesize_reconstructions(probes, objects, use_probe=False, obj_slice=None,
     for i, (probe, obj) in enumerate(zip(probes[1:],objects[1:])):
         probe, obj = standardize(probe.clone(), obj.clone(), obj_slice=obj_slice,correct_ramp=correct_ramp)
         if use_probe:
-            shift = ip.find_shift(synth_probe[0],probe[0], resolution=50)
+            shift = ip.find_shift(
+                synth_probe[0] if synth_probe.dim() == 3 else synth_probe,
+                probe[0] if probe.dim() == 3 else probe,
+                resolution=50)
         else:
             shift = ip.find_shift(synth_obj[obj_slice],obj[obj_slice], resolution=50)
 
-- 
2.43.0


From 68b3deb26345475d6d020c6d79fb55e06c367b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 42/55] fix: SHARP style probe guesses failed for datasets
 without a mask

---
 src/cdtools/tools/initializers/initializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index c3aa47e..f171e56 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -309,7 +309,7 @@ def SHARP_style_probe(dataset, propagation_distance=None, oversampling=1):
             intensities += (dataset.mask.cpu().numpy() * im.cpu().numpy()
                             / factors[params[0]])
         else:
-            intensities += im.cpu().numpy() / params[factors[0]]
+            intensities += im.cpu().numpy() / factors[params[0]]
             
     intensities /= len(dataset)
 
@@ -403,7 +403,7 @@ def SHARP_style_near_field_probe(dataset, backward_propagator, oversampling=1):
             intensities += (dataset.mask.cpu().numpy() * im.cpu().numpy()
                             / factors[params[0]])
         else:
-            intensities += im.cpu().numpy() / params[factors[0]]
+            intensities += im.cpu().numpy() / factors[params[0]]
             
     intensities /= len(dataset)
 
-- 
2.43.0


From 14bdf60b2d64bd9822107ebb3a780dc69fe0ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 43/55] fix: generate_subdominant_modes did not normalize the
 modes to the intensity of the dominant mode

---
 src/cdtools/tools/initializers/initializers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/tools/initializers/initializers.py b/src/cdtools/tools/initializers/initializers.py
index f171e56..652a7da 100644
--- a/src/cdtools/tools/initializers/initializers.py
+++ b/src/cdtools/tools/initializers/initializers.py
@@ -665,6 +665,7 @@ def generate_subdominant_modes(dominant_mode, n_modes, circular=True):
     for a_order,b_order in make_orders(n_modes):
         mask = reduce(t.mul,[a]*a_order+[b]*b_order)
         new_probe = inverse_far_field(mask * dominant_fft)
-        probes.append(new_probe * (probe_norm / t.sum(t.abs(new_probe))))
+        probes.append(new_probe * t.sqrt(probe_norm
+                                         / t.sum(t.abs(new_probe)**2)))
 
     return t.stack(probes)
-- 
2.43.0


From e93a378e29b6e4f7cc5d11838e11efa0a628458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:28 +0000
Subject: [PATCH 44/55] fix: datasets simulated by Bragg2DPtycho stayed
 attached to the graph and could not be saved

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index e1e84f3..8ae7fc2 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -592,7 +592,7 @@ class Bragg2DPtycho(CDIModel):
         indices, translations = args_list
         
         # Then we simulate the results
-        data = self.forward(indices, translations)
+        data = self.forward(indices, translations).detach()
 
         # And finally, we make the dataset
         return Ptycho2DDataset(translations, data,
-- 
2.43.0


From 690933938451906908e8be505bf5672857a5926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:28 +0000
Subject: [PATCH 45/55] fix: MultislicePtycho.center_probes centered the
 Fourier transform of the probe when fourier_probe is set

---
 src/cdtools/models/multislice_ptycho.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 29f3ac9..58cba13 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -643,9 +643,18 @@ class MultislicePtycho(CDIModel):
         the object, so it's a good idea to reset the object after centering
         the probes
         """
-        centered_probe = tools.image_processing.center(
-            self.probe.data.cpu(), iterations=iterations)
-        self.probe.data = centered_probe.to(device=self.probe.data.device)
+        if self.fourier_probe:
+            prs = tools.propagators.inverse_far_field(self.probe.detach()).cpu()
+        else:
+            prs = self.probe.detach().cpu()
+
+        centered_prs = tools.image_processing.center(prs, iterations=iterations)
+
+        if self.fourier_probe:
+            self.probe.data = tools.propagators.far_field(
+                centered_prs.to(device=self.probe.data.device))
+        else:
+            self.probe.data = centered_prs.to(device=self.probe.data.device)
 
     def tidy_probes(self):
         """Tidies up the probes
-- 
2.43.0


From 3c6ea28ea742da85908134d59df45c1a4800c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:09 +0000
Subject: [PATCH 46/55] fix: Bragg2DPtycho.from_dataset could not crop the
 probe along one axis only

---
 src/cdtools/models/bragg_2d_ptycho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 8ae7fc2..e373f7a 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -398,8 +398,10 @@ class Bragg2DPtycho(CDIModel):
             initial_probe_shape = np.array(probe.shape)
             probe = tools.propagators.far_field(probe)
             probe = probe[...,
-                          probe_fourier_crop[0]:-probe_fourier_crop[0],
-                          probe_fourier_crop[1]:-probe_fourier_crop[1]]
+                          probe_fourier_crop[0]:
+                          probe.shape[-2] - probe_fourier_crop[0],
+                          probe_fourier_crop[1]:
+                          probe.shape[-1] - probe_fourier_crop[1]]
             probe = tools.propagators.inverse_far_field(probe)
             
             scale_factor = initial_probe_shape / np.array(probe.shape)
-- 
2.43.0


From c416152a42eabcc134398ba10aaa09f451427bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:09 +0000
Subject: [PATCH 47/55] fix: RPI.from_dataset failed for objects as large as
 the probe

---
 src/cdtools/models/rpi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 9677cc3..55d6c1b 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -260,10 +260,9 @@ class RPI(CDIModel):
         probe_intensity = t.sqrt(t.sum(t.abs(probe)**2,axis=0))
         probe_fft = tools.propagators.far_field(probe_intensity)
         pad0l = (probe.shape[-2] - obj_size[-2])//2
-        pad0r = probe.shape[-2] - obj_size[-2] - pad0l
         pad1l = (probe.shape[-1] - obj_size[-1])//2
-        pad1r = probe.shape[-1] - obj_size[-1] - pad1l
-        probe_lr_fft = probe_fft[pad0l:-pad0r,pad1l:-pad1r]
+        probe_lr_fft = probe_fft[pad0l:pad0l + obj_size[-2],
+                                 pad1l:pad1l + obj_size[-1]]
         probe_lr = t.abs(tools.propagators.inverse_far_field(probe_lr_fft))
 
         obj_support = probe_lr > t.max(probe_lr) * probe_threshold
-- 
2.43.0


From fdcfb17a148861ab93bc7960abacb64a239a52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:09 +0000
Subject: [PATCH 48/55] fix: RPI.from_calibration made a mask and background
 for each probe mode if the calibration has none

---
 src/cdtools/models/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 55d6c1b..f7bfeb0 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -329,11 +329,11 @@ class RPI(CDIModel):
             background = t.sqrt(t.as_tensor(calibration['background'],
                                             dtype=dtype))
         else:
-            background = t.zeros_like(probe.real)
+            background = t.zeros_like(probe[0].real)
         if 'mask' in calibration:
             mask = t.as_tensor(calibration['mask'], dtype=t.bool)
         else:
-            mask = t.ones_like(probe.real, dtype=t.bool)
+            mask = t.ones_like(probe[0].real, dtype=t.bool)
 
         # This will be superceded later by a call to init_obj, but it sets
         # the shape
-- 
2.43.0


From a3f9521dbdd8d2811ce341dc04263d53155cfbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 49/55] fix: keep the vmin and vmax of a plot when its image is
 updated

---
 src/cdtools/tools/plotting/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 2e57a96..edeac6d 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -240,6 +240,8 @@ def plot_image(
             fig._current_im.set_data(to_plot)
             if updateable_colorbar:
                 fig._current_im.autoscale()
+                # Limits which were set explicitly stay as they are
+                fig._current_im.set_clim(vmin, vmax)
             # We need to go to the "home" position before updating it
             # to include the new data, because otherwise it will store
             # other axes (potentially zoomed in) positions as "home",
-- 
2.43.0


From 50783b8da41d4ec48d3394d80c4780053f283527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 50/55] fix: pass the units to the plots of the wavefront
 variation

plot_nanomap_with_images has no argument 'units', so that the plots
always failed.
---
 src/cdtools/models/fancy_ptycho.py      | 3 ++-
 src/cdtools/models/multislice_ptycho.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index c239695..c991d14 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -945,7 +945,8 @@ class FancyPtycho(CDIModel):
             get_probes,
             values=values,
             fig=fig,
-            units=self.units,
+            nanomap_units=self.units,
+            image_units=self.units,
             basis=self.probe_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 58cba13..e071fb0 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -781,7 +781,8 @@ class MultislicePtycho(CDIModel):
             get_probes,
             values=values,
             fig=fig,
-            units=self.units,
+            nanomap_units=self.units,
+            image_units=self.units,
             basis=self.obj_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
-- 
2.43.0


From 9357a532ea1207fd67832ab34faa4cae4eecfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 51/55] fix: plot the root of the summed probe intensities

---
 src/cdtools/models/fancy_ptycho.py      | 5 +++--
 src/cdtools/models/multislice_ptycho.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index c991d14..6b19fd2 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -928,8 +928,9 @@ class FancyPtycho(CDIModel):
             if mode.lower() == 'amplitude':
                 return np.abs(ortho_probes.detach().cpu().numpy())
             if mode.lower() == 'root_sum_intensity':
-                return np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
-                              axis=0)
+                return np.sqrt(
+                    np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
+                           axis=0))
             if mode.lower() == 'phase':
                 return np.angle(ortho_probes.detach().cpu().numpy())
 
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index e071fb0..32430ca 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -750,8 +750,9 @@ class MultislicePtycho(CDIModel):
             if mode.lower() == 'amplitude':
                 return np.abs(ortho_probes.detach().cpu().numpy())
             if mode.lower() == 'root_sum_intensity':
-                return np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
-                              axis=0)
+                return np.sqrt(
+                    np.sum(np.abs(ortho_probes.detach().cpu().numpy())**2,
+                           axis=0))
             if mode.lower() == 'phase':
                 return np.angle(ortho_probes.detach().cpu().numpy())
 
-- 
2.43.0


From ecbdb662794c1f8ada019cafe061b2bb1ed42d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 52/55] fix: plot the wavefront variation of Fourier space
 probes in real space

---
 src/cdtools/models/fancy_ptycho.py      | 2 ++
 src/cdtools/models/multislice_ptycho.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 6b19fd2..6805c49 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -923,6 +923,8 @@ class FancyPtycho(CDIModel):
             basis_prs = self.probe * self.probe_support[..., :, :]
             prs = t.sum(self.weights[idx, :, :, None, None] * basis_prs,
                         axis=-3)
+            if self.fourier_probe:
+                prs = tools.propagators.inverse_far_field(prs)
             ortho_probes = analysis.orthogonalize_probes(prs)
 
             if mode.lower() == 'amplitude':
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 32430ca..f6f4cc7 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -745,6 +745,8 @@ class MultislicePtycho(CDIModel):
             basis_prs = self.probe * self.probe_support[..., :, :]
             prs = t.sum(self.weights[idx, :, :, None, None] * basis_prs,
                         axis=-3)
+            if self.fourier_probe:
+                prs = tools.propagators.inverse_far_field(prs)
             ortho_probes = analysis.orthogonalize_probes(prs)
 
             if mode.lower() == 'amplitude':
-- 
2.43.0


From 5acb7cec4eed4a2464c44cb04167e02fdee546ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 53/55] fix: plot the illumination in MultislicePtycho in the
 basis of the probe

---
 src/cdtools/models/multislice_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index f6f4cc7..2ded18f 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -786,7 +786,7 @@ class MultislicePtycho(CDIModel):
             fig=fig,
             nanomap_units=self.units,
             image_units=self.units,
-            basis=self.obj_basis,
+            basis=self.probe_basis,
             nanomap_colorbar_title='Total Probe Intensity',
             cmap=cmap,
             **kwargs),
-- 
2.43.0


From 409a5108ca1f19637bb9c985a9c0bf7bf51e49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:20 +0000
Subject: [PATCH 54/55] fix: plot the probes in Fourier space, not
 backpropagated

---
 src/cdtools/models/bragg_2d_ptycho.py   | 4 ++--
 src/cdtools/models/multislice_ptycho.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index e373f7a..156a667 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -628,9 +628,9 @@ class Bragg2DPtycho(CDIModel):
 
     plot_list = [
         {'title': 'Basis Probe Fourier Space Amplitudes',
-         'plot_func': lambda self, fig: p.plot_amplitude(tools.propagators.inverse_far_field(self.probe), fig=fig)},
+         'plot_func': lambda self, fig: p.plot_amplitude(tools.propagators.far_field(self.probe), fig=fig)},
         {'title': 'Basis Probe Fourier Space Phases',
-         'plot_func': lambda self, fig: p.plot_phase(tools.propagators.inverse_far_field(self.probe), fig=fig)},
+         'plot_func': lambda self, fig: p.plot_phase(tools.propagators.far_field(self.probe), fig=fig)},
         {'title': 'Basis Probe Real Space Amplitudes, Surface Normal View',
          'plot_func': lambda self, fig: p.plot_amplitude(
              self.probe,
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 2ded18f..0163d9f 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -817,12 +817,12 @@ class MultislicePtycho(CDIModel):
         {'title': 'Basis Probe Fourier Space Amplitudes',
          'plot_func': lambda self, fig: p.plot_amplitude(
              (self.probe if self.fourier_probe
-              else tools.propagators.inverse_far_field(self.probe)),
+              else tools.propagators.far_field(self.probe)),
              fig=fig)},
         {'title': 'Basis Probe Fourier Space Phases',
          'plot_func': lambda self, fig: p.plot_phase(
              (self.probe if self.fourier_probe
-              else tools.propagators.inverse_far_field(self.probe)),
+              else tools.propagators.far_field(self.probe)),
              fig=fig)},
         {'title': 'Basis Probe Real Space Amplitudes',
          'plot_func': lambda self, fig: p.plot_amplitude(
-- 
2.43.0


From 92a5c727cbcc86747495df334ca30a74b31d868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:07 +0000
Subject: [PATCH 55/55] fix: document the actual default extension of
 save_figures (.pdf, not .eps)

---
 src/cdtools/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 02155f7..73627e4 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1036,8 +1036,8 @@ class CDIModel(t.nn.Module):
         ----------
         prefix : str
             Optional, a string to prepend to the saved figure names
-        extention : strategy
-            Default is .eps, the file extension to save with.
+        extension : str
+            Default is .pdf, the file extension to save with.
         """
 
         if not (hasattr(self, 'figs') and self.figs):
-- 
2.43.0

