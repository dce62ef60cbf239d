From 1662d2f8dbc72d56516253d80096d4566c02cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 001/103] fix: plot.log10nonneg no longer zeroes negative
 values in the caller's array

---
 falco/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index c9b52b2..85512e7 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -346,5 +346,4 @@ def pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband):
 
 
 def log10nonneg(array):
-    array[array < 0] = 0
-    return np.log10(array)
+    return np.log10(np.maximum(array, 0))
-- 
2.43.0


From ec5f7c42773f99904a5574f1bfc777f35a3e0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 002/103] fix: ModelParameters.from_yaml leaves the caller's
 context dictionary unchanged

---
 falco/config/ModelParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..e519bae 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -247,7 +247,7 @@ class ModelParameters(Object):
 
         if context is None:
             context = {}
-        context['mp'] = result
+        context = dict(context, mp=result)
 
         data = load_from_str(
             text,
-- 
2.43.0


From 64be281c1c838d9b5f85c56af6f8a7cd017cdd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 003/103] fix: loading a configuration no longer adds
 constructors to yaml.SafeLoader itself

---
 falco/config/yaml_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..89dbe6f 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -38,7 +38,9 @@ def _eval_constructor(eval_globals, eval_locals):
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
     """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    class loader(yaml.SafeLoader):
+        pass
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From f72db4f8379b2d7b831d1f5c6ab27cb0052f5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 004/103] fix: falco_gen_pupil_WFIRST_CGI_180718 leaves its
 changes argument unchanged

---
 falco/mask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..141287d 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -413,6 +413,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     # Padding values for obscuration
     # Defaults of Bulk Changes: (All length units are pupil diameters. 
     # All angles are in degrees.)
+    changes = dict(changes)  # do not write the default values to the caller's dictionary
     if not 'xShear' in changes: changes["xShear"] = 0
     if not 'yShear' in changes: changes["yShear"] = 0
     if not 'magFac' in changes: changes["magFac"] = 1.0
-- 
2.43.0


From c3ec64a249c2dd34b7cc5904e0d13d8510f41445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 005/103] fix: falco_gen_pupil_customHex leaves its inputs
 argument unchanged

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 141287d..6119c30 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1558,7 +1558,7 @@ def falco_gen_pupil_customHex(inputs):
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
     [THETA, RHO] = falco.util.cart2pol(X, Y)
 
-    inputs["apDia"] = inputs["Nbeam"]
+    inputs = dict(inputs, apDia=inputs["Nbeam"])
     if('pistons' in inputs.keys()):
         pupil0 = falco.hexsegmirror.get_field(inputs)
     else:
-- 
2.43.0


From 92cff806888e53671290e6b62d24c2062ed92049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 006/103] fix: falco_set_jacobian_modal_weights no longer
 overwrites the array given as Zcoef

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..35b6a32 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -586,7 +586,7 @@ def falco_set_jacobian_modal_weights(mp):
         raise TypeError('Input "mp" must be of type ModelParameters')
 
     mp.jac.zerns = np.atleast_1d(mp.jac.zerns)
-    mp.jac.Zcoef = np.atleast_1d(mp.jac.Zcoef)
+    mp.jac.Zcoef = np.array(mp.jac.Zcoef, ndmin=1)
     mp.jac.Nzern = np.size(mp.jac.zerns)
 
     if not np.any(mp.jac.zerns == 1):
-- 
2.43.0


From be95031538899c7a3a3d6ef7eb59b3d1aaf39e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 007/103] fix: Jacobian Zernike modes may be given in any order

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 35b6a32..f9e8267 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -591,7 +591,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif np.size(mp.jac.zerns) != len(set(mp.jac.zerns)):
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -602,7 +602,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From 2fe6b77c025dabc0c77988688b2f099f461965fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 008/103] fix: store_intensities no longer rescales the stored
 incoherent estimate

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..0b8eb31 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -342,7 +342,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From d5f9230f5789ee29786f6d83928b83d0799fae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 009/103] fix: probe schedules no longer crash on an incomplete
 call of check.oneD_array

---
 falco/est.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..72f81c5 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -249,28 +249,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', TypeError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', TypeError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', TypeError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', TypeError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
-- 
2.43.0


From 28d3ca2db738880a0712a33124a763130e478503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 010/103] fix: scheduled probe intensity is indexed, not called

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 72f81c5..a893fcd 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -427,7 +427,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From 8e4d4541eed7748c42ed18663c3fcb51cf8b6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 011/103] fix: pairwise_probing validates whichDM before
 changing the list of mirrors in use

---
 falco/est.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/est.py b/falco/est.py
index a893fcd..5399e2a 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -239,6 +239,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     """
     Itr = ev.Itr
     whichDM = mp.est.probe.whichDM
+    if whichDM not in (1, 2):
+        raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # # Reset "ev" if not using a Kalman filter.
     # if mp.estimator != 'pwp-kf':
-- 
2.43.0


From c62153b49183eb729dff376c66b377414ca08539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 012/103] fix: pairwise_probing keeps the command of a mirror
 that is not in use

---
 falco/est.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 5399e2a..181b756 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -298,15 +298,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
@@ -712,10 +705,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         # plt.gca().invert_yaxis()
 
     # Reset nominal values that were changed
-    if np.any(mp.dm_ind == 1):
-        mp.dm1.V = DM1Vnom
-    if np.any(mp.dm_ind == 2):
-        mp.dm2.V = DM2Vnom
+    mp.dm1.V = DM1Vnom
+    mp.dm2.V = DM2Vnom
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From 3ffe2f9b520b5a79f63af68a836b5b2be611f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 013/103] fix: parallel perfect estimation accepts image grids
 that are not square

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 181b756..b5c6279 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
-- 
2.43.0


From 6b3b78b479b9fc755dbb1d27ddfe751e2d2401b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 014/103] fix: serial perfect estimation adds the images of all
 stars, as the parallel branch does

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index b5c6279..ee4ad2d 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
-- 
2.43.0


From b97249b231f3934e0228eada23170000331debc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 015/103] fix: probe plots show the command of the probing
 mirror

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index ee4ad2d..532fb22 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -516,7 +516,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                else:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From bfee8436d7d950bde645ec85088c4746e937e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 016/103] fix: pwp-kf past its first iteration raises
 NotImplementedError instead of reusing undefined estimates

---
 falco/est.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/est.py b/falco/est.py
index 532fb22..ed67ef6 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -673,6 +673,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             # End Kalman Filter Update
             # %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 
+            else:
+                raise NotImplementedError(
+                    'The Kalman filter update is not implemented.')
+
             # Save out the estimates
             ev.Eest[:, modeIndex] = Eest
             ev.IincoEst[:, modeIndex] = I0vec - np.abs(Eest)**2  # incoherent
-- 
2.43.0


From b74bb91bb6f3e5e38b0ccb54bd5e7f5341fc22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 017/103] fix: multi-sinusoid probes index their spatial
 frequencies

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index ed67ef6..bbb8e4a 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -794,7 +794,7 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
         probeSurf = np.zeros_like(XS)
         for i in range(mp.Fend.Nfiber):
             probeSurf = probeSurf + \
-                magn*np.sin(2*np.pi*omegaX(i)*XS + 2*np.pi*omegaY(i)*YS + psi)
+                magn*np.sin(2*np.pi*omegaX[i]*XS + 2*np.pi*omegaY[i]*YS + psi)
 
     # Option to use just the sincs for a zero phase shift. This avoids the
     # phase discontinuity along one axis (for this probe only!).
-- 
2.43.0


From 9efdbea97434b235fe41d32d02e5dc4a00092057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 018/103] fix: gen_pairwise_probe_square no longer changes
 mp.est.probe.radius

---
 falco/est.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index bbb8e4a..ad5972d 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -771,21 +771,20 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
         YS = RS*np.sin(THETAS-rotRad)
 
     # Restrict the probing region if it is not possible to achieve
-    if mp.est.probe.radius > Nact/2.0:
-        mp.est.probe.radius = Nact/2.0
+    radius = min(mp.est.probe.radius, Nact/2.0)
 
     # Generate the DM command for the probe
     magn = 4*np.pi*mp.lambda0*np.sqrt(InormDes)  # surface height to get desired intensity [meters]
     if badAxis.lower() == 'y':
-        mX = mp.est.probe.radius
-        mY = 2*mp.est.probe.radius
-        omegaX = mp.est.probe.radius/2
+        mX = radius
+        mY = 2*radius
+        omegaX = radius/2
         probeSurf = magn*np.sinc(mX*XS)*np.sinc(mY*YS)*np.cos(2*np.pi*omegaX*XS + psi)
 
     elif badAxis.lower() == 'x':
-        mX = 2*mp.est.probe.radius
-        mY = mp.est.probe.radius
-        omegaY = mp.est.probe.radius/2
+        mX = 2*radius
+        mY = radius
+        omegaY = radius/2
         probeSurf = magn*np.sinc(mX*XS)*np.sinc(mY*YS)*np.cos(2*np.pi*omegaY*YS + psi)
 
     elif badAxis.lower() in ('m'):  # alternate between x and y
@@ -799,7 +798,7 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
     # Option to use just the sincs for a zero phase shift. This avoids the
     # phase discontinuity along one axis (for this probe only!).
     if psi == 0:
-        m = 2*mp.est.probe.radius
+        m = 2*radius
         probeSurf = magn*np.sinc(m*XS)*np.sinc(m*YS)
 
     probeCmd = falco.dm.fit_surf_to_act(dm, probeSurf)
-- 
2.43.0


From 290c69496ecc9dbf05a992b6f93d61a9dab18896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 019/103] fix: probe generators reject an unknown probing
 mirror

---
 falco/est.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/est.py b/falco/est.py
index ad5972d..61ec13f 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -754,6 +754,8 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
     elif mp.est.probe.whichDM == 2:
         Nact = mp.dm2.Nact
         dm = mp.dm2
+    else:
+        raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Coordinates in actuator space
     xs = np.arange(-(Nact-1)/2, (Nact+1)/2)/Nact - \
@@ -842,6 +844,8 @@ def gen_pairwise_probe(mp, InormDes, phaseShift, starIndex, rotation):
         dm = mp.dm1
     elif mp.est.probe.whichDM == 2:
         dm = mp.dm2
+    else:
+        raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
     Nact = dm.Nact
     NactPerBeam = mp.P2.D / dm.dm_spacing
 
-- 
2.43.0


From 458ebb2c9f1be0c238ddb13ba31de385bbf24a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 020/103] fix: est.wrapper rejects an unknown estimator

---
 falco/est.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/est.py b/falco/est.py
index 61ec13f..951c9d5 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -43,6 +43,9 @@ def wrapper(mp, ev, jacStruct):
         else:  # Otherwise don't pass the Jacobian
             falco.est.pairwise_probing(mp, ev)
 
+    else:
+        raise ValueError('Invalid value of mp.estimator: %s' % mp.estimator)
+
     return None
 
 
-- 
2.43.0


From 7450f9eeb4c217816853a76a706cfbd838cea208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 021/103] fix: ctrl.wrapper rejects an unknown controller

---
 falco/ctrl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..c707a76 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -101,6 +101,9 @@ def wrapper(mp, cvar, jacStruct):
             dDM = _planned_efc(mp, cvar)
         elif mp.controller.lower() == 'gridsearchefc':
             dDM = _grid_search_efc(mp, cvar)
+        else:
+            raise ValueError('Invalid value of mp.controller: %s'
+                             % mp.controller)
 
     # Update the DM commands by adding the delta control signal
     if any(mp.dm_ind == 1):
-- 
2.43.0


From fbeaeb9347bd78dbb6d3a4d6b17738617961b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 022/103] fix: ctrl.init takes the DM8 command from DM8

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index c707a76..1267441 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1110,7 +1110,7 @@ def init(mp, cvar):
     # Make the vector of total DM commands from before
     u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
     u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
-    u8 = mp.dm9.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
+    u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
     u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele] if any(mp.dm_ind == 9) else np.array([])
     cvar.uVec = np.concatenate((u1, u2, u8, u9))
     cvar.NeleAll = cvar.uVec.size
-- 
2.43.0


From d5fa0dfd919b1faf8fd56a1e0ba38a86e53d6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 023/103] fix: spatial weights are applied to a copy of the
 Jacobian, not again in every iteration

---
 falco/ctrl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 1267441..388a4a0 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1055,6 +1055,12 @@ def apply_spatial_weighting_to_Jacobian(mp, jacStruct):
     None.
 
     """
+    # New arrays, so that the weights do not show up outside the controller
+    if np.any(mp.dm_ind == 1):
+        jacStruct.G1 = jacStruct.G1.copy()
+    if np.any(mp.dm_ind == 2):
+        jacStruct.G2 = jacStruct.G2.copy()
+
     for iStar in range(mp.compact.star.count):
 
         if np.any(mp.dm_ind == 1):
-- 
2.43.0


From a573ef397d7207efda060f74279c5205e5ea649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 024/103] fix: AD-EFC applies the scaling factor of the grid
 search

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 388a4a0..97727f9 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -994,7 +994,7 @@ def _ad_efc(ni, vals_list, mp, cvar):
                  'iprint': mp.ctrl.ad.iprint,
                  },
         )
-    duVec = u_sol.x
+    duVec = dmfac*u_sol.x
     print(u_sol.success)
     print(u_sol.nit)
     '''
-- 
2.43.0


From 0f7c5aa551fe6063b1a390a6018814a16791f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 025/103] fix: parallel grid search keeps the images and
 releases its pool on errors

---
 falco/ctrl.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 97727f9..21c0794 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -337,13 +337,10 @@ def _grid_search_efc(mp, cvar):
         # pool.close()
         # pool.join()
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(
-            _efc, [(ni, vals_list, mp, cvar) for ni in range(Nvals)]
-        )
-        results_ctrl = results
-        pool.close()
-        pool.join()
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results_ctrl = pool.starmap(
+                _efc, [(ni, vals_list, mp, cvar) for ni in range(Nvals)]
+            )
 
         # with PoolExecutor(max_workers=mp.Nthreads) as executor:
         #     resultsRaw = executor.map(
@@ -355,6 +352,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
-- 
2.43.0


From 2161f02837572cd050976b1c3746d18406ab5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 026/103] fix: saving the workspace no longer deletes names
 that do not exist

---
 falco/wfsc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 0b8eb31..660683d 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -199,8 +199,6 @@ def loop(mp, out):
     # Save out the data from the workspace
     if mp.flagSaveWS:
         del cvar
-        del G
-        del h
         del jacStruct
 
         # Don't bother saving the large 2-D, floating point maps.
@@ -230,7 +228,7 @@ def loop(mp, out):
         mp.dm8.inf_datacube = 0
         mp.dm9.inf_datacube = 0
 
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        fnAll = os.path.join(mp.path.ws, mp.runLabel + '_all.pkl')
         print('Saving entire workspace to file ' + fnAll + '...', end='')
         with open(fnAll, 'wb') as f:
             pickle.dump(mp, f)
-- 
2.43.0


From 86f8b7a56171085ab2163a41da464820aa1eeadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 027/103] fix: actuators beyond their voltage bounds are pinned
 at the bound of the total voltage

---
 falco/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..4e36a5b 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -916,13 +916,13 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = dm.Vmin - dm.biasMap.flatten()[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = dm.Vmax - dm.biasMap.flatten()[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From e4e193f0eda1033f7a5a7e2a1f3c2dee76fddfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 028/103] fix: apply_neighbor_rule works on a copy of the
 commands and no longer crashes on a violation

---
 falco/dm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 4e36a5b..71b905e 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -823,7 +823,7 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
     check.real_scalar(Vlim, 'Vlim', TypeError)
     check.positive_scalar_integer(Nact, 'Nact', TypeError)
 
-    Vout = Vin  # Initialize output voltage map
+    Vout = Vin.copy()  # Initialize output voltage map
     indPair = np.zeros((0, 2))  # Initialize the paired indices list. [nPairs x 2]
 
     kx1 = np.array([[0, 1], [1, 1], [1, 0]])              # R1-C1
@@ -869,9 +869,8 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
 
                     if (np.abs(a1) > Vlim):  # If neighbor rule is violated
 
-                        indLinCtr = (ii-1)*Nact + jj  # linear index of center actuator
-                        indLinNbr = (kc[iNbr]-1)*Nact + kr[iNbr]  # linear index of neigboring actuator
-                        indPair = np.array([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
+                        indLinCtr = jj*Nact + ii  # linear index of center actuator
+                        indLinNbr = kr[iNbr]*Nact + kc[iNbr]  # linear index of neigboring actuator
                         indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
 
                         fx = (np.abs(a1) - Vlim) / 2.
-- 
2.43.0


From 5804f0dcb8231c7dc8a432dcee952dc929d47da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 029/103] fix: gen_surf_from_act rejects an unknown centering

---
 falco/dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 71b905e..8500f2a 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -58,6 +58,8 @@ def gen_surf_from_act(dm, dx, Nout):
         cshift = -Darray/2./Narray/dm.dm_spacing
     elif dm.centering == 'pixel':
         cshift = 0
+    else:
+        raise ValueError('Invalid value of dm.centering: %s' % dm.centering)
 
     pupil_ratio = 1  # beam diameter fraction
     wl_dummy = 1e-6  # dummy value needed to initialize PROPER (meters)
-- 
2.43.0


From d88297a77fe2cb806d14b0993067cd494bf97c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 030/103] fix: mirror surface functions reject an unknown
 influence function sign

---
 falco/diff_dm.py | 2 ++
 falco/dm.py      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 4290949..b41647b 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -95,6 +95,8 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
             sign_factor = 1.
         elif(kwargs["inf_sign"] == '-'):
             sign_factor = -1.
+        else:
+            raise ValueError('inf_sign must be + or -')
     else:
         sign_factor = 1.
 
diff --git a/falco/dm.py b/falco/dm.py
index 8500f2a..a549c8b 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -320,6 +320,8 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
             sign_factor = 1.
         elif kwargs["inf_sign"] == '-':
             sign_factor = -1.
+        else:
+            raise ValueError('inf_sign must be + or -')
     else:
         sign_factor = 1.
 
@@ -1185,6 +1187,8 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
             sign_factor = 1.
         elif kwargs["inf_sign"] == '-':
             sign_factor = -1.
+        else:
+            raise ValueError('inf_sign must be + or -')
     else:
         sign_factor = 1.
 
-- 
2.43.0


From 3d8403ae9dcd0c25801cfe89d27256e95e1fa98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 031/103] fix: gen_bowtie_fpm and gen_annular_fpm reject an
 unknown centering

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 6119c30..ea10654 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -739,6 +739,7 @@ def gen_bowtie_fpm(inputs):
     xOffset = inputs.get("xOffset", 0)  # [lambda0/D]
     yOffset = inputs.get("yOffset", 0)  # [lambda0/D]
     centering = inputs.get("centering", "pixel")
+    check.centering(centering)
     clocking = inputs.get("clocking", 0)  # [degrees]
 
     dx = 1.0 / pixresFPM  # lambda_c/D per pixel.
@@ -852,6 +853,7 @@ def gen_annular_fpm(inputs):
     xOffset = inputs.get("xOffset", 0)
     yOffset = inputs.get("yOffset", 0)
     centering = inputs.get("centering", "pixel")
+    check.centering(centering)
     FPMampFac = inputs.get("FPMampFac", 0)
 
     dx = 1.0 / pixresFPM  # lambda_c/D per pixel.
-- 
2.43.0


From 6330ed1029704e339ffafae5adc7c5b90bc65368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 032/103] fix: gen_bowtie_lyot_stop and falco_gen_ellipse
 reject an unknown centering

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index ea10654..513716d 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -941,6 +941,7 @@ def gen_bowtie_lyot_stop(inputs):
 
     # Optional inputs and their defaults
     centering = inputs['centering'] if 'centering' in inputs.keys() else 'pixel'  # Default to pixel centering
+    check.centering(centering)
     xShear = inputs['xShear'] if 'xShear' in inputs.keys() else  0.  # x-axis shear of mask [pupil diameters]
     yShear = inputs['yShear'] if 'yShear' in inputs.keys() else  0.  # y-axis shear of mask [pupil diameters]
     clocking = -inputs['clocking'] if 'clocking' in inputs.keys() else 0.  # Clocking of the mask [degrees]
@@ -1679,6 +1680,7 @@ def falco_gen_ellipse(inputs):
 
     # Optional dictionary keys
     centering = inputs["centering"] if('centering' in inputs) else 'pixel'
+    check.centering(centering)
     clockingDegrees = inputs["clockingDegrees"] if('clockingDegrees' in inputs) else 0.
     clockingRadians = (np.pi/180.)*clockingDegrees
     xShear = inputs["xShear"] if('xShear' in inputs) else 0.
-- 
2.43.0


From 63dd7993e3c050d2e6b5256a61c0b2f1f05b7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 033/103] fix: the Roman CGI pupil generators reject an unknown
 centering

---
 falco/mask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 513716d..1d7c5b9 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -190,6 +190,8 @@ def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
     elif centering.lower() == 'interpixel':
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) +
                            Nbeam*np.max([magFac, 1.0]))
+    else:
+        raise ValueError("centering must be 'pixel' or 'interpixel'")
 
     if centering.lower() == 'interpixel':
         xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
@@ -452,6 +454,9 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     else:
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) + magFac*Nbeam)
 
+    if centering.lower() not in ('pixel', 'odd', 'interpixel', 'even'):
+        raise ValueError("centering must be 'pixel' or 'interpixel'")
+
     if centering.lower() == 'interpixel':
         xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
     else:
-- 
2.43.0


From 02c73384a366e5f471242cc764357267746a8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 034/103] fix: setup_fpm_cosine rejects an unknown centering
 and uses centred interpixel coordinates

---
 falco/hlc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..342130e 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -242,6 +242,7 @@ def setup_fpm_cosine(mp):
     
     if mp.F3.full.res != mp.F3.compact.res:
         raise ValueError('Resolution at F3 must be same for cosine basis set.')
+    falco.check.centering(mp.centering)
     
     # Centering of DM surfaces on array
     mp.dm8.centering = mp.centering
@@ -318,7 +319,7 @@ def setup_fpm_cosine(mp):
     if mp.centering == 'pixel':
         x = np.arange(-beamRad, beamRad)
     elif mp.centering == 'interpixel':
-        x = np.arange((NbeamCompact-1)/2, (NbeamCompact+1)/2)
+        x = np.arange(-(NbeamCompact-1)/2, (NbeamCompact+1)/2)
     X, Y = np.meshgrid(x, x)
     RHO, THETA = cart2pol(X, Y)
     THETA2 = THETA+np.pi/3*2
-- 
2.43.0


From c3ee5fbd91e55b2d6b0904dfa372c174212a7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 035/103] fix: calc_thput rejects an unknown throughput metric

---
 falco/imaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..4c5d7ea 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -107,6 +107,9 @@ def calc_thput(mp):
               'separation = (%.1f, %.1f) lambda/D.' %
               (mp.thput_radius, 100*thput, mp.thput_eval_x, mp.thput_eval_y))
 
+    else:
+        raise ValueError('%s is not a valid value of mp.thput_metric' % mp.thput_metric)
+
     return thput, ImSimOffaxis
 
 
-- 
2.43.0


From 1e6d41762e715385da70bd4503260512c7deb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 036/103] fix: the DM surface error maps no longer crash on
 MATLAB-style arguments of pad_crop

---
 falco/model/jacobians.py | 10 +++++-----
 falco/model/models.py    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index cc91428..7bed600 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -152,11 +152,11 @@ def precomp(mp):
         # This block is for BMC surface error testing
         if mp.flagDMwfe:  # if(mp.flagDMwfe && (mp.P1.full.Nbeam==mp.P1.compact.Nbeam))
             if any(mp.dm_ind == 1):
-                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm1WFE = np.ones((NdmPad, NdmPad))
             if any(mp.dm_ind == 2):
-                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm2WFE = np.ones((NdmPad, NdmPad))
         else:
@@ -335,7 +335,7 @@ def lyot(mp, imode, idm, iact):
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
-            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -779,7 +779,7 @@ def vortex(mp, imode, idm, iact):
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -1103,7 +1103,7 @@ def no_fpm(mp, imode, idm, iact):
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..e5725cc 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -872,13 +872,13 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         if any(mp.dm_ind == 1):
             Edm1WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm1.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm2.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
-- 
2.43.0


From 6e3b8e71f98aace2a62c967bddf27ee3e52f186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 037/103] fix: a chromatic vortex charge is interpolated and
 used

---
 falco/model/jacobians.py |  2 +-
 falco/model/models.py    | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 7bed600..be468b9 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -72,7 +72,7 @@ def precomp(mp):
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
             elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
                 # single value indicates fully achromatic mask
                 charge = mp.F3.VortexCharge
diff --git a/falco/model/models.py b/falco/model/models.py
index e5725cc..235976f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -378,8 +378,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
             if mp.F3.VortexCharge.size == 1:
                 charge = mp.F3.VortexCharge
             else:
-                np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
-                          'linear', 'extrap')
+                charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                   mp.F3.VortexCharge)
 
         elif isinstance(mp.F3.VortexCharge, (int, float)):
             # single value indicates fully achromatic mask
@@ -558,8 +558,8 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                       mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
@@ -937,8 +937,8 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                       mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
-- 
2.43.0


From 8770373b7c40ef81f317f7e5f178b690e426c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 038/103] fix: the Fourier full model includes the DM surface
 error maps instead of crashing on them

---
 falco/model/models.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 235976f..fa326d2 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -257,9 +257,14 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         DM2stop = np.ones((NdmPad, NdmPad))
 
     if mp.flagDMwfe:
-        pass
-        # if(any(mp.dm_ind==1));  Edm1WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.wfe,NdmPad,'extrapval',0)); else; Edm1WFE = ones(NdmPad); end
-        # if(any(mp.dm_ind==2));  Edm2WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.wfe,NdmPad,'extrapval',0)); else; Edm2WFE = ones(NdmPad); end
+        if any(mp.dm_ind == 1):
+            Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.wfe, NdmPad, extrapval=0))
+        else:
+            Edm1WFE = np.ones((NdmPad, NdmPad))
+        if any(mp.dm_ind == 2):
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.wfe, NdmPad, extrapval=0))
+        else:
+            Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
         Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
-- 
2.43.0


From 3b81b76b3551fcb6f21fa403ae4de9ccef8d8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 039/103] fix: full and compact models reject an unknown
 layout, the Jacobian an unknown coronagraph

---
 falco/model/models.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/falco/model/models.py b/falco/model/models.py
index fa326d2..1e8ec50 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -185,6 +185,9 @@ def full(mp, modvar, isNorm=True):
         if not normFac == 0:
             Eout = Eout/np.sqrt(normFac)
 
+    else:
+        raise ValueError('%s is not a valid value of mp.layout' % mp.layout)
+
     return Eout
 
 
@@ -769,6 +772,10 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
             Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
                                    useFPM=useFPM,
                                    forRevGradModel=forRevGradModel)
+
+    else:
+        raise ValueError('%s is not a valid value of mp.layout' % mp.layout)
+
     return Eout
 
 
@@ -1001,6 +1008,9 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
             # Babinet's principle at P4
             EP4 = EP4noFPM - EP4subtrahend
 
+        else:
+            raise ValueError('%s not recognized as value for mp.coro' % mp.coro)
+
     else:  # No FPM
 
         EP4 = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
@@ -1275,6 +1285,9 @@ def write_jac_slices(fn_mp, combo_list):
         elif mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
             jac_slice = jacobians.vortex(mp, imode, idm, iact)
 
+        else:
+            raise ValueError('%s not recognized as value for mp.coro' % mp.coro)
+
         fn_out = os.path.join(mp.path.jac, 'jac_mode%d_dm%d_act%d.npy' % (imode, idm, iact))
         np.save(fn_out, jac_slice)
 
@@ -1340,6 +1353,10 @@ def _jac_middle_layer(mp, imode, idm, iact):
             # for index, iact in enumerate(act_ele):
             #     jacMode[:, index] = jacobians.vortex(mp, imode, idm, iact)
 
+        else:
+            raise ValueError('%s not recognized as value for mp.coro' %
+                             mp.coro)
+
     elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
         if mp.coro.upper() in ('HLC', 'SPC', 'SPLC'):
             jacModeAct = jacobians.lyot(mp, imode, idm, iact)
-- 
2.43.0


From 406971cb8be8235288f5f4637693a2e2b734e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 040/103] fix: jacobians.lyot rejects a coronagraph type that
 it cannot model

---
 falco/model/jacobians.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index be468b9..71ecae8 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -273,6 +273,8 @@ def lyot(mp, imode, idm, iact):
         # Complex transmission of the points outside the FPM (just fused silica
         # with optional dielectric and no metal).
         transOuterFPM = fpm[0, 0]
+    else:
+        raise ValueError('%s not recognized as value for mp.coro' % mp.coro)
 
     # """Input E-fields"""
     # # Include the star position and weight in the starting wavefront
-- 
2.43.0


From 343f085ea27422dad57b5c062353afcad33249b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 041/103] fix: the Jacobian functions reject a mirror that they
 do not model

---
 falco/model/jacobians.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 71ecae8..b27dfe0 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -558,6 +558,9 @@ def lyot(mp, imode, idm, iact):
 
         Gchunk *= mp.dm2.weight
 
+    if idm not in (1, 2):
+        raise ValueError('idm must be 1 or 2')
+
     # """ ---------- DM9 (HLC only) ---------- """
     # if idm == 9:
     #     Gmode = np.zeros((mp.Fend.corr.Npix, mp.dm9.Nele), dtype=complex)
@@ -982,6 +985,9 @@ def vortex(mp, imode, idm, iact):
 
         Gchunk *= mp.dm2.weight
 
+    if idm not in (1, 2):
+        raise ValueError('idm must be 1 or 2')
+
     return Gchunk
 
 
@@ -1249,4 +1255,7 @@ def no_fpm(mp, imode, idm, iact):
 
         JacOfPeak = dEFendPeak / np.sqrt(mp.Fend.compact.I00[modvar.sbpIndex])
 
+    if idm not in (1, 2):
+        raise ValueError('idm must be 1 or 2')
+
     return JacOfPeak
-- 
2.43.0


From 8687c0af6b925c4e71e9b68fe7f1552d9693659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 042/103] fix: Jacobian tasks keep the padded box locations to
 themselves instead of writing them to the shared model

---
 falco/model/jacobians.py | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index b27dfe0..f9b618c 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -185,11 +185,6 @@ def precomp(mp):
             Edm1 = EP2
         Edm1 *= Edm1WFE*DM1stop*np.exp(surfIntoPhase*2*np.pi*1j*DM1surf/wvl)
 
-        # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
-        if 2 in mp.dm_ind:
-            NboxPad2AS = int(mp.dm2.compact.NboxAS)
-            mp.dm2.compact.xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
-
         # apodReimaged = pad_crop(apodReimaged, mp.dm2.compact.NdmPad)
         DM2stopPad = pad_crop(DM2stop, mp.dm2.compact.NdmPad)
         Edm2WFEpad = pad_crop(Edm2WFE, mp.dm2.compact.NdmPad)
@@ -374,7 +369,7 @@ def lyot(mp, imode, idm, iact):
         # and angular spectrum
         NboxPad1AS = int(mp.dm1.compact.NboxAS)  # array size for FFT-AS propagations from DM1->DM2->DM1
         # Adjust the sub-array location of the influence function for the added zero padding
-        mp.dm1.compact.xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft -\
+        xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft -\
             (mp.dm1.compact.NboxAS-mp.dm1.compact.Nbox)/2.
 
         if any(mp.dm_ind == 2):
@@ -395,8 +390,8 @@ def lyot(mp, imode, idm, iact):
         # for iact in mp.dm1.act_ele:
 
         # x- and y- coordinate indices of the padded influence function in the full padded pupil
-        x_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[0, iact], mp.dm1.compact.xy_box_lowerLeft_AS[0, iact] + NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
-        y_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[1, iact], mp.dm1.compact.xy_box_lowerLeft_AS[1, iact] + NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
+        x_box_AS_ind = np.arange(xy_box_lowerLeft_AS[0, iact], xy_box_lowerLeft_AS[0, iact] + NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
+        y_box_AS_ind = np.arange(xy_box_lowerLeft_AS[1, iact], xy_box_lowerLeft_AS[1, iact] + NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
         # x- and y- coordinates of the UN-padded influence function in the full padded pupil
         x_box = mp.dm1.compact.x_pupPad[x_box_AS_ind]  # full pupil x-coordinates of the box 
@@ -472,7 +467,7 @@ def lyot(mp, imode, idm, iact):
 
         # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
         NboxPad2AS = int(mp.dm2.compact.NboxAS)
-        mp.dm2.compact.xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
+        xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
 
         apodReimaged = pad_crop(apodReimaged, mp.dm2.compact.NdmPad)
         # DM2stopPad = pad_crop(DM2stop, mp.dm2.compact.NdmPad)
@@ -488,8 +483,8 @@ def lyot(mp, imode, idm, iact):
         # for iact in mp.dm2.act_ele:
 
         # x- and y- coordinates of the padded influence function in the full padded pupil
-        x_box_AS_ind = np.arange(mp.dm2.compact.xy_box_lowerLeft_AS[0, iact], mp.dm2.compact.xy_box_lowerLeft_AS[0, iact]+NboxPad2AS, dtype=int) # x-indices in pupil arrays for the box
-        y_box_AS_ind = np.arange(mp.dm2.compact.xy_box_lowerLeft_AS[1, iact], mp.dm2.compact.xy_box_lowerLeft_AS[1, iact]+NboxPad2AS, dtype=int) # y-indices in pupil arrays for the box
+        x_box_AS_ind = np.arange(xy_box_lowerLeft_AS[0, iact], xy_box_lowerLeft_AS[0, iact]+NboxPad2AS, dtype=int) # x-indices in pupil arrays for the box
+        y_box_AS_ind = np.arange(xy_box_lowerLeft_AS[1, iact], xy_box_lowerLeft_AS[1, iact]+NboxPad2AS, dtype=int) # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
         # x- and y- coordinates of the UN-padded influence function in the full padded pupil
         x_box = mp.dm2.compact.x_pupPad[x_box_AS_ind]  # full pupil x-coordinates of the box 
@@ -827,7 +822,7 @@ def vortex(mp, imode, idm, iact):
 
         # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
         NboxPad1AS = int(mp.dm1.compact.NboxAS)  # array size for FFT-AS propagations from DM1->DM2->DM1
-        mp.dm1.compact.xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft - (mp.dm1.compact.NboxAS-mp.dm1.compact.Nbox)/2.  # Adjust the sub-array location of the influence function for the added zero padding
+        xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft - (mp.dm1.compact.NboxAS-mp.dm1.compact.Nbox)/2.  # Adjust the sub-array location of the influence function for the added zero padding
 
         if any(mp.dm_ind == 2):
             DM2surf = pad_crop(DM2surf, mp.dm1.compact.NdmPad)
@@ -847,8 +842,8 @@ def vortex(mp, imode, idm, iact):
         # for iact in mp.dm1.act_ele:
 
         # x- and y- coordinate indices of the padded influence function in the full padded pupil
-        x_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[0, iact], mp.dm1.compact.xy_box_lowerLeft_AS[0, iact]+NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
-        y_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[1, iact], mp.dm1.compact.xy_box_lowerLeft_AS[1 ,iact]+NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
+        x_box_AS_ind = np.arange(xy_box_lowerLeft_AS[0, iact], xy_box_lowerLeft_AS[0, iact]+NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
+        y_box_AS_ind = np.arange(xy_box_lowerLeft_AS[1, iact], xy_box_lowerLeft_AS[1 ,iact]+NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
         # # x- and y- coordinates of the UN-padded influence function in the full padded pupil
         # x_box = mp.dm1.compact.x_pupPad[x_box_AS_ind]  # full pupil x-coordinates of the box 
@@ -919,7 +914,7 @@ def vortex(mp, imode, idm, iact):
 
         # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
         NboxPad2AS = int(mp.dm2.compact.NboxAS)
-        mp.dm2.compact.xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
+        xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
 
         apodReimaged = pad_crop(apodReimaged, mp.dm2.compact.NdmPad)
         # DM2stopPad = pad_crop(DM2stop, mp.dm2.compact.NdmPad)
@@ -935,8 +930,8 @@ def vortex(mp, imode, idm, iact):
         # for iact in mp.dm2.act_ele:
 
         # x- and y- coordinates of the padded influence function in the full padded pupil
-        x_box_AS_ind = np.arange(mp.dm2.compact.xy_box_lowerLeft_AS[0, iact], mp.dm2.compact.xy_box_lowerLeft_AS[0, iact]+NboxPad2AS, dtype=int)  # x-indices in pupil arrays for the box
-        y_box_AS_ind = np.arange(mp.dm2.compact.xy_box_lowerLeft_AS[1, iact], mp.dm2.compact.xy_box_lowerLeft_AS[1, iact]+NboxPad2AS, dtype=int)  # y-indices in pupil arrays for the box
+        x_box_AS_ind = np.arange(xy_box_lowerLeft_AS[0, iact], xy_box_lowerLeft_AS[0, iact]+NboxPad2AS, dtype=int)  # x-indices in pupil arrays for the box
+        y_box_AS_ind = np.arange(xy_box_lowerLeft_AS[1, iact], xy_box_lowerLeft_AS[1, iact]+NboxPad2AS, dtype=int)  # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
         # # x- and y- coordinates of the UN-padded influence function in the full padded pupil
         # x_box = mp.dm2.compact.x_pupPad[x_box_AS_ind] # full pupil x-coordinates of the box
@@ -1148,7 +1143,7 @@ def no_fpm(mp, imode, idm, iact):
 
         # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
         NboxPad1AS = int(mp.dm1.compact.NboxAS)  # array size for FFT-AS propagations from DM1->DM2->DM1
-        mp.dm1.compact.xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft - (mp.dm1.compact.NboxAS-mp.dm1.compact.Nbox)/2.  # Adjust the sub-array location of the influence function for the added zero padding
+        xy_box_lowerLeft_AS = mp.dm1.compact.xy_box_lowerLeft - (mp.dm1.compact.NboxAS-mp.dm1.compact.Nbox)/2.  # Adjust the sub-array location of the influence function for the added zero padding
 
         if any(mp.dm_ind == 2):
             DM2surf = pad_crop(DM2surf, mp.dm1.compact.NdmPad)
@@ -1171,8 +1166,8 @@ def no_fpm(mp, imode, idm, iact):
         # for iact in mp.dm1.act_ele:
 
         # x- and y- coordinate indices of the padded influence function in the full padded pupil
-        x_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[0, iact], mp.dm1.compact.xy_box_lowerLeft_AS[0, iact]+NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
-        y_box_AS_ind = np.arange(mp.dm1.compact.xy_box_lowerLeft_AS[1, iact], mp.dm1.compact.xy_box_lowerLeft_AS[1 ,iact]+NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
+        x_box_AS_ind = np.arange(xy_box_lowerLeft_AS[0, iact], xy_box_lowerLeft_AS[0, iact]+NboxPad1AS, dtype=int)  # x-indices in pupil arrays for the box
+        y_box_AS_ind = np.arange(xy_box_lowerLeft_AS[1, iact], xy_box_lowerLeft_AS[1 ,iact]+NboxPad1AS, dtype=int)  # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
 
         # Propagate from DM1 to DM2, and then back to P2
@@ -1205,7 +1200,7 @@ def no_fpm(mp, imode, idm, iact):
 
         # Two array sizes (at same resolution) of influence functions for MFT and angular spectrum
         NboxPad2AS = int(mp.dm2.compact.NboxAS)
-        mp.dm2.compact.xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
+        xy_box_lowerLeft_AS = mp.dm2.compact.xy_box_lowerLeft - (NboxPad2AS-mp.dm2.compact.Nbox)/2  # Account for the padding of the influence function boxes
 
         apodReimaged = pad_crop(apodReimaged, mp.dm2.compact.NdmPad)
         # DM2stopPad = pad_crop(DM2stop, mp.dm2.compact.NdmPad)
@@ -1225,12 +1220,12 @@ def no_fpm(mp, imode, idm, iact):
         # x- and y- coordinates of the padded influence function
         # in the full padded pupil
         x_box_AS_ind = np.arange(
-            mp.dm2.compact.xy_box_lowerLeft_AS[0, iact],
-            mp.dm2.compact.xy_box_lowerLeft_AS[0, iact]+NboxPad2AS,
+            xy_box_lowerLeft_AS[0, iact],
+            xy_box_lowerLeft_AS[0, iact]+NboxPad2AS,
             dtype=int)  # x-indices in pupil arrays for the box
         y_box_AS_ind = np.arange(
-            mp.dm2.compact.xy_box_lowerLeft_AS[1, iact],
-            mp.dm2.compact.xy_box_lowerLeft_AS[1, iact]+NboxPad2AS,
+            xy_box_lowerLeft_AS[1, iact],
+            xy_box_lowerLeft_AS[1, iact]+NboxPad2AS,
             dtype=int)  # y-indices in pupil arrays for the box
         indBoxAS = np.ix_(y_box_AS_ind, x_box_AS_ind)
 
-- 
2.43.0


From bb71a1077267deda597d2305b0fc3983812a3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 043/103] fix: vortex Jacobian of DM1 uses the Lyot plane
 sampling, as for DM2

---
 falco/model/jacobians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index f9b618c..f401280 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -886,7 +886,7 @@ def vortex(mp, imode, idm, iact):
 
         # MFT to camera
         EP4 = fp.relay(EP4, NrelayFactor*mp.NrelayFend, mp.centering)  # Rotate the final image 180 degrees if necessary
-        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P2.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
+        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P4.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
 
         Gchunk = EFend[mp.Fend.corr.maskBool]/np.sqrt(mp.Fend.compact.I00[modvar.sbpIndex])
 
-- 
2.43.0


From f54c7f439b23193a08d01a8c601b3ed05270f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 044/103] fix: the peak Jacobian rotates pupils about the
 chosen centering

---
 falco/model/jacobians.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index f401280..16abbf3 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -1036,7 +1036,7 @@ def no_fpm(mp, imode, idm, iact):
     # Ein = np.sqrt(starWeight) * Ett * \
     #     np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])
 
-    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2)
+    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2, mp.centering)
 
     # # Apply a Zernike (in amplitude) at input pupil
     # # Used only for Zernike sensitivity control.
@@ -1059,12 +1059,12 @@ def no_fpm(mp, imode, idm, iact):
         else:
             lyotStopReimaged = falco.prop.relay(
                 pad_crop(mp.P4.compact.maskAtP1res, NdmPad),
-                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     else:
         lyotStopReimaged = falco.prop.relay(
             pad_crop(mp.P4.compact.mask, NdmPad),
-            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     # pupil = pad_crop(mp.P1.compact.mask, NdmPad)
     # Ein = pad_crop(Ein, NdmPad)
-- 
2.43.0


From 5df028d7df2ae208d36f5823c00f32d72307f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 045/103] fix: the peak Jacobian of an HLC includes the
 transmission outside the mask

---
 falco/model/jacobians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 16abbf3..fcc6d70 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -1113,7 +1113,11 @@ def no_fpm(mp, imode, idm, iact):
         # Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
 
-    transOuterFPM = 1
+    # Transmission of points outside the FPM
+    if mp.coro.upper() == 'HLC':
+        transOuterFPM = mp.compact.fpmCube[0, 0, modvar.sbpIndex]
+    else:
+        transOuterFPM = 1
 
     """Propagation"""
     # # Get the unocculted peak E-field and coronagraphic E-field
-- 
2.43.0


From cec8c2d7b06aa9f2cf1bd83d93aeb5d20330c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 046/103] fix: Jacobian and full model apply a Zernike mode as
 a phase, as the compact model does

---
 falco/model/jacobians.py | 2 +-
 falco/model/models.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index fcc6d70..ee8fa8f 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -114,7 +114,7 @@ def precomp(mp):
             zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(
                 mp.P1.compact.Nbeam, mp.centering, indsZnoll))
             zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
-            Ein *= zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[
+            Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[
                 mp.jac.zerns == modvar.zernIndex]
 
         """ Masks and DM surfaces """
diff --git a/falco/model/models.py b/falco/model/models.py
index 1e8ec50..c60899c 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -99,8 +99,8 @@ def full(mp, modvar, isNorm=True):
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.full.Narr)
-        Ein = Ein*zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
-                                                     modvar.zernIndex]
+        Ein = Ein*zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
+                                                        modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
     if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-- 
2.43.0


From 69dc594c2d9ba3e4f31b2806319b44935631bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 047/103] fix: the Lyot Jacobian scales the focal plane mask
 exactly when the compact model does

---
 falco/model/jacobians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index ee8fa8f..7d92cd3 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -246,7 +246,8 @@ def lyot(mp, imode, idm, iact):
     surfIntoPhase = 2.  # Phase change is twice the DM surface height.
 
     # Default is that FPM sampling does not vary with wavelength
-    if mp.layout.lower() == 'fpm_scale':
+    if mp.coro.upper() == 'HLC' and mp.layout.lower() in (
+            'roman_phasec_proper', 'wfirst_phaseb_proper', 'proper', 'fpm_scale'):
         scaleFac = wvl/mp.lambda0
     else:
         scaleFac = 1
-- 
2.43.0


From 876b65d9c08b36ef04376dbf384e92a7141dcd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 048/103] fix: LC full model scales the focal plane sampling,
 not the Lyot plane sampling, with wavelength

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index c60899c..9c9ec58 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -317,8 +317,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
                                            fpmScaleFac*mp.F3.full.dxi,
-                                           mp.F3.full.deta,
-                                           fpmScaleFac*mp.P4.full.dx,
+                                           fpmScaleFac*mp.F3.full.deta,
+                                           mp.P4.full.dx,
                                            mp.P4.full.Narr, mp.centering)
         # Babinet's principle at P4
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
-- 
2.43.0


From 626c15da6445f5d9adaa1df713a5fe8abf768ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 049/103] fix: gen_pairwise_probe_square rejects an unknown
 badAxis

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 951c9d5..150543a 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -792,7 +792,7 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
         omegaY = radius/2
         probeSurf = magn*np.sinc(mX*XS)*np.sinc(mY*YS)*np.cos(2*np.pi*omegaY*YS + psi)
 
-    elif badAxis.lower() in ('m'):  # alternate between x and y
+    elif badAxis.lower() in ('m',):  # alternate between x and y
         omegaX = mp.est.probe.Xloc/2
         omegaY = mp.est.probe.Yloc/2
         probeSurf = np.zeros_like(XS)
@@ -800,6 +800,9 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
             probeSurf = probeSurf + \
                 magn*np.sin(2*np.pi*omegaX[i]*XS + 2*np.pi*omegaY[i]*YS + psi)
 
+    else:
+        raise ValueError("badAxis must be 'x', 'y', or 'm'")
+
     # Option to use just the sincs for a zero phase shift. This avoids the
     # phase discontinuity along one axis (for this probe only!).
     if psi == 0:
-- 
2.43.0


From 20549f54bab58d7720ae9e9d82d1e0cb12f9cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 050/103] fix: plot.pairwise_probes rejects an unknown probing
 mirror

---
 falco/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/plot.py b/falco/plot.py
index 85512e7..3aed814 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -296,6 +296,8 @@ def pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband):
             VtoH = mp.dm1.VtoH
         elif mp.est.probe.whichDM == 2:
             VtoH = mp.dm2.VtoH
+        else:
+            raise ValueError('mp.est.probe.whichDM must be 1 or 2')
 
         Npairs = mp.est.probe.Npairs
         Ncols = 4
-- 
2.43.0


From 1f8a852b597080f11eca34aa7043f1b28e8c5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 051/103] fix: AD-EFC gradient of the DM usage penalty is that
 of the penalty

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 9c9ec58..07e2d01 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -640,7 +640,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0


From 2a4cb65ab29435eb7f508adcccc0db7de4a13f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 052/103] fix: the models pass the HLC mask along instead of
 writing it to the shared model parameters

---
 falco/model/models.py | 107 +++++++++++++++++++++++++++---------------
 1 file changed, 70 insertions(+), 37 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 07e2d01..44a69ca 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -114,22 +114,23 @@ def full(mp, modvar, isNorm=True):
     elif mp.Nwpsbp == 1:
         ilam = modvar.sbpIndex
 
+    fpm = None  # Use mp.F3.full.mask
     if mp.coro.upper() == 'HLC':
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
-                mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
+                fpm = mp.full.fpmCube[:, :, ilam]
             else:
-                mp.F3.full.mask = falco.hlc.gen_fpm_from_LUT(
+                fpm = falco.hlc.gen_fpm_from_LUT(
                     mp, modvar.sbpIndex, modvar.wpsbpIndex, 'full')
         elif mp.layout.lower() == 'fpm_scale':
-            mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
+            fpm = mp.full.fpmCube[:, :, ilam]
 
     # %% Select which optical layout's full model to use.
     if mp.layout.lower() == 'fourier':
-        Eout = full_Fourier(mp, wvl, Ein, normFac)
+        Eout = full_Fourier(mp, wvl, Ein, normFac, fpm=fpm)
 
     elif mp.layout.lower() == 'fpm_scale':  # FPM scales with wavelength
-        Eout = full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=True)
+        Eout = full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=True, fpm=fpm)
 
     elif mp.layout.lower() == 'proper':
 
@@ -191,7 +192,7 @@ def full(mp, modvar, isNorm=True):
     return Eout
 
 
-def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
+def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False, fpm=None):
     """
     Truth model with a simple layout used to generate images in simulation.
 
@@ -213,6 +214,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         image.
     flagScaleFPM : bool, optional
         Whether to scale the diameter of the FPM inversely with wavelength.
+    fpm : array_like, optional
+        Focal plane mask to use. The default is mp.F3.full.mask.
 
     Returns
     -------
@@ -221,6 +224,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
 
     """
     check.is_bool(flagScaleFPM, 'flagScaleFPM')
+    if fpm is None and mp.coro.upper() in ('LC', 'APLC', 'HLC', 'SPLC', 'FLC'):
+        fpm = mp.F3.full.mask
 
     mirrorFac = 2  # Phase change is twice the DM surface height in reflection
     NdmPad = int(mp.full.NdmPad)
@@ -312,7 +317,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
                                     fpmScaleFac*mp.F3.full.deta,
                                     mp.F3.full.Neta, mp.centering)
         # Apply (1-FPM) for Babinet's principle later
-        EF3 = (1.-mp.F3.full.mask)*EF3inc
+        EF3 = (1.-fpm)*EF3inc
 
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
@@ -330,7 +335,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         # with optional dielectric and no metal).
 
         if hasattr(mp.full, 'fpmCube'):
-            transOuterFPM = mp.F3.full.mask[0, 0]
+            transOuterFPM = fpm[0, 0]
         else:
             t_Ti_base = 0
             t_Ni_vec = [0]
@@ -347,7 +352,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
             fpmScaleFac*mp.F3.full.deta,
             mp.F3.full.Neta, mp.centering)
         # Apply (transOuterFPM-FPM) for Babinet's principle later
-        EF3 = (transOuterFPM - mp.F3.full.mask) * EF3inc
+        EF3 = (transOuterFPM - fpm) * EF3inc
         # Use Babinet's principle at the Lyot plane.
         # Propagate forward another pupil plane
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
@@ -369,7 +374,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
                                     fpmScaleFac*mp.F3.full.dxi, mp.F3.full.Nxi,
                                     fpmScaleFac*mp.F3.full.deta,
                                     mp.F3.full.Neta, mp.centering)
-        EF3 = mp.F3.full.mask * EF3inc
+        EF3 = fpm * EF3inc
 
         # MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4 = falco.prop.mft_f2p(EF3, mp.fl, wvl, fpmScaleFac*mp.F3.full.dxi,
@@ -467,12 +472,6 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     isEvalMode = False
     useFPM = True
 
-    # Complex trans of points outside FPM
-    if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
-    else:
-        transOuterFPM = 1.
-
     if mp.flagRotation:
         NrelayFactor = 1
     else:
@@ -519,6 +518,14 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         Eest2D[mp.Fend.corr.maskBool] = EestVec
         # normFacAD = np.sum(np.abs(EestVec)**2)
 
+        # FPM and the complex transmission of points outside of it
+        if mp.coro.upper() == 'HLC':
+            fpm = _get_compact_hlc_fpm(mp, modvar.sbpIndex)
+            transOuterFPM = fpm[0, 0]
+        elif mp.coro.upper() in ('LC', 'APLC', 'SPLC', 'FLC'):
+            fpm = mp.F3.compact.mask
+            transOuterFPM = 1.
+
         # Get model-based E-field before deltas. Should be pre-computed for speed.
         EFendA = EFend_list[imode]
         Edm1post = Edm1post_list[imode]
@@ -581,7 +588,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
             EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
+            EF3_grad = np.conj(fpm) * EF3_grad
             EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
@@ -591,7 +598,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
             auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
+            EF3_grad = np.conj(transOuterFPM - fpm) * auxEP4subtr_grad
             EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
@@ -645,6 +652,37 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     return total_cost, gradient
 
 
+def _get_compact_hlc_fpm(mp, sbpIndex):
+    """
+    Get the complex-valued FPM of an HLC in the compact model.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    sbpIndex : int
+        Index of the subband
+
+    Returns
+    -------
+    fpm : array_like
+        2-D complex transmission of the focal plane mask
+
+    """
+    if mp.layout.lower() == 'fourier':
+        if hasattr(mp.compact, 'fpmCube'):
+            fpm = mp.compact.fpmCube[:, :, sbpIndex]
+        else:
+            fpm = falco.hlc.gen_fpm_from_LUT(mp, sbpIndex, -1, 'compact')
+    elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
+                               'fpm_scale', 'proper'):
+        fpm = mp.compact.fpmCube[:, :, sbpIndex]
+    else:
+        raise ValueError('Incompatible values of mp.layout and mp.coro.')
+
+    return fpm
+
+
 def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
             forRevGradModel=False):
     """
@@ -743,35 +781,25 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
                                                      modvar.zernIndex]
 
     # Define what the complex-valued FPM is if the coro is some type of HLC.
+    fpm = None  # Use mp.F3.compact.mask
     if mp.coro.upper() in ('HLC',):
-        if mp.layout.lower() == 'fourier':
-            if hasattr(mp.compact, 'fpmCube'):
-                mp.F3.compact.mask = mp.compact.fpmCube[:, :, modvar.sbpIndex]
-            else:
-                mp.F3.compact.mask = falco.hlc.gen_fpm_from_LUT(
-                    mp, modvar.sbpIndex, -1, 'compact')
-        elif mp.layout.lower() in ('roman_phasec_proper',
-                                   'wfirst_phaseb_proper',
-                                   'fpm_scale', 'proper'):
-            mp.F3.compact.mask = mp.compact.fpmCube[:, :, modvar.sbpIndex]
-        else:
-            raise ValueError('Incompatible values of mp.layout and mp.coro.')
+        fpm = _get_compact_hlc_fpm(mp, modvar.sbpIndex)
 
     # Select which optical layout's compact model to use and get E-field
     if mp.layout.lower() == 'fourier':
         Eout = compact_general(mp, wvl, Ein, normFac, flagEval, useFPM=useFPM,
-                               forRevGradModel=forRevGradModel)
+                               forRevGradModel=forRevGradModel, fpm=fpm)
 
     elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
                                'proper', 'fpm_scale'):
         if mp.coro.upper() == 'HLC':
             Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
                                    flagScaleFPM=True, useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
+                                   forRevGradModel=forRevGradModel, fpm=fpm)
         else:
             Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
                                    useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
+                                   forRevGradModel=forRevGradModel, fpm=fpm)
 
     else:
         raise ValueError('%s is not a valid value of mp.layout' % mp.layout)
@@ -780,7 +808,8 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
 
 def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
-                    useFPM=True, forRevGradModel=False):
+                    useFPM=True, forRevGradModel=False,
+                    fpm=None):
     """
     Compact model with a general-purpose optical layout.
 
@@ -809,6 +838,8 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
     forRevGradModel : bool
         Whether different outputs should be given for a controller that uses
         algorithmic differentiation.
+    fpm : array_like, optional
+        Focal plane mask to use. The default is mp.F3.compact.mask.
 
     Returns
     -------
@@ -820,13 +851,15 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         raise TypeError('Input "mp" must be of type ModelParameters')
     check.is_bool(flagEval, 'flagEval')
     check.is_bool(flagScaleFPM, 'flagScaleFPM')
+    if fpm is None and mp.coro.upper() in ('LC', 'APLC', 'HLC', 'SPLC', 'FLC'):
+        fpm = mp.F3.compact.mask
 
     mirrorFac = 2.  # Phase change is twice the DM surface height.
     NdmPad = int(mp.compact.NdmPad)
 
     # Complex trans of points outside FPM
     if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
+        transOuterFPM = fpm[0, 0]
     else:
         transOuterFPM = 1.
 
@@ -973,7 +1006,7 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                 mp.F3.compact.Neta, mp.centering)
 
             # Apply FPM
-            EF3 = mp.F3.compact.mask * EF3inc
+            EF3 = fpm * EF3inc
 
             # MFT from FPM to Lyot Plane (i.e., F3 to P4)
             EP4 = falco.prop.mft_f2p(EF3, mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi,
@@ -990,7 +1023,7 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                                         fpmScaleFac*mp.F3.compact.deta,
                                         mp.F3.compact.Neta, mp.centering)
 
-            EF3 = (transOuterFPM - mp.F3.compact.mask)*EF3inc
+            EF3 = (transOuterFPM - fpm)*EF3inc
 
             # Use Babinet's principle at the Lyot plane.
             EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
-- 
2.43.0


From b8f5664f95d5a960b3cbdf0f92e2a1b7d4484ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 053/103] fix: the compact model no longer adds zernIndex to
 the modvar of its caller

---
 falco/model/models.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 44a69ca..0f22206 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -766,19 +766,18 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
         # Ein = Ett*mp.P1.compact.E[:, :, modvar.sbpIndex]
 
     # Apply a Zernike (in amplitude) at input pupil if specified
-    if not hasattr(modvar, 'zernIndex'):
-        modvar.zernIndex = 1
+    zernIndex = getattr(modvar, 'zernIndex', 1)
 
     # Only used for Zernike sensitivity control, which requires the perfect
     # E-field of the differential Zernike term.
-    if not (modvar.zernIndex == 1):
-        indsZnoll = modvar.zernIndex  # Just send in 1 Zernike mode
+    if not (zernIndex == 1):
+        indsZnoll = zernIndex  # Just send in 1 Zernike mode
         zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(mp.P1.compact.Nbeam,
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
         Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
-                                                     modvar.zernIndex]
+                                                     zernIndex]
 
     # Define what the complex-valued FPM is if the coro is some type of HLC.
     fpm = None  # Use mp.F3.compact.mask
-- 
2.43.0


From 56437aa7a6b0f3539b04048517fe01a913e3f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 054/103] fix: the AD-EFC gradient includes the stop and the
 surface error of DM2

---
 falco/model/models.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 0f22206..5937d5c 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -477,6 +477,12 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     else:
         NrelayFactor = 0  # zero out the number of relays
 
+    # Aperture stop at DM2
+    if mp.flagDM2stop:
+        DM2stop = pad_crop(mp.dm2.compact.mask, NdmPad)
+    else:
+        DM2stop = 1.
+
     surf_dm1_bar_total = 0
     surf_dm2_bar_total = 0
 
@@ -510,6 +516,13 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         wvl = mp.sbp_centers[modvar.sbpIndex]
         kk = mirrorFac*2*np.pi/wvl
         I00 = mp.Fend.compact.I00[modvar.sbpIndex]
+
+        # Surface error of DM2
+        if mp.flagDMwfe and any(mp.dm_ind == 2):
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
+        else:
+            Edm2WFE = 1.
+
         # normFac = mp.Fend.compact.I00[modvar.sbpIndex]
         # print(f'normFacAD = {normFacAD}')
         # normFacFull = np.mean(mp.Fend.full.I00[modvar.sbpIndex, :])
@@ -617,11 +630,11 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         else:
             Edm2_grad = falco.prop.ptp(EP2eff_grad, mp.P2.compact.dx*EP2eff_grad.shape[0], wvl, d_p2_to_dm2)
 
-        Edm2_grad = np.conj(np.exp(1j*kk*DM2surf)) * Edm2_grad
+        Edm2_grad = np.conj(Edm2WFE * np.exp(1j*kk*DM2surf)) * Edm2_grad
         surf_dm2_bar = -kk*np.imag(Edm2_grad * np.conj(Edm2pre))
 
         # To DM1
-        Edm1_grad = falco.prop.ptp(Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
+        Edm1_grad = falco.prop.ptp(np.conj(DM2stop) * Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
         surf_dm1_bar = -kk*np.imag(Edm1_grad * np.conj(Edm1post))
 
         surf_dm2_bar_total += surf_dm2_bar
-- 
2.43.0


From 4e161751848f35cc27b59cb2d1715a7f333304df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 055/103] fix: the AD-EFC gradient scales the focal plane mask
 when the compact model does

---
 falco/model/models.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 5937d5c..ef43775 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -531,6 +531,16 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         Eest2D[mp.Fend.corr.maskBool] = EestVec
         # normFacAD = np.sum(np.abs(EestVec)**2)
 
+        # FPM sampling varies with wavelength when it does in the compact model
+        if mp.coro.upper() == 'HLC' and mp.layout.lower() in (
+                'roman_phasec_proper', 'wfirst_phaseb_proper', 'proper', 'fpm_scale'):
+            fpmScaleFac = wvl/mp.lambda0
+        else:
+            fpmScaleFac = 1.
+        if mp.coro.upper() in ('LC', 'APLC', 'HLC', 'SPLC', 'FLC'):
+            dxiF3 = fpmScaleFac*mp.F3.compact.dxi
+            detaF3 = fpmScaleFac*mp.F3.compact.deta
+
         # FPM and the complex transmission of points outside of it
         if mp.coro.upper() == 'HLC':
             fpm = _get_compact_hlc_fpm(mp, modvar.sbpIndex)
@@ -600,9 +610,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(fpm) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
@@ -610,9 +620,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - fpm) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
-- 
2.43.0


From b7b497f24c0f39ff8218801db45fd092d11e0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 056/103] fix: the AD-EFC gradient uses the sampling of each
 pupil for that pupil

---
 falco/model/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index ef43775..5ec302f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -610,9 +610,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(fpm) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
@@ -620,9 +620,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - fpm) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
-- 
2.43.0


From a973f0fe0ab1619165e2063304916bee10308695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 057/103] fix: the vertical offset of the scoring region is no
 longer taken from the horizontal offset

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index f9e8267..9a1ad0f 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1122,7 +1122,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From 20ea14df5dc643b4e01f6ca4c23b485694d0d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 058/103] fix: the padding of the compact model depends only on
 the compact sampling

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index 9a1ad0f..e9eae5a 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1326,7 +1326,7 @@ def falco_set_dm_surface_padding(mp):
     else:
         NdmPad = 2*mp.P1.compact.Nbeam;
 
-    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
+    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.compact.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
         # Double the zero-padding until the angular spectrum sampling requirement is not violated
         NdmPad = 2*NdmPad;
     mp.compact.NdmPad = NdmPad;
-- 
2.43.0


From 54f990306c39fa59fadd067332da460319298799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 059/103] fix: falco_gen_dm_stops prepares DM1 as it does DM2

---
 falco/setup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/setup.py b/falco/setup.py
index e9eae5a..bf6d04c 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1296,6 +1296,10 @@ def falco_configure_dm1_and_dm2(mp):
 
 def falco_gen_dm_stops(mp):
     """Generate circular aperture stops for the DMs."""
+    if not hasattr(mp.dm1, 'full'):
+        mp.dm1.full = falco.config.Object()
+    if not hasattr(mp.dm1, 'compact'):
+        mp.dm1.compact = falco.config.Object()
     if not hasattr(mp.dm2, 'full'):
         mp.dm2.full = falco.config.Object()
     if not hasattr(mp.dm2, 'compact'):
-- 
2.43.0


From 21bd247eac14a1db3f87c874648631380ceeeb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 060/103] fix: set_optional_variables no longer refers to a
 missing class

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index bf6d04c..9dcd8e4 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -151,7 +151,7 @@ def set_optional_variables(mp):
     if not hasattr(mp, "path"):
         mp.path = falco.config.Object()
     if not hasattr(mp, 'jac'):
-        mp.jac = falco.config.EmptyClass()
+        mp.jac = falco.config.Object()
     if not hasattr(mp.jac, "star"):
         mp.jac.star = falco.config.Object()
 
-- 
2.43.0


From 18b93759b0fdf4e9df08f999e7eee5df50dacaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 061/103] fix: default sensitivity radii are an array as
 init_storage_arrays requires

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index 9dcd8e4..2c0fd1c 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1445,7 +1445,7 @@ def init_storage_arrays(mp):
 
     # Sensitivities Zernike-Mode Perturbations
     if not hasattr(mp.eval, 'Rsens'):
-        mp.eval.Rsens = []
+        mp.eval.Rsens = np.array([])
     if not hasattr(mp.eval, 'indsZnoll'):
         mp.eval.indsZnoll = [2, 3]
     Nannuli = mp.eval.Rsens.shape[0]
-- 
2.43.0


From 4c3a1b36e52aa1f5c9377d703af955798162cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 062/103] fix: a missing or broken pickle file raises instead
 of returning None

---
 falco/model/models.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 5ec302f..7bebb81 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1315,16 +1315,9 @@ def _func_Jac_ordering(imode, idm):
 
 def load_pickle_file(file_path):
     """Load data from a pickle file."""
-    try:
-        with open(file_path, 'rb') as file:
-            data = pickle.load(file)
-            return data
-    except FileNotFoundError:
-        print(f"Error: File not found at {file_path}")
-        return None
-    except Exception as e:
-        print(f"An error occurred: {e}")
-        return None
+    with open(file_path, 'rb') as file:
+        data = pickle.load(file)
+    return data
 
 
 def write_jac_slices(fn_mp, combo_list):
-- 
2.43.0


From 0d8381ad05c1c4a635a1d831931ab10d0b98f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 063/103] fix: reassemble_jac_from_slices enumerates the
 actuators

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 7bebb81..7cb41a5 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1352,11 +1352,11 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
+        for index, iact in enumerate(mp.dm1.act_ele):
             fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
             jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
+        for index, iact in enumerate(mp.dm2.act_ele):
             fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
             jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
-- 
2.43.0


From 2925a48ea29fc9cc5c2a5de4701288b338abc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 064/103] fix: bin_downsample raises on a size that dsfac does
 not divide

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..0224312 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -566,7 +566,7 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
-- 
2.43.0


From 1cfb1241b0c76c9e0e21976ad1da5161669ec072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 065/103] fix: mft_f2p uses the vertical step for the vertical
 axis

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..23c43e9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From 34847f39c06c231c7dbc9c7abc78adaf0e1dde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 066/103] fix: each spelling of fused silica is recognised

---
 falco/thinfilm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..955d3ac 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -165,7 +165,7 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
     # Define Material Properties
     # ---------------------------------------------
     # Substrate properties
-    if substrate.upper() in ('FS', 'FUSEDSILICA, FUSED_SILICA'):
+    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
         A1 = 0.68374049400
         A2 = 0.42032361300
         A3 = 0.58502748000
-- 
2.43.0


From db2404207312cbf13f25d1f3ced4f32ee8487020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 067/103] fix: obscured Zernike modes are all added, not only
 the last one

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..584217e 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -619,7 +619,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
                 elif zernike_num[iz] == 22:
                     ab = (np.sqrt(7)*(1 + eps**6 - 12*r2 + 30*r4 - 20*r**6 + eps**4*(9 - 12*r2) + eps**2*(9 - 36*r2 + 30*r4)))/ (-1 + eps**2)**3
 
-            dmap[j, :] += zernike_val[iz] * ab
+                dmap[j, :] += zernike_val[iz] * ab
 
     if not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if ("AMPLITUDE" in kwargs and kwargs["AMPLITUDE"]):
-- 
2.43.0


From b5e1a638d51b0911e07f6c3beac718121ca7abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 068/103] fix: set_spectral_properties no longer computes a
 value that it drops

---
 falco/setup.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index 2c0fd1c..7e2a05b 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -539,7 +539,6 @@ def falco_set_spectral_properties(mp):
         else:
             mp.full.lambdasMat[si, :] = np.arange(-(mp.Nwpsbp-1)/2,
                                                  (mp.Nwpsbp+1)/2)*mp.full.dlam + mp.sbp_centers[si]
-        np.arange(-(mp.Nwpsbp-1)/2, (mp.Nwpsbp-1)/2)*mp.full.dlam
         for wi in range(mp.Nwpsbp):
             lambdas[counter] = mp.full.lambdasMat[si, wi];
             lambda_weights_all[counter] = mp.sbp_weights[si].item() * mp.full.lambda_weights[wi].item()
-- 
2.43.0


From 9f6791dd36be2871324e6855004f5ea3c2ff70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 069/103] fix: off-axis throughput images use the stars of the
 compact model

---
 falco/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 4c5d7ea..5e9b795 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -619,7 +619,7 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
     modvar.y_offset = y_offset
 
     Iout = 0.
-    for iStar in range(mp.star.count):
+    for iStar in range(mp.compact.star.count):
         modvar.starIndex = iStar
 
         for si in range(mp.Nsbp):
-- 
2.43.0


From 66322907bc2ac036987a2de192f82979e12ecbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 070/103] fix: polarization tasks of an image no longer write
 to the shared model parameters

---
 falco/imaging.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 5e9b795..fccb18b 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,5 @@
 """Functions for generating images in FALCO."""
+import copy
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -327,6 +328,14 @@ def get_summed_image(mp):
     return summedImage
 
 
+def _with_polaxis(mp, polaxis):
+    """Return mp with another polarization state, without changing mp."""
+    mpOut = copy.copy(mp)
+    mpOut.full = copy.copy(mp.full)
+    mpOut.full.polaxis = polaxis
+    return mpOut
+
+
 def _get_single_sim_full_image_one_arg(mp):
     """Use only with get_summed_image."""
     ilist = mp.ilist
@@ -338,7 +347,7 @@ def _get_single_sim_full_image_one_arg(mp):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _with_polaxis(mp, pol)  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     Estar = falco.model.full(mp, modvar)
@@ -355,7 +364,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _with_polaxis(mp, pol)  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     Estar = falco.model.full(mp, modvar)
@@ -484,7 +493,7 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
+    mp = _with_polaxis(mp, mp.full.pol_conds[ipol])
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
-- 
2.43.0


From d53b8fa6bf66104d934bfb016eacad83a4ec6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 071/103] fix: parallel summed images include every star and
 the noise, as the serial ones do

---
 falco/imaging.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index fccb18b..8a000da 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -271,7 +271,7 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -279,9 +279,10 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)*mp.star.count
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -366,7 +367,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
                                               1]
     mp = _with_polaxis(mp, pol)  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = vals_list[ilist][2]
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
-- 
2.43.0


From 944c987526ef2bb4d2b6ede3a90ec28f51809ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 072/103] fix: Zernike sensitivity tasks no longer write to the
 model parameters that they are given

---
 falco/zern.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 584217e..d538afe 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -254,6 +254,8 @@ def falco_get_single_sim_Efield_LamPol(ni, inds_list, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 1]
+    mp = copy.copy(mp)  # Leave the caller's parameters unchanged
+    mp.full = copy.copy(mp.full)
     mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
@@ -300,13 +302,15 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
+    mp = copy.copy(mp)  # Leave the caller's parameters unchanged
+    mp.full = copy.copy(mp.full)
+    mp.P1 = copy.copy(mp.P1)
+    mp.P1.full = copy.copy(mp.P1.full)
     mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
 
-    # Save the original input E-field as E0 to reset it later
-    E = mp.P1.full.E
-    E0 = E.copy()
+    mp.P1.full.E = mp.P1.full.E.copy()
 
     # Initialize the Zernike modes to include as empty if the variable doesn't exist already
     if not hasattr(mp.full, 'zindex'):
@@ -320,6 +324,7 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
         # Put the Zernike index and coefficent in the vectors used by the PROPER full model
         if(any(zindex0 == indsZnoll[izern])):  # Add the delta to an existing entry
             zind = np.nonzero(zindex0 == indsZnoll[izern])[0]
+            mp.full.zval_m = zval_m0
             mp.full.zval_m[zind] = mp.full.zval_m[zind] + mp.full.ZrmsVal
         else:  # Concatenate the Zenike modes to the vector if it isn't included already
             mp.full.zindex = np.concatenate((zindex0, np.array([indsZnoll[izern]]))).astype(int)
@@ -335,9 +340,6 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
             np.squeeze(mp.P1.full.E[:, :, wi, si])
 
     Estar = falco.model.full(mp, modvar)
-    mp.P1.full.E = E0  # Reset to original value
-    mp.full.zindex = zindex0
-    mp.full.zval_m = zval_m0
 
     return Estar
 
-- 
2.43.0


From 62506a0b2a8be06b9aa6bf8777572a104c428dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 073/103] fix: invalid settings are named in the error message
 of verify_key_values

---
 falco/setup.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 7e2a05b..86992fd 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -91,29 +91,30 @@ def verify_key_values(mp):
     # Check centering
     mp.centering = mp.centering.lower()
     if mp.centering not in mp.allowedCenterings:
-        raise ValueError('%s is not an allowed value of mp.centering.',
+        raise ValueError('%s is not an allowed value of mp.centering.' %
                          mp.centering)
 
     # Check coronagraph type
     mp.coro = mp.coro.upper()
     if mp.coro not in mp.allowedCoronagraphTypes:
-        raise ValueError('%s is not an allowed value of mp.coro.', mp.coro)
+        raise ValueError('%s is not an allowed value of mp.coro.' % mp.coro)
 
     # Check optical layout
     mp.layout = mp.layout.lower()
     if mp.layout not in mp.allowedLayouts:
-        raise ValueError('%s is not an allowed value of mp.layout.', mp.layout)
+        raise ValueError('%s is not an allowed value of mp.layout.' %
+                         mp.layout)
 
     # Check estimator
     mp.estimator = mp.estimator.lower()
     if mp.estimator not in mp.allowedEstimators:
-        raise ValueError('%s is not an allowed value of mp.estimator.',
+        raise ValueError('%s is not an allowed value of mp.estimator.' %
                          mp.estimator)
 
     # Check controller
     mp.controller = mp.controller.lower()
     if mp.controller not in mp.allowedControllers:
-        raise ValueError('%s is not an allowed value of mp.controller.',
+        raise ValueError('%s is not an allowed value of mp.controller.' %
                          mp.controller)
 
 
-- 
2.43.0


From 216f88a43c8aea72db24e4923f125b09f300022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 074/103] fix: thin-film lookup tables are cached under every
 setting that they depend on

---
 falco/thinfilm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 955d3ac..aa2fbff 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -448,18 +448,18 @@ def gen_complex_trans_table(mp, flagRefl=False):
     # mp.F3.metal = 'Ni'
     # mp.F3.diel = 'PMGI'
 
-    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact.npy' %
+    fn_compact = ('ct_cube_%s_Ti%gnm_%s_%gto%gby%g_%s_%gto%gby%g_wvl%gnm_BW%gN%d_%gdeg_d0fac%g_compact.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec),
          np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, mp.F3.dielectric,
          np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec), mp.dt_diel_nm,
-         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi))
+         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi, mp.F3.d0fac))
     fn_cube_compact = os.path.join(localpath, 'data', 'material', fn_compact)
 
-    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full.npy' %
+    fn_full = ('ct_cube_%s_Ti%gnm_%s_%gto%gby%g_%s_%gto%gby%g_wvl%gnm_BW%g_%dN%d_%gdeg_d0fac%g_full.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec), np.max(mp.t_metal_nm_vec), mp.dt_metal_nm,
          mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
          mp.dt_diel_nm, (1e9*mp.lambda0), 100*mp.fracBW, mp.Nsbp, mp.Nwpsbp,
-         mp.aoi))
+         mp.aoi, mp.F3.d0fac))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
     if flagRefl:
-- 
2.43.0


From 424ab45c7ff13f4b2c6beabe75e3eb24e2772a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 075/103] fix: mask generators leave PROPER's antialiasing
 setting as they found it

---
 falco/mask.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 1d7c5b9..eed6e53 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1,3 +1,4 @@
+from functools import wraps
 import numpy as np
 import math
 from numpy import cos, sin
@@ -10,6 +11,18 @@ from . import check
 from falco.util import ceil_even, cosd, sind
 
 
+def _keep_antialiasing(func):
+    """Decorate a mask generator to leave PROPER's subsampling as it was."""
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        nSubsamplesPrev = proper.antialias_subsampling
+        try:
+            return func(*args, **kwargs)
+        finally:
+            proper.prop_set_antialiasing(nSubsamplesPrev)
+    return wrapper
+
+
 def _init_proper(Dmask, dx, centering):
     """Initialize PROPER for generating mask representations."""
     check.centering(centering)
@@ -64,6 +77,7 @@ def falco_gen_DM_stop(dx, diamMask, centering):
     return np.fft.ifftshift(np.abs(wf.wfarr))
 
 
+@_keep_antialiasing
 def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
     """
     Generate WFIRST pupil CGI-20200513.
@@ -718,6 +732,7 @@ def falco_gen_bowtie_FPM(inputs):
     return gen_bowtie_fpm(inputs)
 
 
+@_keep_antialiasing
 def gen_bowtie_fpm(inputs):
     """
     Generate a bowtie FPM using PROPER.
@@ -771,6 +786,7 @@ def gen_bowtie_fpm(inputs):
 
     # INITIALIZE PROPER. Note that:  bm.dx = diam / bdf / np;
     wf = proper.prop_begin(Dmask, wl_dummy, Narray, bdf)
+    proper.prop_set_antialiasing(101)
 
     # Outer opaque ring of FPM
     cx_OD = 0 + cshift + xOffset
@@ -828,6 +844,7 @@ def falco_gen_annular_FPM(inputs):
     return gen_annular_fpm(inputs)
 
 
+@_keep_antialiasing
 def gen_annular_fpm(inputs):
     """
     Generate an annular FPM using PROPER.
@@ -1028,6 +1045,7 @@ def gen_bowtie_lyot_stop(inputs):
     return mask
 
 
+@_keep_antialiasing
 def falco_gen_pupil_LUVOIR_A_final(inputs):
     """
     Generate the LUVOIR Design A (Final) telescope pupil.
@@ -1163,6 +1181,7 @@ def falco_gen_pupil_LUVOIR_A_final(inputs):
     return mask
 
 
+@_keep_antialiasing
 def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
     """
     Generate the LUVOIR B telescope pupil.
@@ -1387,6 +1406,7 @@ def falco_hex_aperture_LUVOIR_B(wf, nrings, hexrad, hexsep, xc=0., yc=0.,
     return ap
 
 
+@_keep_antialiasing
 def falco_gen_pupil_Simple(inputs):
     """
     Generate a custom simple circular pupil with an ID, OD, and struts.
-- 
2.43.0


From 77c3a9faabfb0237329e1c7448c64863ff977d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 076/103] fix: differentiable DM model is rebuilt when another
 sampling or geometry is asked for

---
 falco/dm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index a549c8b..8a6c7aa 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -102,8 +102,12 @@ def gen_surf_from_act(dm, dx, Nout):
             raise ValueError('invalid value of dm.orientation')
 
     if dm.useDifferentiableModel:
-        if not hasattr(dm, "differentiableModel"):  # or dm.differentiableModel.Nout!=Narray:
-            # Initialize the model object if this is the first time
+        settings = (dx, Nout, flagXYZ, dm.xc-cshift, dm.yc-cshift,
+                    dm.dm_spacing, dm.xtilt, dm.ytilt, dm.zrot, dm.inf_sign,
+                    dm.inf_fn)
+        if getattr(dm, "differentiableModelSettings", None) != settings:
+            # Initialize the model object if this is the first time or if it
+            # was made for another sampling or geometry
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
@@ -117,6 +121,7 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
+            dm.differentiableModelSettings = settings
         else:
             dm.differentiableModel.update(heightMap)
             
-- 
2.43.0


From 5521228555ff0b2652d84ccdbdb287418dc35120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 077/103] fix: DM8 occulter disks are made by the mask
 generator that exists

---
 falco/hlc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 342130e..b20e7c9 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -525,13 +525,13 @@ def setup_fpm_cosine(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
@@ -679,13 +679,13 @@ def setup_fpm(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
-- 
2.43.0


From bd64aac37de30ffba399fb013729139585909b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 078/103] fix: parallel Jacobian fills the columns of the
 active actuators of the mirrors in use

---
 falco/model/models.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 7cb41a5..a3f37df 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1226,14 +1226,16 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
-            results_order = results_order_dm1 + results_order_dm2
+            results_order = []
+            if any(mp.dm_ind == 1):
+                results_order += [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
+            if any(mp.dm_ind == 2):
+                results_order += [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, index, iact in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1241,15 +1243,15 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][2]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
                 if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G8[:, index, imode] = results_tuple[ii]
                 if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G9[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From d16b866e335f1342036731e4355486edbd18312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 079/103] fix: poke cube of an interpixel-centred mirror is no
 longer offset by half a pixel

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 8a6c7aa..27cb65c 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -773,7 +773,8 @@ def gen_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From e417386dd585608e26503f3ee264d67cbe51edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 080/103] fix: FPM poke cube with interpixel centring is no
 longer offset by half a pixel

---
 falco/hlc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index b20e7c9..5ff1634 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -964,7 +964,8 @@ def gen_fpm_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered. 
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From fb248143bcd7b4328badffbd80a6b6760777e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 081/103] fix: find the influence function file given by name
 only in the header reads

---
 falco/diff_dm.py | 2 +-
 falco/dm.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index b41647b..1a4234f 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -118,7 +118,7 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     xc_inf = nx_inf // 2
     yc_inf = ny_inf // 2
 
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
diff --git a/falco/dm.py b/falco/dm.py
index 27cb65c..26f633e 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -350,7 +350,7 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     # dx_inf = 0.1e-3  # influence function spacing in meters
     # dx_dm_inf = 1.0e-3  # nominal spacing between DM actuators in meters
     # inf_mag = 10
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
@@ -1218,7 +1218,7 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
     # dx_dm_inf = 1.e-3  # spacing between DM actuators in meters assumed by influence function
     # inf_mag = 10
 
-    header = fits.getheader(inf_fn)
+    header = fits.getheader(os.path.join(dir_path, inf_fn))
     dx_inf = header["P2PDX_M"]  # pixel width in meters
     dx_dm_inf = header["C2CDX_M"]  # center2cen dist of actuators in meters
     inf_mag = round(dx_dm_inf/dx_inf)
-- 
2.43.0


From e1fc9962811016d04656f8fe4cb7101bbeb96d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 082/103] fix: resample by the exact zoom in the differentiable
 DM model and back-propagate with the adjoint

---
 falco/diff_dm.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 1a4234f..6cb92c7 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -419,33 +419,51 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     }
 
 
-def fourier_resample(f, zoom):
-    if zoom == 1:
-        return f
-
+def _fourier_resample_matrices(shape, zoom):
     if isinstance(zoom, (float, int)):
         zoom = (zoom, zoom)
     elif not isinstance(zoom, tuple):
         zoom = tuple(float(zoom) for zoom in zoom)
 
-    m, n = f.shape
+    m, n = shape
     M = int(np.round(m*zoom[0]))
     N = int(np.round(n*zoom[1]))
 
+    # The output sampling is the input sampling divided by zoom, whatever the
+    # rounding of the output size.
+    Mx, My = setup_mft_matricies_scalars((M, N), shape, n*zoom[1]/N, m*zoom[0]/M)
+    return Mx, My, np.sqrt(zoom[0]*zoom[1])
+
+
+def fourier_resample(f, zoom):
+    if zoom == 1:
+        return f
+
+    Mx, My, scale = _fourier_resample_matrices(f.shape, zoom)
+
     # commented out below, an alternative that does not use the fft2 norm keyword argument
     # doing it this way is mildly preferrable;
     F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
     # F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f)))
 
-    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, 1, 1)
     fprime = imft2_core(F, Mx, My).real
-    fprime *= np.sqrt((zoom[0]*zoom[1]))
+    fprime *= scale
     # fprime *= np.sqrt((zoom[0]*zoom[1]))/(np.sqrt(f.size))
     # fprime *= np.sum(fprime)/np.sum(f)
 
     return fprime
 
 
+def fourier_resample_backprop(fbar, zoom, shape):
+    """Adjoint of fourier_resample() of an array of the given shape."""
+    if zoom == 1:
+        return fbar
+
+    Mx, My, scale = _fourier_resample_matrices(shape, zoom)
+    Fbar = mft2_core(fbar, Mx, My)
+    return scale * fftutils.fftshift(fftutils.ifft2(fftutils.ifftshift(Fbar), norm='ortho')).real
+
+
 def forward_ft_unit(dx, samples, shift=True):
     """Compute the units resulting from a fourier transform.
 
@@ -725,9 +743,7 @@ class DM:
         """Gradient backpropagation for self.render."""
         protograd = util.pad_crop(protograd, self.Nintermediate)
         if self.upsample != 1:
-            upsample = self.ifn.shape[0]/protograd.shape[0]
-            protograd = fourier_resample(protograd, upsample)
-            protograd /= upsample**2
+            protograd = fourier_resample_backprop(protograd, self.upsample, self.ifn.shape)
 
         if wfe:
             protograd *= (2*self.obliquity)
-- 
2.43.0


From f06978d8207412e6ab3733bc1cd352616579742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 083/103] fix: gradient of the differentiable DM model includes
 the area factor of the projection

---
 falco/diff_dm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 6cb92c7..7b88e45 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -626,6 +626,8 @@ class DM:
                 raise ValueError("rot_order must be \'zyx\' or \'xyz\'")
 
             fwd, rev = prepare_fwd_reverse_projection_coordinates(s, rot, use_zyx_order)
+            # projected area of a unit area of the surface
+            self.projarea = abs(np.linalg.det(make_rotation_matrix(rot, use_zyx_order)[:2, :2]))
             self.projx, self.projy = fwd
             self.invprojx, self.invprojy = rev
 
@@ -746,11 +748,11 @@ class DM:
             protograd = fourier_resample_backprop(protograd, self.upsample, self.ifn.shape)
 
         if wfe:
-            protograd *= (2*self.obliquity)
+            protograd = protograd * (2*self.obliquity)
 
         # return protograd
         if self.needs_rot:
-            protograd = warp(protograd, self.invprojx, self.invprojy)
+            protograd = self.projarea * warp(protograd, self.invprojx, self.invprojy)
 
         # return protograd
         in_actuator_space = apply_precomputed_transfer_function(protograd, np.conj(self.tf))
-- 
2.43.0


From deaa2966c1dc59799ae9829b022d52c8c1368fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 084/103] fix: place the lattice and the offset of the
 differentiable DM model where propcustom_dm places them

---
 falco/diff_dm.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 7b88e45..89533b3 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -160,8 +160,8 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*int((dm.xc - dm.Nact//2 + 0.5) * inf_mag)
-    shifty = -1*int((dm.yc - dm.Nact//2 + 0.5) * inf_mag)
+    shiftx = -1*(dm_xc - (dm.Nact - 1)/2) * inf_mag
+    shifty = -1*(dm_yc - (dm.Nact - 1)/2) * inf_mag
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -388,10 +388,8 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     cy, cx = [s//2 for s in shape]
     Nactx, Nacty = Nact
     skip_samples_x, skip_samples_y = sep
-    # python trick; floor division (//) rounds to negative inf, not zero
-    # because FFT grid alignment biases things to the left, if Nact is odd
-    # we want more on the negative side;
-    # this will make that so
+    # The lattice is centered on the center sample: on the middle actuator if
+    # Nact is odd, and halfway between the two middle actuators if it is even.
     offx = 0
     offy = 0
     # TODO: does falco have an is_odd?  Did not see it in util
@@ -400,10 +398,10 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     if Nacty % 2 == 0:
         offy = skip_samples_y // 2
 
-    neg_extreme_x = cx + -Nactx//2 * skip_samples_x + offx
-    neg_extreme_y = cy + -Nacty//2 * skip_samples_y + offy
-    pos_extreme_x = cx + Nactx//2 * skip_samples_x + offx
-    pos_extreme_y = cy + Nacty//2 * skip_samples_y + offy
+    neg_extreme_x = cx - Nactx//2 * skip_samples_x + offx
+    neg_extreme_y = cy - Nacty//2 * skip_samples_y + offy
+    pos_extreme_x = neg_extreme_x + Nactx * skip_samples_x
+    pos_extreme_y = neg_extreme_y + Nacty * skip_samples_y
 
     ix = slice(neg_extreme_x, pos_extreme_x, skip_samples_x)
     iy = slice(neg_extreme_y, pos_extreme_y, skip_samples_y)
-- 
2.43.0


From 693e9858bd95f4f18590b859aca2671b47fc37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 085/103] fix: allocate the history of estimated intensities
 for every Jacobian mode

---
 falco/setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 86992fd..ef2b855 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1481,10 +1481,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From 80c0ce7f6c424b9f2dded671d1f8e8c0363ca3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 086/103] fix: pair Jacobian-based probe responses with their
 own mode and actuators

---
 falco/est.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 150543a..6718159 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -537,13 +537,13 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                            jacStruct.G1[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm1.act_ele]
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                            jacStruct.G2[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm2.act_ele]
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -604,7 +604,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
                     if mp.est.flagUseJac:
                         dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From 2af148fe342cc79492f448aac5e264bd9f265720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 087/103] fix: start the Kalman filter of every pixel from its
 own estimate

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 6718159..d231aaa 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -657,7 +657,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     # 1st state estimate for the Kalman filter
                     xOld = np.zeros((2*mp.Fend.corr.Npix, 1))
                     for ii in range(mp.Fend.corr.Npix):
-                        xOld[2*(ii-1)+0:2*(ii-1)+1] = \
+                        xOld[2*ii:2*ii+2, 0] = \
                             np.array([np.real(Eest[ii]), np.imag(Eest[ii])])
                     ev.xOld = xOld  # Save out for returning later
 
-- 
2.43.0


From 0d04f7f3d46c4d07c213a91a2e787d7838f4e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 088/103] fix: keep the multi-axis probe from being replaced by
 the single-axis one at zero phase

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index d231aaa..3b0b40c 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -805,7 +805,7 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
 
     # Option to use just the sincs for a zero phase shift. This avoids the
     # phase discontinuity along one axis (for this probe only!).
-    if psi == 0:
+    if psi == 0 and badAxis.lower() != 'm':
         m = 2*radius
         probeSurf = magn*np.sinc(m*XS)*np.sinc(m*YS)
 
-- 
2.43.0


From 387b608901253b3866af4a0ff67a9124f8d9a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 089/103] fix: count each rejected pixel once

---
 falco/est.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 3b0b40c..0b2135f 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -615,7 +615,6 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
                         # If <2 probe pairs had good measurements, can't do pinv. Leave Eest as zero.
                         if NpairsGood < 2:
-                            zerosCounter = zerosCounter + 1
                             Epix = np.zeros((2, 1))
                             zerosCounter += 1
 
-- 
2.43.0


From 874a2fd92ce55371699a942ca4d683c12e77841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 090/103] fix: include the outer transmission of the HLC mask
 in the gradient of the unocculted term

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index a3f37df..60fc41c 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -616,7 +616,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
-            EP4noFPM_grad = EP4_grad
+            EP4noFPM_grad = np.conj(transOuterFPM) * EP4_grad
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-- 
2.43.0


From 04f1b7a2f4b24c31dd56f1a2156dc266a819f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 091/103] fix: take the HLC mask of the full model at the index
 of its own wavelength

---
 falco/model/models.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 60fc41c..699eee8 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -103,15 +103,11 @@ def full(mp, modvar, isNorm=True):
                                                         modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-    if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-        # Weird indexing is because interior wavelengths at
-        # edges of sub-bands are the same, and the fpmCube
-        # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
-    elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
-        ilam = modvar.wpsbpIndex
-    elif mp.Nwpsbp == 1:
+    if mp.Nwpsbp > 1:
+        # Interior wavelengths at edges of sub-bands are the same, and the
+        # fpmCube contains only the minimal set of masks.
+        ilam = modvar.sbpIndex*(mp.Nwpsbp-1) + modvar.wpsbpIndex
+    else:
         ilam = modvar.sbpIndex
 
     fpm = None  # Use mp.F3.full.mask
-- 
2.43.0


From 8b4d9a65d60eccf7139d47d904e194e4238d8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 092/103] fix: look up the HLC mask of the full model at the
 index of its own wavelength

---
 falco/hlc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 5ff1634..14cf3cb 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -45,8 +45,8 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
     elif modelType.lower() == 'full':
         # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas
+        ilam = si if mp.Nwpsbp == 1 else si*(mp.Nwpsbp-1) + wi
     else:
         raise ValueError('modelType must specify full or compact model.')
 
-- 
2.43.0


From 53348d5d9bc9f761025b3c47ecd89b736ac3564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 093/103] fix: calc_zern_sens keeps the mode axis when one
 Zernike mode is requested

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index d538afe..74ce7c2 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -207,7 +207,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From 847b67b4238550db711592389e5fea9e2d59438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 094/103] fix: custom hexagonal pupil takes radius and angle
 from cart2pol in the order it returns them

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index eed6e53..c1f7d06 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1584,7 +1584,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create coordinates
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
-    [THETA, RHO] = falco.util.cart2pol(X, Y)
+    [RHO, THETA] = falco.util.cart2pol(X, Y)
 
     inputs = dict(inputs, apDia=inputs["Nbeam"])
     if('pistons' in inputs.keys()):
-- 
2.43.0


From b0adf386deb1344d4c199ef77c1ba3546c9ca040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 095/103] fix: segmented field includes the segments that are
 present instead of those marked missing

---
 falco/hexsegmirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index d4b3b43..a4f1142 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -115,7 +115,7 @@ def get_field( hexMirrorDict ):
         cenrow = ringNum*hexSep
         cencol = 0
         
-        if(missingSegments[segNum]==0):
+        if(missingSegments[segNum]==1):
             OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                              wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT)
         segNum = segNum + 1
@@ -135,7 +135,7 @@ def get_field( hexMirrorDict ):
                     #%disp(['Finished ring ',num2str(ringNum)]);
                     pass
                 else:
-                    if(missingSegments[segNum]==0):
+                    if(missingSegments[segNum]==1):
                         OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                                          wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT);
                         pass
-- 
2.43.0


From 950e5d35c57711b740d5b69aadd18332e7aba61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 096/103] fix: ellipse edges are drawn with the magnification
 of its interior

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index c1f7d06..ced0fae 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1750,7 +1750,7 @@ def falco_gen_ellipse(inputs):
 
         xCenter = X[grayInds[0, iInterior], grayInds[1, iInterior]]
         yCenter = Y[grayInds[0, iInterior], grayInds[1, iInterior]]
-        RHOup = 0.5*np.sqrt(
+        RHOup = 1/magFac*0.5*np.sqrt(
         1/(radiusX)**2*(np.cos(clockingRadians)*(Xup+xCenter) +
                         np.sin(clockingRadians)*(Yup+yCenter))**2
         + 1/(radiusY)**2*(np.sin(clockingRadians)*(Xup+xCenter) -
-- 
2.43.0


From a6b6e7167004ba21036d1962313edc80d8ec1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 097/103] fix: LUVOIR B pupil is rotated when flagRot180deg is
 set

---
 falco/mask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index ced0fae..e1a0200 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1256,6 +1256,9 @@ def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
 
     mask = np.fft.ifftshift(np.abs(bm.wfarr)) * ap
 
+    if flagRot180deg:
+        mask = np.rot90(mask, 2)
+
     return mask
 
 
-- 
2.43.0


From 6f15ce9270cae4e7480d247f37889c56491eadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 098/103] fix: interpixel WFIRST pupil coordinates cover the
 whole array

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index e1a0200..4f295ef 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -472,7 +472,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         raise ValueError("centering must be 'pixel' or 'interpixel'")
 
     if centering.lower() == 'interpixel':
-        xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
+        xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
     else:
         xs = np.linspace(-(Narray/2), Narray/2-1, Narray)/Nbeam
 
-- 
2.43.0


From c27606beb24b241e8c212b696fd227def449faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 099/103] fix: hyper-gaussian simple pupil honours shear and
 clocking

---
 falco/mask.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index 4f295ef..ff8410b 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1529,8 +1529,10 @@ def falco_gen_pupil_Simple(inputs):
             x = np.arange(-Narray/2, Narray/2)
         elif centering == 'interpixel':
             x = np.arange(-(Narray-1)/2, (Narray-1)/2+1)
-        RHO = falco.util.radial_grid(x, xStretch=xStretch)
-        THETA = falco.util.azimuthal_grid(x, xStretch=xStretch)
+        [X0, Y0] = np.meshgrid(x - xShear*Nbeam, x - yShear*Nbeam)
+        X = (X0*cosd(clocking) + Y0*sind(clocking))/xStretch
+        Y = Y0*cosd(clocking) - X0*sind(clocking)
+        [RHO, THETA] = falco.util.cart2pol(X, Y)
 
         if ID > 0:
             pupil = np.exp(-(RHO/(apRad*OD))**hg_expon) - \
-- 
2.43.0


From 680f6217b666463123ab18bc4a0e11e5776e7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:05 +0000
Subject: [PATCH 100/103] fix: full and compact models keep their own DM8 and
 DM9 in the HLC mask setup

---
 falco/hlc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 14cf3cb..f10c26c 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -1,5 +1,7 @@
 """Functions for setting up and generating HLC occulters."""
 
+import copy
+
 import numpy as np
 from math import radians, sin, cos
 from astropy.io import fits
@@ -248,7 +250,7 @@ def setup_fpm_cosine(mp):
     mp.dm8.centering = mp.centering
     mp.dm9.centering = mp.centering
 
-    mp.dm9.compact = mp.dm9
+    mp.dm9.compact = copy.copy(mp.dm9)
     
     mp.dm9.dxi = (mp.fl*mp.lambda0/mp.P2.D)/mp.F3.full.res  # width of a pixel at the FPM in the full model (meters)
     mp.dm9.compact.dxi = (mp.fl*mp.lambda0/mp.P2.D)/mp.F3.compact.res  # width of a pixel at the FPM in the compact model (meters)
@@ -500,7 +502,7 @@ def setup_fpm_cosine(mp):
     print('%d actuators in DM8.' % mp.dm8.NactTotal)
     mp.dm8.VtoH = mp.dm8.VtoHavg * np.ones(mp.dm8.NactTotal)  # Gains: volts to meters in surface height;
     mp.dm8.xy_box_lowerLeft = np.array([0, 0]).reshape((2, 1))
-    mp.dm8.compact = mp.dm8
+    mp.dm8.compact = copy.copy(mp.dm8)
     if not hasattr(mp.dm8, 'V'):  # Initial DM8 voltages
         mp.dm8.V = mp.dm8.V0coef * np.ones(mp.dm8.NactTotal)
     else:
@@ -579,7 +581,7 @@ def setup_fpm(mp):
     mp.dm8.centering = mp.centering
     mp.dm9.centering = mp.centering
 
-    mp.dm9.compact = mp.dm9
+    mp.dm9.compact = copy.copy(mp.dm9)
 
     if hasattr(mp, 'flagDM9inf3x3'):
         mp.dm9.xcent_dm = mp.dm9.Nact/2 - 1/2
@@ -591,7 +593,7 @@ def setup_fpm(mp):
         mp.dm9.ycent_dm = mp.dm9.Nact/2 - 1/2
     
     mp.dm9.dm_spacing = 1/mp.dm9.actres*(mp.fl*mp.lambda0/mp.P2.D)  # meters, pitch of DM actuators
-    mp.dm9.compact = mp.dm9
+    mp.dm9.compact = copy.copy(mp.dm9)
 
     mp.dm9.compact.dm_spacing = mp.dm9.dm_spacing  # meters, pitch of DM actuators
 
@@ -654,7 +656,7 @@ def setup_fpm(mp):
     print('%d actuators in DM8.' % mp.dm8.NactTotal)
     mp.dm8.VtoH = mp.dm8.VtoHavg * np.ones(mp.dm8.NactTotal)  # Gains: volts to meters in surface height;
     mp.dm8.xy_box_lowerLeft = np.array([0, 0]).reshape((2, 1))
-    mp.dm8.compact = mp.dm8
+    mp.dm8.compact = copy.copy(mp.dm8)
     if not hasattr(mp.dm8, 'V'):  # Initial DM8 voltages
         mp.dm8.V = mp.dm8.V0coef * np.ones(mp.dm8.NactTotal)
     else:
-- 
2.43.0


From a37ebfadab7f61948f360ce27701f52f0815b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:39 +0000
Subject: [PATCH 101/103] fix: HLC influence-function and centering names are
 compared whole ('pixel' was taken for a part of 'interpixel')

---
 falco/hlc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index f10c26c..6612a31 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -545,14 +545,14 @@ def setup_fpm(mp):
 
     mp.dm9.Nact = ceil_even(2*mp.F3.Rin*mp.dm9.actres)  # number of actuators across DM9 (if not in a hex grid)
 
-    if mp.dm9.inf0name.lower() in '3x3':
+    if mp.dm9.inf0name.lower() == '3x3':
         mp.dm9.inf0 = 1/4 * np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]])  # influence function
         mp.dm9.dx_inf0_act = 1/2  # number of inter-actuator widths per pixel 
         # FPM resolution (pixels per lambda0/D) in the compact and full models.
         mp.F3.compact.res = mp.dm9.actres / mp.dm9.dx_inf0_act
         mp.F3.full.res = mp.dm9.actres / mp.dm9.dx_inf0_act
 
-    elif mp.dm9.inf0name.lower() in 'lanczos3':
+    elif mp.dm9.inf0name.lower() == 'lanczos3':
         N = 91
         xs = np.arange(-(N-1)/2, (N+1)/2)/N*10*0.906  #(-(N-1)/2:(N-1)/2)/N *10*0.906
 
@@ -570,7 +570,7 @@ def setup_fpm(mp):
         mp.dm9.inf0 = LxyCrop  # influence function
         mp.dm9.dx_inf0_act = 1/10  # number of inter-actuator widths per pixel 
 
-    elif mp.dm9.inf0name.lower() in 'xinetics':
+    elif mp.dm9.inf0name.lower() == 'xinetics':
         mp.dm9.inf0 = 1*fits.getdata('influence_dm5v2.fits')
         mp.dm9.dx_inf0_act = 1/10  # number of inter-actuator widths per pixel 
     
@@ -586,7 +586,7 @@ def setup_fpm(mp):
     if hasattr(mp, 'flagDM9inf3x3'):
         mp.dm9.xcent_dm = mp.dm9.Nact/2 - 1/2
         mp.dm9.ycent_dm = mp.dm9.Nact/2 - 1/2
-        if mp.centering in 'interpixel':
+        if mp.centering == 'interpixel':
            raise ValueError('The 3x3 influence function for DM9 requires a pixel-centered coordinate system.')
     else:
         mp.dm9.xcent_dm = mp.dm9.Nact/2 - 1/2
@@ -1043,7 +1043,7 @@ def fpm_inf_cube_3x3(dm):
     dm.NdmPad = ceil_even((dm.Nact+2)*NpixPerActWidth)  # prevent indexing outside the array
     
     # Compute coordinates (in meters) of the full DM array
-    if dm.centering in 'pixel':
+    if dm.centering == 'pixel':
         dm.x_pupPad = np.arange(-dm.NdmPad/2, dm.NdmPad/2)*dm.dx_dm  # meters, coords for the full DM arrays. Origin is centered on a pixel
     else:
         dm.x_pupPad = np.arange(-(dm.NdmPad-1)/2, (dm.NdmPad+1)/2)*dm.dx_dm  # meters, coords for the full DM arrays. Origin is centered between pixels for an even-sized array
@@ -1054,7 +1054,7 @@ def fpm_inf_cube_3x3(dm):
     
     # Find the locations of the postage stamps arrays in the larger pupilPad array
     dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dm.dx_dm)  # Convert units to pupil-file pixels
-    if not dm.centering in 'pixel':
+    if dm.centering != 'pixel':
         raise ValueError('Not adapted for non-pixel centering.')
     
     dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
-- 
2.43.0


From 8f5a705e2527b6a62b3214900ec7f22b791b6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:39 +0000
Subject: [PATCH 102/103] fix: worker pools of the Zernike sensitivities are
 released when a worker fails

---
 falco/zern.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 74ce7c2..d924a31 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -108,11 +108,9 @@ def calc_zern_sens(mp):
         # print(len(results))
         # print(results)
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(falco_get_single_sim_Efield_LamPol,
-                               [(iv, inds_list, mp) for iv in range(Nvals)])
-        pool.close()
-        pool.join()
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results = pool.starmap(falco_get_single_sim_Efield_LamPol,
+                                   [(iv, inds_list, mp) for iv in range(Nvals)])
         print(len(results))
 
         # with PoolExecutor(max_workers=mp.Nthreads) as executor:
@@ -159,12 +157,10 @@ def calc_zern_sens(mp):
         # pool.close()
         # pool.join()
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(falco_get_single_sim_Efield_LamPolZern,
-                               [(iv, inds_list_zern, mp)
-                                for iv in range(NvalsZern)])
-        pool.close()
-        pool.join()
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results = pool.starmap(falco_get_single_sim_Efield_LamPolZern,
+                                   [(iv, inds_list_zern, mp)
+                                    for iv in range(NvalsZern)])
 
         # a = np.array(results)
         # from astropy.io import fits
-- 
2.43.0


From ef9299aad51599557df71d2d9e8a14ba4603d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:39 +0000
Subject: [PATCH 103/103] fix: vertical FPM coordinates of the full model are
 centred by the parity of their own number of points

---
 falco/setup.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index ef2b855..ce2ee7b 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -973,14 +973,17 @@ def falco_compute_fpm_coordinates(mp):
                                                 (mp.F3.full.Nxi-1)/2,
                                                 mp.F3.full.Nxi) /
                                     mp.F3.full.res)
+            elif mp.centering == 'pixel':
+                mp.F3.full.xisDL = (np.arange(-mp.F3.full.Nxi/2,
+                                             (mp.F3.full.Nxi/2)) /
+                                    mp.F3.full.res)
+
+            if mp.centering == 'interpixel' or (mp.F3.full.Neta % 2) == 1:
                 mp.F3.full.etasDL = (np.linspace(-(mp.F3.full.Neta-1)/2,
                                                  (mp.F3.full.Neta-1)/2,
                                                  mp.F3.full.Neta) /
                                      mp.F3.full.res)
             elif mp.centering == 'pixel':
-                mp.F3.full.xisDL = (np.arange(-mp.F3.full.Nxi/2,
-                                             (mp.F3.full.Nxi/2)) /
-                                    mp.F3.full.res)
                 mp.F3.full.etasDL = (np.arange(-mp.F3.full.Neta/2,
                                               (mp.F3.full.Neta/2)) /
                                      mp.F3.full.res)
-- 
2.43.0

