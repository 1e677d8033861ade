From e5497f8b9760665ad4b6f513ba8feafc52476f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 01/96] fix: evaluate the NUFFT at the requested Faraday
 depths, not at the mirrored ones

do_rmsynth_planes and the per-pixel branch of get_rmsf_planes passed
phi[::-1] * 2 as the NUFFT targets, which equals the required -2 * phi only
for grids symmetric about zero.
---
 RMutils/util_RM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..fec5421 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,7 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(phiArr_radm2 * -2).astype(a.dtype),
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +403,7 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(phi2Arr * -2).astype(a.dtype),
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From ef70535b0ae8b1f0e347df6cc968b23e9c7dc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/96] fix: leave channels flagged in Stokes U (or Q) only out
 of the 1D RMSF, theoretical noise and channel count

The 1D tool masked the RMSF by the Stokes Q flags alone, and the theoretical
FDF noise and N_channels counted channels which do not contribute to the FDF.
---
 RMtools_1D/do_RMsynth_1D.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..6ad8400 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -289,6 +289,10 @@ def run_rmsynth(
             % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
         )
 
+    # Channels flagged in either Stokes Q or U do not contribute to the FDF, so
+    # they must not contribute to the RMSF or the theoretical noise either.
+    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+
     # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
     if weightType == "variance":
         weightArr = 1.0 / np.power(dquArr, 2.0)
@@ -317,7 +321,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
@@ -365,7 +369,7 @@ def run_rmsynth(
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    weightArr = np.where(np.isnan(weightArr) | flagArr, 0.0, weightArr)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
         np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
     )
@@ -404,7 +408,7 @@ def run_rmsynth(
         log("Caution: Stokes I model has low signal-to-noise.")
 
     # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    good_channels = np.where(np.logical_and(weightArr != 0, ~flagArr))[0]
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-- 
2.43.0


From 72385d905f49e620492dc3d3abe8f396f05024ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 03/96] fix: do not count flagged channels in the likelihood of
 the additional scatter

---
 RMutils/util_RM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index fec5421..08f2a0a 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1167,13 +1167,15 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    nData = len(xArr)
+    # Flagged data points are left out of both terms.
+    good = np.isfinite(yArr) & np.isfinite(dyArr)
+    nData = np.sum(good)
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
     for i, sigmaAdd in enumerate(sigmaAddArr):
-        sigmaSqTot = dyArr**2.0 + sigmaAdd**2.0
+        sigmaSqTot = dyArr[good] ** 2.0 + sigmaAdd**2.0
         lnSigmaSumArr[i] = np.nansum(np.log(np.sqrt(sigmaSqTot)))
-        chiSqArr[i] = np.nansum((yArr - yMed) ** 2.0 / sigmaSqTot)
+        chiSqArr[i] = np.nansum((yArr[good] - yMed) ** 2.0 / sigmaSqTot)
     dof = nData - 1
     chiSqRedArr = chiSqArr / dof
 
-- 
2.43.0


From e6adf85dfafcafbe8bf164c34d442d6cb8e98a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 04/96] fix: mask the RMSF cube with the flags of both Stokes Q
 and U, as the FDF cube is

---
 RMtools_3D/do_RMsynth_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..969768e 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 5232da1af4585a5cd2114298023b9b663e387d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 05/96] fix: accept a scalar RMSF width for 2D and 3D RM-CLEAN,
 as documented

---
 RMutils/util_RM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 08f2a0a..946ba63 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -549,6 +549,10 @@ def do_rmclean_hogbom(
     else:
         mskArr = np.ones(dirtyFDF.shape[1:], dtype="bool")
 
+    # A single RMSF width applies to all pixels
+    if np.ndim(fwhmRMSFArr) == 0:
+        fwhmRMSFArr = np.full(dirtyFDF.shape[1:], fwhmRMSFArr)
+
     # Reshape the FDF & RMSF array to 3 dimensions and mask array to 2
     if nDims == 1:
         dirtyFDF = np.reshape(dirtyFDF, (dirtyFDF.shape[0], 1, 1))
-- 
2.43.0


From f27257f896f904a7f48887eae8a0dc8f53c8338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 06/96] fix: apply the pixel mask given to do_rmclean_hogbom

mskArr was checked and reshaped but never used.
---
 RMutils/util_RM.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 946ba63..ddd644d 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -569,6 +569,7 @@ def do_rmclean_hogbom(
     # Determine which pixels have components above the cutoff
     absFDF = np.abs(np.nan_to_num(dirtyFDF))
     mskCutoff = np.where(np.max(absFDF, axis=0) >= cutoff, 1, 0)
+    mskCutoff = np.where(mskArr, mskCutoff, 0)
     xyCoords = np.rot90(np.where(mskCutoff > 0))
 
     # Feeback to user
-- 
2.43.0


From b6e6f4233dcbf05790493113c4b88e007c97c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 07/96] fix: keep the RM-CLEAN window inside the Faraday depth
 array

A component near the start of the array gave a negative slice start, i.e. no window.
---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index ddd644d..97f78ee 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -737,7 +737,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(0, int(i - fwhmRMSFArr_pix / 2))
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From 50d704991cf06d7b7c2c4c1bdc7e546c270d9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 08/96] fix: return the RM-CLEAN iteration counts when a
 process pool is used

The counts were recorded in the workers' copies of iterCountArr only.
---
 RMutils/util_RM.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 97f78ee..8e700bc 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -629,6 +629,8 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Worker processes do not share iterCountArr with this one
+        iterCountArr[yi, xi] = output[i].iterCount
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -653,6 +655,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of iterations performed"""
 
 
 class RMcleaner:
@@ -780,7 +784,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 13ab3f7a649963e46b7fc86171abe1e9612e161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 09/96] fix: run RM-CLEAN with pools that have no imap (serial
 and MPI)

---
 RMutils/util_RM.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 8e700bc..f2c2503 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -606,13 +606,17 @@ def do_rmclean_hogbom(
         for pix in inputs:
             output.append(rmc.cleanloop(pix))
     else:
+        if hasattr(pool, "imap"):
+            results = pool.imap(
+                rmc.cleanloop,
+                inputs,
+                chunksize=chunksize if chunksize is not None else 1,
+            )
+        else:  # schwimmbad's serial and MPI pools only have map
+            results = pool.map(rmc.cleanloop, inputs)
         output = list(
             tqdm(
-                pool.imap(
-                    rmc.cleanloop,
-                    inputs,
-                    chunksize=chunksize if chunksize is not None else 1,
-                ),
+                results,
                 desc="RM-CLEANing",
                 disable=not verbose,
                 total=len(inputs),
-- 
2.43.0


From a5897dcff75f88b7a71252d77b877caf6ffbcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 10/96] fix: interpolate images pixel by pixel, so that a NaN
 pixel does not blank its neighbours

ndimage.map_coordinates combines neighbouring pixels with zero weight, which
turns them into NaN next to a NaN pixel.
---
 RMutils/util_misc.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..724a00c 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -77,7 +77,6 @@ from typing import NamedTuple, Optional, Tuple
 
 import numpy as np
 import numpy.ma as ma
-import scipy.ndimage as ndi
 from astropy.constants import c as speed_of_light
 from deprecation import deprecated
 from scipy.stats import norm
@@ -875,19 +874,9 @@ def create_frac_spectra(
 def interp_images(arr1, arr2, f=0.5):
     """Create an interpolated image between two other images."""
 
-    nY, nX = arr1.shape
-
-    # Concatenate arrays into a single array of shape (2, nY, nX)
-    arr = np.r_["0,3", arr1, arr2]
-
-    # Define the grid coordinates where you want to interpolate
-    X, Y = np.meshgrid(np.arange(nX), np.arange(nY))
-
-    # Create coordinates for interpolated frame
-    coords = np.ones(arr1.shape) * f, Y, X
-
-    # Interpolate using the map_coordinates function
-    interpArr = ndi.map_coordinates(arr, coords, order=1)
+    # Each output pixel depends on that pixel of the inputs only, so that blank
+    # (NaN) pixels do not affect their neighbours.
+    interpArr = (1.0 - f) * np.asarray(arr1) + f * np.asarray(arr2)
 
     return interpArr
 
-- 
2.43.0


From 418b01cd42336725b5ed4d785a0ee19682f07441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 11/96] fix: interpolate the Stokes I cube to the actual
 reference frequency

RMsynth3D and RMpeakfit_3D took the midpoint of two neighbouring planes as
Stokes I at the reference frequency (wrong by up to half a channel), picked
the wrong neighbour for descending frequencies, ran off the end of the cube,
failed for cubes with degenerate sky axes, and RMpeakfit_3D extrapolated to an
infinite frequency for super-resolution cubes.
---
 RMtools_3D/RMpeakfit_3D.py  | 19 ++++++-------------
 RMtools_3D/do_RMsynth_3D.py | 13 ++++---------
 RMutils/util_misc.py        | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..6e1495b 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,7 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -72,19 +72,12 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    # As in RMsynth3D: with lam0Sq = 0 (super-resolution) use the mean frequency
+    freq0_Hz = (
+        speed_of_light.value / np.sqrt(lam0Sq) if lam0Sq > 0 else np.nanmean(freqArr_Hz)
+    )
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        Ifreq0Arr = interp_cube_to_freq(stokesIcube, freqArr_Hz, freq0_Hz)
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 969768e..593bf50 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,7 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -239,16 +239,11 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        Ifreq0Arr = interp_cube_to_freq(dataI, freqArr_Hz, freq0_Hz)
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        # (degenerate sky axes have been removed from the FDF cube)
+        FDFcube *= np.squeeze(Ifreq0Arr)
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 724a00c..c943042 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -881,6 +881,20 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+# -----------------------------------------------------------------------------#
+def interp_cube_to_freq(dataArr, freqArr_Hz, freq0_Hz):
+    """Linearly interpolate a cube (frequency axis first, channels in any order)
+    to a single frequency, using the two channels on either side of it."""
+
+    order = np.argsort(freqArr_Hz)
+    k = np.searchsorted(np.asarray(freqArr_Hz)[order], freq0_Hz)
+    k = min(max(k, 1), len(order) - 1)
+    lo, hi = order[k - 1], order[k]
+    f = (freq0_Hz - freqArr_Hz[lo]) / (freqArr_Hz[hi] - freqArr_Hz[lo])
+
+    return interp_images(dataArr[lo], dataArr[hi], f=f)
+
+
 # -----------------------------------------------------------------------------#
 def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     """Fit a 5th order polynomial to a spectrum. To avoid overflow errors the
-- 
2.43.0


From 7beef822652b32fa5b3010504ab23746a3915c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 12/96] fix: take the length of a linear FITS axis from NAXIS

Counting channels from (stop - start) / CDELT lost the last channel to
truncation for many increments, and returned no axis for negative ones.
---
 RMutils/util_RM.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index f2c2503..bb7ff8a 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -807,9 +807,8 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
 
-    return np.linspace(start, stop, nChan).astype(dtype)
+    return np.linspace(start, stop, head["NAXIS" + i]).astype(dtype)
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 784537aba24a7860bf96df9c3d26460df4088452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 13/96] fix: report no fitted peak when the parabola has none
 inside the Faraday depth range

A peak fitted beyond the lower end of a one-sided range, or the minimum of an
upward-opening parabola next to a high edge channel, was reported as a
measurement, and the S/N of a rejected peak was not blanked.
---
 RMutils/util_RM.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index bb7ff8a..366122f 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1061,15 +1061,20 @@ def measure_FDF_parms(
             absFDF[indxPeakPIchan + 1],
         )
 
-        snrPIfit = ampPeakPIfit / dFDF
-
         # In rare cases, a parabola can be fitted to the edge of the spectrum,
-        # producing a unreasonably large RM and polarized intensity.
+        # producing a unreasonably large RM and polarized intensity, or (if an
+        # edge channel is the highest) opening upwards and having no peak.
         # In these cases, everything should get NaN'd out.
-        if np.abs(phiPeakPIfit) > np.max(np.abs(phiArr)):
+        if (
+            phiPeakPIfit > np.max(phiArr)
+            or phiPeakPIfit < np.min(phiArr)
+            or ampPeakPIfit < 0.9999 * absFDF[indxPeakPIchan]
+        ):
             phiPeakPIfit = np.nan
             ampPeakPIfit = np.nan
 
+        snrPIfit = ampPeakPIfit / dFDF
+
         # Error on fitted Faraday depth (RM) is same as channel, but using fitted PI
         dPhiPeakPIfit = fwhmRMSF * dFDF / (2.0 * ampPeakPIfit)
 
-- 
2.43.0


From b451344e45688c984010e0c67bd887ae2796f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 14/96] fix: propagate the whole covariance when re-referencing
 a Stokes I model

Three terms of the hand-expanded errors of the log model were wrong (a
cov[0,5] for cov[1,1], and missing factors ln(10)^2), and the covariance was
left at the old reference frequency, so that a second re-referencing gave
wrong errors.
---
 RMutils/util_misc.py | 100 +++++++++++--------------------------------
 1 file changed, 25 insertions(+), 75 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index c943042..0733008 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -611,93 +611,43 @@ def renormalize_StokesI_model(
     # Note this implicitly makes a first-order approximation in the correletion
     # structure between uncertainties
     # The general equation for the transformation of uncertainties is:
-    #   var(p) = sum_i,j((\partial p / \partial a_i) * (\partial p / \partial a_j) * cov(a_i,a_j))
-    # where a_i are the initial parameters, p is a final parameter,
+    #   cov(p_k,p_l) = sum_i,j((\partial p_k / \partial a_i) * (\partial p_l / \partial a_j) * cov(a_i,a_j))
+    # where a_i are the initial parameters, p_k the final parameters,
     # and the partial derivatives are evaluated at the fit parameter values (and frequency ratio).
     # The partial derivatives all come from the parameter conversion equations above.
 
     cov = fit_result.pcov
     if fit_result.fit_function == "linear":
-        new_errors = [
-            np.sqrt(x**10 * cov[0, 0]),
-            np.sqrt(x**8 * cov[1, 1]),
-            np.sqrt(x**6 * cov[2, 2]),
-            np.sqrt(x**4 * cov[3, 3]),
-            np.sqrt(x**2 * cov[4, 4]),
-            np.sqrt(cov[5, 5]),
-        ]
+        jac = np.diag([x**5, x**4, x**3, x**2, x, 1.0])
     elif fit_result.fit_function == "log":
         g2 = new_parms[5]  # Convenient shorthand for new value of g variable.
-        new_errors = [
-            np.sqrt(cov[0, 0]),
-            np.sqrt(25 * lnx**2 * cov[0, 0] + 10 * lnx * cov[0, 1] + cov[1, 1]),
-            np.sqrt(
-                100 * lnx**4 * cov[0, 0]
-                + 80 * lnx**3 * cov[0, 1]
-                + 20 * lnx**2 * cov[0, 2]
-                + 16 * lnx**2 * cov[1, 1]
-                + 8 * lnx * cov[1, 2]
-                + cov[2, 2]
-            ),
-            np.sqrt(
-                100 * lnx**6 * cov[0, 0]
-                + 120 * lnx**5 * cov[0, 1]
-                + 60 * lnx**4 * cov[0, 2]
-                + 20 * lnx**3 * cov[0, 3]
-                + 36 * lnx**4 * cov[1, 1]
-                + 36 * lnx**3 * cov[1, 2]
-                + 12 * lnx**2 * cov[1, 3]
-                + 9 * lnx**2 * cov[2, 2]
-                + 6 * lnx * cov[2, 3]
-                + cov[3, 3]
-            ),
-            np.sqrt(
-                25 * lnx**8 * cov[0, 0]
-                + 40 * lnx**7 * cov[0, 1]
-                + 30 * lnx**6 * cov[0, 2]
-                + 20 * lnx**5 * cov[0, 3]
-                + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
-                + 24 * lnx**5 * cov[1, 2]
-                + 16 * lnx**4 * cov[1, 3]
-                + 8 * lnx**3 * cov[1, 4]
-                + 9 * lnx**4 * cov[2, 2]
-                + 12 * lnx**3 * cov[2, 3]
-                + 6 * lnx**2 * cov[2, 4]
-                + 4 * lnx**2 * cov[3, 3]
-                + 4 * lnx * cov[3, 4]
-                + cov[4, 4]
-            ),
-            np.abs(g2)
-            * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
-                + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
-                + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
-                + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
-                + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
-                + 2 * lnx / g * np.log(10) * cov[4, 5]
-                + 1 / g**2 * cov[5, 5]
-            ),
-        ]
+        scale = np.power(10, a * lnx**5 + b * lnx**4 + c * lnx**3 + d * lnx**2 + f * lnx)
+        dg = g2 * np.log(10)
+        jac = np.array(
+            [
+                [1, 0, 0, 0, 0, 0],
+                [5 * lnx, 1, 0, 0, 0, 0],
+                [10 * lnx**2, 4 * lnx, 1, 0, 0, 0],
+                [10 * lnx**3, 6 * lnx**2, 3 * lnx, 1, 0, 0],
+                [5 * lnx**4, 4 * lnx**3, 3 * lnx**2, 2 * lnx, 1, 0],
+                [
+                    dg * lnx**5,
+                    dg * lnx**4,
+                    dg * lnx**3,
+                    dg * lnx**2,
+                    dg * lnx,
+                    scale,
+                ],
+            ]
+        )
+    new_cov = jac @ cov @ jac.T
+    new_errors = list(np.sqrt(np.diag(new_cov)))
 
     return fit_result.with_options(
         params=new_parms,
         reference_frequency_Hz=new_reference_frequency,
         perror=new_errors,
+        pcov=new_cov,
     )
 
 
-- 
2.43.0


From 830c999ff74e506a9725688ca46c60142634b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 15/96] fix: count only the valid channels in the degrees of
 freedom of the Stokes I fit

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 0733008..9d6c18e 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -515,7 +515,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = np.sum(goodchan) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From 9e3ed95332e2a8b932ef3fc624c55b3c1d54eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 16/96] fix: chunk and reassemble images that fit in a single
 chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 0ef4d23296719287e0586f09011fd6dd2e2f02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 17/96] fix: do not mix chunks of other products into an
 assembled cube

---
 RMtools_3D/assemble_chunks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index c419f0b..d58b802 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -77,6 +77,14 @@ def main():
     chunkfiles = glob(
         args.chunkname[0 : filename.start()] + ".C*." + args.chunkname[filename.end() :]
     )
+    # The glob also matches other products of the chunks (e.g. cube.C0.FDF.fits
+    # for cube.C0.fits), which must not be mixed in.
+    pattern = (
+        re.escape(args.chunkname[0 : filename.start()])
+        + r"\.C\d+\."
+        + re.escape(args.chunkname[filename.end() :])
+    )
+    chunkfiles = [x for x in chunkfiles if re.fullmatch(pattern, x)]
     chunkfiles.sort()
 
     old_header = pf.getheader(chunkfiles[0])
-- 
2.43.0


From d3d4b1c87e92870f1e58f2c524c99d0f38a83baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 18/96] fix: write the RMSF FWHM map with both sky axes when
 one of them has length 1

---
 RMtools_3D/do_RMsynth_3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 593bf50..d50e126 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -476,6 +476,11 @@ def writefits(
         # Move Faraday depth axis to appropriate position to match header.
         RMSFcube = np.moveaxis(RMSFcube, 0, Ndim - freq_axis)
 
+        # The FWHM map keeps both sky axes, whatever their lengths.
+        fwhmRMSFCube = np.reshape(fwhmRMSFCube, output_axes)
+        while fwhmRMSFCube.ndim > 2:
+            fwhmRMSFCube = fwhmRMSFCube.squeeze(axis=fwhmRMSFCube.shape.index(1))
+
         # Header for outputs that are RMSF
         header["NAXIS" + str(freq_axis)] = phi2Arr_radm2.size
         header["CDELT" + str(freq_axis)] = (
-- 
2.43.0


From 4fe6be0c16bf8b28ef494ce1e1e4201335df8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 19/96] fix: keep the sky axes of RM-CLEAN cubes and iteration
 maps in place when one has length 1 or the FD axis is not last

---
 RMtools_3D/do_RMclean_3D.py | 41 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..316f4b9 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -147,20 +147,16 @@ def run_rmclean(
 
     # Move FD axis back to original position, and restore dimensionality:
     old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
+    # Array shape with the FD axis first: the remaining axes (in reverse of the
+    # FITS ordering), including any degenerate axes that were removed.
+    axes = [head["NAXIS" + str(i)] for i in range(old_Ndim, 0, -1)]
+    del axes[old_Ndim - FD_axis]
 
     # Move the FDF axis to it's original spot. Hopefully this means that all
     # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    cleanFDF = np.moveaxis(np.reshape(cleanFDF, [-1] + axes), 0, old_Ndim - FD_axis)
+    ccArr = np.moveaxis(np.reshape(ccArr, [-1] + axes), 0, old_Ndim - FD_axis)
+    residFDF = np.moveaxis(np.reshape(residFDF, [-1] + axes), 0, old_Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
@@ -306,14 +302,16 @@ def writefits(
     # Because there can be problems with different axes having different FITS keywords,
     # don't try to remove the FD axis, but just make it degenerate.
 
-    if headtemp["NAXIS"] > 2:
-        header["NAXIS3"] = 1
-        header["CTYPE3"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
-        header["CUNIT3"] = ""
-    if headtemp["NAXIS"] == 4:
-        header["NAXIS4"] = 1
-        header["CTYPE4"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
-        header["CUNIT4"] = ""
+    Ndim, FD_axis = find_axes(headtemp)
+    for i in range(1, Ndim + 1):
+        if i == FD_axis or "STOKES" in str(header.get("CTYPE" + str(i), "")).upper():
+            header["NAXIS" + str(i)] = 1
+            header["CTYPE" + str(i)] = (
+                "DEGENERATE",
+                "Axis left in to avoid FITS errors",
+            )
+            header["CUNIT" + str(i)] = ""
+    map_shape = [header["NAXIS" + str(i)] for i in range(Ndim, 0, -1)]
 
     # Save the iteration count mask
     fitsFileOut = outDir + "/" + prefixOut + "CLEAN_nIter.fits"
@@ -323,10 +321,7 @@ def writefits(
     if "STOKES" in header:
         del header["STOKES"]
     hdu0 = pf.PrimaryHDU(
-        np.expand_dims(
-            iterCountArr.astype(dtFloat),
-            axis=tuple(range(headtemp["NAXIS"] - iterCountArr.ndim)),
-        ),
+        np.reshape(iterCountArr.astype(dtFloat), map_shape),
         header,
     )
     hduLst = pf.HDUList([hdu0])
-- 
2.43.0


From b635ec3b1cd78e413689867128a5c1ed95bedc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 20/96] fix: run 3D RM-CLEAN with the requested precision

---
 RMtools_3D/do_RMclean_3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 316f4b9..6626f86 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -131,6 +131,7 @@ def run_rmclean(
         cutoff=cutoff,
         maxIter=maxIter,
         gain=gain,
+        nBits=nBits,
         verbose=verbose,
         doPlots=False,
         pool=pool,
-- 
2.43.0


From 6467e48912b83ea3df6d5d23614d056007fff5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 21/96] fix: find the other FDF components by the file name
 only, not by the directory or prefix

---
 RMtools_3D/RMpeakfit_3D.py  | 10 +++++++---
 RMtools_3D/do_RMclean_3D.py | 11 ++++-------
 RMutils/util_misc.py        | 14 ++++++++++++++
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 6e1495b..f3bd4a7 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,11 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    interp_cube_to_freq,
+    remove_header_third_fourth_axis,
+    swap_FDF_component,
+)
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -255,7 +259,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        swap_FDF_component(FDF_filename, "_real"),
         "readonly",
         memmap=True,
     )
@@ -263,7 +267,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        swap_FDF_component(FDF_filename, "_im"),
         "readonly",
         memmap=True,
     )
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 6626f86..f0e8cff 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,6 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
+from RMutils.util_misc import swap_FDF_component
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        swap_FDF_component(fitsRMSF, "_FWHM"),
         "readonly",
         memmap=True,
     )
@@ -388,16 +387,14 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        swap_FDF_component(filename, "_real"),
         "readonly",
         memmap=True,
     )
     head = HDUreal[0].header.copy()
     FDFreal = HDUreal[0].data
 
-    HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
-    )
+    HDUimag = pf.open(swap_FDF_component(filename, "_im"), "readonly", memmap=True)
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
 
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 9d6c18e..c3fdd46 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -69,6 +69,7 @@
 # =============================================================================#
 
 import math as m
+import os
 import re
 import sys
 import traceback
@@ -831,6 +832,19 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+# -----------------------------------------------------------------------------#
+def swap_FDF_component(filename, component):
+    """Get the name of the file with another component ('_real', '_im', ...) of
+    the same FDF or RMSF. Only the last such tag of the file name is swapped:
+    those in the directory names or the user's prefix are left alone."""
+    path, name = os.path.split(filename)
+    tags = list(re.finditer("_(real|im|tot)(?![a-z])", name))
+    if tags:
+        name = name[: tags[-1].start()] + component + name[tags[-1].end() :]
+
+    return os.path.join(path, name)
+
+
 # -----------------------------------------------------------------------------#
 def interp_cube_to_freq(dataArr, freqArr_Hz, freq0_Hz):
     """Linearly interpolate a cube (frequency axis first, channels in any order)
-- 
2.43.0


From d0b678f687a5ed6dd1bb271834419e87574d216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 22/96] fix: keep both sky axes of FDF cubes for peak fitting
 when one has length 1

---
 RMtools_3D/RMpeakfit_3D.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index f3bd4a7..f3c8a4a 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -281,8 +281,10 @@ def read_files(FDF_filename, freq_filename):
     if FD_axis != Ndim:
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
-    # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    # Remove degenerate axes to prevent problems with later steps, but keep both
+    # sky axes even if they have length 1.
+    while complex_cube.ndim > 3 and 1 in complex_cube.shape[1:]:
+        complex_cube = complex_cube.squeeze(axis=complex_cube.shape.index(1, 1))
 
     lam0Sq = head["LAMSQ0"]
 
@@ -301,7 +303,7 @@ def read_files(FDF_filename, freq_filename):
         "readonly",
         memmap=True,
     )
-    fwhmRMSF = HDUfwhm[0].data.squeeze()
+    fwhmRMSF = np.reshape(HDUfwhm[0].data, complex_cube.shape[1:])
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
 
-- 
2.43.0


From d94ad46a23cc895cd240cdde082a7bb88c96acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 23/96] fix: include the last row and column when extracting
 from a 2D image

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From 100c0ecb8ba4269dd88c2eae6d54608153e63215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 24/96] fix: take -1 as the axis limit wherever extract_region
 documents it

---
 RMtools_3D/extract_region.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..bf3f56d 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,10 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    if box[0] > box[1] and box[1] != -1:
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if box[2] > box[3] and box[3] != -1:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
@@ -139,6 +139,10 @@ def main():
 
     if args.zlim != None:
         zlim = args.zlim
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
     elif cube_axis > 2:
         zlim = [1, header["NAXIS" + str(cube_axis)]]
 
-- 
2.43.0


From a433b67d8692707c9aca1da6c541575f0c46084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 25/96] fix: refuse regions outside of the image instead of
 writing an empty file

---
 RMtools_3D/extract_region.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index bf3f56d..13be70d 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -155,6 +155,11 @@ def main():
     if (box[3] == -1) or (box[3] > header["NAXIS2"]):
         box[3] = header["NAXIS2"]
 
+    if (box[0] > box[1]) or (box[2] > box[3]):
+        raise Exception("Box is entirely outside of the image!")
+    if (args.zlim != None) and (zlim[0] > zlim[1]):
+        raise Exception("Third axis limits incorrect, or outside of the cube!")
+
     # Extract sub-region:
     if header["NAXIS"] == 4:
         if cube_axis == 3:
-- 
2.43.0


From cc54181afeabd49d61590f46402cada588373aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 26/96] fix: write the Faraday depth increment with full
 precision, so that long axes read back right

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index d50e126..d3ac3b4 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -403,7 +403,7 @@ def writefits(
     if not not_rmsynth:
         header["NAXIS" + str(freq_axis)] = phiArr_radm2.size
         header["CDELT" + str(freq_axis)] = (
-            np.diff(phiArr_radm2)[0],
+            (float(phiArr_radm2[-1]) - float(phiArr_radm2[0])) / (phiArr_radm2.size - 1),
             "[rad/m^2] Coordinate increment at reference point",
         )
         header["CRPIX" + str(freq_axis)] = phiArr_radm2.size // 2 + 1
@@ -484,7 +484,7 @@ def writefits(
         # Header for outputs that are RMSF
         header["NAXIS" + str(freq_axis)] = phi2Arr_radm2.size
         header["CDELT" + str(freq_axis)] = (
-            np.diff(phi2Arr_radm2)[0],
+            (float(phi2Arr_radm2[-1]) - float(phi2Arr_radm2[0])) / (phi2Arr_radm2.size - 1),
             "[rad/m^2] Coordinate increment at reference point",
         )
         header["CRPIX" + str(freq_axis)] = phi2Arr_radm2.size // 2 + 1
-- 
2.43.0


From 32e027e6730891f5cc5114a4f482190cc3ba22ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 27/96] fix: do not continue below the cutoff when
 do_rmclean_hogbom is called without a window

---
 RMutils/util_RM.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 366122f..01052eb 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -485,7 +485,7 @@ def do_rmclean_hogbom(
     pool=None,
     chunksize=None,
     log=print,
-    window=0,
+    window=np.nan,
 ) -> RMCleanResults:
     """Perform Hogbom CLEAN on a cube of complex Faraday dispersion functions
     given a cube of rotation measure spread functions.
@@ -505,7 +505,8 @@ def do_rmclean_hogbom(
     pool           ... thread pool for multithreading (from schwimmbad) [None]
     chunksize      ... number of pixels to be given per thread (for 3D) [None]
     log            ... function to be used to output messages [print]
-    window         ... Only clean in ±RMSF_FWHM window around first peak [False]
+    window         ... threshold of the deeper clean in ±RMSF_FWHM windows around
+                       the first components [NaN = no windowed clean]
 
     """
 
@@ -680,7 +681,7 @@ class RMcleaner:
         cutoff=0,
         nbits=32,
         verbose=False,
-        window=0,
+        window=np.nan,
     ):
         self.RMSFArr = RMSFArr
         self.phi2Arr_radm2 = phi2Arr_radm2
-- 
2.43.0


From fc56f7eac2761e21954f9abcdc0714b6fc6fbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 28/96] fix: run 1D RM-CLEAN with the requested precision

---
 RMtools_1D/do_RMclean_1D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 612afbe..2ece80a 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -137,6 +137,7 @@ def run_rmclean(
         cutoff=cutoff,
         maxIter=maxIter,
         gain=gain,
+        nBits=nBits,
         verbose=verbose,
         doPlots=showPlots,
         window=window,
-- 
2.43.0


From 32395cb94fa58e7d302974f4aefb1e7da78e2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 29/96] fix: evaluate the slab and internal-dispersion models
 at vanishing Faraday widths, which their priors allow

---
 RMtools_1D/models_ns/m12.py | 6 +++++-
 RMtools_1D/models_ns/m5.py  | 3 +--
 RMtools_1D/models_ns/m6.py  | 6 ++----
 RMtools_1D/models_ns/m7.py  | 3 ++-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/models_ns/m12.py b/RMtools_1D/models_ns/m12.py
index 8d9d0d4..1e5d945 100644
--- a/RMtools_1D/models_ns/m12.py
+++ b/RMtools_1D/models_ns/m12.py
@@ -34,7 +34,11 @@ def model(pDict, lamSqArr_m2):
         * np.exp(
             2j * (np.radians(pDict["psi0_deg"]) + pDict["RM_screen"] * lamSqArr_m2)
         )
-        * ((1 - np.exp(-1.0 * para_S)) / para_S)
+        * np.where(
+            para_S == 0,
+            1,
+            -np.expm1(-1.0 * para_S) / np.where(para_S == 0, 1, para_S),
+        )
         * np.exp(-2.0 * pDict["sigmaRM_radm2_FG"] ** 2.0 * lamSqArr_m2**2.0)
     )
 
diff --git a/RMtools_1D/models_ns/m5.py b/RMtools_1D/models_ns/m5.py
index 16ede4d..afdc5e2 100644
--- a/RMtools_1D/models_ns/m5.py
+++ b/RMtools_1D/models_ns/m5.py
@@ -32,8 +32,7 @@ def model(pDict, lamSqArr_m2):
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   (0.5*pDict["deltaRM_radm2"] +
                                    pDict["RM_radm2"]) * lamSqArr_m2))
-             * np.sin(pDict["deltaRM_radm2"] * lamSqArr_m2) /
-               (pDict["deltaRM_radm2"] * lamSqArr_m2))
+             * np.sinc(pDict["deltaRM_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m6.py b/RMtools_1D/models_ns/m6.py
index aa23660..e28b706 100644
--- a/RMtools_1D/models_ns/m6.py
+++ b/RMtools_1D/models_ns/m6.py
@@ -39,10 +39,8 @@ def model(pDict, lamSqArr_m2):
     quArr2 = pArr2 * np.exp( 2j * (np.radians(pDict["psi02_deg"]) +
                                    (0.5*pDict["deltaRM2_radm2"] +
                                     pDict["RM2_radm2"]) * lamSqArr_m2))
-    quArr = (quArr1 * np.sin(pDict["deltaRM1_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM1_radm2"] * lamSqArr_m2) +
-             quArr2 * np.sin(pDict["deltaRM2_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM2_radm2"] * lamSqArr_m2))
+    quArr = (quArr1 * np.sinc(pDict["deltaRM1_radm2"] * lamSqArr_m2 / np.pi) +
+             quArr2 * np.sinc(pDict["deltaRM2_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m7.py b/RMtools_1D/models_ns/m7.py
index 50c594f..1e01fe1 100644
--- a/RMtools_1D/models_ns/m7.py
+++ b/RMtools_1D/models_ns/m7.py
@@ -33,7 +33,8 @@ def model(pDict, lamSqArr_m2):
              2j * lamSqArr_m2 * pDict["deltaRM_radm2"])
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   pDict["RM_radm2"] * lamSqArr_m2)) *
-            (1 - np.exp(-1.*para_S)) / para_S)
+            np.where(para_S == 0, 1, -np.expm1(-1.*para_S) /
+                     np.where(para_S == 0, 1, para_S)))
     # fmt: on
 
     return quArr
-- 
2.43.0


From 828d43731ba6d1f93e7d9e8fff82192e13bd2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 30/96] fix: include the penalty of the number of parameters in
 the AICc of QU-fitting

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..f6cfb6f 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From 7a6e5e995d32c1dd1bd207804b0e3d444cad39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 31/96] fix: leave flagged channels out of the number of data
 of QU-fitting, and count both Stokes in the chi-square

---
 RMtools_1D/do_QUfit_1D_mnest.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index f6cfb6f..0ab1270 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,8 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    # (flagged channels are not data)
+    nData = float(np.isfinite(qArr).sum() + np.isfinite(uArr).sum())
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
@@ -640,9 +641,9 @@ def chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model):
     # Evaluate the model and calculate chisq
     pDict = {k: v for k, v in zip(parNames, p)}
     quMod = model(pDict, lamSqArr_m2)
-    chisq = np.nansum(
-        np.power((qArr - quMod.real) / dqArr, 2)
-        + np.power((uArr - quMod.imag) / duArr, 2)
+    # (channels flagged in only one of Stokes Q and U count in the other)
+    chisq = np.nansum(np.power((qArr - quMod.real) / dqArr, 2)) + np.nansum(
+        np.power((uArr - quMod.imag) / duArr, 2)
     )
 
     return chisq
-- 
2.43.0


From 8fb8d117bafac03dcc0fc7be84c15dfe088f7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 32/96] fix: decide on the angle wrap of QU-fitting posteriors
 by their circular mean

---
 RMtools_1D/do_QUfit_1D_mnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 0ab1270..3d0edb1 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -412,8 +412,9 @@ def run_qufit(
             and wraps[i] == "periodic"
         ):
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
-            summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
-            if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
+            # (not judged by the median, which lies in between when the wrap
+            # splits the samples evenly)
+            if np.mean(np.cos(np.radians(2.0 * result.samples[:, i]))) > 0:
                 # Shift PA by 90 deg
                 result.samples[:, i] += 90.0
                 # Keep all values within [0, 180)
-- 
2.43.0


From a10bd1c453228e97fb96749260024befd95f308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 33/96] fix: accept the input columns with channel widths in
 rmtools_bwdepol

---
 RMtools_1D/rmtools_bwdepol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..57277a2 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
@@ -1260,7 +1261,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 00633dbcab87f4d25ec30723c331bf02867f99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 34/96] fix: evaluate the Stokes I model of rmtools_bwdepol
 with the function it was fitted with

---
 RMtools_1D/rmtools_bwdepol.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 57277a2..4bfae3c 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,10 +47,11 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
+    renormalize_StokesI_model,
     toscalar,
 )
 from RMutils.util_plotTk import (
@@ -1064,13 +1065,11 @@ def run_adjoint_rmsynth(
         IArr = np.ones_like(QArr)
         dIArr = np.zeros_like(QArr)
 
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
     dQUArr = (dQArr + dUArr) / 2.0
 
     # Fit the Stokes I spectrum and create the fractional spectra
     IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
+        freqArr=freqArr_Hz,
         IArr=IArr,
         QArr=QArr,
         UArr=UArr,
@@ -1087,7 +1086,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1216,7 +1215,8 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    fit_result = renormalize_StokesI_model(fit_result, freq0_Hz)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From ca032c48fb5b1f4d53d445cea21e25680b6267fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 35/96] fix: report the theoretical noise that the verbose
 output of rmtools_bwdepol prints

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 4bfae3c..95acefe 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1248,7 +1248,7 @@ def run_adjoint_rmsynth(
     mDict["freq0_Hz"] = toscalar(freq0_Hz)
     mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
     mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["dFDFth"] = toscalar(dFDFth)
     mDict["units"] = units
 
     if fit_result.fitStatus >= 128:
-- 
2.43.0


From b4e88c14445dd6b367bea2642051050d524647b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 36/96] fix: evaluate the RMSF of rmtools_bwdepol on the
 Faraday depths it is reported for

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 95acefe..a5b3e77 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -630,7 +630,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1350,7 +1350,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From 0811d397267aba08454ad05759eded7bac8d5b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 37/96] fix: leave channels flagged in Stokes U or in the
 errors out of all results of rmtools_bwdepol

---
 RMtools_1D/rmtools_bwdepol.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index a5b3e77..2b3029f 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1156,6 +1156,9 @@ def run_adjoint_rmsynth(
             % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
         )
 
+    # Channels flagged in either Stokes Q or U do not contribute to the FDF
+    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+
     # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
     if weightType == "variance":
         weightArr = 1.0 / np.power(dQUArr, 2.0)
@@ -1181,7 +1184,9 @@ def run_adjoint_rmsynth(
     )
 
     # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    adjoint_info = adjoint_theory(
+        adjoint_vars, np.nan_to_num(dQUArr), show_progress=False
+    )
     phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
 
     # calculate peak RM
@@ -1196,7 +1201,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
@@ -1221,7 +1226,7 @@ def run_adjoint_rmsynth(
 
     # Calculate the theoretical noise in the FDF !!
     # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    weightArr = np.where(np.isnan(weightArr) | flagArr, 0.0, weightArr)
     dFDFth = np.sqrt(
         np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
     )
-- 
2.43.0


From b6dad745db4f8d6733488ac2f4e7464f95e7f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 38/96] fix: square the Faraday dispersion in the Burn
 depolarisation of simulated spectra

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index c3fdd46..c7cdd3e 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1166,7 +1166,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * sigmaRMArr_radm2**2.0 * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From f63a77481ee0afc14e9b120c26ac458b941f3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 39/96] fix: give equatorial test images valid celestial axis
 types

---
 RMutils/util_FITS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64335af..d1d80b6 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -442,8 +442,8 @@ def create_simple_fits_hdu(
         xCoordStr = "GLON-CAR"
         yCoordStr = "GLAT-CAR"
     else:
-        xCoordStr = "RA-SIN"
-        yCoordStr = "DEC-SIN"
+        xCoordStr = "RA---SIN"
+        yCoordStr = "DEC--SIN"
 
     # Create the data array and insert into a new HDU
     dataArr = np.zeros(shape, dtype="f4")
-- 
2.43.0


From 4c2df2c32a544cce620e31d3b5658bf811918e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 40/96] fix: accept lists for the layers of simulated spectra,
 as for the Burn components

---
 RMutils/util_misc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index c7cdd3e..df46949 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1230,7 +1230,6 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
 
     # Convert the inputs to column vectors
     fracPolArr = fracPolArr.reshape((nComps, 1))
-    psi0Arr_deg = psi0Arr_deg.reshape((nComps, 1))
     RMArr_radm2 = RMArr_radm2.reshape((nComps, 1))
 
     # Calculate the p, q and u Spectra for all components
-- 
2.43.0


From d5f160d98ce98118a9198d1d1d32abd0f82a7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 41/96] fix: leave flagged data out of the default centre of
 the additional scatter

---
 RMutils/util_RM.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 01052eb..b95efd8 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1172,12 +1172,15 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     input data is drawn from a normal distribution. The total uncertainty on
     each data point Y_i is modelled as dYtot_i**2 = dY_i**2 + dYadd**2."""
 
+    # Flagged data points are left out.
+    good = np.isfinite(yArr) & np.isfinite(dyArr)
+
     # Measure the median and MADFM of the input data if not provided.
     # Used to overplot a normal distribution when debugging.
     if yMed is None:
-        yMed = np.median(yArr)
+        yMed = np.median(yArr[good])
     if noise is None:
-        noise = MAD(yArr)
+        noise = MAD(yArr[good])
 
     # Sample the PDF of the additional noise term from a limit near zero to
     # a limit of the range of the data, including error bars
@@ -1187,8 +1190,6 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    # Flagged data points are left out of both terms.
-    good = np.isfinite(yArr) & np.isfinite(dyArr)
     nData = np.sum(good)
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
-- 
2.43.0


From 4bf1ddeee7baae259767d0626bb9f148504b3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 42/96] fix: keep both sky axes of the Stokes I cube for peak
 fitting when one has length 1

---
 RMtools_3D/RMpeakfit_3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index f3c8a4a..cb31d14 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -81,6 +81,8 @@ def pixelwise_peak_fitting(
         speed_of_light.value / np.sqrt(lam0Sq) if lam0Sq > 0 else np.nanmean(freqArr_Hz)
     )
     if stokesIcube is not None:
+        # Restore sky axes of length 1, which readFitsCube removes from 4D cubes
+        stokesIcube = np.reshape(stokesIcube, (stokesIcube.shape[0],) + map_size)
         Ifreq0Arr = interp_cube_to_freq(stokesIcube, freqArr_Hz, freq0_Hz)
     else:
         Ifreq0Arr = np.ones(map_size)
-- 
2.43.0


From 980116e242108782613d62978eb970e73dbf21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 43/96] fix: divide the noise by the Stokes I model too in the
 FDF noise of peak fitting

---
 RMtools_3D/RMpeakfit_3D.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index cb31d14..cc12bf9 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -99,8 +99,10 @@ def pixelwise_peak_fitting(
         else:
             raise Exception("Invalid weight type; must be 'uniform' or 'variance'")
 
-        dFDF = Ifreq0Arr * np.sqrt(
-            np.sum(weightArr**2 * np.nan_to_num(noiseArr) ** 2)
+        # As in RMsynth1D: noise of the fractional spectra, scaled back to flux units
+        dquArr = np.nan_to_num(noiseArr)[:, np.newaxis, np.newaxis] / stokesIcube
+        dFDF = np.abs(Ifreq0Arr) * np.sqrt(
+            np.sum(weightArr[:, np.newaxis, np.newaxis] ** 2 * dquArr**2, axis=0)
             / (np.sum(weightArr)) ** 2
         )
 
-- 
2.43.0


From b50a1360d595510adb5c84e5da3c80b1c66d301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 44/96] fix: use the bias-corrected polarised intensity for
 fracPol in RMpeakfit_3D, as in RMsynth1D

---
 RMtools_3D/RMpeakfit_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index cc12bf9..8f7b8f5 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -133,7 +133,7 @@ def pixelwise_peak_fitting(
             mDict["freq0_Hz"] = freq0_Hz
             mDict["fwhmRMSF"] = fwhmRMSF_pix
             mDict["Ifreq0"] = Ifreq0Arr[xarr[i], yarr[i]]
-            mDict["fracPol"] = mDict["ampPeakPIfit"] / mDict["Ifreq0"]
+            mDict["fracPol"] = mDict["ampPeakPIfitEff"] / mDict["Ifreq0"]
             mDict["min_freq"] = float(np.min(freqArr_Hz))
             mDict["max_freq"] = float(np.max(freqArr_Hz))
             mDict["N_channels"] = lamSqArr_m2.size
-- 
2.43.0


From cc9f1fefd24b9d91a3ac4ba6702fe052ca9153bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 45/96] fix: fit Stokes I cubes whose header has no BUNIT

---
 RMtools_3D/do_fitIcube.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..0d5e23b 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -342,8 +342,7 @@ def savefits_mask(data, header, outDir, prefixOut, dtFloat):
     headMask = remove_header_third_fourth_axis(header=header)
     headMask["DATAMAX"] = 1
     headMask["DATAMIN"] = 0
-    if "BUNIT" in headMask:
-        del headMask["BUNIT"]
+    headMask.remove("BUNIT", ignore_missing=True)
 
     mskArr = np.where(data > 0, 1.0, np.nan).astype(dtFloat)
     MaskfitsFile = os.path.join(outDir, prefixOut + "mask.fits")
@@ -563,7 +562,7 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    headcoeff.remove("BUNIT", ignore_missing=True)
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From 6a7e716841293ce83cae230e52b8cc920f1a3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 46/96] fix: fit Stokes I cubes with a sky axis of length 1

---
 RMtools_3D/do_fitIcube.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 0d5e23b..2294419 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -214,6 +214,9 @@ def open_datacube(fitsI, verbose=False):
     # Sanity check on header dimensions
     print("Reading FITS cube header from '%s':" % fitsI)
     header, datacube = readFitsCube(fitsI, verbose)
+    # Restore sky axes of length 1, which readFitsCube removes from 4D cubes
+    if header["NAXIS"] > 3 and datacube.ndim < 3:
+        datacube = np.reshape(datacube, (-1, header["NAXIS2"], header["NAXIS1"]))
 
     nDim = datacube.ndim
     if nDim < 3 or nDim > 4:
@@ -514,10 +517,10 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
+    datacube = np.reshape(datacube, (datacube.shape[0],) + mskSrc.shape)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From e7dd47f8443186a8a0b08db8494c0c31c8e04e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 47/96] fix: describe the frequency axis in the Stokes I model
 cube when it was the fourth axis

---
 RMtools_3D/do_fitIcube.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 2294419..aa75518 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,7 +45,7 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
@@ -387,6 +387,17 @@ def savefits_model_I(data, header, outDir, prefixOut):
     nDim = data.ndim
     nBits = np.abs(header["BITPIX"])
 
+    # The model cube has no degenerate axes: where one comes before the frequency
+    # axis, move the description of the frequency axis to the last axis of the cube.
+    freq_axis = find_freq_axis(header)
+    if freq_axis > nDim:
+        header = header.copy()
+        for key in ["NAXIS", "CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"]:
+            if key + str(freq_axis) in header:
+                header[key + str(nDim)] = header[key + str(freq_axis)]
+            else:
+                header.remove(key + str(nDim), ignore_missing=True)
+
     headModelCube = strip_fits_dims(header=header, minDim=nDim)
     headModelCube["NAXIS1"] = header["NAXIS1"]
     headModelCube["NAXIS2"] = header["NAXIS2"]
-- 
2.43.0


From 51d109b49ca654cde50de57b2ef969325c167cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 48/96] fix: digits of the speed of light in the Stokes I model
 re-referencing

---
 RMtools_3D/rescale_I_model_3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..8a86407 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -51,6 +51,7 @@ from functools import partial
 
 import astropy.io.fits as pf
 import numpy as np
+from astropy.constants import c as speed_of_light
 
 from RMutils.util_misc import FitResult, renormalize_StokesI_model
 
@@ -154,7 +155,7 @@ def command_line():
     if args.lambda2_0 is not None:
         FDF_header = pf.getheader(args.lambda2_0)
         lam0Sq_m2 = FDF_header["LAMSQ0"]
-        freq0 = 2.997924538e8 / np.sqrt(lam0Sq_m2)
+        freq0 = speed_of_light.value / np.sqrt(lam0Sq_m2)
         new_freq_map = np.ones_like(old_reffreq_map) * freq0
     elif args.new_reffreq is not None:
         new_freq_map = np.ones_like(old_reffreq_map) * args.new_reffreq
-- 
2.43.0


From 7e600eb7f9024cd7f0698efe2daf9519edeadefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 49/96] fix: write all coefficient maps up to the highest order
 of the re-referenced model

---
 RMtools_3D/rescale_I_model_3D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index 8a86407..3028105 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -323,9 +323,9 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    # The highest good plane gives the order (planes below it can be all zero).
+    good_planes = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    max_order = np.max(np.where(good_planes[::-1])[0], initial=-1)
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From a0b116e7b9de6d2dfbb70297b6fe6c5299502509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 50/96] fix: fit the Stokes I model in double precision
 whatever the precision of the data

---
 RMutils/util_misc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index df46949..46b9c02 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -462,6 +462,12 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
     Returns:
         FitResult: Model information.
     """
+    # Fit in double precision: the numerical derivatives taken by the fitter are
+    # meaningless (wrong fits and errors) with single-precision inputs.
+    freqArr, IArr, dIArr = (
+        np.asarray(arr, dtype="float64") for arr in (freqArr, IArr, dIArr)
+    )
+
     # Frequency axis must be in GHz to avoid overflow errors
     goodchan = np.logical_and(
         np.isfinite(IArr), np.isfinite(dIArr)
-- 
2.43.0


From c8757b2e202c561a9072a16191efdaa4f571e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 51/96] fix: use the mean frequency as reference for
 super-resolution without a fitted Stokes I model

---
 RMtools_1D/do_RMsynth_1D.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 6ad8400..71cdae7 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -347,10 +347,14 @@ def run_rmsynth(
     # Convert Stokes I model to polarization reference frequency. If lambda^2_0 is
     # non-zero, use that as polarization reference frequency and adapt Stokes I model.
     # If lambda^2_0 is zero, make polarization reference frequency equal to
-    # Stokes I reference frequency.
+    # Stokes I reference frequency, or to the mean frequency (as in RMsynth3D)
+    # if there is no fitted Stokes I model.
 
     if lam0Sq_m2 == 0:  # Rudnick-Cotton adapatation
         freq0_Hz = fit_result.reference_frequency_Hz
+        if modStokesI is not None or freq0_Hz == 1:  # no fitted model
+            freq0_Hz = np.nanmean(freqArr_Hz)
+            fit_result = fit_result.with_options(reference_frequency_Hz=freq0_Hz)
     else:  # standard RM-synthesis
         freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
         if modStokesI is None:
-- 
2.43.0


From 972ef96e7b846a3dfe5ca809532169593d275deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 52/96] fix: pass file names, not lists, in the clean model
 command line

---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fe2e9387f81e759c6f63ad2ad93c1fc95559a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 53/96] fix: do not apply Stokes I twice in the Q and U
 predicted from clean components

---
 RMtools_1D/clean_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..246d7be 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -22,7 +22,8 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
             phiArr: array of Faraday depth values for the clean component array
-            CCarr: array of (complex) clean components.
+            CCarr: array of (complex) clean components, in flux units at the
+                        reference wavelength (as produced by RMclean1D).
             lambdaSq_0: scalar value of the reference wavelength squared to
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
@@ -56,7 +57,12 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are already multiplied by Stokes I at the reference frequency.
+    QUarr = (
+        StokesI_model
+        / calculate_StokesI_model(fit_result, fit_result.reference_frequency_Hz)
+        * quarr
+    )
 
     return QUarr, StokesI_model
 
-- 
2.43.0


From bedddfcbb32fb320afe382e3ab0aa0b36fec37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 54/96] fix: use the reference frequency and function of the
 Stokes I fit in the clean model

---
 RMtools_1D/clean_model.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 246d7be..81da2fa 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,9 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(
+    freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None, freq0_Hz=None, fit_function="log"
+):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -28,11 +30,12 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            freq0_Hz: reference frequency of the Stokes I model. If None, the
+                    frequency corresponding to lambdaSq_0.
+            fit_function: 'linear' or 'log', type of Stokes I polynomial.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
-
-    CURRENTLY ASSUMES THAT STOKES I MODEL IS LOG MODEL. SHOULD BE FIXED!
     """
 
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)
@@ -40,7 +43,13 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     a = lambdaSqArr_m2 - lambdaSq_0
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
-    # TODO: Pass in fit function, which is currently not output by rmsynth1d
+    if freq0_Hz is None:
+        freq0_Hz = (
+            speed_of_light.value / np.sqrt(lambdaSq_0)
+            if lambdaSq_0 > 0
+            else np.nanmean(freqArr)
+        )
+
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -49,11 +58,11 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=freq0_Hz,
         dof=0,
         pcov=None,
         perror=None,
-        fit_function="log",
+        fit_function=fit_function,
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
@@ -147,7 +156,17 @@ def main():
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    with open(args.rmSynthfile[0], "r") as f:
+        synth_mDict = json.load(f)
+    QUarr, Imodel = calculate_QU_model(
+        freqArr,
+        phiArr,
+        CCArr,
+        lambdaSq_0,
+        Iparms,
+        freq0_Hz=synth_mDict.get("freq0_Hz"),
+        fit_function=synth_mDict.get("fit_function", "log"),
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0


From 776a144ba387c6d823ea453ae32740693b438ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 55/96] fix: read channel frequencies and weights as floating
 point in the RMSF report

---
 RMtools_1D/calculate_RMSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 486251a..8216a72 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -105,7 +105,7 @@ def main():
     # Order of priority: frequency file takes precedence over -i flag.
     #                   weight file takes precedence over 2nd column of frequency file.
     if args.freqFile != None:
-        data = np.genfromtxt(args.freqFile, encoding=None, dtype=None)
+        data = np.genfromtxt(args.freqFile, encoding=None, dtype=float)
         if len(data.shape) == 2:
             freq_array = data[:, 0]
             weights_array = data[:, 1]
@@ -122,7 +122,7 @@ def main():
         weights_array = np.ones_like(freq_array)
 
     if args.weightFile != None:
-        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)
+        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=float)
         if len(weights_array) != len(freq_array):
             raise Exception(
                 "Weights file does not have same number of channels as frequency source"
-- 
2.43.0


From abecdfc387cbc7b914d7ecc1af0ab22ad4eeb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 56/96] fix: median absolute deviation of multi-dimensional
 arrays along any axis or none

---
 RMutils/util_misc.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 46b9c02..059ea92 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1037,12 +1037,8 @@ def MAD(a, c=0.6745, axis=None):
         d = ma.median(a)
         m = ma.median(ma.fabs(a - d) / c)
     else:
-        d = ma.median(a, axis=axis)
-        if axis > 0:
-            aswp = ma.swapaxes(a, 0, axis)
-        else:
-            aswp = a
-        m = ma.median(ma.fabs(aswp - d) / c, axis=0)
+        d = ma.median(a, axis=axis, keepdims=True)
+        m = ma.median(ma.fabs(a - d) / c, axis=axis)
 
     return m
 
-- 
2.43.0


From 39d076cba214ae54146f6e0864f1aa34db978d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 57/96] fix: read configuration files with a delimiter inside a
 comment

---
 RMutils/util_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 059ea92..b9babc2 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -207,9 +207,9 @@ def config_read(filename, delim="=", doValueSplit=True):
         line = line.rstrip("\n\r")
 
         # Filter for comments and blank lines
-        if not comment.match(line) and keyVal.match(line):
-            # Weed out internal comments & split on 1st space
-            line = comment.sub("", line)
+        line = comment.sub("", line)
+        if keyVal.match(line):
+            # Split on the first delimiter
             keyword, value = line.split(delim, 1)
 
             # If the line contains a value
-- 
2.43.0


From bf3d438077f0511f95efed0826a5624cc752d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 58/96] fix: carry seconds that round up to 60 in deg2dms,
 whatever the number of decimals

---
 RMutils/util_misc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index b9babc2..1772936 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -328,17 +328,17 @@ def deg2dms(deg, delim=":", doSign=False, nPlaces=2):
         mm = int(rmndr)
         ss = 60.0 * (rmndr - mm)
 
+        if nPlaces > 0:
+            formatCode = "%0" + "%s.%sf" % (str(2 + nPlaces + 1), str(nPlaces))
+        else:
+            formatCode = "%02.0f"
         # If rounding up to 60, carry to the next term
-        if float("%05.2f" % ss) >= 60.0:
+        if float(formatCode % ss) >= 60.0:
             mm += 1.0
-            ss = ss - 60.0
+            ss = 0.0
         if float("%02d" % mm) >= 60.0:
             dd += 1.0
             mm = mm - 60.0
-        if nPlaces > 0:
-            formatCode = "%0" + "%s.%sf" % (str(2 + nPlaces + 1), str(nPlaces))
-        else:
-            formatCode = "%02.0f"
         if sign > 0:
             if doSign:
                 formatCode = "+%02d%s%02d%s" + formatCode
-- 
2.43.0


From 032685c4fdc0fef8ba7b5c4cba58fe1835022d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 59/96] fix: remove the PCi_j and CDi_j cards of stripped FITS
 axes

---
 RMutils/util_FITS.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index d1d80b6..d43b89e 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -226,16 +226,17 @@ def strip_fits_dims(data=None, header=None, minDim=2, forceCheckDims=0):
                     except Exception:
                         pass
 
-        # Delete the PC array keyword entries
+        # Delete the PC and CD array keyword entries
         for i in range(1, naxis + 1):
             for j in range(1, naxis + 1):
-                key = "PC" + "%03d" % i + "%03d" % j
-                if i > minDim or j > minDim:
-                    if key in header:
-                        try:
-                            del header[key]
-                        except Exception:
-                            pass
+                for fmt in ["PC%03d%03d", "PC%d_%d", "CD%d_%d"]:
+                    key = fmt % (i, j)
+                    if i > minDim or j > minDim:
+                        if key in header:
+                            try:
+                                del header[key]
+                            except Exception:
+                                pass
 
         header["NAXIS"] = minDim
         header["WCSAXES"] = minDim
-- 
2.43.0


From 874541d273e6e32d626069bb2e22fbe004cf191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 60/96] fix: sign of the pixel scale of 2D headers, and pixel
 scale at longitude zero

---
 RMutils/util_FITS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index d43b89e..3004eb5 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -139,10 +139,13 @@ def mkWCSDict(header, wrapX180=False, forceCheckDims=5):
     else:
         crpix = np.array(wcs2D.wcs.crpix)
         [[x1, y1]] = wcs2D.wcs_pix2world([crpix], 1)
-        crpix -= 1.0
+        crpix += 1.0
         [[x2, y2]] = wcs2D.wcs_pix2world([crpix], 1)
     cosy = m.cos(m.radians((y1 + y2) / 2.0))
-    w["xdelt"] = (x2 - x1) * cosy
+    dx = x2 - x1
+    if w["coord_type"] != "":
+        dx = (dx + 180.0) % 360.0 - 180.0  # the two pixels may be on either side of 0
+    w["xdelt"] = dx * cosy
     w["ydelt"] = y2 - y1
     w["pixscale"] = abs((w["xdelt"] + w["xdelt"]) / 2.0)
 
-- 
2.43.0


From eda832becfe186ba98549ef66cd350180f93de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 61/96] fix: wrap the corners of an image before taking its
 bounds in mkWCSDict

---
 RMutils/util_FITS.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 3004eb5..64e3599 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -104,6 +104,8 @@ def mkWCSDict(header, wrapX180=False, forceCheckDims=5):
     except Exception:
         # Deprecated version of the function
         a = wcs2D.calcFootprint()
+    if wrapX180:
+        a[:, 0] = np.where(a[:, 0] > 180.0, a[:, 0] - 360.0, a[:, 0])
     w["xmin"] = np.hsplit(a, 2)[0].min()
     w["xmax"] = np.hsplit(a, 2)[0].max()
     w["ymin"] = np.hsplit(a, 2)[1].min()
@@ -115,11 +117,6 @@ def mkWCSDict(header, wrapX180=False, forceCheckDims=5):
         )
         w["zmin"] = min([z1, z2])
         w["zmax"] = max([z1, z2])
-    if wrapX180:
-        if w["xmin"] > 180.0:
-            w["xmin"] = w["xmin"] - 360.0
-        if w["xmax"] > 180.0:
-            w["xmax"] = w["xmax"] - 360.0
 
     # Set the type of position coordinate axes
     if wcs2D.wcs.lngtyp == "RA":
-- 
2.43.0


From e8e570b39f4806dc64cbbe3a1f7ce5bbc45392ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 62/96] fix: channel limits of FITS sub-images

---
 RMutils/util_FITS.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64e3599..a40e79c 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -358,20 +358,23 @@ def get_subfits(
     yMax_pix = min(yCentInt_pix + radY_pix, w["header2D"]["NAXIS2"] - 1)
     zMin_chan = None
     zMax_chan = None
-    if zMin_w and zMax_w and w["header3D"]["NAXIS"] > 2:
-        zMin_chan = max(m.ceil(world2chan(w, zMin_w)), 0)
-        zMax_chan = min(m.floor(world2chan(w, zMax_w)), w["header3D"]["NAXIS3"] - 1)
+    if zMin_w is not None and zMax_w is not None and "header3D" in w:
+        zLims = pw.WCS(w["header3D"]).wcs_world2pix(
+            [(w["xcent"], w["ycent"], z) for z in (zMin_w, zMax_w)], 0
+        )[:, 2]
+        zMin_chan = max(m.ceil(min(zLims)), 0)
+        zMax_chan = min(m.floor(max(zLims)), w["header3D"]["NAXIS3"] - 1)
 
     # Shift the refpix to reflect the new offset
     headSub = hduLst[0].header.copy()
     headSub["CRPIX1"] = hduLst[0].header["CRPIX1"] - xMin_pix
     headSub["CRPIX2"] = hduLst[0].header["CRPIX2"] - yMin_pix
-    if zMin_chan and zMax_chan:
+    if zMin_chan is not None:
         headSub["CRPIX3"] = hduLst[0].header["CRPIX3"] - zMin_chan
 
     # Slice the data
     nAxis = len(hduLst[0].data.shape)
-    if zMin_chan and zMax_chan:
+    if zMin_chan is not None:
         if nAxis == 2:
             dataSub = hduLst[0].data[yMin_pix : yMax_pix + 1, xMin_pix : xMax_pix + 1]
         elif nAxis == 3:
-- 
2.43.0


From 9babf9f9bf9c8b5be7c0fa7fbf7ee074cfb86efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 63/96] fix: read the beam from the AIPS history of a FITS
 header

---
 RMutils/util_FITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index a40e79c..806e40e 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -279,7 +279,7 @@ def get_beam_from_header(header):
     bmHistPat = re.compile(beamHistStr)
     if bmaj is None or bmin is None:
         try:
-            history = header.get_history()
+            history = list(header["HISTORY"])
             history.reverse()
             for i in range(len(history)):
                 mch = bmHistPat.match(history[i])
-- 
2.43.0


From 3acf1ab74ef25e417603a103f787eabfa63958ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 64/96] fix: shape in the header of blank FITS sub-images

---
 RMutils/util_FITS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 806e40e..621eb6e 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -410,13 +410,13 @@ def get_subfits(
     hduLst.close()
 
     # Update the sub header
+    headSub["NAXIS1"] = dataSub.shape[-1]
+    headSub["NAXIS2"] = dataSub.shape[-2]
+    if nAxis > 2:
+        headSub["NAXIS3"] = dataSub.shape[-3]
     try:
         headSub["DATAMIN"] = np.nanmin(dataSub.flatten())
         headSub["DATAMAX"] = np.nanmax(dataSub.flatten())
-        headSub["NAXIS1"] = dataSub.shape[-1]
-        headSub["NAXIS2"] = dataSub.shape[-2]
-        if nAxis > 2:
-            headSub["NAXIS3"] = dataSub.shape[-3]
     except Exception:
         pass
 
-- 
2.43.0


From f48cef0b033be0c77f49118a5a6e929ed951492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 65/96] fix: return nothing for FITS sub-images outside the
 data

---
 RMutils/util_FITS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 621eb6e..3040e88 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -365,6 +365,15 @@ def get_subfits(
         zMin_chan = max(m.ceil(min(zLims)), 0)
         zMax_chan = min(m.floor(max(zLims)), w["header3D"]["NAXIS3"] - 1)
 
+    # No overlap between the sub-image and the data
+    if (
+        xMin_pix > xMax_pix
+        or yMin_pix > yMax_pix
+        or (zMin_chan is not None and zMin_chan > zMax_chan)
+    ):
+        hduLst.close()
+        return None, None
+
     # Shift the refpix to reflect the new offset
     headSub = hduLst[0].header.copy()
     headSub["CRPIX1"] = hduLst[0].header["CRPIX1"] - xMin_pix
-- 
2.43.0


From 98415e6e2082b1631afd5940512cb54e799b3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 66/96] fix: accept spectra with Stokes Q zero but not U from
 FITS cubes

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..df009e2 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -243,7 +243,7 @@ def main():
         else:
             args.units = "Jy/beam"
 
-    if (Q_array != 0).sum() == 0 and (Q_array != 0).sum() == 0:
+    if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:
         raise Exception("All QU values zero! Maybe invalid pixel?")
 
     if args.StokesI_fits is not None:
-- 
2.43.0


From b2b30d232d7ef6c28e99e251534b49d8bf44c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 67/96] fix: refuse positions outside the image when extracting
 a spectrum from FITS cubes

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index df009e2..18eb233 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -227,6 +227,9 @@ def main():
     else:
         xcoords = int(args.xcoords) - 1
         ycoords = int(args.ycoords) - 1
+    header = hduList[0].header
+    if not (0 <= xcoords < header["NAXIS1"] and 0 <= ycoords < header["NAXIS2"]):
+        raise Exception("Pixel is outside of the image!")
     freq_array = get_freq_array(args.dataFile[0])
     Q_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)
     U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)
-- 
2.43.0


From 1b2058f042cbc720df9e72ab4c5237ca14287d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 68/96] fix: extract spectra from FITS cubes with degenerate
 axes

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 18eb233..bedcb16 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -50,6 +50,7 @@ from astropy import wcs
 from astropy.io import fits
 
 from RMtools_1D.do_RMsynth_1D import run_rmsynth, saveOutput
+from RMtools_3D.do_RMsynth_3D import find_freq_axis
 from RMtools_3D.make_freq_file import get_freq_array
 
 
@@ -277,7 +278,13 @@ def main():
 
 def get_data_Q_U(filename, ycoords, xcoords):
     hduList = fits.open(filename)
-    return hduList[0].data[:, ycoords, xcoords]
+    data = hduList[0].data
+    # Besides X and Y, only the frequency axis may be longer than one element
+    freq_axis = find_freq_axis(hduList[0].header) or 3
+    index = [0] * data.ndim
+    index[data.ndim - freq_axis] = slice(None)
+    index[-2:] = [ycoords, xcoords]
+    return data[tuple(index)]
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 6b3eaa7d8e27ae6bd9e844f007747a5a23f75596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 69/96] fix: write cubes whose input header has no CTYPE on
 some axis

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index d3ac3b4..2bceffa 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -617,7 +617,7 @@ def writefits(
 
         stokes_axis = None
         for axis in range(1, header["NAXIS"] + 1):
-            if "STOKES" in header[f"CTYPE{axis}"]:
+            if "STOKES" in str(header.get(f"CTYPE{axis}", "")):
                 stokes_axis = axis
         if stokes_axis is not None:
             header[f"CTYPE{stokes_axis}"] = (
@@ -671,7 +671,7 @@ def _setStokes(header, stokes):
     outheader = header.copy()
     stokes_axis = None
     for axis in range(1, header["NAXIS"] + 1):
-        if "STOKES" in header[f"CTYPE{axis}"]:
+        if "STOKES" in str(header.get(f"CTYPE{axis}", "")):
             stokes_axis = axis
 
     if stokes_axis is not None:
-- 
2.43.0


From 9bcb875ed4dd8a9dde557df5031f8b18aabd8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 70/96] fix: make map headers from headers without WCS keywords

---
 RMutils/util_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 1772936..3fb1238 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -114,8 +114,10 @@ def update_position_wcsaxes(header):
     header_keys = list(header.keys())
 
     # Find the first occurrence of any WCS-related keyword
+    # (at the end, if there are none)
     insert_pos = min(
-        header_keys.index(key) for key in wcs_keywords if key in header_keys
+        (header_keys.index(key) for key in wcs_keywords if key in header_keys),
+        default=len(header_keys),
     )
 
     # Insert WCSAXES at the correct position
-- 
2.43.0


From 209e7cfd588c27e38ff4bd6b8e8c2e4b613e488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 71/96] fix: accept a list of arrays in run_adjoint_rmsynth, as
 documented

---
 RMtools_1D/rmtools_bwdepol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 2b3029f..1628ca5 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1024,19 +1024,19 @@ def run_adjoint_rmsynth(
     #    dtComplex = "complex" + str(2*nBits)
 
     # freq_Hz, I, Q, U, dI, dQ, dU
-    if data.shape[0] == 7:
+    if len(data) == 7:
         if verbose:
             log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
         freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
         widths_Hz = None
-    elif data.shape[0] == 8:
+    elif len(data) == 8:
         if verbose:
             log(
                 "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
                 end=" ",
             )
         freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif data.shape[0] == 6:
+    elif len(data) == 6:
         if verbose:
             log(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
@@ -1044,7 +1044,7 @@ def run_adjoint_rmsynth(
             )
         freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
         noStokesI = True
-    elif data.shape[0] == 5:
+    elif len(data) == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
         freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-- 
2.43.0


From 363cbe6c277bdb461ba81c321b6bac32cac73e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 72/96] fix: keep the axes of the peak maps in the order of
 their header

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 2bceffa..1d9cccc 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -630,7 +630,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(maxPI.astype(dtFloat), axis=0),
+            np.expand_dims(maxPI.astype(dtFloat), axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
@@ -643,7 +643,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(peakRM, axis=0),
+            np.expand_dims(peakRM, axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
-- 
2.43.0


From 0227803dfaef2accbb66790a82e5be46a910a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 73/96] fix: describe the sky axes in headers of maps, where
 other axes precede them

---
 RMutils/util_misc.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 3fb1238..affd577 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -126,8 +126,48 @@ def update_position_wcsaxes(header):
     return header
 
 
+def move_sky_axes_first(header):
+    """Renumbers the axes in a header so that any frequency, Faraday depth or
+    Stokes axes come after the (two) sky axes. Changes the header in place."""
+    axes = range(1, header.get("NAXIS", 0) + 1)
+    extra = [
+        i
+        for i in axes
+        if any(
+            name in str(header.get(f"CTYPE{i}", "")).upper()
+            for name in ("FREQ", "FDEP", "STOKES")
+        )
+    ]
+    order = [i for i in axes if i not in extra] + extra
+    if order == list(axes) or len(order) - len(extra) != 2:
+        return header
+
+    new_axis = {str(old): str(new) for new, old in enumerate(order, start=1)}
+    cards = []
+    for card in list(header.cards):
+        match = re.fullmatch(
+            r"(NAXIS|CTYPE|CRVAL|CRPIX|CDELT|CUNIT|CROTA|(?:PC|CD)(?=\d+_))(\d+)(?:_(\d+))?",
+            card.keyword,
+        )
+        if match and match[2] in new_axis and (match[3] or match[2]) in new_axis:
+            key = match[1] + new_axis[match[2]]
+            if match[3]:
+                key += "_" + new_axis[match[3]]
+            cards.append((card.keyword, key, card.value, card.comment))
+    for old_key, _, _, _ in cards:
+        if not old_key.startswith("NAXIS"):
+            del header[old_key]
+    for _, key, value, comment in sorted(cards, key=lambda x: x[1]):
+        header[key] = (value, comment)
+
+    return header
+
+
 def remove_header_third_fourth_axis(header):
     """Removes extra axes from header to compress down to 2 axes"""
+    # The sky axes are the ones to keep
+    header = move_sky_axes_first(header)
+
     # List of keys related to the 3rd and 4th axes to remove (essentially everything with a '3' or '4')
     keys_to_remove = [
         "NAXIS3",
-- 
2.43.0


From dcb578f0bc083206c6127b81c167267f509879d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 74/96] fix: noise of the adjoint FDF where Stokes I varies
 over the band

---
 RMtools_1D/rmtools_bwdepol.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 1628ca5..6d2a45e 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1156,6 +1156,9 @@ def run_adjoint_rmsynth(
             % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
         )
 
+    # Noise of the fractional spectra, of which the FDF is made
+    dquArr = np.abs(dqArr + duArr) / 2.0
+
     # Channels flagged in either Stokes Q or U do not contribute to the FDF
     flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
 
@@ -1185,7 +1188,7 @@ def run_adjoint_rmsynth(
 
     # generate adjoint_noise and adjoint__sens
     adjoint_info = adjoint_theory(
-        adjoint_vars, np.nan_to_num(dQUArr), show_progress=False
+        adjoint_vars, np.nan_to_num(dquArr), show_progress=False
     )
     phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
 
@@ -1223,12 +1226,13 @@ def run_adjoint_rmsynth(
     fit_result = renormalize_StokesI_model(fit_result, freq0_Hz)
     Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+    adjoint_noise *= np.abs(Ifreq0)  # (in place, also in adjoint_info)
 
     # Calculate the theoretical noise in the FDF !!
     # Old formula only works for wariance weights!
     weightArr = np.where(np.isnan(weightArr) | flagArr, 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    dFDFth = np.abs(Ifreq0) * np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
     )
 
     # Measure the parameters of the dirty FDF
-- 
2.43.0


From a10a05813437b7ed177fb06218f468c7c35c012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 75/96] fix: leave flagged channels out of the error of the
 derotated angle

---
 RMtools_1D/do_RMclean_1D.py   | 2 +-
 RMtools_1D/do_RMsynth_1D.py   | 2 +-
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 2ece80a..1ee7a28 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -171,7 +171,7 @@ def run_rmclean(
         phiArr=phiArr_radm2,
         fwhmRMSF=mDict["fwhmRMSF"],
         dFDF=mDict["dFDFth"],
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],
         lam0Sq=mDict["lam0Sq_m2"],
     )
     mDict_cl["cleanCutoff"] = cutoff
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 71cdae7..0a9c70b 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -385,7 +385,7 @@ def run_rmsynth(
         phiArr=phiArr_radm2,
         fwhmRMSF=fwhmRMSF,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],
         lam0Sq=lam0Sq_m2,
     )
     mDict["Ifreq0"] = toscalar(Ifreq0)
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 6d2a45e..d980094 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1245,7 +1245,7 @@ def run_adjoint_rmsynth(
         adjoint_sens=adjoint_sens,
         adjoint_noise=adjoint_noise,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],
         lam0Sq=lam0Sq_m2,
     )
 
-- 
2.43.0


From e7f77e73e72a2031053f28e944780d915d394218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 76/96] fix: leave channels without weight out of the channel
 counts of peakfitcube

---
 RMtools_3D/RMpeakfit_3D.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 8f7b8f5..c8843f2 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -110,6 +110,9 @@ def pixelwise_peak_fitting(
         weightArr = np.ones(lamSqArr_m2.shape, dtype=np.float32)
         dFDF = None
 
+    # Channels without weight do not contribute to the FDF
+    good = weightArr > 0
+
     # Run fitting pixel-wise:
     for i in trange(xarr.size):
         FDF_pix = FDF[:, xarr[i], yarr[i]]
@@ -124,7 +127,7 @@ def pixelwise_peak_fitting(
                 phiArr,
                 fwhmRMSF_pix,
                 dFDF=dFDF_pix,
-                lamSqArr_m2=lamSqArr_m2,
+                lamSqArr_m2=lamSqArr_m2[good],
                 lam0Sq=lam0Sq,
                 snrDoBiasCorrect=5.0,
             )
@@ -134,9 +137,9 @@ def pixelwise_peak_fitting(
             mDict["fwhmRMSF"] = fwhmRMSF_pix
             mDict["Ifreq0"] = Ifreq0Arr[xarr[i], yarr[i]]
             mDict["fracPol"] = mDict["ampPeakPIfitEff"] / mDict["Ifreq0"]
-            mDict["min_freq"] = float(np.min(freqArr_Hz))
-            mDict["max_freq"] = float(np.max(freqArr_Hz))
-            mDict["N_channels"] = lamSqArr_m2.size
+            mDict["min_freq"] = float(np.min(freqArr_Hz[good]))
+            mDict["max_freq"] = float(np.max(freqArr_Hz[good]))
+            mDict["N_channels"] = np.count_nonzero(good)
             mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
             if dFDF_pix is not None:
                 mDict["dFDFth"] = dFDF_pix
-- 
2.43.0


From 24375677949ee40041fb9ddabe7783a30bb0498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 77/96] fix: let QU-fitting models hold parameters at fixed
 values

---
 RMtools_1D/do_QUfit_1D_mnest.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 3d0edb1..5dc8c28 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -404,6 +404,8 @@ def run_qufit(
     # Shift the angles by 90 deg, if necessary
     # This is to get around the angle wrap issue
     rotated_parNames = []  ## Store parameters that have been rotated
+    # (fixed parameters have no column among the samples)
+    columns = {k: j for j, k in enumerate(result.search_parameter_keys)}
     for i in range(nDim):
         if (
             parNames[i][-3:] == "deg"
@@ -414,17 +416,18 @@ def run_qufit(
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
             # (not judged by the median, which lies in between when the wrap
             # splits the samples evenly)
-            if np.mean(np.cos(np.radians(2.0 * result.samples[:, i]))) > 0:
+            j = columns[parNames[i]]
+            if np.mean(np.cos(np.radians(2.0 * result.samples[:, j]))) > 0:
                 # Shift PA by 90 deg
-                result.samples[:, i] += 90.0
+                result.samples[:, j] += 90.0
                 # Keep all values within [0, 180)
-                result.samples[:, i] -= (result.samples[:, i] >= 180.0) * 180.0
+                result.samples[:, j] -= (result.samples[:, j] >= 180.0) * 180.0
                 # Keep track of which parameters have been rotated
                 rotated_parNames.append(parNames[i])
 
     # Update the posterior values
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     # Best guess here - taking the maximum likelihood value
     lnLike = np.max(result.log_likelihood_evaluations)
@@ -543,14 +546,15 @@ def run_qufit(
     for i in range(nDim):
         if parNames[i] in rotated_parNames:
             # Rotate back by the 90 deg
-            result.samples[:, i] -= 90.0
+            j = columns[parNames[i]]
+            result.samples[:, j] -= 90.0
             if p[i] > 135.0:
                 # In case the PA shown would be << 0 deg
-                result.samples[:, i] += 180.0
+                result.samples[:, j] += 180.0
 
     # Resampling to make sure the results show
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     cornerFig = result.plot_corner()
 
-- 
2.43.0


From ab575303c7040a440a1f7625c5184aadabe452b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 78/96] fix: default depth range and channel width of channels
 not in ascending order

---
 RMtools_1D/calculate_RMSF.py    | 2 +-
 RMtools_1D/do_RMsynth_1D.py     | 4 ++--
 RMtools_1D/rmtools_bwdepol.py   | 4 ++--
 RMtools_1D/rmtools_bwpredict.py | 2 +-
 RMtools_3D/RMpeakfit_3D.py      | 2 +-
 RMtools_3D/do_RMsynth_3D.py     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 8216a72..834ae86 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -162,7 +162,7 @@ def determine_RMSF_parameters(
     lambda2_array = speed_of_light.value**2 / freq_array**2
     l2_min = np.min(lambda2_array)
     l2_max = np.max(lambda2_array)
-    dl2 = np.median(np.abs(np.diff(lambda2_array)))
+    dl2 = np.median(np.diff(np.sort(lambda2_array)))
 
     if phi_max == None:
         phi_max = 10 * 2 * np.sqrt(3.0) / (l2_max - l2_min)  # ~10*FWHM
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 0a9c70b..84d583c 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -262,7 +262,7 @@ def run_rmsynth(
     # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
     lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
     # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(np.sort(lambdaSqArr_m2))))
 
     # Set the Faraday depth range
     if not super_resolution:
@@ -416,7 +416,7 @@ def run_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+    mDict["median_channel_width"] = float(np.median(np.diff(np.sort(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     # Use 'ampPeakPIfitEff' for bias correct PI
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index d980094..2bca83e 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1134,7 +1134,7 @@ def run_adjoint_rmsynth(
     # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
     lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
     # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(np.sort(lambdaSqArr_m2))))
 
     # Set the Faraday depth range
     fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
@@ -1273,7 +1273,7 @@ def run_adjoint_rmsynth(
     if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+        mDict["median_channel_width"] = float(np.median(np.diff(np.sort(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
diff --git a/RMtools_1D/rmtools_bwpredict.py b/RMtools_1D/rmtools_bwpredict.py
index 23dcb79..65ddfe8 100644
--- a/RMtools_1D/rmtools_bwpredict.py
+++ b/RMtools_1D/rmtools_bwpredict.py
@@ -84,7 +84,7 @@ def bwdepol_compute_predictions(
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
     # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
     lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(np.sort(lambdaSqArr_m2))))
     dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
 
     # Set the Faraday depth range
diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index c8843f2..e3b047f 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -140,7 +140,7 @@ def pixelwise_peak_fitting(
             mDict["min_freq"] = float(np.min(freqArr_Hz[good]))
             mDict["max_freq"] = float(np.max(freqArr_Hz[good]))
             mDict["N_channels"] = np.count_nonzero(good)
-            mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+            mDict["median_channel_width"] = float(np.median(np.diff(np.sort(freqArr_Hz))))
             if dFDF_pix is not None:
                 mDict["dFDFth"] = dFDF_pix
             else:
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 1d9cccc..dc3b7a9 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -145,7 +145,7 @@ def run_rmsynth(
     dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
     lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
     dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(np.sort(lambdaSqArr_m2))))
 
     # Set the Faraday depth range
     if not super_resolution:
-- 
2.43.0


From 9beca80cfc003e1295f2bd374f3b2492e62f2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 79/96] fix: assemble chunks whose file or folder name contains
 a chunk number or pattern characters

---
 RMtools_3D/assemble_chunks.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index d58b802..db70c01 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -11,7 +11,7 @@ output files from 3D RM synthesis back into larger cubes.
 
 import argparse
 import re
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 import astropy.io.fits as pf
@@ -56,14 +56,14 @@ def main():
 
     args = parser.parse_args()
 
+    # Find the chunk number in the file name: the last one, as the name of the
+    # original file (or its folder) may contain something similar.
+    filename = list(re.finditer(r"\.C\d+(?=\.)", args.chunkname))[-1]
+    prefix = args.chunkname[0 : filename.start()]
+    suffix = args.chunkname[filename.end() :]
+
     if args.output == None:
-        output_filename = ".".join(
-            [
-                x
-                for x in args.chunkname.split(".")
-                if not (x.startswith("C") and x[1:].isnumeric())
-            ]
-        )
+        output_filename = prefix + suffix
     else:
         output_filename = args.output
 
@@ -73,17 +73,10 @@ def main():
         args.memmap = True
 
     # Get all the chunk filenames. Missing chunks will break things!
-    filename = re.search("\.C\d+\.", args.chunkname)
-    chunkfiles = glob(
-        args.chunkname[0 : filename.start()] + ".C*." + args.chunkname[filename.end() :]
-    )
+    chunkfiles = glob(escape(prefix) + ".C*" + escape(suffix))
     # The glob also matches other products of the chunks (e.g. cube.C0.FDF.fits
     # for cube.C0.fits), which must not be mixed in.
-    pattern = (
-        re.escape(args.chunkname[0 : filename.start()])
-        + r"\.C\d+\."
-        + re.escape(args.chunkname[filename.end() :])
-    )
+    pattern = re.escape(prefix) + r"\.C\d+" + re.escape(suffix)
     chunkfiles = [x for x in chunkfiles if re.fullmatch(pattern, x)]
     chunkfiles.sort()
 
-- 
2.43.0


From eabc0a53662bf7e3e54e74719a58089bbe1697c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:45 +0000
Subject: [PATCH 80/96] fix: save the figure of a FITS spectrum beside its
 other products

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index bedcb16..4712008 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -270,6 +270,7 @@ def main():
         verbose=verbose,
         units=args.units,
         saveFigures=args.saveOutput,
+        prefixOut=prefixOut,
         super_resolution=args.super_resolution,
     )
     if args.saveOutput:
-- 
2.43.0


From 7137cd8f213f06c2c0e56839d002bc90e0c7300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:31 +0000
Subject: [PATCH 81/96] fix: use the number of samples requested of
 rmtools_bwpredict (-s)

---
 RMtools_1D/rmtools_bwpredict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwpredict.py b/RMtools_1D/rmtools_bwpredict.py
index 65ddfe8..f2da813 100644
--- a/RMtools_1D/rmtools_bwpredict.py
+++ b/RMtools_1D/rmtools_bwpredict.py
@@ -53,7 +53,7 @@ if sys.version_info.major == 2:
 
 # -----------------------------------------------------------------------------#
 def bwdepol_compute_predictions(
-    freqArr_Hz, widths_Hz=None, phiMax_radm2=None, dPhi_radm2=None
+    freqArr_Hz, widths_Hz=None, phiMax_radm2=None, dPhi_radm2=None, nSamples=1.0
 ):
     """Computes theoretical sensitivity and noise curves for given
     channelization.
@@ -72,7 +72,7 @@ def bwdepol_compute_predictions(
                 Faraday depth channel size (rad/m^2)
 
     nSamples: float
-              Number of samples across the RMSF
+              Number of samples across the RMSF (not used if dPhi_radm2 is given)
 
     Returns
     -------
@@ -90,7 +90,7 @@ def bwdepol_compute_predictions(
     # Set the Faraday depth range
     fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
     if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
     if phiMax_radm2 is None:
         phiMax_radm2 = 2 * m.sqrt(3.0) / dLambdaSqMin_m2
 
@@ -198,6 +198,7 @@ def main():
         widths_Hz=widths_Hz,
         phiMax_radm2=args.phiMax_radm2,
         dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
     )
 
     # plot adjoint info
-- 
2.43.0


From be40df8dbbdcde5f49995ff7a0397e91482bb8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:31 +0000
Subject: [PATCH 82/96] fix: do not modify the noise template given to the test
 data generators

---
 RMtools_1D/mk_test_ascii_data.py | 2 +-
 RMtools_3D/mk_test_cube_data.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index 1b27719..bc20bf5 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -289,7 +289,7 @@ def create_IQU_ascii_data(
         xp = noiseTmpArr[0]
         yp = noiseTmpArr[1]
         mDict = calc_stats(yp)
-        yp /= mDict["median"]
+        yp = yp / mDict["median"]
         noiseArr = extrap(freqArr_Hz, xp, yp)
 
     # Check the catalogue file exists
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index fe3a399..aba547b 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -304,7 +304,7 @@ def create_IQU_cube_data(
         xp = noiseTmpArr[0]
         yp = noiseTmpArr[1]
         mDict = calc_stats(yp)
-        yp /= mDict["median"]
+        yp = yp / mDict["median"]
         noiseArr = extrap(freqArr_Hz, xp, yp)
 
     # Check the catalogue file exists
-- 
2.43.0


From 3e9a6254ef14a5f62894aab313e76a166c6719d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 83/96] fix: accept weights with fewer than 3 dimensions in
 3D-noise RM synthesis

---
 RMutils/util_RM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index b95efd8..406c365 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -2127,7 +2127,8 @@ def threeDnoise_do_rmsynth_planes(
 
     # Check shape of weight array and pad if necessary:
     if weightArr.ndim < 3:
-        weightArr = np.repeat(weightArr, dataQ.shape)
+        weightArr = np.reshape(weightArr, weightArr.shape + (1,) * (3 - weightArr.ndim))
+        weightArr = weightArr * np.ones(dataQ.shape, dtype=dtFloat)
 
     # Create a complex polarised cube, B&dB Eqns. (8) and (14)
     # Array has dimensions [nFreq, nY, nX]
-- 
2.43.0


From fa7bf36191f1cf41a04c580f454b0483695e0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 84/96] fix: use the reference wavelength given to the 3D-noise
 routines

---
 RMutils/util_RM.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 406c365..020f45b 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -2166,7 +2166,7 @@ def threeDnoise_do_rmsynth_planes(
         KArr = np.nan_to_num(KArr)
 
     # Do the RM-synthesis on each plane
-    a = lambdaSqArr_m2[:, np.newaxis, np.newaxis] - lam0Sq_m2[np.newaxis, :, :]
+    a = lambdaSqArr_m2[:, np.newaxis, np.newaxis] - lam0Sq_m2
     for i in trange(nPhi, desc="Running RM-synthesis by channel", disable=not verbose):
         arg = np.exp(-2.0j * phiArr_radm2[i] * a)
         FDFcube[i, :, :] = KArr * np.sum(pCube * arg, axis=0)
@@ -2275,9 +2275,11 @@ def threeDnoise_get_rmsf_planes(
     # lam0Sq is the weighted mean of LambdaSq distribution (B&dB Eqn. 32)
     # Calculate a lam0Sq_m2 value per pixel, ignoring isolated flagged voxels
     K = 1.0 / np.nansum(weightArr, axis=0)
-    lam0Sq_m2 = K * np.nansum(
-        weightArr * lambdaSqArr_m2[:, np.newaxis, np.newaxis], axis=0
-    )
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.nansum(
+            weightArr * lambdaSqArr_m2[:, np.newaxis, np.newaxis], axis=0
+        )
+    lam0Sq_m2 = np.broadcast_to(lam0Sq_m2, (nY, nX))
 
     # Calculate the analytical FWHM width of the main lobe
     fwhmRMSF = (
-- 
2.43.0


From 147ec50fb71633abaf0ca0d8cc4b55bcb5c64103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 85/96] fix: fit the real part of the RMSF itself in 3D-noise
 RMSF calculation

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 020f45b..5b4dd6a 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -2302,7 +2302,7 @@ def threeDnoise_get_rmsf_planes(
             if verbose:
                 log("Fitting Gaussian to the main lobe.")
             if fitRMSFreal:
-                mp = fit_rmsf(phi2Arr, RMSFcube.real)
+                mp = fit_rmsf(phi2Arr, RMSFArr.real)
             else:
                 mp = fit_rmsf(phi2Arr, np.abs(RMSFArr))
             if mp is None or mp.status < 1:
-- 
2.43.0


From c3e3047148a973c0e95d177e862cf0e87df75400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 86/96] fix: refuse a Stokes I cube that does not match the FDF
 in peak fitting

---
 RMtools_3D/RMpeakfit_3D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index e3b047f..c1ca598 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -81,6 +81,10 @@ def pixelwise_peak_fitting(
         speed_of_light.value / np.sqrt(lam0Sq) if lam0Sq > 0 else np.nanmean(freqArr_Hz)
     )
     if stokesIcube is not None:
+        if stokesIcube.shape[0] != freqArr_Hz.size or [
+            n for n in stokesIcube.shape[1:] if n > 1
+        ] != [n for n in map_size if n > 1]:
+            raise Exception("Stokes I cube does not match the FDF or the frequencies!")
         # Restore sky axes of length 1, which readFitsCube removes from 4D cubes
         stokesIcube = np.reshape(stokesIcube, (stokesIcube.shape[0],) + map_size)
         Ifreq0Arr = interp_cube_to_freq(stokesIcube, freqArr_Hz, freq0_Hz)
-- 
2.43.0


From fee9d3f8baac42da515de270c734a7a35326c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 87/96] fix: do not leave an empty cube behind if chunks are
 missing

---
 RMtools_3D/assemble_chunks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index db70c01..4e744eb 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -93,6 +93,9 @@ def main():
             "Right now this code only supports FITS files with 2-4 dimensions!"
         )
 
+    if len(chunkfiles) != num_chunks:
+        raise Exception("Number of chunk files found does not match expectations!")
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
@@ -114,9 +117,6 @@ def main():
         )
         fobj.write(b"\0")
 
-    if len(chunkfiles) != num_chunks:
-        raise Exception("Number of chunk files found does not match expectations!")
-
     base_idx_arr = np.array(range(Nperchunk))
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
-- 
2.43.0


From ed53b6ab6fe56ad56173197dcc8e019813950f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 88/96] fix: do not take QU-fitting results from an earlier run
 on other data

---
 RMtools_1D/do_QUfit_1D_mnest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 5dc8c28..b20e329 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -396,6 +396,7 @@ def run_qufit(
         outdir=nestOut,
         label="m%d" % modelNum,
         plot=True,
+        clean=True,  # (not a result or checkpoint of earlier data in this folder)
     )
 
     # Do the post-processing on one processor
-- 
2.43.0


From 54627bfb2a2a4c13282e4b7dce4e7c48c57ffdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 89/96] fix: find the FWHM map if the folder is named like a
 component of the FDF

---
 RMtools_3D/RMpeakfit_3D.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index c1ca598..94a1f4f 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -304,13 +304,17 @@ def read_files(FDF_filename, freq_filename):
 
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
 
+    path, name = os.path.split(FDF_filename)
     HDUfwhm = pf.open(
-        FDF_filename.replace("FDF_tot_dirty", "RMSF_FWHM")
-        .replace("FDF_real_dirty", "RMSF_FWHM")
-        .replace("FDF_im_dirty", "RMSF_FWHM")
-        .replace("FDF_clean_tot", "RMSF_FWHM")
-        .replace("FDF_clean_real", "RMSF_FWHM")
-        .replace("FDF_clean_im", "RMSF_FWHM"),
+        os.path.join(
+            path,
+            name.replace("FDF_tot_dirty", "RMSF_FWHM")
+            .replace("FDF_real_dirty", "RMSF_FWHM")
+            .replace("FDF_im_dirty", "RMSF_FWHM")
+            .replace("FDF_clean_tot", "RMSF_FWHM")
+            .replace("FDF_clean_real", "RMSF_FWHM")
+            .replace("FDF_clean_im", "RMSF_FWHM"),
+        ),
         "readonly",
         memmap=True,
     )
-- 
2.43.0


From c419f4aae1d4728b74b902c49008683cf134f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 90/96] fix: fit Stokes I models of fluxes in large or small
 units

---
 RMutils/util_misc.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index affd577..b151118 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -923,6 +923,15 @@ def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     if np.all(dyData == 0):
         dyData = np.ones_like(yData)
 
+    # Fit in units of the highest flux: if the fluxes are very large or small
+    # numbers, the numerical derivatives (of linear polynomials) or the errors
+    # (of powerlaws) are lost in the rounding.
+    scale = np.max(np.abs(yData), initial=0.0)
+    if not (np.isfinite(scale) and scale > 0):
+        scale = 1.0
+    yData = yData / scale
+    dyData = dyData / scale
+
     # Estimate starting coefficients
     C1 = 0.0
     C0 = np.nanmean(yData)
@@ -961,6 +970,17 @@ def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     # Use MPFIT to perform the LM-minimisation
     mp = mpfit(errFn, parinfo=inParms, quiet=True)
 
+    # Return the coefficients in fluxes (of a powerlaw, only the last) in units of the input
+    unit = np.full(6, scale)
+    if fit_function == "log":
+        unit[:5] = 1.0
+    if mp.params is not None:
+        mp.params = mp.params * unit
+    if mp.perror is not None:
+        mp.perror = mp.perror * unit
+    if mp.covar is not None:
+        mp.covar = mp.covar * np.outer(unit, unit)
+
     return mp
 
 
-- 
2.43.0


From 6a16053414a6b60d85188deee0429985c9f1d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 91/96] fix: theoretical noise of 1D spectra in faint or bright
 units with single precision

---
 RMtools_1D/do_RMsynth_1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 84d583c..aa8199b 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -374,8 +374,9 @@ def run_rmsynth(
 
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
     weightArr = np.where(np.isnan(weightArr) | flagArr, 0.0, weightArr)
+    # (normalised before squaring, which overflows in single precision for faint units)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
-        np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
+        np.nansum((weightArr / np.sum(weightArr) * np.nan_to_num(dquArr)) ** 2)
     )
 
     # Measure the parameters of the dirty FDF
-- 
2.43.0


From 18d9bfb17a44bdaef35277b7f147c6ece49cc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 92/96] fix: theoretical noise of depolarised spectra in faint
 or bright units with single precision

---
 RMtools_1D/rmtools_bwdepol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 2bca83e..2ef76eb 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -198,9 +198,9 @@ def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
             progress(40, ((i + 1) * 100.0 / nPhi))
 
         r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
+        # normalised before squaring, which overflows in single precision for faint units
+        adjoint_noise2 = np.sum(
+            (weightArr / np.sum(weightArr) * dQUArr) ** 2 * np.abs(r_i) ** 2
         )  # equation 34
         adjoint_noise[i] = np.sqrt(adjoint_noise2)
 
@@ -1232,7 +1232,7 @@ def run_adjoint_rmsynth(
     # Old formula only works for wariance weights!
     weightArr = np.where(np.isnan(weightArr) | flagArr, 0.0, weightArr)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
+        np.sum((weightArr / np.sum(weightArr) * np.nan_to_num(dquArr)) ** 2)
     )
 
     # Measure the parameters of the dirty FDF
-- 
2.43.0


From a4bf31f94c49d8c6c7851c494a38a3fe9144b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 93/96] fix: fit Stokes I cubes that are stored as scaled
 integers

---
 RMtools_3D/do_fitIcube.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index aa75518..6bd1e3d 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -214,6 +214,12 @@ def open_datacube(fitsI, verbose=False):
     # Sanity check on header dimensions
     print("Reading FITS cube header from '%s':" % fitsI)
     header, datacube = readFitsCube(fitsI, verbose)
+    # Scaled data (e.g., integers) have been converted to floating point numbers
+    if header["BITPIX"] > 0:
+        datacube = datacube.astype("f4" if header["BITPIX"] < 32 else "f8")
+        header["BITPIX"] = -8 * datacube.itemsize
+    for key in ["BSCALE", "BZERO", "BLANK"]:
+        header.remove(key, ignore_missing=True)
     # Restore sky axes of length 1, which readFitsCube removes from 4D cubes
     if header["NAXIS"] > 3 and datacube.ndim < 3:
         datacube = np.reshape(datacube, (-1, header["NAXIS2"], header["NAXIS1"]))
-- 
2.43.0


From 06d1fd55cea7663723d3af7cc5ec27ff575e59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:36 +0000
Subject: [PATCH 94/96] fix: do not extract pixels from cubes of another size

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 4712008..954ea0f 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -231,6 +231,11 @@ def main():
     header = hduList[0].header
     if not (0 <= xcoords < header["NAXIS1"] and 0 <= ycoords < header["NAXIS2"]):
         raise Exception("Pixel is outside of the image!")
+    for name in [args.UFile[0], args.StokesI_fits]:
+        if name is not None:
+            other = fits.getheader(name)
+            if any(other[key] != header[key] for key in ["NAXIS1", "NAXIS2"]):
+                raise Exception("The image of '%s' has another size!" % name)
     freq_array = get_freq_array(args.dataFile[0])
     Q_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)
     U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)
-- 
2.43.0


From 37fdc3ec4d272a586be6706bfc1c28ad73b49ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 95/96] fix: plot the chi-squared of Stokes U over its own
 added scatter

---
 RMutils/util_plotTk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index f13d36c..85a62fe 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -2351,7 +2351,7 @@ def plot_complexity_fig(
         x=sigmaAddqArr, y=chiSqRedqArr, color="tab:blue", linewidth=1.0, where="mid"
     )
     ax4.step(
-        x=sigmaAddqArr, y=chiSqReduArr, color="tab:red", linewidth=1.0, where="mid"
+        x=sigmaAdduArr, y=chiSqReduArr, color="tab:red", linewidth=1.0, where="mid"
     )
     ax4.axhline(1.0, color="k", linestyle="--")
     ax4.set_xlabel(r"$\sigma_{\rm add}$")
-- 
2.43.0


From 57ea2d95aa5975c48c125e6a4ffe445c82d9222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:59 +0000
Subject: [PATCH 96/96] fix: mark a peak at zero Faraday depth in the plots of
 the FDF

---
 RMutils/util_plotTk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index 85a62fe..f521bd8 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -913,7 +913,7 @@ def plot_dirtyFDF_ax(
         )
 
     # Plot a vertical line
-    if vLine:
+    if vLine is not None:
         ax.axvline(vLine, color="magenta", ls="--", linewidth=1.5)
 
     # Scaling
-- 
2.43.0

