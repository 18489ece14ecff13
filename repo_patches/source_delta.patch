From e9154bac6d5224c32f664a17bdb3be77cccf3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 01/44] fix: never ask for zero workers and reject non-decimal
 numerals as a core count

---
 src/stcal/multiprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stcal/multiprocessing.py b/src/stcal/multiprocessing.py
index fc3b490..5a18d73 100644
--- a/src/stcal/multiprocessing.py
+++ b/src/stcal/multiprocessing.py
@@ -26,7 +26,7 @@ def compute_num_cores(max_cores, nchunks, max_available):
         The number of slices for multiprocessing.
     """
     number_slices = 1
-    if max_cores.isnumeric():
+    if max_cores.isdecimal():
         number_slices = int(max_cores)
     elif max_cores.lower() == "none" or max_cores.lower() == "one":
         number_slices = 1
@@ -36,5 +36,5 @@ def compute_num_cores(max_cores, nchunks, max_available):
         number_slices = max_available // 2 or 1
     elif max_cores == "all":
         number_slices = max_available
-    # Make sure we don't have more slices than chunks or available cores.
-    return min([nchunks, number_slices, max_available])
+    # Make sure we have at least one slice, and no more slices than chunks or available cores.
+    return max(1, min([nchunks, number_slices, max_available]))
-- 
2.43.0


From 443d15c59b6d5077971ad7080285c1d28d0f4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 02/44] fix: grow saturation flags on images smaller than the
 growth box

---
 src/stcal/saturation/saturation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stcal/saturation/saturation.py b/src/stcal/saturation/saturation.py
index bf9512f..3231feb 100644
--- a/src/stcal/saturation/saturation.py
+++ b/src/stcal/saturation/saturation.py
@@ -298,6 +298,13 @@ def _adjacent_pixels(plane_gdq, saturated, n_pix_grow_sat=1, inplace=False):
     dilated = only_sat.copy()
     box_dim = (n_pix_grow_sat * 2) + 1
 
+    # The box does not fit on a small image: there is no inner region, and
+    # the loop over the edges would run off the array.
+    if min(only_sat.shape) < 2 * n_pix_grow_sat:
+        struct = np.ones((box_dim, box_dim), dtype=bool)
+        cgdq[ndimage.binary_dilation(only_sat, structure=struct)] |= saturated
+        return None if inplace else cgdq
+
     # The for loops below are equivalent to
     #
     # struct = np.ones((box_dim, box_dim)).astype(bool)
-- 
2.43.0


From 716c32780dca86e752daf3e678996418adf0c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 03/44] fix: average every integration of a 4-D dark, the last
 one is used by later segments

---
 src/stcal/dark_current/dark_sub.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..f091af8 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -239,7 +239,7 @@ def average_dark_frames_3d(dark_data, ngroups, nframes, groupgap):
     return avg_dark
 
 
-def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):
+def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):  # noqa: ARG001
     """
     Average 4D dark frames.
 
@@ -281,20 +281,12 @@ def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):
     # Do a direct copy of the 2-d DQ array into the new dark
     avg_dark.groupdq = dark_data.groupdq
 
-    # check if the number of integrations in dark reference file
-    # is less than science data.  If so then we only need to find the
-    # average for dint integrations, otherwise we find the average for
-    # nints.  (if science data only has 1 integration then there is no
-    # need to average the second integration of the dark refefence file)
-    num_ints = dint
-    if dint > nints:
-        num_ints = nints
-
-    # Loop over valid integrations in dark reference file
+    # Loop over all integrations in dark reference file (the last one is
+    # needed by later segments even if they have fewer integrations)
     # Loop over the groups of the input science data, copying or
     # averaging the dark frames to match the group structure
 
-    for it in range(num_ints):
+    for it in range(dint):
         start = 0
         for group in range(ngroups):
             end = start + nframes
-- 
2.43.0


From d819f541ab3cb508214757290c6e4cecf1124d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 04/44] fix: honour the minimum number of groups when jumps are
 detected in one process

---
 src/stcal/jump/jump.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..148bd3b 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -90,7 +90,6 @@ def detect_jumps_data(jump_data):
 
     twopt_params = TwoPointParams(jump_data)
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From a8fb5ba817414680d22f39cfba891f0856b48f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 05/44] fix: count unusable groups of every integration for
 sigma clipping

---
 src/stcal/jump/twopoint_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..6e26f88 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -663,7 +663,7 @@ def groups_all_set_dnu(nints, ngroups, gdq, twopt_p):
     if twopt_p.only_use_ints:
         total_sigclip_groups = nints
     else:
-        total_sigclip_groups = nints * ngroups - num_flagged_grps
+        total_sigclip_groups = nints * ngroups - total_flagged_grps
 
     min_usable_groups = ngroups - max_flagged_grps
     total_groups = nints * ngroups - total_flagged_grps
-- 
2.43.0


From 7ed4f48cc6cdd2c1c7fc801444313a58a1c4f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 06/44] fix: decide which groups are usable from the whole
 image when it is sliced

---
 src/stcal/jump/jump.py                      | 8 ++++++++
 src/stcal/jump/twopoint_difference.py       | 4 +++-
 src/stcal/jump/twopoint_difference_class.py | 4 ++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 148bd3b..b45d053 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -149,6 +149,10 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
     total_primary_crs : int
         total number of primary cosmic rays computed
     """
+    # Whether a group is usable depends on the whole image, not on the slice
+    nints, ngroups = gdq.shape[:2]
+    twopt_params.group_counts = twopt.groups_all_set_dnu(nints, ngroups, gdq, twopt_params)
+
     slices, yinc = slice_data(twopt_params, data, gdq, readnoise_2d, n_slices)
 
     log.info("Creating %d processes for jump detection ", n_slices)
@@ -218,6 +222,10 @@ def reassemble_sliced_data(real_result, gdq, yinc):
         # save the neighbors to be flagged that will be in the next slice
         previous_row_above_gdq = row_above_gdq.copy()
 
+    if all(resultslice[3] == -99 for resultslice in real_result):
+        # detection was skipped
+        total_primary_crs = -99
+
     return gdq, total_primary_crs
 
 
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 6e26f88..31828bd 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -43,7 +43,9 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
     row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
 
-    ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
+    ngroups_ans = twopt_p.group_counts
+    if ngroups_ans is None:
+        ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
     min_usable_groups = ngroups_ans[0]
     total_groups = ngroups_ans[1]
     min_usable_diffs = ngroups_ans[2]
diff --git a/src/stcal/jump/twopoint_difference_class.py b/src/stcal/jump/twopoint_difference_class.py
index 5994fda..33cca80 100644
--- a/src/stcal/jump/twopoint_difference_class.py
+++ b/src/stcal/jump/twopoint_difference_class.py
@@ -10,6 +10,10 @@ class TwoPointParams:
         jump_data : JumpData
             Class containing parameters and methods to detect jumps.
         """
+        # Group totals of the whole exposure, to be set when only a slice of
+        # it is processed (see groups_all_set_dnu)
+        self.group_counts = None
+
         if jump_data is not None:
             self.normal_rej_thresh = jump_data.rejection_thresh
 
-- 
2.43.0


From dcc535a6a840807bcc1f74b336a60dbcb29da4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 07/44] fix: flag large events in integrations of two groups

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index b45d053..360140d 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -355,8 +355,10 @@ def flag_large_events(gdq, jump_flag, sat_flag, jump_data):
                 next_sat = np.bitwise_and(next_gdq, sat_flag)
                 not_current_sat = np.logical_not(current_sat)
                 next_new_sat = next_sat * not_current_sat
+                next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
+            else:
+                next_sat_ellipses = []
 
-            next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
             sat_ellipses = find_ellipses(new_sat, sat_flag, jump_data.min_sat_area)
 
             # find the ellipse parameters for jump regions
-- 
2.43.0


From cc53b809fd99bf2e04e3e1ed51b9aa5b7b82b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 08/44] fix: keep the other flags of groups in an extended
 saturated core

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 360140d..3a5cf5e 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -456,7 +456,9 @@ def extend_saturation(cube, grp, sat_ellipses, jump_data, persist_jumps):
 
             is_sat = sat_ellipse == satcolor
             for i in range(grp, cube.shape[0]):
-                cube[i][iy1:iy2, ix1:ix2][is_sat] = jump_data.fl_sat
+                # saturated groups hold no jumps, every other flag is kept
+                cube[i][iy1:iy2, ix1:ix2][is_sat] |= jump_data.fl_sat | jump_data.fl_jump
+                cube[i][iy1:iy2, ix1:ix2][is_sat] ^= jump_data.fl_jump
 
             ax1, ax2 = (ellipse[1][0], ellipse[1][1])
             indx, persist_ellipse = ellipse_subim(ceny, cenx, ax1, ax2, alpha, satcolor, (nrows, ncols))
-- 
2.43.0


From 7fbae4582e232902ae771813e2e593310328633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 09/44] fix: measure the distance to the right edge of the
 detector from its width

---
 src/stcal/jump/jump.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 3a5cf5e..c7ff20f 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -679,7 +679,7 @@ def make_snowballs(
     """
     nints, ngroups, nrows, ncols = gdq.shape
     low_threshold = jump_data.edge_size
-    high_threshold = max(0, nrows - jump_data.edge_size)
+    high_threshold = (max(0, ncols - jump_data.edge_size), max(0, nrows - jump_data.edge_size))
 
     # This routine will create a list of snowballs (ellipses) that have the
     # center of the saturation circle within the enclosing jump rectangle.
@@ -770,9 +770,9 @@ def near_edge(jump, low_threshold, high_threshold):
         Low threshold distance from the edge of the detector where saturated cores are not
         required for snowball detection.
 
-    high_threshold : int
-        High threshold distance from the edge of the detector where saturated cores are not
-        required for snowball detection.
+    high_threshold : tuple of int
+        High threshold (x, y) distance from the edge of the detector where saturated cores
+        are not required for snowball detection.
 
     Returns
     -------
@@ -782,8 +782,8 @@ def near_edge(jump, low_threshold, high_threshold):
     return (
         jump[0][0] < low_threshold
         or jump[0][1] < low_threshold
-        or jump[0][0] > high_threshold
-        or jump[0][1] > high_threshold
+        or jump[0][0] > high_threshold[0]
+        or jump[0][1] > high_threshold[1]
     )
 
 
-- 
2.43.0


From 0e9fbf9b788bfd3e514a87e37bcd5984adafec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 10/44] fix: never expand events by a negative axis length

---
 src/stcal/jump/jump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index c7ff20f..c7d7ccb 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1333,8 +1333,9 @@ def _sk_filter_areas(image, threshold):
         # Wait until after area check so calculating the more expensive
         # region properties is only done for areas that pass threshold.
         # https://scikit-image.org/docs/stable/auto_examples/segmentation/plot_regionprops.html#measure-region-properties
-        w = region.axis_major_length - 1
-        h = region.axis_minor_length - 1
+        # (regions one pixel wide have a minor axis length of zero)
+        w = max(region.axis_major_length - 1, 0)
+        h = max(region.axis_minor_length - 1, 0)
         min_areas.append(
             ((float(region.centroid[1]), float(region.centroid[0])), (h, w), np.degrees(region.orientation))
         )
-- 
2.43.0


From fe9da0840e369c632cec02bb922d03ca44c5159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 11/44] fix: mask invalid groups for shower detection whatever
 other flags they carry

---
 src/stcal/jump/jump.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index c7d7ccb..b1119f4 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1226,13 +1226,8 @@ def nan_invalid_data(data, gdq, jump_data):
     data : ndarray
         NaN'd cience data 4D float
     """
-    jump_dnu_flag = jump_data.fl_jump + jump_data.fl_dnu
-    sat_dnu_flag = jump_data.fl_sat + jump_data.fl_dnu
-    data[gdq == jump_dnu_flag] = np.nan
-    data[gdq == sat_dnu_flag] = np.nan
-    data[gdq == jump_data.fl_sat] = np.nan
-    data[gdq == jump_data.fl_jump] = np.nan
-    data[gdq == jump_data.fl_dnu] = np.nan
+    invalid_flags = jump_data.fl_dnu | jump_data.fl_sat | jump_data.fl_jump
+    data[gdq & invalid_flags != 0] = np.nan
 
     return data
 
-- 
2.43.0


From 61410ec3aae195744e383b9e0e3062f10a251996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 12/44] fix: suppress one-group ramps in every slice of a ramp
 fit

---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..d59f09f 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -501,6 +501,8 @@ def slice_ramp_data(ramp_data, start_row, nrows):
         drop_frames1=ramp_data.drop_frames1,
     )
 
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+
     # Carry over DQ flags.
     ramp_data_slice.flags_do_not_use = ramp_data.flags_do_not_use
     ramp_data_slice.flags_jump_det = ramp_data.flags_jump_det
-- 
2.43.0


From fce122d3471ba99a51773e3b3916795367670553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 13/44] fix: fit big-endian ramps from copies, the caller's
 arrays and the zero frame stay intact

---
 src/stcal/ramp_fitting/ols_fit.py | 41 +++++++++++--------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index d59f09f..9b184d8 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -565,7 +565,7 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
     """
     c_start = time.time()
 
-    ramp_data, gain_2d, readnoise_2d, bswap = endianness_handler(ramp_data, gain_2d, readnoise_2d)
+    ramp_data, gain_2d, readnoise_2d = endianness_handler(ramp_data, gain_2d, readnoise_2d)
 
     if ramp_data.drop_frames1 is None:
         ramp_data.drop_frames1 = 0
@@ -575,17 +575,6 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
 
     c_end = time.time()
 
-    # Read noise is used after STCAL ramp fitting for the CHARGELOSS
-    # processing, so make sure it works right for there.  In other words
-    # if they got byteswapped for the C extension, they need to be
-    # byteswapped back to properly work in python once returned from
-    # ramp fitting.
-    rn_bswap, gain_bswap = bswap
-    if rn_bswap:
-        readnoise_2d.view(readnoise_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-    if gain_bswap:
-        gain_2d.view(gain_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-
     c_diff = c_end - c_start
     log.info(f"Ramp Fitting C Time: {c_diff}")
 
@@ -597,7 +586,8 @@ def handle_array_endianness(arr, sys_order):
     Handle array endianness.
 
     Determines if the array byte order is the same as the system byte order.  If
-    it is not, then byteswap the array.
+    it is not, then make a byteswapped copy of the array.  The array passed in
+    belongs to the caller, so is never changed.
 
     Parameters
     ----------
@@ -613,12 +603,10 @@ def handle_array_endianness(arr, sys_order):
         The ndarray in the correct byte order
     """
     arr_order = arr.dtype.byteorder
-    bswap = False
     if (arr_order == ">" and sys_order == "<") or (arr_order == "<" and sys_order == ">"):
-        arr.view(arr.dtype.newbyteorder("S")).byteswap(inplace=True)
-        bswap = True
+        arr = arr.astype(arr.dtype.newbyteorder("="))
 
-    return arr, bswap
+    return arr
 
 
 def endianness_handler(ramp_data, gain_2d, readnoise_2d):
@@ -655,18 +643,17 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     """
     sys_order = "<" if sys.byteorder == "little" else ">"
 
-    # If the gain and/or readnoise arrays are byteswapped before going
-    # into the C extension, then that needs to be noted and byteswapped
-    # when returned from the C extension.
-    gain_2d, gain_bswap = handle_array_endianness(gain_2d, sys_order)
-    readnoise_2d, rn_bswap = handle_array_endianness(readnoise_2d, sys_order)
+    gain_2d = handle_array_endianness(gain_2d, sys_order)
+    readnoise_2d = handle_array_endianness(readnoise_2d, sys_order)
 
-    ramp_data.data, _ = handle_array_endianness(ramp_data.data, sys_order)
-    ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
-    ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
-    ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    ramp_data.data = handle_array_endianness(ramp_data.data, sys_order)
+    ramp_data.average_dark_current = handle_array_endianness(ramp_data.average_dark_current, sys_order)
+    ramp_data.groupdq = handle_array_endianness(ramp_data.groupdq, sys_order)
+    ramp_data.pixeldq = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    if ramp_data.zeroframe is not None:
+        ramp_data.zeroframe = handle_array_endianness(ramp_data.zeroframe, sys_order)
 
-    return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
+    return ramp_data, gain_2d, readnoise_2d
 
 
 def discard_miri_groups(ramp_data):
-- 
2.43.0


From 19113993eed042e1d40fdaef1a56ee2590214a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 14/44] fix: count one segment after pruning a ramp of
 one-group segments

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7267993..aaf1f18 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2710,6 +2710,8 @@ prune_segment_list(struct segment_list *segs) /* Linked list of segments */
 
         seg->flink = NULL;
         seg->length = 1;
+        segs->tail = seg;
+        segs->size = 1;
         return;
     }
 
-- 
2.43.0


From bf220b1a68996610757d418dd1e3f64844c3ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 15/44] fix: ignore unusable groups in the median rate of
 one-group ramps

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index aaf1f18..5a77bf5 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2303,6 +2303,10 @@ median_rate_1ngroup(
 
     for (integ = 0; integ < rd->nints; integ++) {
         idx = get_ramp_index(rd, integ, 0);
+        /* Unusable groups do not contribute, as for more than one group. */
+        if ((pr->groupdq[idx] & rd->invalid) || isnan(pr->data[idx])) {
+            continue;
+        }
         accum_mrate += (pr->data[idx] / timing);
     }
     pr->median_rate = accum_mrate / (real_t) rd->nints;
-- 
2.43.0


From d4339ad1b9410b40dc611e9635509fb87e377a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 16/44] fix: count groups with persistence as good when looking
 for one-group ramps

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 5a77bf5..8b8d0f1 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1826,7 +1826,8 @@ get_pixel_ramp(
         pr->max_crs = (pr->max_crs < pr->crs[integ].size) ? pr->crs[integ].size : pr->max_crs;
         /* Check for 0th group and ZEROFRAME */
         if (!rd->suppress1g) {
-            if ((1 == pr->stats[integ].cnt_good) && (0 == pr->groupdq[integ_idx])) {
+            if ((1 == pr->stats[integ].cnt_good) &&
+                (0 == (pr->groupdq[integ_idx] & ~(rd->pers)))) {
                 pr->is_0th[integ] = 1;
             } else if ((0 == pr->stats[integ].cnt_good) && ((PyObject *) rd->zframe) != Py_None) {
                 zframe = (real_t) rd->get_zframe(rd->zframe, integ, row, col);
@@ -1889,7 +1890,7 @@ get_pixel_ramp_integration(
     if (pr->groupdq[idx] & rd->chargeloss) {
         pr->stats[integ].chargeloss = 1;
     }
-    if (0 == pr->groupdq[idx]) {
+    if (0 == (pr->groupdq[idx] & ~(rd->pers))) { // PERSISTENCE groups are used
         pr->stats[integ].cnt_good++;
     } else if (pr->groupdq[idx] & rd->dnu) {
         pr->stats[integ].cnt_dnu++;
-- 
2.43.0


From 0e6d173d012e2f4cbefadcc4c1f14c78d00166db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 17/44] fix: raise the exception of a rejected OLS fit instead
 of freeing its arrays twice

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 8b8d0f1..8bdb27d 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -971,8 +971,13 @@ ERROR:
     clean_rate_product(&rate_prod);
     clean_rateint_product(&rateint_prod);
 
-    /* Return (None, None, None) */
-    result = Py_BuildValue("(OOO)", Py_None, Py_None, Py_None);
+    if (PyErr_Occurred()) {
+        /* A result must not be returned with an exception set. */
+        result = NULL;
+    } else {
+        /* Return (None, None, None) */
+        result = Py_BuildValue("(OOO)", Py_None, Py_None, Py_None);
+    }
 
 CLEANUP:
     FREE_RAMP_DATA(rd);
@@ -2087,9 +2092,8 @@ get_ramp_data_arrays(
     rd->zframe = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "zeroframe");
     rd->dcurrent = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "average_dark_current");
 
-    /* Validate numpy array types */
+    /* Validate numpy array types, the caller frees the ramp data. */
     if (get_ramp_data_new_validate(rd)) {
-        FREE_RAMP_DATA(rd);
         return 1;
     }
 
@@ -2594,7 +2598,7 @@ ols_slope_fit_pixels(
 
 END:
 
-    return 0;
+    return ret;
 }
 
 /*
-- 
2.43.0


From d9c1ff1d172c52334dc12056e4dbfd34259d4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 18/44] fix: reject arrays the OLS fit would read out of bounds

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 67 +++++++++++++++++++++--
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 8bdb27d..7ed8d91 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2210,19 +2210,56 @@ get_ramp_data_parse(
     return 0;
 }
 
+/*
+ * Determine if an object is an ndarray with the type and number of dimensions.
+ */
+static int
+is_array(
+    PyArrayObject *arr, /* The object to check */
+    int type,           /* The element type number expected */
+    int ndim)           /* The number of dimensions expected */
+{
+    return (NULL != arr) && PyArray_Check((PyObject *) arr) && (type == PyArray_TYPE(arr)) &&
+           (ndim == PyArray_NDIM(arr));
+}
+
+/*
+ * Determine if the dimensions of an array are at least those of the given axes of the data.
+ */
+static int
+covers(
+    PyArrayObject *arr,  /* The array to check */
+    PyArrayObject *data, /* The ramp data array */
+    int ndim,            /* The number of dimensions of the array */
+    const int *axes)     /* The axis of data for each dimension */
+{
+    int k;
+
+    for (k = 0; k < ndim; ++k) {
+        if (PyArray_DIM(arr, k) < PyArray_DIM(data, axes[k])) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /*
  * Validate the numpy arrays inputted from the ramp_data class have
- * the correct data types.
+ * the correct data types and dimensions.
  */
 static int
 get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
 {
     char *msg = NULL;
 
+    const int img[] = {2, 3};        /* The axes of data each image must cover */
+    const int cube[] = {0, 2, 3};    /* The axes of data each ZEROFRAME must cover */
+    const int ramp[] = {0, 1, 2, 3}; /* The axes of data each group DQ must cover */
+
     /* Validate the types for each of the ndarrays */
-    if (!((NPY_FLOAT == PyArray_TYPE(rd->data)) && (NPY_UBYTE == PyArray_TYPE(rd->groupdq)) &&
-          (NPY_UINT32 == PyArray_TYPE(rd->pixeldq)) && (NPY_FLOAT == PyArray_TYPE(rd->dcurrent)) &&
-          (NPY_FLOAT == PyArray_TYPE(rd->gain)) && (NPY_FLOAT == PyArray_TYPE(rd->rnoise)))) {
+    if (!(is_array(rd->data, NPY_FLOAT, 4) && is_array(rd->groupdq, NPY_UBYTE, 4) &&
+          is_array(rd->pixeldq, NPY_UINT32, 2) && is_array(rd->dcurrent, NPY_FLOAT, 2) &&
+          is_array(rd->gain, NPY_FLOAT, 2) && is_array(rd->rnoise, NPY_FLOAT, 2))) {
         msg = "Bad type array for pass ndarrays to C.";
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_TypeError, msg);
@@ -2230,13 +2267,33 @@ get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
     }
 
     /* ZEROFRAME could be NoneType, so needed a separate check */
-    if ((((PyObject *) rd->zframe) != Py_None) && (NPY_FLOAT != PyArray_TYPE(rd->zframe))) {
+    if ((((PyObject *) rd->zframe) != Py_None) && !is_array(rd->zframe, NPY_FLOAT, 3)) {
         msg = "Bad type array ZEROFRAME.";
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_TypeError, msg);
         return 1;
     }
 
+    /* The original group DQ could be NoneType, too */
+    if ((((PyObject *) rd->orig_gdq) != Py_None) && !is_array(rd->orig_gdq, NPY_UBYTE, 4)) {
+        msg = "Bad type array for the original group DQ.";
+        err_ols_print("%s\n", msg);
+        PyErr_SetString(PyExc_TypeError, msg);
+        return 1;
+    }
+
+    /* There must be a group and every array must cover all pixels of the data. */
+    if (PyArray_DIM(rd->data, 1) < 1 || !covers(rd->groupdq, rd->data, 4, ramp) ||
+        !covers(rd->pixeldq, rd->data, 2, img) || !covers(rd->dcurrent, rd->data, 2, img) ||
+        !covers(rd->gain, rd->data, 2, img) || !covers(rd->rnoise, rd->data, 2, img) ||
+        ((((PyObject *) rd->zframe) != Py_None) && !covers(rd->zframe, rd->data, 3, cube)) ||
+        ((((PyObject *) rd->orig_gdq) != Py_None) && !covers(rd->orig_gdq, rd->data, 4, ramp))) {
+        msg = "Bad shape array for pass ndarrays to C.";
+        err_ols_print("%s\n", msg);
+        PyErr_SetString(PyExc_ValueError, msg);
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 31aab2e14bc085a2acb6cb89961d398a48920a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 19/44] fix: reject flags and read noise that do not match the
 resultants of a Casertano fit

---
 src/stcal/ramp_fitting/ols_cas22/_fit.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_cas22/_fit.pyx b/src/stcal/ramp_fitting/ols_cas22/_fit.pyx
index f7f6aff..5bff636 100644
--- a/src/stcal/ramp_fitting/ols_cas22/_fit.pyx
+++ b/src/stcal/ramp_fitting/ols_cas22/_fit.pyx
@@ -148,6 +148,12 @@ def fit_ramps(float[:, :] resultants,
     if n_resultants != len(read_pattern):
         raise RuntimeError(f"The read pattern length {len(read_pattern)} does not "
                            f"match number of resultants {n_resultants}")
+    if dq.shape[0] != n_resultants or dq.shape[1] != n_pixels:
+        raise RuntimeError(f"The dq shape {(dq.shape[0], dq.shape[1])} does not "
+                           f"match the resultants shape {(n_resultants, n_pixels)}")
+    if read_noise.shape[0] != n_pixels:
+        raise RuntimeError(f"The read noise of {read_noise.shape[0]} pixels does not "
+                           f"match number of pixels {n_pixels}")
 
     # Compute the main metadata from the read pattern and cast it to memory views
     cdef ReadPattern metadata = from_read_pattern(read_pattern, read_time, n_resultants)
-- 
2.43.0


From b9bedf643ef88674f3cc34070a2235db92e0da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 20/44] fix: return the slope and variances of a single
 Casertano ramp, not only their first values

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 533cebd..45b8ba9 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -133,10 +133,6 @@ def fit_ramps_casertano(
     variances = output.variances.reshape(orig_shape[1:] + (3,))
     dq = output.dq.reshape(orig_shape)
 
-    if resultants.shape != orig_shape:
-        parameters = parameters[0]
-        variances = variances[0]
-
     if resultants_unit is not None:
         parameters = parameters * resultants_unit
 
-- 
2.43.0


From a3a77a4f790c6a8fa361ffccd393e0fee1293360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 21/44] fix: report failed allocations of the OLS fit instead
 of using or freeing missing memory

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 57 ++++++++++++++---------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7ed8d91..ecfb521 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -497,7 +497,7 @@ get_float3(PyArrayObject *obj, npy_intp integ, npy_intp row, npy_intp col);
 static uint32_t
 get_uint32_2(PyArrayObject *obj, npy_intp row, npy_intp col);
 
-static void
+static int
 get_pixel_ramp(struct pixel_ramp *pr, struct ramp_data *rd, npy_intp row, npy_intp col);
 
 static void
@@ -1060,13 +1060,13 @@ build_opt_res(struct ramp_data *rd) /* The ramp fitting data */
 
     /* Make PyObjectArray's */
     if (create_opt_res(&opt_res, rd)) {
-        return Py_None;
+        return NULL;
     }
 
     /* Copy data from rd->segs to these arrays */
     if (save_opt_res(&opt_res, rd)) {
         clean_opt_res(&opt_res);
-        return Py_None;
+        return NULL;
     }
 
     /* Package arrays into output tuple */
@@ -1119,8 +1119,10 @@ clean_pixel_ramp(struct pixel_ramp *pr) /* Ramp fitting data for a pixel. */
     FREE_SEGS_LIST(pr->nints, pr->segs);
 
     /* XXX Clean CR list */
-    for (integ = 0; integ < pr->nints; ++integ) {
-        cr_list_clean(&(pr->crs[integ]));
+    if (pr->crs) {
+        for (integ = 0; integ < pr->nints; ++integ) {
+            cr_list_clean(&(pr->crs[integ]));
+        }
     }
     SET_FREE(pr->crs);
 }
@@ -1142,7 +1144,7 @@ clean_ramp_data(struct ramp_data *rd) /* The ramp fitting data structure */
     Py_XDECREF(rd->zframe);
     Py_XDECREF(rd->dcurrent);
 
-    if (rd->segs) {
+    if (rd->segs && rd->crs) {
         /*
          *  For each pixel, check to see if there is any allocated
          *  memory for the linked list of ramp segments and free them.
@@ -1165,7 +1167,7 @@ clean_ramp_data(struct ramp_data *rd) /* The ramp fitting data structure */
                 cr_current = cr_next;
             }
         } /* for loop */
-    } /* if (rd->segs) */
+    } /* if (rd->segs && rd->crs) */
 
     SET_FREE(rd->segs);
     SET_FREE(rd->pedestal);
@@ -1562,7 +1564,8 @@ create_pixel_ramp(struct ramp_data *rd) /* The ramp fitting data */
 
     if ((NULL == pr->data) || (NULL == pr->groupdq) || (NULL == pr->rateints) ||
         (NULL == pr->segs) || (NULL == pr->stats) || (NULL == pr->is_zframe) ||
-        (NULL == pr->is_0th) || (NULL == pr->crs)) {
+        (NULL == pr->is_0th) || (NULL == pr->crs) ||
+        ((((PyObject *) rd->orig_gdq) != Py_None) && (NULL == pr->orig_gdq))) {
         snprintf(msg, 255, "Couldn't allocate memory for pixel ramp data structure.");
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_MemoryError, (const char *) msg);
@@ -1621,11 +1624,11 @@ FAILED_ALLOC:
     err_ols_print("%s\n", msg);
     PyErr_SetString(PyExc_MemoryError, msg);
 
-    Py_XDECREF(rate->slope);
-    Py_XDECREF(rate->dq);
-    Py_XDECREF(rate->var_poisson);
-    Py_XDECREF(rate->var_rnoise);
-    Py_XDECREF(rate->var_err);
+    Py_CLEAR(rate->slope);
+    Py_CLEAR(rate->dq);
+    Py_CLEAR(rate->var_poisson);
+    Py_CLEAR(rate->var_rnoise);
+    Py_CLEAR(rate->var_err);
     PyErr_SetString(PyExc_MemoryError, (const char *) msg);
     err_ols_print("%s\n", msg);
 
@@ -1680,11 +1683,11 @@ FAILED_ALLOC:
     PyErr_SetString(PyExc_MemoryError, msg);
     err_ols_print("%s\n", msg);
 
-    Py_XDECREF(rateint->slope);
-    Py_XDECREF(rateint->dq);
-    Py_XDECREF(rateint->var_poisson);
-    Py_XDECREF(rateint->var_rnoise);
-    Py_XDECREF(rateint->var_err);
+    Py_CLEAR(rateint->slope);
+    Py_CLEAR(rateint->dq);
+    Py_CLEAR(rateint->var_poisson);
+    Py_CLEAR(rateint->var_rnoise);
+    Py_CLEAR(rateint->var_err);
     PyErr_SetString(PyExc_MemoryError, (const char *) msg);
     err_ols_print("%s\n", msg);
 
@@ -1798,7 +1801,7 @@ get_uint32_2(
  * Integration level flag data is also computed, as well as setting flags
  * to use the 0th frame timing, rather than group time, or use the ZEROFRAME.
  */
-static void
+static int
 get_pixel_ramp(
     struct pixel_ramp *pr, /* Pixel ramp data */
     struct ramp_data *rd,  /* Ramp data */
@@ -1824,7 +1827,9 @@ get_pixel_ramp(
             /* Capture CR magnitudes of optional results product is requested */
             if (rd->save_opt && (group > 0) && (pr->groupdq[idx] & rd->jump)) {
                 crmag = pr->data[idx] - pr->data[idx - 1];
-                cr_list_add(&(pr->crs[integ]), crmag);
+                if (cr_list_add(&(pr->crs[integ]), crmag)) {
+                    return 1;
+                }
             }
             idx++;
         }
@@ -1861,6 +1866,8 @@ get_pixel_ramp(
             pr->rate.dq |= rd->pers;
         }
     }
+
+    return 0;
 }
 
 /*
@@ -2063,7 +2070,7 @@ get_ramp_data(PyObject *args) /* The C extension module arguments */
         rd->crs = (struct cr_node **) calloc(rd->cube_sz, sizeof(rd->crs[0]));
         rd->pedestal = (real_t *) calloc(rd->cube_sz, sizeof(rd->pedestal[0]));
 
-        if ((NULL == rd->segs) || (NULL == rd->pedestal)) {
+        if ((NULL == rd->segs) || (NULL == rd->crs) || (NULL == rd->pedestal)) {
             err_ols_print("%s\n", msg);
             PyErr_SetString(PyExc_MemoryError, msg);
             FREE_RAMP_DATA(rd);
@@ -2418,6 +2425,7 @@ median_rate_default(
 
             /* Compute the median rate for the integration. */
             if (median_rate_integration(&mrate, int_data, int_dq, rd, pr)) {
+                ret = 1;
                 goto END;
             }
         }
@@ -2628,7 +2636,10 @@ ols_slope_fit_pixels(
     for (row = 0; row < rd->nrows; ++row) {
         for (col = 0; col < rd->ncols; ++col) {
 
-            get_pixel_ramp(pr, rd, row, col);
+            if (get_pixel_ramp(pr, rd, row, col)) {
+                ret = 1;
+                goto END;
+            }
 
             // DBG_PIXEL;
 
@@ -2696,6 +2707,7 @@ package_results(
     image_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rate->slope, "dq", rate->dq, "var_poisson",
         rate->var_poisson, "var_rnoise", rate->var_rnoise, "err", rate->var_err);
+    memset(rate, 0, sizeof(*rate)); /* The arrays belong to the image information. */
     if (!image_info) {
         goto FAILED_ALLOC;
     }
@@ -2703,6 +2715,7 @@ package_results(
     cube_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rateints->slope, "dq", rateints->dq, "var_poisson",
         rateints->var_poisson, "var_rnoise", rateints->var_rnoise, "err", rateints->var_err);
+    memset(rateints, 0, sizeof(*rateints)); /* The arrays belong to the cube information. */
     if (!cube_info) {
         goto FAILED_ALLOC;
     }
-- 
2.43.0


From 68c9911dc416e44524f330888360e79dbf14757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 22/44] fix: label Casertano parameters in electrons, the unit
 they are fit in

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 45b8ba9..04972b6 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -134,7 +134,8 @@ def fit_ramps_casertano(
     dq = output.dq.reshape(orig_shape)
 
     if resultants_unit is not None:
-        parameters = parameters * resultants_unit
+        # the resultants were fit in electrons
+        parameters = parameters * u.electron
 
     # return ols_cas22.RampFitOutputs(output.fits, parameters, variances, dq)
     return ols_cas22.RampFitOutputs(parameters, variances, dq)
-- 
2.43.0


From 522ae797549dfe0235bce51c9fff3d4528cc2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 23/44] fix: do not let the likelihood jump search discard
 every difference of a short ramp

---
 src/stcal/ramp_fitting/likely_fit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..78cd07f 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -284,6 +284,13 @@ def mask_jumps(
         dchisq_two = result.chisq - result.chisq_two_omit
         dchisq_one = result.chisq - result.chisq_one_omit
 
+        # With two or fewer differences in use there is no way of choosing
+        # which one is good, nor with three which two to discard.  Omitting
+        # equally good candidates could leave no difference to fit.
+        n_used = np.sum(diffs2use[:, recheck], axis=0)
+        dchisq_one[:, n_used <= 2] = 0
+        dchisq_two[:, n_used <= 3] = 0
+
         # We want the largest chi squared difference
         best_dchisq_one = np.amax(dchisq_one * one_omit_ok[:, np.newaxis], axis=0)
         best_dchisq_two = np.amax(dchisq_two * two_omit_ok[:, np.newaxis], axis=0)
-- 
2.43.0


From 083030b60f914da5bffcccb3e67c8e137c719f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 24/44] fix: keep the caller's read pattern when a likelihood
 fit uses the zero frame

---
 src/stcal/ramp_fitting/likely_fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 78cd07f..41febcd 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -60,7 +60,9 @@ def likely_ramp_fit(ramp_data, readnoise_2d, gain_2d, jump_data=None):
             # Read time for the zeroframe is the first entry in the first group
             rt_zero = readtimes[0][0]
 
-            # Remove the zero readtime from the first group
+            # Remove the zero readtime from the first group, in a new list
+            # so the read pattern of the caller keeps its groups
+            readtimes = list(readtimes)
             readtimes[0] = readtimes[0][1:]
 
             # Add the zero readtime as a separate entry in the beginning of the array
-- 
2.43.0


From 2bca1d3350a92bd806dc65f8f08e13354f102237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 25/44] fix: let fit_ramps compute its initial count rate guess

---
 src/stcal/ramp_fitting/likely_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 41febcd..76aa271 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -580,7 +580,7 @@ def fit_ramps(
 
     # diffs is (ngroups, ncols) of the current row
     if count_rate_guess is None:
-        count_rate_guess = initial_count_rate_guess(covar, diffs, diffs2use)
+        count_rate_guess = initial_count_rate_guess(diffs, diffs2use)
 
     alpha_tuple, beta_tuple, scale = compute_alphas_betas(
         count_rate_guess, gain, rnoise, covar, rescale, diffs, dn_scale
-- 
2.43.0


From dfc7dcfb4a0a470c6b23af3b11a7a24ea80ffa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 26/44] fix: find likelihood jumps where the two-omission
 equations decouple

---
 src/stcal/ramp_fitting/likely_fit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 76aa271..40d7ef5 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -754,9 +754,10 @@ def compute_jump_detects(result, ndiffs, diffs2use, dC, dB, A, B, C, scale, beta
 
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
-        # best-fit a, b, c
-        c = bcpj_fac / cpj_fac - (B * dC[1:] - dB[1:] * C) / cjck_fac
-        c /= cjck_fac / cpj_fac - (dC[1:] ** 2 - C * Cinv_diag[1:]) / cjck_fac
+        # best-fit a, b, c.  Do not divide by cjck_fac, which vanishes for
+        # some ramps without photon noise.
+        c = bcpj_fac * cjck_fac - (B * dC[1:] - dB[1:] * C) * cpj_fac
+        c /= cjck_fac**2 - (dC[1:] ** 2 - C * Cinv_diag[1:]) * cpj_fac
         b = (bcpj_fac - c * cjck_fac) / cpj_fac
         a = (B - b * dC[:-1] - c * dC[1:]) / C
         result.countrate_two_omit = a
-- 
2.43.0


From ee5bc791347d4a1ed7e04923df0c28a6a69d2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 27/44] fix: accept as many images as announced in the on-disk
 median, whatever its number of sections

---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From eb15e5820835759c8e8a4b0a0c0148619e3bc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 28/44] fix: pixel maps on a sparse grid cover the whole image
 without bounding box, small images, and failures

---
 src/stcal/resample/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index d729335..d3fc87d 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -133,14 +133,8 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     if shape is None:
         raise ValueError('The "from" WCS must have pixel_shape property set.')
 
-    # temporarily disable the bounding box for the "from" WCS:
-    if disable_bbox in ["from", "both"] and bbox_from is not None:
-        wcs_from.bounding_box = None
-    if disable_bbox in ["to", "both"] and bbox_to is not None:
-        wcs_to.bounding_box = None
-
     # find integer boundaries of of the pixel grid to be computed:
-    if bbox_from is None:
+    if bbox_from is None or disable_bbox in ["from", "both"]:
         xmin, xmax = 0, shape[1] - 1
         ymin, ymax = 0, shape[0] - 1
     else:
@@ -154,7 +148,14 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     eff_height = ymax - ymin + 1
 
     try:
-        if stepsize == 1 or max(eff_width, eff_height) <= 10:
+        # temporarily disable the bounding box of the WCS as requested:
+        if disable_bbox in ["from", "both"] and bbox_from is not None:
+            wcs_from.bounding_box = None
+        if disable_bbox in ["to", "both"] and bbox_to is not None:
+            wcs_to.bounding_box = None
+
+        # a spline needs more points than its order in either direction
+        if stepsize == 1 or max(eff_width, eff_height) <= 10 or min(eff_width, eff_height) <= 3:
             y, x = np.indices(shape, dtype=np.float64)
             x, y = wcs_to.world_to_pixel_values(*wcs_from.pixel_to_world_values(x, y))
         else:
-- 
2.43.0


From fc3dd132f9169f9d5ddcd9e594d62ad323bc36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 29/44] fix: return from an S3 catalog query when its timeout
 expires

---
 src/stcal/tweakreg/_s3_catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index d8539a3..7710b11 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -218,11 +218,15 @@ def get_s3_catalog(
     s3_url = S3_NAMES_TO_CATALOGS[catalog]
 
     # use a thread to allow setting a timeout
-    with concurrent.futures.ThreadPoolExecutor(max_workers=1) as executor:
+    executor = concurrent.futures.ThreadPoolExecutor(max_workers=1)
+    try:
         future = executor.submit(
             _get_hats_sources, s3_url, right_ascension, declination, search_radius, list(COL_NAMES)
         )
         table = future.result(timeout=timeout)
+    finally:
+        # do not wait for a request that did not answer in time
+        executor.shutdown(wait=False, cancel_futures=True)
 
     if epoch:
         table = _correct_for_proper_motion(table, epoch)
-- 
2.43.0


From 200a6733f6d003730e7db0f664f52c0b72452b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 30/44] fix: report S3 catalog read failures as connection
 errors, as for the other catalog service

---
 src/stcal/tweakreg/_s3_catalog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index 7710b11..107f709 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -6,6 +6,7 @@ import numpy as np
 import pyarrow.csv as csv
 import pyarrow.fs
 import pyarrow.parquet as pq
+import requests
 from astropy import coordinates
 from astropy import units as u
 from astropy.table import Table
@@ -224,6 +225,12 @@ def get_s3_catalog(
             _get_hats_sources, s3_url, right_ascension, declination, search_radius, list(COL_NAMES)
         )
         table = future.result(timeout=timeout)
+    except (TimeoutError, FileNotFoundError):
+        raise
+    except OSError as err:
+        raise requests.exceptions.ConnectionError(
+            "Could not read the catalog from S3. Try again later."
+        ) from err
     finally:
         # do not wait for a request that did not answer in time
         executor.shutdown(wait=False, cancel_futures=True)
-- 
2.43.0


From 0590cfbd102fdfa68a19904f280b5673c3c469c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 31/44] fix: forget the groups of the previous product when
 resample arrays are reset

---
 src/stcal/resample/resample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..8c46eec 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -682,6 +682,10 @@ class Resample:
 
         self.init_time_counters()
 
+        # groups of the previous output model, if any, do not count
+        self._group_ids = []
+        self._n_res_models = 0
+
         self._finalized = False
 
     def validate_input_model(self, model):
-- 
2.43.0


From 67ad4a1076e47731d09c721a2615ac4fd4c7ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 32/44] fix: weight variances of models without read noise
 variance equally

---
 src/stcal/resample/resample.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 8c46eec..beee51a 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1148,12 +1148,14 @@ class Resample:
 
         # Set the weight for the image from the weight type
         if self.weight_type.startswith("ivm"):
-            rn_var_info = self._variance_info.get("var_rnoise", {})
-            rn_var = rn_var_info.get("var", None)
-            if rn_var is not None:
+            if "var_rnoise" in self._variance_info and self._check_var_array(model, "var_rnoise"):
+                rn_var = self._variance_info["var_rnoise"]["var"]
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                # no read noise variance in this model: equal weighting
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
-- 
2.43.0


From 71dea7834035ee0bdbd54187577acff3df78ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 33/44] fix: resample variances when the error array is
 computed from them

---
 src/stcal/resample/resample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index beee51a..c1330b6 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -268,7 +268,8 @@ class Resample:
         self._n_res_models = 0
 
         self._enable_ctx = enable_ctx
-        self._enable_var = enable_var
+        # errors from variances need the variances
+        self._enable_var = enable_var or compute_err == "from_var"
         self._compute_err = compute_err
         self._propagate_dq = propagate_dq
 
-- 
2.43.0


From e29afac5afc0d25f428024b994ccb486131a8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 34/44] fix: keep to the limits in unclipped sky medians

---
 src/stcal/skymatch/skystatistics.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stcal/skymatch/skystatistics.py b/src/stcal/skymatch/skystatistics.py
index 2998430..3b05c3f 100644
--- a/src/stcal/skymatch/skystatistics.py
+++ b/src/stcal/skymatch/skystatistics.py
@@ -5,6 +5,7 @@ Used by :py:func:`~stcal.skymatch.skymatch.skymatch`
 and :py:class:`~stcal.skymatch.skyimage.SkyImage`.
 """
 
+import numpy as np
 from stsci.imagestats import ImageStats
 
 __all__ = ["SkyStats"]
@@ -91,6 +92,14 @@ cgi-bin/gethelp.cgi?gstatistics>`_
             of pixels used in computing the statistics reported in `skyvalue`.
 
         """
+        # ImageStats ignores the limits when computing the median without clipping
+        data = np.asanyarray(data)
+        lower, upper = self._kwargs["lower"], self._kwargs["upper"]
+        if lower is not None:
+            data = data[data >= lower]
+        if upper is not None:
+            data = data[data <= upper]
+
         imstat = ImageStats(image=data, **(self._kwargs))
         return getattr(imstat, self._skystat), imstat.npix
 
-- 
2.43.0


From 1737a19a1066acaf3a8f07c4fadb5af82e9eba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 35/44] fix: sky mode and midpoint of values within a single
 histogram bin

---
 src/stcal/skymatch/skystatistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/skymatch/skystatistics.py b/src/stcal/skymatch/skystatistics.py
index 3b05c3f..75bd5cd 100644
--- a/src/stcal/skymatch/skystatistics.py
+++ b/src/stcal/skymatch/skystatistics.py
@@ -101,6 +101,9 @@ cgi-bin/gethelp.cgi?gstatistics>`_
             data = data[data <= upper]
 
         imstat = ImageStats(image=data, **(self._kwargs))
+        if self._skystat in ("mode", "midpt") and imstat.histogram.size == 1:
+            # the values are too close to each other to be binned
+            return imstat.mean, imstat.npix
         return getattr(imstat, self._skystat), imstat.npix
 
     def __call__(self, data):  # noqa: D102
-- 
2.43.0


From 8e0fbf9e3fac0b22db77c3d979899691011da115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 36/44] fix: images without a valid sky in the global sky
 method

---
 src/stcal/skymatch/skymatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skymatch.py b/src/stcal/skymatch/skymatch.py
index 12881d9..fbe1441 100644
--- a/src/stcal/skymatch/skymatch.py
+++ b/src/stcal/skymatch/skymatch.py
@@ -305,7 +305,7 @@ drizzlepac/astrodrizzle.html>`_.
         for img in images:
             sky = img.calc_sky(delta=not subtract)[0]
             sky_deltas.append(sky)
-            if do_global and (minsky is None or sky < minsky):
+            if do_global and sky is not None and (minsky is None or sky < minsky):
                 minsky = sky
 
         if do_global:
-- 
2.43.0


From 428a55927a8416297afa40fb415f83d457902eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 37/44] fix: accept sky masks of ones and zeros

---
 src/stcal/skymatch/skyimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skyimage.py b/src/stcal/skymatch/skyimage.py
index d8f7ab9..c5eb26b 100644
--- a/src/stcal/skymatch/skyimage.py
+++ b/src/stcal/skymatch/skyimage.py
@@ -168,7 +168,7 @@ class SkyImage:
             raise ValueError("'mask' must have the same shape as 'image'.")
 
         self.image = image
-        self.mask = mask
+        self.mask = np.asarray(mask, dtype=bool)
 
         self.meta = meta
         self.sky_id = sky_id
-- 
2.43.0


From 2b36a7d738bac6272d61f0f3987d29cdcd18d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 38/44] fix: combine regions with different numbers of vertices

---
 src/stcal/alignment/resample_utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 93c7a5e..06d8dd6 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -38,18 +38,14 @@ def combine_sregions(sregion_list, det2world, intersect_footprint=None):
     ValueError
         If there is no overlap between the input s_regions and the intersection footprint.
     """
-    footprints = np.array(
-        [
-            util.sregion_to_footprint(sregion) if isinstance(sregion, str) else sregion
-            for sregion in sregion_list
-        ]
-    )
+    footprints = [
+        util.sregion_to_footprint(sregion) if isinstance(sregion, str) else sregion
+        for sregion in sregion_list
+    ]
 
     # convert from world to pixel coordinates
-    footprints_flat = footprints.reshape(-1, 2)
     world2det = det2world.inverse
-    x, y = world2det(footprints_flat[:, 0], footprints_flat[:, 1])
-    footprints_pixels = np.vstack([x, y]).T.reshape(footprints.shape)
+    footprints_pixels = [np.vstack(world2det(f[:, 0], f[:, 1])).T for f in footprints]
 
     # combine footprints with Shapely
     combined_polygons = combine_footprints(footprints_pixels)
-- 
2.43.0


From 67bc718b9784b8d8402e7028db96141d00675a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 39/44] fix: intersect combined regions with an outline that
 cuts them apart or only touches them

---
 src/stcal/alignment/resample_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 06d8dd6..8f3ecdf 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -153,16 +153,20 @@ def _intersect_with_bbox(polygons, bbox):
 
     Returns
     -------
-    np.ndarray
-        2D array of shape (M, 2) representing the intersected polygon vertices.
+    list[np.ndarray]
+        2D arrays of shape (M, 2) representing the intersected polygon vertices.
     """
     intersect_polygon = shapely.geometry.Polygon(bbox)
     final_polygons = []
     for polygon in polygons:
         polygon = shapely.geometry.Polygon(polygon)
         intersection = shapely.intersection(polygon, intersect_polygon)
-        if not intersection.is_empty:
-            final_polygons.append(_convert_to_array(intersection))
+        # the box can cut a polygon apart, or only touch it in points and lines
+        final_polygons += [
+            _convert_to_array(part)
+            for part in getattr(intersection, "geoms", [intersection])
+            if isinstance(part, shapely.geometry.Polygon) and not part.is_empty
+        ]
     return final_polygons
 
 
-- 
2.43.0


From a161e8754795103e0e6f266c5ae788971b735ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 40/44] fix: keep corners of combined regions next to close
 points

---
 src/stcal/alignment/resample_utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 8f3ecdf..26790cf 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -137,7 +137,8 @@ def combine_footprints(footprints):
     combined_polys = []
     for poly in combined_footprints:
         combined_polys.append(_convert_to_array(poly))
-    return combined_polys
+    # slivers are left without an area when simplified
+    return [poly for poly in combined_polys if len(poly) > 2]
 
 
 def _intersect_with_bbox(polygons, bbox):
@@ -167,7 +168,7 @@ def _intersect_with_bbox(polygons, bbox):
             for part in getattr(intersection, "geoms", [intersection])
             if isinstance(part, shapely.geometry.Polygon) and not part.is_empty
         ]
-    return final_polygons
+    return [poly for poly in final_polygons if len(poly) > 2]
 
 
 def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
@@ -194,6 +195,16 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     np.ndarray
         2D array of shape (M, 2) representing the simplified polygon vertices.
     """
+    # Check closeness first: a point close to one that is removed may be needed,
+    # and angles between close points mean nothing.
+    distinct = [0]
+    for i in range(1, len(coords)):
+        if np.abs(coords[i] - coords[distinct[-1]]).max() >= point_thresh:
+            distinct.append(i)
+    if len(distinct) > 1 and np.abs(coords[distinct[-1]] - coords[0]).max() < point_thresh:
+        distinct.pop()
+    coords = coords[distinct]
+
     # Indices for previous, current, next points (wrap around)
     n = len(coords)
     idx_prev = np.arange(-1, n - 1)
@@ -208,17 +219,12 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     v1 = p1 - p0
     v2 = p2 - p1
 
-    # Check closeness
-    # We only need to check closeness in one direction, to avoid removing both points
-    # if there's a duplicated pair. Wrapped indices ensure no bugs with first/last points.
-    close = (np.abs(v1[:, 0]) < point_thresh) & (np.abs(v1[:, 1]) < point_thresh)
-
     # Slopes
     m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
     m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
     delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
 
-    collinear = close | (np.abs(delta_theta) < angle_thresh)
+    collinear = np.abs(delta_theta) < angle_thresh
 
     # Keep only non-collinear points
     return coords[~collinear]
-- 
2.43.0


From 3cd6efd2f421e34aa50bcb8208c8efeb89332427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 41/44] fix: report catalog service failures instead of reading
 their message as an empty catalog

---
 src/stcal/tweakreg/astrometric_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7b084d7..d1beb13 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -194,6 +194,7 @@ def get_catalog(
     service_url = f"{SERVICELOCATION}/{service_type}?{spec}"
     try:
         rawcat = requests.get(service_url, headers=headers, timeout=timeout)
+        rawcat.raise_for_status()
     except requests.exceptions.ConnectionError as err:
         raise requests.exceptions.ConnectionError(
             "Could not connect to the VO API server. Try again later."
-- 
2.43.0


From f85b2ea07bbe8be61cbca41f22d224a4895bad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 42/44] fix: return no sources from an astrometric catalog
 limited to none

---
 src/stcal/tweakreg/astrometric_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index d1beb13..fff0e8e 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -105,7 +105,7 @@ def create_astrometric_catalog(
     # Should 'num_sources' be a negative value, it will return the faintest
     # 'num_sources' sources.
     if num_sources is not None:
-        indx = -1 * num_sources
+        indx = -1 * num_sources if num_sources < 0 else max(len(ref_table) - num_sources, 0)
         ref_table = ref_table[:indx] if num_sources < 0 else ref_table[indx:]
 
     # Write out table to a file, if specified
-- 
2.43.0


From 392bea88a759a630bf4f8a9ef68916c54f1c2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 43/44] fix: query every partition that overlaps a
 reference-catalog cone

---
 src/stcal/tweakreg/_s3_catalog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index 107f709..8fb12fa 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -81,7 +81,10 @@ def _get_partition_info(uri):
 
 def _cone_search(ra, dec, search_radius, depth):
     hp = HEALPix(nside=2**depth, order="nested")
-    return hp.cone_search_lonlat(ra * u.deg, dec * u.deg, search_radius * u.deg)
+    pixels = hp.cone_search_lonlat(ra * u.deg, dec * u.deg, search_radius * u.deg)
+    # the search misses some pixels that overlap the cone with less than their center
+    pixels = np.unique(np.append(pixels, hp.neighbours(pixels)))
+    return pixels[pixels >= 0]
 
 
 def _generate_depth_29_ranges(pixels, depth):
-- 
2.43.0


From 427c298c22e3917a49cfa6f8c39bad3df1b31234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 44/44] fix: report a worker process that dies instead of
 waiting for it forever

---
 src/stcal/jump/jump.py            | 11 +++++------
 src/stcal/ramp_fitting/ols_fit.py |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index b1119f4..97f5d35 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -5,6 +5,7 @@ This includes detecting cosmic ray jumps
 and their side effects like snowballs and showers.
 """
 
+import concurrent.futures
 import logging
 import multiprocessing
 import time
@@ -157,13 +158,11 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
 
     log.info("Creating %d processes for jump detection ", n_slices)
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=n_slices)
 
-    # Starts each slice in its own process. Starmap allows more than one
-    # parameter to be passed.
-    real_result = pool.starmap(twopt.find_crs, slices)
-    pool.close()
-    pool.join()
+    # Starts each slice in its own process. An executor, unlike a pool, reports
+    # a worker that ends before its result is available.
+    with concurrent.futures.ProcessPoolExecutor(n_slices, mp_context=ctx) as pool:
+        real_result = list(pool.map(twopt.find_crs, *zip(*slices, strict=True)))
 
     return reassemble_sliced_data(real_result, gdq, yinc)
 
diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 9b184d8..773500a 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -1,5 +1,6 @@
 #! /usr/bin/env python
 
+import concurrent.futures
 import logging
 import multiprocessing
 import sys
@@ -152,10 +153,9 @@ def ols_ramp_fit_multiprocessing(ramp_data, save_opt, readnoise_2d, gain_2d, wei
     )
 
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=number_slices)
-    pool_results = pool.starmap(ols_ramp_fit_single, slices)
-    pool.close()
-    pool.join()
+    # An executor, unlike a pool, reports a worker that ends before its result is available.
+    with concurrent.futures.ProcessPoolExecutor(number_slices, mp_context=ctx) as pool:
+        pool_results = list(pool.map(ols_ramp_fit_single, *zip(*slices, strict=True)))
 
     # Reassemble results
     image_info, integ_info, opt_info = assemble_pool_results(
-- 
2.43.0

