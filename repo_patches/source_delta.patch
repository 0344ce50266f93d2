From 20ebf7733fd3a13d0d958a3e0317353829f257cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:19 +0000
Subject: [PATCH 001/164] fix: make channel widths positive when reading uvfits
 with descending channels

---
 src/pyuvdata/uvdata/uvfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..7c66419 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -457,7 +457,8 @@ class UVFITS(UVData):
                 # FQ table, in which case pull the info from the main table
                 self.Nfreqs = vis_hdr.pop("NAXIS4")
                 self.freq_array = fits_utils._gethduaxis(vis_hdu, 4)
-                self.channel_width = np.full(self.Nfreqs, vis_hdr.pop("CDELT4"))
+                # channel widths are positive even if the channels are in decending order
+                self.channel_width = np.full(self.Nfreqs, abs(vis_hdr.pop("CDELT4")))
                 self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
 
             self.polarization_array = np.int32(fits_utils._gethduaxis(vis_hdu, 3))
-- 
2.43.0


From 33ae1bd64ac5a3677bb14a3a61d9cf1f90f1b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:19 +0000
Subject: [PATCH 002/164] fix: describe spectral windows in channel order when
 writing uvfits

---
 src/pyuvdata/uvdata/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 7c66419..380ac98 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -908,7 +908,10 @@ class UVFITS(UVData):
         nchan_list = []
         start_freq_array = []
         delta_freq_array = []
-        for idx in self.spw_array:
+        # the windows have to be described in the order they have on the frequency axis,
+        # which is not necessarily the order in spw_array
+        _, first_chan = np.unique(self.flex_spw_id_array, return_index=True)
+        for idx in self.flex_spw_id_array[np.sort(first_chan)]:
             chan_mask = self.flex_spw_id_array == idx
             nchan_list += [np.sum(chan_mask)]
             start_freq_array += [self.freq_array[chan_mask][0]]
-- 
2.43.0


From 84215e44a6998830e9b7f800a67a640d836ce1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:31 +0000
Subject: [PATCH 003/164] fix: write uvfits for phase centers without an epoch

---
 src/pyuvdata/uvdata/uvfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 380ac98..76d5751 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -1227,7 +1227,7 @@ class UVFITS(UVData):
         hdu.header["LON     "] = lon
         hdu.header["ALT     "] = alt
         hdu.header["INSTRUME"] = self.telescope.instrument
-        if self.Nphase == 1:
+        if self.Nphase == 1 and phase_dict.get("cat_epoch") is not None:
             hdu.header["EPOCH   "] = float(phase_dict["cat_epoch"])
         # TODO: This is a keyword that should at some point get added for velocity
         # reference stuff, although for right now pyuvdata doesn't do any sort of
@@ -1502,7 +1502,7 @@ class UVFITS(UVData):
 
             epo_arr[idx] = (
                 phase_dict["cat_epoch"]
-                if "cat_epoch" in (phase_dict.keys())
+                if phase_dict.get("cat_epoch") is not None
                 else 2000.0
             )
 
-- 
2.43.0


From 08fc09e42ca1c0a3e0464cb4326a909b6c4f6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:35 +0000
Subject: [PATCH 004/164] fix: keep flags and nsamples with their visibilities
 in conjugate_bls

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..cab9d0c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3685,10 +3685,18 @@ class UVData(UVBase):
 
             if not self.metadata_only:
                 orig_data_array = copy.copy(self.data_array)
+                orig_flag_array = copy.copy(self.flag_array)
+                orig_nsample_array = copy.copy(self.nsample_array)
                 for pol_ind in np.arange(self.Npols):
                     self.data_array[index_array, :, new_pol_inds[pol_ind]] = np.conj(
                         orig_data_array[index_array, :, pol_ind]
                     )
+                    self.flag_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_flag_array[index_array, :, pol_ind]
+                    )
+                    self.nsample_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_nsample_array[index_array, :, pol_ind]
+                    )
 
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
-- 
2.43.0


From 1d0921d774ac241412fcfab2be37a04d309d59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:31 +0000
Subject: [PATCH 005/164] fix: do not keep stale baseline-time order metadata
 in conjugate_bls

---
 src/pyuvdata/uvdata/uvdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index cab9d0c..df44303 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3708,6 +3708,13 @@ class UVData(UVBase):
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
 
+            # the antennas & baseline numbers changed, so what was recorded about the
+            # order of the baseline-time axis may not be true anymore
+            if self.blt_order is not None and self.blt_order[0] != "bda":
+                self.blt_order = None
+            if self.blts_are_rectangular is not None:
+                self.set_rectangularity(force=True)
+
     def reorder_pols(
         self,
         order="AIPS",
-- 
2.43.0


From 8a90985d88c0c1af45b066421ce1ab747e61326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:00 +0000
Subject: [PATCH 006/164] fix: keep the channel width of single-channel windows
 when writing miriad

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 176051d..a0ed3ba 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1741,6 +1741,8 @@ class Miriad(UVData):
                 freq_array_use[np.append(win_start_pos[1:] - 1, self.Nfreqs - 1)]
                 - freq_array_use[win_start_pos]
             )
+            # windows with a single channel have no direction, keep their width
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sdf", "d")  # Channel width, Hz -> GHz
             uv["sdf"] = self.channel_width[win_start_pos] * freq_dir / 1e9
@@ -1754,6 +1756,8 @@ class Miriad(UVData):
             # Need the array direction here since channel_width is always supposed
             # to be > 0, but channels can be in decending freq order
             freq_dir = np.sign(np.diff(freq_array_use[([0, -1])]))
+            # a single channel has no direction, keep its width
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sfreq", "d")  # Freq of first channel of the window, in GHz
             uv["sfreq"] = (freq_array_use[0] / 1e9).astype(np.double)  # Hz -> GHz
-- 
2.43.0


From 3157e1e855c601e246fc340067a5a5343acf08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:00 +0000
Subject: [PATCH 007/164] fix: write miriad for phase centers without an epoch

---
 src/pyuvdata/uvdata/miriad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index a0ed3ba..0652741 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -2043,7 +2043,8 @@ class Miriad(UVData):
             elif cat_type == "sidereal":
                 uv["ra"] = self.phase_center_catalog[cat_id]["cat_lon"]
                 uv["dec"] = self.phase_center_catalog[cat_id]["cat_lat"]
-                uv["epoch"] = self.phase_center_catalog[cat_id]["cat_epoch"]
+                cat_epoch = self.phase_center_catalog[cat_id].get("cat_epoch")
+                uv["epoch"] = 2000.0 if cat_epoch is None else cat_epoch
                 uv["phsframe"] = self.phase_center_catalog[cat_id]["cat_frame"]
             elif cat_type == "ephem":
                 if self.phase_center_catalog[cat_id]["cat_times"].size == 1:
-- 
2.43.0


From ba11cd81f8a6da71d0581529a6f88b97e1cc2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 008/164] fix: match miriad antenna positions to unsorted
 antenna numbers

---
 src/pyuvdata/uvdata/miriad.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 0652741..731c316 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -533,18 +533,13 @@ class Miriad(UVData):
             if self.telescope.Nants is not None:
                 # in this case there is an antnums variable
                 # (meaning that the file was written with pyuvdata), so we'll use it
-                if nants == self.telescope.Nants:
-                    # no inflation, so just use the positions
-                    self.telescope.antenna_positions = rel_ecef_antpos
-                else:
-                    # there is some inflation, just use the ones that appear in antnums
-                    self.telescope.antenna_positions = np.zeros(
-                        (self.telescope.Nants, 3), dtype=antpos.dtype
-                    )
-                    for ai, num in enumerate(self.telescope.antenna_numbers):
-                        self.telescope.antenna_positions[ai, :] = rel_ecef_antpos[
-                            num, :
-                        ]
+                # the positions are indexed by antenna number, use the ones that appear
+                # in antnums, in that order (which may not be sorted)
+                self.telescope.antenna_positions = np.zeros(
+                    (self.telescope.Nants, 3), dtype=antpos.dtype
+                )
+                for ai, num in enumerate(self.telescope.antenna_numbers):
+                    self.telescope.antenna_positions[ai, :] = rel_ecef_antpos[num, :]
             else:
                 # there is no antnums variable (meaning that this file was not
                 # written by pyuvdata), so we test for antennas with non-zero
-- 
2.43.0


From 329441394049129f283e6f4e28d2a7e24048a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:51 +0000
Subject: [PATCH 009/164] fix: convert decreasing indices to the slices that
 select them

---
 src/pyuvdata/utils/io/hdf5.py |  3 +++
 src/pyuvdata/utils/tools.py   | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 88c27da..0d7ad57 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -87,6 +87,9 @@ def _get_slice_len(s, axlen):
     int
         Length of slice object
     """
+    if s.step is not None and s.step < 0:
+        return len(range(*s.indices(axlen)))
+
     if s.start is None:
         start = 0
     else:
diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..183bdb9 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -56,6 +56,13 @@ def _combine_filenames(filename1, filename2):
     return combined_filenames
 
 
+def _inclusive_slice(start, last, step):
+    """Make a slice from start up to and including last, step can be negative."""
+    if step is not None and step < 0:
+        return slice(start, last - 1 if last > 0 else None, step)
+    return slice(start, last + 1, step)
+
+
 def _convert_to_slices(
     indices, *, max_nslice_frac=0.1, max_nslice=None, return_index_on_fail=False
 ):
@@ -111,15 +118,14 @@ def _convert_to_slices(
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
     if len(eval_ind) <= 2:
-        return [
-            slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
-        ], True
+        step = (eval_ind[-1] - eval_ind[0]) or 1
+        return [_inclusive_slice(eval_ind[0], eval_ind[-1], step)], True
 
     # Catch the simplest case of "give me a single slice or exit"
     if (max_nslice == 1) and return_index_on_fail:
         step = eval_ind[1] - eval_ind[0]
         if all(np.diff(eval_ind) == step):
-            return [slice(eval_ind[0], eval_ind[-1] + 1, step)], True
+            return [_inclusive_slice(eval_ind[0], eval_ind[-1], step)], True
         return [indices], False
 
     # setup empty slices list
@@ -144,7 +150,7 @@ def _convert_to_slices(
         # if step != last_step, this ends the slice
         if step != last_step:
             # append to list
-            slices.append(slice(start, last_ind + 1, last_step))
+            slices.append(_inclusive_slice(start, last_ind, last_step))
 
             # setup next step
             start = ind
@@ -153,7 +159,7 @@ def _convert_to_slices(
         last_ind = ind
 
     # Append the last slice
-    slices.append(slice(start, ind + 1, last_step))
+    slices.append(_inclusive_slice(start, ind, last_step))
 
     # determine whether slices are a reasonable representation, and determine max_nslice
     # if only max_nslice_frac was supplied.
-- 
2.43.0


From b3d822981ecfbad93ac246f1aeed5d87697ffc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:51 +0000
Subject: [PATCH 010/164] fix: do not conjugate the data on the object when
 writing an ms with flip_conj

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 73fd904..64bc3d4 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -203,7 +203,7 @@ class MS(UVData):
                 temp_vals = arr[:, :, pol_order]
 
                 if flip_conj and ("DATA" in col):
-                    temp_vals = np.conj(temp_vals, out=temp_vals)
+                    temp_vals = np.conj(temp_vals)
 
                 ms.putcol(col, temp_vals)
 
-- 
2.43.0


From 92e92d86a697ca8d21361ec0bd0213100cf311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 011/164] fix: apply every select keyword when reading file
 types without select on read

---
 src/pyuvdata/uvdata/uvdata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index df44303..f2df197 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10924,6 +10924,7 @@ class UVData(UVBase):
                     or polarizations is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     select = True
                     warnings.warn(
@@ -10947,6 +10948,7 @@ class UVData(UVBase):
                     select_polarizations = polarizations
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["uvfits", "uvh5"]:
@@ -10957,8 +10959,11 @@ class UVData(UVBase):
                     or frequencies is not None
                     or freq_chans is not None
                     or times is not None
+                    or lsts is not None
+                    or lst_range is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     if blt_inds is not None:
                         if (
@@ -10999,6 +11004,7 @@ class UVData(UVBase):
                     select_lst_range = lst_range
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["mir"]:
@@ -11006,11 +11012,11 @@ class UVData(UVBase):
                 # these are all done by partial read, so set to None
                 select_antenna_nums = None
                 select_antenna_names = None
-                select_ant_str = None
                 select_bls = None
                 select_lst_range = None
                 select_time_range = None
                 select_polarizations = None
+                select_catalog_names = None
 
                 # MIR can handle length-two bls tuples, so if any three element tuples
                 # are seen, we need to deal w/ that via select.
@@ -11018,6 +11024,7 @@ class UVData(UVBase):
                     select_bls = bls if any(len(item) == 3 for item in bls) else None
 
                 # these aren't supported by partial read, so do it in select
+                select_ant_str = ant_str
                 select_frequencies = frequencies
                 select_freq_chans = freq_chans
                 select_blt_inds = blt_inds
@@ -11029,6 +11036,7 @@ class UVData(UVBase):
                     item is None
                     for item in [
                         select_bls,
+                        ant_str,
                         frequencies,
                         freq_chans,
                         blt_inds,
@@ -11253,6 +11261,7 @@ class UVData(UVBase):
                     polarizations=select_polarizations,
                     blt_inds=select_blt_inds,
                     phase_center_ids=select_phase_center_ids,
+                    catalog_names=select_catalog_names,
                     keep_all_metadata=keep_all_metadata,
                     run_check=run_check,
                     check_extra=check_extra,
-- 
2.43.0


From 0d64c5230ec55a1ec620e6aed0069f671d52ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 012/164] fix: allow selecting one channel from each of several
 spectral windows

---
 src/pyuvdata/utils/tools.py   | 4 ++--
 src/pyuvdata/uvcal/uvcal.py   | 2 +-
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 183bdb9..db6ba8b 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -220,8 +220,8 @@ def _test_array_constant(array, *, tols=None):
     assert isinstance(tols, tuple), "tols must be a length-2 tuple"
     assert len(tols) == 2, "tols must be a length-2 tuple"
 
-    if array_to_test.size == 1:
-        # arrays with 1 element are constant by definition
+    if array_to_test.size <= 1:
+        # arrays with 0 or 1 elements are constant by definition
         return True
 
     # if min and max are equal don't bother with tolerance checking
diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..9e7ed99 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4178,7 +4178,7 @@ class UVCal(UVBase):
                         "will make it impossible to write this data out to "
                         "calfits files"
                     )
-                elif np.max(freq_ind_separation) > 1:
+                elif np.any(freq_ind_separation > 1):
                     warnings.warn(
                         "Selected frequencies are not contiguous. This "
                         "will make it impossible to write this data out to "
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f2df197..54cd4d9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6931,7 +6931,7 @@ class UVData(UVBase):
                         "will make it impossible to write this data out to "
                         "some file types"
                     )
-                elif np.max(freq_ind_separation) > 1:
+                elif np.any(freq_ind_separation > 1):
                     warnings.warn(
                         "Selected frequencies are not contiguous. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From aaddb883758734903b587edcb820072c39432c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:32 +0000
Subject: [PATCH 013/164] fix: select channels across spectral windows when
 reading uvfits

---
 src/pyuvdata/uvdata/uvfits.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 76d5751..3c28be6 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -248,7 +248,11 @@ class UVFITS(UVData):
             blt_frac = 1
 
         if freq_inds is not None:
-            freq_frac = len(freq_inds) * float(self.Nspws) / float(self.Nfreqs)
+            freq_frac = len(freq_inds) / float(self.Nfreqs)
+            # freq_inds counts the channels across all the spectral windows
+            spw_inds, chan_inds = np.unravel_index(
+                freq_inds, (self.Nspws, self.Nfreqs // self.Nspws)
+            )
         else:
             freq_frac = 1
 
@@ -286,7 +290,6 @@ class UVFITS(UVData):
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -294,14 +297,16 @@ class UVFITS(UVData):
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :]
                     raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[:, spw_inds, chan_inds, :, :]
+                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
                 if pol_frac < 1:
                     raw_data_array = raw_data_array[:, :, :, pol_inds, :]
             elif freq_frac == min_frac:
                 if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
+                    raw_data_array = vis_hdu.data.data[
+                        :, 0, 0, spw_inds, chan_inds, :, :
+                    ]
+                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -317,7 +322,6 @@ class UVFITS(UVData):
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[:, :, :, :, :, pol_inds, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -328,7 +332,8 @@ class UVFITS(UVData):
                 if blt_frac < 1:
                     raw_data_array = raw_data_array[blt_inds, :, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[:, spw_inds, chan_inds, :, :]
+                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
 
         assert len(raw_data_array.shape) == 5
 
-- 
2.43.0


From 2bea4075cd11a358ff343bf60bd835266b06e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 014/164] fix: apply time and polarization selections to all
 antenna pairs when reading miriad

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 731c316..611f808 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -887,6 +887,8 @@ class Miriad(UVData):
             # so subtract 1/2 an integration before using with miriad select
             time_range_use = np.array(time_range) - uv["inttime"] / (24 * 3600.0) / 2
 
+            # "and" so this applies to all the antenna pairs, which are joined by "or"
+            uv.select("and", -1, -1)
             uv.select("time", time_range_use[0], time_range_use[1], include=True)
             if n_selects > 0:
                 history_update_string += ", times"
@@ -918,6 +920,8 @@ class Miriad(UVData):
             ]
             # iterate through all possible pols and reject if not in pols
             pol_list = []
+            # "and" so this applies to all the antenna pairs, which are joined by "or"
+            uv.select("and", -1, -1)
             for p in np.arange(-8, 5):
                 if p not in polarizations:
                     uv.select("polarization", p, p, include=False)
-- 
2.43.0


From 509804d5ad4b66eeed0c6cd68a82fc978cf14b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:16 +0000
Subject: [PATCH 015/164] fix: update the rectangularity when selecting
 baseline-times on read of uvh5

---
 src/pyuvdata/uvdata/uvh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..8c17c95 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -818,6 +818,10 @@ class UVH5(UVData):
                 keep_all_metadata=keep_all_metadata,
             )
 
+            # the rectangularity in the file may not apply to the selected blts
+            if blt_inds is not None:
+                self.set_rectangularity(force=True)
+
             # determine which axes can be sliced, rather than fancy indexed
             # max_nslice_frac of 0.1 yields slice speedup over fancy index for HERA data
             # See pyuvdata PR #805
-- 
2.43.0


From df0328b9c5591cdb0875ee51fbe33e230da27ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 016/164] fix: select on channel numbers also when windows
 share frequencies

---
 src/pyuvdata/uvdata/uvdata.py | 49 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 54cd4d9..c27c7c0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6888,39 +6888,36 @@ class UVData(UVBase):
 
             blt_inds = sorted(set(blt_inds))
 
-        if freq_chans is not None:
-            freq_chans = utils.tools._get_iterable(freq_chans)
-            if np.array(freq_chans).ndim > 1:
-                freq_chans = np.array(freq_chans).flatten()
-            if frequencies is None:
-                frequencies = self.freq_array[freq_chans]
-            else:
-                frequencies = utils.tools._get_iterable(frequencies)
-                frequencies = np.sort(
-                    list(set(frequencies) | set(self.freq_array[freq_chans]))
-                )
-
-        if frequencies is not None:
-            frequencies = utils.tools._get_iterable(frequencies)
-            if np.array(frequencies).ndim > 1:
-                frequencies = np.array(frequencies).flatten()
+        if frequencies is not None or freq_chans is not None:
             if n_selects > 0:
                 history_update_string += ", frequencies"
             else:
                 history_update_string += "frequencies"
             n_selects += 1
 
-            freq_arr_use = self.freq_array
-            # Check and see that all requested freqs are available
-            freq_check = np.isin(frequencies, freq_arr_use)
-            if not np.all(freq_check):
-                raise ValueError(
-                    "Frequency %g is not present in the freq_array"
-                    % frequencies[np.where(~freq_check)[0][0]]
-                )
-            freq_inds = np.where(np.isin(freq_arr_use, frequencies))[0]
+            freq_inds = np.zeros(0, dtype=np.int64)
+            if frequencies is not None:
+                frequencies = utils.tools._get_iterable(frequencies)
+                if np.array(frequencies).ndim > 1:
+                    frequencies = np.array(frequencies).flatten()
+                # Check and see that all requested freqs are available
+                freq_check = np.isin(frequencies, self.freq_array)
+                if not np.all(freq_check):
+                    raise ValueError(
+                        "Frequency %g is not present in the freq_array"
+                        % frequencies[np.where(~freq_check)[0][0]]
+                    )
+                freq_inds = np.where(np.isin(self.freq_array, frequencies))[0]
+
+            if freq_chans is not None:
+                freq_chans = utils.tools._get_iterable(freq_chans)
+                if np.array(freq_chans).ndim > 1:
+                    freq_chans = np.array(freq_chans).flatten()
+                # the same frequency can be in several spectral windows, so select
+                # on the channel number rather than on the frequency.
+                freq_inds = np.union1d(freq_inds, np.arange(self.Nfreqs)[freq_chans])
 
-            if len(frequencies) > 1:
+            if len(freq_inds) > 1:
                 freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
                 freq_ind_separation = freq_ind_separation[
                     np.diff(self.flex_spw_id_array[freq_inds]) == 0
-- 
2.43.0


From cfa97c46f698c8e007a0147637b52304eeea7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 017/164] fix: keep eq_coeffs in step when select drops antenna
 metadata

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index c27c7c0..9292ea6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7138,6 +7138,9 @@ class UVData(UVBase):
             elif key == "Nants_telescope":
                 # Count the number of unique ants after ant-based selection
                 self.telescope.Nants = len(ind_arr)
+                if self.eq_coeffs is not None:
+                    # this is the only antenna-based parameter not on the telescope
+                    self.eq_coeffs = self.eq_coeffs.take(ind_arr, axis=0)
 
         # Update the history string
         self.history += history_update_string
-- 
2.43.0


From 12de8c20b588c05066ccaddcece5ad961684a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 018/164] fix: reorder the scan numbers with the baseline-times
 in reorder_blts

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9292ea6..9483300 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4054,6 +4054,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
-- 
2.43.0


From 6baa0386e8d5995400ee246ca4e8193bfe290e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 019/164] fix: do not claim a rectangular baseline-time axis
 after sorting autos first

---
 src/pyuvdata/uvdata/uvdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9483300..ef000ea 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3810,12 +3810,13 @@ class UVData(UVBase):
         if self.blts_are_rectangular is not None and not force:
             return
 
+        # do not use the blt_order here because it can hold separately for the autos
+        # and crosses, in which case it does not imply anything about rectangularity.
         rect, time = utils.bltaxis.determine_rectangularity(
             time_array=self.time_array,
             baseline_array=self.baseline_array,
             nbls=self.Nbls,
             ntimes=self.Ntimes,
-            blt_order=self.blt_order,
         )
         self.blts_are_rectangular = rect
         self.time_axis_faster_than_bls = time
-- 
2.43.0


From 74bd4a8181e087bf5ffd94bafebcd7aa3a958fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:50 +0000
Subject: [PATCH 020/164] fix: index the window's own channels when averaging
 flagged frequencies

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ef000ea..cf8cb4c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8446,10 +8446,10 @@ class UVData(UVBase):
                         # May not happen due to propagate_flags keyword
                         # mask should be left alone otherwise
                         fully_flagged = np.all(
-                            reg_mask[ax0_inds, this_chan, :, ax2_inds], axis=1
+                            reg_mask[ax0_inds, chan_ind, :, ax2_inds], axis=1
                         )
                         ff_inds = np.nonzero(fully_flagged)
-                        reg_mask[ax0_inds[ff_inds], this_chan, :, ax2_inds[ff_inds]] = (
+                        reg_mask[ax0_inds[ff_inds], chan_ind, :, ax2_inds[ff_inds]] = (
                             False
                         )
                 if this_ragged:
-- 
2.43.0


From 2e10c037cefd765fdf58c75e015781b89b923782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:09 +0000
Subject: [PATCH 021/164] fix: make slices from decreasing indices select those
 indices

---
 src/pyuvdata/utils/tools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index db6ba8b..1778f50 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -180,12 +180,16 @@ def slicify(ind: slice | None | IterableType[int]) -> slice | None | IterableTyp
     if len(ind) == 0:
         return None
 
-    if len(set(np.ediff1d(ind))) <= 1:
-        return slice(ind[0], ind[-1] + 1, ind[1] - ind[0] if len(ind) > 1 else 1)
-    else:
+    steps = set(np.ediff1d(ind))
+    if len(steps) > 1 or 0 in steps:
         # can't slicify
         return ind
 
+    step = ind[1] - ind[0] if len(ind) > 1 else 1
+    stop = ind[-1] + 1 if step > 0 else ind[-1] - 1
+    # a decreasing slice has to stop at None in order to include the first element
+    return slice(ind[0], stop if stop >= 0 else None, step)
+
 
 def _test_array_constant(array, *, tols=None):
     """
-- 
2.43.0


From 70371298d7520ef7f12e520124ba471ec4297fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 022/164] fix: leave out the orientation that lacks the
 requested polarization in keyed access

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index cf8cb4c..a24877e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2791,6 +2791,7 @@ class UVData(UVBase):
                     pol_ind1 = np.where(self.polarization_array == pol)[0]
                     if pol_ind1.size == 0:
                         pol_ind1 = None
+                        blt_ind1 = None
 
             if blt_ind2 is None:
                 pol_ind2 = None
@@ -2818,6 +2819,7 @@ class UVData(UVBase):
                     ]
                     if pol_ind2.size == 0:
                         pol_ind2 = None
+                        blt_ind2 = None
 
             pol_ind = (pol_ind1, pol_ind2)
             if (blt_ind1 is None or pol_ind1 is None) and (
-- 
2.43.0


From 9c59486ddc0199fcb9459c0e12371f920db3ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 023/164] fix: downsample baselines that have a single
 integration

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a24877e..691d55b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7839,7 +7839,7 @@ class UVData(UVBase):
                         "The output may include averages across long "
                         "time gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
-                elif not np.isclose(
+                elif dtime.size > 0 and not np.isclose(
                     dtime[0],
                     int_times[0],
                     rtol=self._integration_time.tols[0],
-- 
2.43.0


From 95a4d52b321935c075d9f139a04d1884d2919d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 024/164] fix: forget cached indices when reading into an
 existing object

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 691d55b..550d4b9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9006,6 +9006,9 @@ class UVData(UVBase):
             param = getattr(other, p)
             setattr(self, p, param)
 
+        # the parameters were replaced, so indices cached for the old ones are stale
+        self._clear_antpair2ind_cache(self)
+
     def _convert_to_filetype(self, filetype):
         """
         Convert from a UVData object to a file-type specific object.
-- 
2.43.0


From f9287765bbbd42e9e8b8b15e37d89efa32e90df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:02 +0000
Subject: [PATCH 025/164] fix: match overlapping and new elements by value when
 adding UVData objects

---
 src/pyuvdata/uvdata/uvdata.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 550d4b9..75192ec 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5580,6 +5580,7 @@ class UVData(UVBase):
                 ]
 
                 this.reorder_blts(order=temp_ind)
+                this_blts = this_blts[temp_ind]
 
         if len(this_freq_ind) != 0:
             this_argsort = np.argsort(this_freq_ind)
@@ -5742,6 +5743,18 @@ class UVData(UVBase):
         freq_t2o = np.nonzero(freq_t2o)[0]
         blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
 
+        # other can have overlapping and new elements in any order along each axis, so
+        # put the indices into this in the order that the elements have in other.
+        pol_t2o[np.argsort(other.polarization_array)] = pol_t2o[
+            np.argsort(this.polarization_array[pol_t2o])
+        ]
+        freq_t2o[np.lexsort((other_freqs, other.flex_spw_id_array))] = freq_t2o[
+            np.lexsort((this_freqs[freq_t2o], this.flex_spw_id_array[freq_t2o]))
+        ]
+        blt_t2o[np.argsort(other_blts, kind="stable")] = blt_t2o[
+            np.argsort(this_blts[blt_t2o], kind="stable")
+        ]
+
         if not self.metadata_only:
             this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
             this.nsample_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.nsample_array
-- 
2.43.0


From b177ba6f22c901e2e8d20646328956133b9a1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:00 +0000
Subject: [PATCH 026/164] fix: keep phase center ids consistent when
 concatenating several UVData objects

---
 src/pyuvdata/uvdata/uvdata.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 75192ec..c624aa3 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6018,18 +6018,14 @@ class UVData(UVBase):
                 strict_uvw_antpos_check=strict_uvw_antpos_check,
             )
 
-        # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
-        uv_list = [this] + other
-        while len(uv_list) > 1:
-            for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                uv1._consolidate_phase_center_catalogs(
-                    other=uv2, ignore_name=ignore_name
-                )
-            uv_list = uv_list[0::2]
-        # Because self was at the beginning of the list,
-        # all the phase centers are merged into it at the end of this loop
+        # Update the phase center IDs to be consistent across objects. This is done one
+        # object at a time so that the IDs never change on objects that are already
+        # consistent, using metadata copies so the objects passed in are not changed.
+        other_meta = [obj.copy(metadata_only=True) for obj in other]
+        for obj in other_meta:
+            obj._consolidate_phase_center_catalogs(other=this, ignore_name=ignore_name)
+            this.phase_center_catalog = obj.phase_center_catalog.copy()
+            this.Nphase = obj.Nphase
 
         compatibility_params = ["_vis_units", "_telescope"]
 
@@ -6091,7 +6087,7 @@ class UVData(UVBase):
                         )
 
         # Actually check compatibility parameters
-        for obj in other:
+        for obj in other_meta:
             for a in compatibility_params:
                 params_match = getattr(this, a) == getattr(obj, a)
                 if not params_match:
@@ -6212,7 +6208,7 @@ class UVData(UVBase):
             )
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array]
-                + [obj.phase_center_id_array for obj in other]
+                + [obj.phase_center_id_array for obj in other_meta]
             )
             if not self.metadata_only:
                 this.data_array = np.concatenate(
-- 
2.43.0


From 1f82f0bb78d81dfd178d3ac8dc78d08cbdee68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:00 +0000
Subject: [PATCH 027/164] fix: do not keep the baseline-time order when
 concatenating along that axis

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index c624aa3..a7f082d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6210,6 +6210,8 @@ class UVData(UVBase):
                 [this.phase_center_id_array]
                 + [obj.phase_center_id_array for obj in other_meta]
             )
+            # the order of the concatenated baseline-times is not known
+            this.blt_order = None
             if not self.metadata_only:
                 this.data_array = np.concatenate(
                     [this.data_array] + [obj.data_array for obj in other], axis=0
-- 
2.43.0


From 283a1ce2b22896fd9240c2b824e0953598ed3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:45 +0000
Subject: [PATCH 028/164] fix: do not move channels between spectral windows
 when adding UVData objects

---
 src/pyuvdata/uvdata/uvdata.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a7f082d..18fe3bb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5582,17 +5582,6 @@ class UVData(UVBase):
                 this.reorder_blts(order=temp_ind)
                 this_blts = this_blts[temp_ind]
 
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nfreqs)
-                temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                    this_freq_ind[other_argsort]
-                ]
-
-                this.reorder_freqs(channel_order=temp_ind)
-
         if len(this_pol_ind) != 0:
             this_argsort = np.argsort(this_pol_ind)
             other_argsort = np.argsort(other_pol_ind)
-- 
2.43.0


From 26b12c1d8b50749309ae224d21529f640456706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:43 +0000
Subject: [PATCH 029/164] fix: combine scan numbers and equalization
 coefficients of UVData objects

---
 src/pyuvdata/uvdata/uvdata.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 18fe3bb..6852326 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5640,6 +5640,12 @@ class UVData(UVBase):
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
             )[blt_order]
+            if this.scan_number_array is None or other.scan_number_array is None:
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[bnew_inds]]
+                )[blt_order]
 
         f_order = None
         if len(fnew_inds) > 0:
@@ -5649,6 +5655,10 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width, other.channel_width[fnew_inds]]
             )
+            if this.eq_coeffs is not None and other.eq_coeffs is not None:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs, other.eq_coeffs[:, fnew_inds]], axis=1
+                )
 
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array, other.flex_spw_id_array[fnew_inds]]
@@ -5768,6 +5778,8 @@ class UVData(UVBase):
             this.freq_array = this.freq_array[f_order]
             this.channel_width = this.channel_width[f_order]
             this.flex_spw_id_array = this.flex_spw_id_array[f_order]
+            if this.eq_coeffs is not None and other.eq_coeffs is not None:
+                this.eq_coeffs = this.eq_coeffs[:, f_order]
 
         if len(pnew_inds) > 0:
             this.polarization_array = this.polarization_array[p_order]
@@ -6095,6 +6107,10 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width] + [obj.channel_width for obj in other]
             )
+            if all(obj.eq_coeffs is not None for obj in [this, *other]):
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs] + [obj.eq_coeffs for obj in other], axis=1
+                )
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
             )
@@ -6199,6 +6215,12 @@ class UVData(UVBase):
                 [this.phase_center_id_array]
                 + [obj.phase_center_id_array for obj in other_meta]
             )
+            if all(obj.scan_number_array is not None for obj in [this, *other]):
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
+            else:
+                this.scan_number_array = None
             # the order of the concatenated baseline-times is not known
             this.blt_order = None
             if not self.metadata_only:
-- 
2.43.0


From 4376cb3aa2fb9484900d36cea368894dba7fe5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 030/164] fix: keep the data on the object when the uvh5 header
 check fails

---
 src/pyuvdata/uvdata/uvh5.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 8c17c95..4d5ce46 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1590,19 +1590,21 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
-        if self != uvd_file:
+        headers_differ = self != uvd_file
+
+        # clean up after ourselves
+        if replace_data:
+            self.data_array = data_array
+        if replace_flags:
+            self.flag_array = flag_array
+        if replace_nsamples:
+            self.nsample_array = nsample_array
+        del uvd_file
+
+        if headers_differ:
             raise AssertionError(
                 "The object metadata in memory and metadata on disk are different"
             )
-        else:
-            # clean up after ourselves
-            if replace_data:
-                self.data_array = data_array
-            if replace_flags:
-                self.flag_array = flag_array
-            if replace_nsamples:
-                self.nsample_array = nsample_array
-            del uvd_file
         return
 
     def write_uvh5_part(
-- 
2.43.0


From e132ae4f2d0797b84b4ba765f68ebcd894a11018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 031/164] fix: accept the header of a uvh5 file initialized
 from a newly made object

---
 src/pyuvdata/uvdata/uvh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 4d5ce46..3a89374 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1590,6 +1590,10 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
+        # the version string is added to the history when the header is read
+        if uvd_file.history == self.history + self.pyuvdata_version_str:
+            uvd_file.history = self.history
+
         headers_differ = self != uvd_file
 
         # clean up after ourselves
-- 
2.43.0


From 16fe7dae483d5b6d68e28589e75d6a1d4a05b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:09 +0000
Subject: [PATCH 032/164] fix: point driftscan phase centers to their azimuth,
 not to its mirror image

---
 src/pyuvdata/utils/phasing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 994c165..298dc93 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2203,7 +2203,7 @@ def calc_app_coords(
         )
         # The above returns HA/Dec, so we just need to rotate by
         # the LST to get back app RA and Dec
-        unique_app_ra = np.mod(unique_app_ha + unique_lst, 2 * np.pi)
+        unique_app_ra = np.mod(unique_lst - unique_app_ha, 2 * np.pi)
         unique_app_dec = unique_app_dec + np.zeros_like(unique_app_ra)
     elif coord_type == "ephem":
         interp_ra, interp_dec, _, _ = interpolate_ephem(
-- 
2.43.0


From fb5fb67b46ba13d89bcc48492a52661da238ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:09 +0000
Subject: [PATCH 033/164] fix: allow phasing selected baseline-times without
 antenna positions

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6852326..20bb2a6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4788,6 +4788,9 @@ class UVData(UVBase):
         uvw_array = uvw_array[select_mask, :]
         ant_1_array = ant_1_array[select_mask]
         ant_2_array = ant_2_array[select_mask]
+        old_app_ra = old_app_ra[select_mask]
+        old_app_dec = old_app_dec[select_mask]
+        old_frame_pa = old_frame_pa[select_mask]
 
         # We got the meta-data, now handle calculating the apparent coordinates.
         # First, check if we need to look up the phase center in question
-- 
2.43.0


From dd5ef66d319c01cb2364bcbc8ba8a440b0850e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:09 +0000
Subject: [PATCH 034/164] fix: only change the uvws of the selected
 baseline-times in unproject_phase

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 20bb2a6..ba357c1 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4392,7 +4392,7 @@ class UVData(UVBase):
         self._apply_w_proj(
             new_w_vals=0.0, old_w_vals=self.uvw_array[:, 2], select_mask=select_mask_use
         )
-        self.uvw_array = new_uvw
+        self.uvw_array[select_mask_use] = new_uvw[select_mask_use]
 
         # remove/update phase center
         match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-- 
2.43.0


From 502cb64fd5f0c7c4d70e99e6717d137e4e1c08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:09 +0000
Subject: [PATCH 035/164] fix: leave unprojected visibilities alone when
 recalculating uvws

---
 src/pyuvdata/uvdata/uvdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ba357c1..fb8bfe5 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4992,8 +4992,11 @@ class UVData(UVBase):
             if update_vis:
                 old_w_vals = self.uvw_array[:, 2].copy()
                 # Treat the unprojected values as having no w-proj previously
+                # or after
                 old_w_vals[unprojected_blts] = 0.0
-                self._apply_w_proj(new_w_vals=new_uvw[:, 2], old_w_vals=old_w_vals)
+                new_w_vals = new_uvw[:, 2].copy()
+                new_w_vals[unprojected_blts] = 0.0
+                self._apply_w_proj(new_w_vals=new_w_vals, old_w_vals=old_w_vals)
             else:
                 warnings.warn(
                     "Recalculating uvw_array without adjusting visibility "
-- 
2.43.0


From 2c406750a2c489d5ffc67a40e456b11b7780ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:09 +0000
Subject: [PATCH 036/164] fix: apply relative antenna position changes to the
 projected visibilities

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index fb8bfe5..0e0a5ad 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5078,9 +5078,9 @@ class UVData(UVBase):
                 # Also Note that the old values here are being treated as zeros since
                 # we've calcualted relative deltas.
                 self._apply_w_proj(
-                    new_w_vals=0.0,
-                    old_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
-                    select_mask=self._check_for_cat_type("unprojected"),
+                    new_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
+                    old_w_vals=0.0,
+                    select_mask=~self._check_for_cat_type("unprojected"),
                 )
 
             # Assign the new antenna position values.
-- 
2.43.0


From 2feef5c90e055b7d5bed1e3d511ef4c61bf7973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 037/164] fix: use the frame of the catalog entry when phasing
 to a looked-up phase center

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0e0a5ad..8a9d187 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4811,14 +4811,14 @@ class UVData(UVBase):
         )
 
         # Now calculate position angles.
-        if not phase_frame == "altaz":
+        if phase_dict["cat_frame"] not in ["altaz", None]:
             new_frame_pa = phs_utils.calc_frame_pos_angle(
                 time_array=time_array,
                 app_ra=new_app_ra,
                 app_dec=new_app_dec,
                 telescope_loc=self.telescope.location,
-                ref_frame=phase_frame,
-                ref_epoch=epoch,
+                ref_frame=phase_dict["cat_frame"],
+                ref_epoch=phase_dict["cat_epoch"],
             )
         else:
             new_frame_pa = np.zeros(time_array.shape, dtype=float)
@@ -4861,7 +4861,7 @@ class UVData(UVBase):
         )
 
         # Extract out information for applying w-projection
-        if cat_type == "unprojected":
+        if phase_dict["cat_type"] == "unprojected":
             new_w_vals = 0.0
         else:
             # Create a blank array and fill in w-vals based on the selection mask, so
-- 
2.43.0


From cbeb597c5ece7cf48de5bfbfb63756e4e6ca419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:07 +0000
Subject: [PATCH 038/164] fix: keep integrations within tolerance of the target
 when upsampling

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8a9d187..2a4cd0a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7620,7 +7620,7 @@ class UVData(UVBase):
             i0 = i1
 
         # harmonize temporary arrays with existing ones
-        inds_to_keep = np.nonzero(self.integration_time <= max_int_time)
+        inds_to_keep = np.setdiff1d(np.arange(self.Nblts), inds_to_upsample[0])
         self._harmonize_resample_arrays(
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
-- 
2.43.0


From a93e16984fcdbc34bc1f47db52acae380fc456ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:07 +0000
Subject: [PATCH 039/164] fix: update the number of baselines when downsampling
 drops one

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 2a4cd0a..1a00065 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7422,6 +7422,8 @@ class UVData(UVBase):
         # update metadata
         self.Nblts = self.baseline_array.shape[0]
         self.Ntimes = np.unique(self.time_array).size
+        self.Nbls = np.unique(self.baseline_array).size
+        self.Nants_data = self._calc_nants_data()
         self.uvw_array = np.zeros((self.Nblts, 3))
 
         # set lst array
-- 
2.43.0


From 725aeb73b0dda5530951bcc0f595141c0d00a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:07 +0000
Subject: [PATCH 040/164] fix: carry the scan numbers through resampling in
 time

---
 src/pyuvdata/uvdata/uvdata.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1a00065..914c9fb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7380,6 +7380,7 @@ class UVData(UVBase):
         temp_id_array,
         temp_time,
         temp_int_time,
+        temp_scan_number,
         temp_data,
         temp_flag,
         temp_nsample,
@@ -7402,6 +7403,10 @@ class UVData(UVBase):
         self.phase_center_id_array = np.concatenate(
             (self.phase_center_id_array, temp_id_array)
         )
+        if self.scan_number_array is not None:
+            self.scan_number_array = np.concatenate(
+                (self.scan_number_array[inds_to_keep], temp_scan_number)
+            )
         if not self.metadata_only:
             self.data_array = self.data_array[inds_to_keep]
             self.flag_array = self.flag_array[inds_to_keep]
@@ -7568,6 +7573,11 @@ class UVData(UVBase):
             temp_unprojected_blts = None
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
+        temp_scan_number = None
+        if self.scan_number_array is not None:
+            temp_scan_number = np.zeros(
+                (temp_Nblts,), dtype=self.scan_number_array.dtype
+            )
         if self.metadata_only:
             temp_data = None
             temp_flag = None
@@ -7583,6 +7593,8 @@ class UVData(UVBase):
             i1 = i0 + n_new_samples[i]
             temp_baseline[i0:i1] = self.baseline_array[ind]
             temp_id_array[i0:i1] = self.phase_center_id_array[ind]
+            if temp_scan_number is not None:
+                temp_scan_number[i0:i1] = self.scan_number_array[ind]
             if initial_nphase_ids > 1:
                 if initial_driftscan:
                     temp_initial_ids[i0:i1] = initial_ids[ind]
@@ -7629,6 +7641,7 @@ class UVData(UVBase):
             temp_id_array=temp_id_array,
             temp_time=temp_time,
             temp_int_time=temp_int_time,
+            temp_scan_number=temp_scan_number,
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
@@ -7928,6 +7941,11 @@ class UVData(UVBase):
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
+        temp_scan_number = None
+        if self.scan_number_array is not None:
+            temp_scan_number = np.zeros(
+                (temp_Nblts,), dtype=self.scan_number_array.dtype
+            )
         if initial_nphase_ids > 1 and initial_driftscan:
             temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         else:
@@ -7992,6 +8010,10 @@ class UVData(UVBase):
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
+                    if temp_scan_number is not None:
+                        temp_scan_number[temp_idx] = self.scan_number_array[
+                            averaging_idx[0]
+                        ]
                     if initial_nphase_ids > 1:
                         if initial_unprojected:
                             unique_unprojected = np.unique(
@@ -8098,6 +8120,7 @@ class UVData(UVBase):
             temp_id_array=temp_id_array,
             temp_time=temp_time,
             temp_int_time=temp_int_time,
+            temp_scan_number=temp_scan_number,
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
-- 
2.43.0


From 3fe84807af78aaa0b5cc4e27fb9ecb97405e8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 041/164] fix: restore every drift or unprojected phase center
 after resampling in time

---
 src/pyuvdata/uvdata/uvdata.py | 132 +++++++++++-----------------------
 1 file changed, 41 insertions(+), 91 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 914c9fb..16a9006 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7528,10 +7528,8 @@ class UVData(UVBase):
         driftscan_blts = self._check_for_cat_type("driftscan")
         initial_driftscan = np.any(driftscan_blts)
         initial_unprojected = np.any(unprojected_blts)
-        initial_nphase_ids = np.unique(self.phase_center_id_array).size
-        if initial_driftscan:
-            initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+        initial_phase_catalog = self.phase_center_catalog.copy()
+        initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7547,7 +7545,9 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # we want the ceil of this, but we don't want to get the wrong answer
         # when the number is very close to an integer but just barely above it.
@@ -7563,14 +7563,7 @@ class UVData(UVBase):
 
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
-        if initial_nphase_ids > 1 and initial_driftscan:
-            temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
-        else:
-            temp_initial_ids = None
-        if initial_nphase_ids > 1 and initial_unprojected:
-            temp_unprojected_blts = np.zeros((temp_Nblts,), dtype=bool)
-        else:
-            temp_unprojected_blts = None
+        temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
         temp_scan_number = None
@@ -7595,11 +7588,7 @@ class UVData(UVBase):
             temp_id_array[i0:i1] = self.phase_center_id_array[ind]
             if temp_scan_number is not None:
                 temp_scan_number[i0:i1] = self.scan_number_array[ind]
-            if initial_nphase_ids > 1:
-                if initial_driftscan:
-                    temp_initial_ids[i0:i1] = initial_ids[ind]
-                if initial_unprojected:
-                    temp_unprojected_blts[i0:i1] = unprojected_blts[ind]
+            temp_initial_ids[i0:i1] = initial_ids[ind]
 
             if not self.metadata_only:
                 if summing_correlator_mode:
@@ -7650,26 +7639,16 @@ class UVData(UVBase):
 
         if phased:
             print("Undoing phasing.")
-            if initial_unprojected:
-                if initial_nphase_ids > 1:
-                    select_mask = unprojected_blts[inds_to_keep]
-                    select_mask = np.concatenate((select_mask, temp_unprojected_blts))
-                else:
-                    select_mask = None
-                self.unproject_phase(select_mask=select_mask)
-            if initial_driftscan:
-                if initial_nphase_ids > 1:
-                    initial_ids = initial_ids[inds_to_keep]
-                    initial_ids = np.concatenate((initial_ids, temp_initial_ids))
-                for cat_id, cat_dict in initial_phase_catalog.items():
-                    if cat_dict["cat_type"] != "driftscan":
-                        continue
-                    if initial_nphase_ids > 1:
-                        select_mask = initial_ids == cat_id
-                        if not np.any(select_mask):
-                            select_mask = None
-                    else:
-                        select_mask = None
+            initial_ids = np.concatenate((initial_ids[inds_to_keep], temp_initial_ids))
+            for cat_id, cat_dict in initial_phase_catalog.items():
+                select_mask = initial_ids == cat_id
+                if not np.any(select_mask):
+                    continue
+                if cat_dict["cat_type"] == "unprojected":
+                    self.unproject_phase(
+                        select_mask=select_mask, cat_name=cat_dict["cat_name"]
+                    )
+                elif cat_dict["cat_type"] == "driftscan":
                     self.phase(
                         lon=cat_dict["cat_lon"],
                         lat=cat_dict["cat_lat"],
@@ -7915,10 +7894,8 @@ class UVData(UVBase):
         driftscan_blts = self._check_for_cat_type("driftscan")
         initial_driftscan = np.any(driftscan_blts)
         initial_unprojected = np.any(unprojected_blts)
-        initial_nphase_ids = np.unique(self.phase_center_id_array).size
-        if initial_driftscan:
-            initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+        initial_phase_catalog = self.phase_center_catalog.copy()
+        initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7934,7 +7911,9 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # make temporary arrays
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
@@ -7946,14 +7925,7 @@ class UVData(UVBase):
             temp_scan_number = np.zeros(
                 (temp_Nblts,), dtype=self.scan_number_array.dtype
             )
-        if initial_nphase_ids > 1 and initial_driftscan:
-            temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
-        else:
-            temp_initial_ids = None
-        if initial_nphase_ids > 1 and initial_unprojected:
-            temp_unprojected_blts = np.zeros((temp_Nblts,), dtype=bool)
-        else:
-            temp_unprojected_blts = None
+        temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         if self.metadata_only:
             temp_data = None
             temp_flag = None
@@ -7995,18 +7967,14 @@ class UVData(UVBase):
                     # this might be wrong if some of the constituent times are
                     # *totally* flagged
                     averaging_idx = bl_inds[summing_idx : summing_idx + n_sum]
-                    if self.Nphase > 1:
-                        unique_phase_centers = np.unique(
-                            self.phase_center_id_array[averaging_idx]
+                    if np.unique(initial_ids[averaging_idx]).size > 1:
+                        raise ValueError(
+                            "Multiple phase centers included in a downsampling "
+                            "window. Use `phase` to phase to a single phase center "
+                            "or decrease the `min_int_time` or `n_times_to_avg` "
+                            "parameter to avoid multiple phase centers being "
+                            "included in a downsampling window."
                         )
-                        if unique_phase_centers.size > 1:
-                            raise ValueError(
-                                "Multiple phase centers included in a downsampling "
-                                "window. Use `phase` to phase to a single phase center "
-                                "or decrease the `min_int_time` or `n_times_to_avg` "
-                                "parameter to avoid multiple phase centers being "
-                                "included in a downsampling window."
-                            )
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
@@ -8014,15 +7982,7 @@ class UVData(UVBase):
                         temp_scan_number[temp_idx] = self.scan_number_array[
                             averaging_idx[0]
                         ]
-                    if initial_nphase_ids > 1:
-                        if initial_unprojected:
-                            unique_unprojected = np.unique(
-                                unprojected_blts[averaging_idx]
-                            )
-                            temp_unprojected_blts[temp_idx] = unique_unprojected[0]
-                        if initial_driftscan:
-                            unique_initial_ids = np.unique(initial_ids[averaging_idx])
-                            temp_initial_ids[temp_idx] = unique_initial_ids[0]
+                    temp_initial_ids[temp_idx] = initial_ids[averaging_idx[0]]
                     # take potential non-uniformity of integration_time into account
                     temp_time[temp_idx] = np.sum(
                         self.time_array[averaging_idx]
@@ -8129,26 +8089,16 @@ class UVData(UVBase):
 
         if phased:
             print("Undoing phasing.")
-            if initial_unprojected:
-                if initial_nphase_ids > 1:
-                    select_mask = unprojected_blts[inds_to_keep]
-                    select_mask = np.concatenate((select_mask, temp_unprojected_blts))
-                else:
-                    select_mask = None
-                self.unproject_phase(select_mask=select_mask)
-            if initial_driftscan:
-                if initial_nphase_ids > 1:
-                    initial_ids = initial_ids[inds_to_keep]
-                    initial_ids = np.concatenate((initial_ids, temp_initial_ids))
-                for cat_id, cat_dict in initial_phase_catalog.items():
-                    if cat_dict["cat_type"] != "driftscan":
-                        continue
-                    if initial_nphase_ids > 1:
-                        select_mask = initial_ids == cat_id
-                        if not np.any(select_mask):
-                            select_mask = None
-                    else:
-                        select_mask = None
+            initial_ids = np.concatenate((initial_ids[inds_to_keep], temp_initial_ids))
+            for cat_id, cat_dict in initial_phase_catalog.items():
+                select_mask = initial_ids == cat_id
+                if not np.any(select_mask):
+                    continue
+                if cat_dict["cat_type"] == "unprojected":
+                    self.unproject_phase(
+                        select_mask=select_mask, cat_name=cat_dict["cat_name"]
+                    )
+                elif cat_dict["cat_type"] == "driftscan":
                     self.phase(
                         lon=cat_dict["cat_lon"],
                         lat=cat_dict["cat_lat"],
-- 
2.43.0


From 32cd25724c6572a175f5a7e1adff26dea250d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:22 +0000
Subject: [PATCH 042/164] fix: allow frequency averaging of a single channel
 with eq_coeffs

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 16a9006..e6231f7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8299,7 +8299,7 @@ class UVData(UVBase):
 
         if self.eq_coeffs is not None:
             eq_coeff_diff = np.diff(self.eq_coeffs, axis=1)
-            if np.abs(np.max(eq_coeff_diff)) > 0:
+            if np.any(eq_coeff_diff != 0):
                 warnings.warn(
                     "eq_coeffs vary by frequency. They should be "
                     "applied to the data using `remove_eq_coeffs` "
-- 
2.43.0


From d67848a9b6992472c80f622c969eefb7051b7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:22 +0000
Subject: [PATCH 043/164] fix: refuse to average windows of different
 polarizations together

---
 src/pyuvdata/uvdata/uvdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e6231f7..55529b7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8279,6 +8279,12 @@ class UVData(UVBase):
 
         """
         if self.Nspws > 1 and not respect_spws:
+            if self.flex_spw_polarization_array is not None:
+                raise ValueError(
+                    "Cannot average across spectral window boundaries on a flex-pol "
+                    "object because the windows can have different polarizations. Use "
+                    "the `remove_flex_pol` method first or set respect_spws=True."
+                )
             # Put everything in one spectral window.
             self.Nspws = 1
             self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
-- 
2.43.0


From 59415fedaece15c2819961b99f1102daa1435abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:22 +0000
Subject: [PATCH 044/164] fix: drop windows with no channels left after
 frequency averaging

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 55529b7..e57cf4c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8550,6 +8550,16 @@ class UVData(UVBase):
         # update Nfreqs
         self.Nfreqs = final_nchan
 
+        if not keep_ragged:
+            # drop any spectral windows with fewer than n_chan_to_avg channels
+            spw_mask = np.isin(self.spw_array, final_flex_spw_id_array)
+            self.spw_array = np.asarray(self.spw_array)[spw_mask]
+            self.Nspws = self.spw_array.size
+            if self.flex_spw_polarization_array is not None:
+                self.flex_spw_polarization_array = self.flex_spw_polarization_array[
+                    spw_mask
+                ]
+
     def get_redundancies(
         self,
         *,
-- 
2.43.0


From f94efef3834504cbd1e5722b97b77e750d828740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:51 +0000
Subject: [PATCH 045/164] fix: carry eq_coeffs through flex-pol conversions

---
 src/pyuvdata/uvdata/uvdata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e57cf4c..86c3334 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1750,10 +1750,15 @@ class UVData(UVBase):
                 spw_inds = spw_inds[np.argsort(freq_array_use[spw_inds])]
                 this_freqs = freq_array_use[spw_inds]
                 this_widths = self.channel_width[spw_inds]
+                this_eq_coeffs = None
+                if self.eq_coeffs is not None:
+                    this_eq_coeffs = self.eq_coeffs[:, spw_inds]
                 match = False
                 for spw1, fset1 in spw_dict.items():
-                    if np.array_equal(fset1["freqs"], this_freqs) and np.array_equal(
-                        fset1["widths"], this_widths
+                    if (
+                        np.array_equal(fset1["freqs"], this_freqs)
+                        and np.array_equal(fset1["widths"], this_widths)
+                        and np.array_equal(fset1["eq_coeffs"], this_eq_coeffs)
                     ):
                         if this_pol in spw_dict[spw1]["pols"]:
                             raise ValueError(
@@ -1773,6 +1778,7 @@ class UVData(UVBase):
                     spw_dict[this_spw] = {
                         "freqs": this_freqs,
                         "widths": this_widths,
+                        "eq_coeffs": this_eq_coeffs,
                         "spws": [this_spw],
                         "pols": [this_pol],
                     }
@@ -1870,6 +1876,8 @@ class UVData(UVBase):
             # now things are in the correct order to do a simple reshape
             self.freq_array = freq_array_use[: self.Nfreqs]
             self.channel_width = self.channel_width[: self.Nfreqs]
+            if self.eq_coeffs is not None:
+                self.eq_coeffs = self.eq_coeffs[:, : self.Nfreqs]
 
             self.polarization_array = pol_array_check[
                 np.sort(np.unique(pol_array_check, return_index=True)[1])
@@ -2078,6 +2086,8 @@ class UVData(UVBase):
         freq_array_use = self.freq_array
         self.freq_array = np.tile(freq_array_use, self.Npols)
         self.channel_width = np.tile(self.channel_width, self.Npols)
+        if self.eq_coeffs is not None:
+            self.eq_coeffs = np.tile(self.eq_coeffs, self.Npols)
         if not self.metadata_only:
             # we use the order="F" parameter here to ensure that polarization is the
             # slowest changing axis
-- 
2.43.0


From b75f8a26178e73c4ddfe2e38bff5232c2f245b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 046/164] fix: average fully flagged visibilities when
 compressing by redundancy

---
 src/pyuvdata/uvdata/uvdata.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 86c3334..f521c88 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8881,11 +8881,9 @@ class UVData(UVBase):
                         flags_to_avg = np.concatenate(
                             (self.flag_array[regular_inds], self.flag_array[conj_inds])
                         )
-                        # if all data is flagged, average it all as if it were not
-                        if np.all(flags_to_avg):
-                            mask = np.zeros_like(flags_to_avg)
-                        else:
-                            mask = flags_to_avg
+                        # if all data is flagged for a visibility, average it all as if
+                        # it were not
+                        mask = flags_to_avg & ~np.all(flags_to_avg, axis=0)
 
                         vis_to_avg = np.ma.masked_array(vis_to_avg, mask=mask)
 
-- 
2.43.0


From 50e2736099cd36352ead7d44e53de7395efc1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 047/164] fix: carry the scan numbers through
 inflate_by_redundancy

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f521c88..af3b7ff 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8999,6 +8999,8 @@ class UVData(UVBase):
         self.time_array = self.time_array[blt_map]
         self.lst_array = self.lst_array[blt_map]
         self.integration_time = self.integration_time[blt_map]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
         self.uvw_array = self.uvw_array[blt_map, ...]
 
         self.baseline_array = full_baselines
-- 
2.43.0


From 20002dca9628815621a08a5b27f756486b42bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 048/164] fix: exchange cross polarizations when averaging
 conjugated redundant baselines

---
 src/pyuvdata/uvdata/uvdata.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index af3b7ff..79eb68b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8757,6 +8757,10 @@ class UVData(UVBase):
                 # tabulated assuming that the baseline position is on the opposite
                 # side of the uvw origin).
                 fix_conj = np.isin(new_obj.baseline_array, conjugates)
+                # conjugation also exchanges the cross polarizations
+                conj_pol_inds = np.arange(self.Npols)
+                if len(conjugates) > 0 and self.flex_spw_polarization_array is None:
+                    conj_pol_inds = utils.pol.reorder_conj_pols(self.polarization_array)
 
                 # initalize the data like arrays
                 new_data_shape = (new_obj.Nblts, new_obj.Nfreqs, new_obj.Npols)
@@ -8869,17 +8873,20 @@ class UVData(UVBase):
                         vis_to_avg = np.concatenate(
                             (
                                 self.data_array[regular_inds],
-                                np.conj(self.data_array[conj_inds]),
+                                np.conj(self.data_array[conj_inds][..., conj_pol_inds]),
                             )
                         )
                         nsample_to_avg = np.concatenate(
                             (
                                 self.nsample_array[regular_inds],
-                                self.nsample_array[conj_inds],
+                                self.nsample_array[conj_inds][..., conj_pol_inds],
                             )
                         )
                         flags_to_avg = np.concatenate(
-                            (self.flag_array[regular_inds], self.flag_array[conj_inds])
+                            (
+                                self.flag_array[regular_inds],
+                                self.flag_array[conj_inds][..., conj_pol_inds],
+                            )
                         )
                         # if all data is flagged for a visibility, average it all as if
                         # it were not
@@ -8899,7 +8906,11 @@ class UVData(UVBase):
                         # If we need to flip the conjugation, to that on the
                         # value assignment here.
                         if fix_conj[this_obj_ind]:
-                            temp_data_array[this_obj_ind] = np.conj(avg_vis)
+                            temp_data_array[this_obj_ind] = np.conj(
+                                avg_vis[..., conj_pol_inds]
+                            )
+                            avg_nsample = avg_nsample[..., conj_pol_inds]
+                            avg_flag = avg_flag[..., conj_pol_inds]
                         else:
                             temp_data_array[this_obj_ind] = avg_vis
                         temp_nsample_array[this_obj_ind] = avg_nsample
-- 
2.43.0


From 4046925a09828d34d916ceca28e35361d700f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 049/164] fix: group records by time when normalizing data that
 are not time ordered

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 79eb68b..84791ef 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -12020,7 +12020,7 @@ class UVData(UVBase):
         # group the data by time.
         time_ordered = not np.any(self.time_array[:-1] > self.time_array[1:])
         blt_idx = np.arange(self.Nblts) if time_ordered else np.argsort(self.time_array)
-        ordered_time = self.time_array[blt_idx if time_ordered else ...]
+        ordered_time = self.time_array[... if time_ordered else blt_idx]
 
         # Normally time has a fixed atol, but verify that this is the case
         time_tol = self._time_array.tols[1]
-- 
2.43.0


From 56599551540772ed0222ed1e992ea1cfb8e63496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 050/164] fix: allow summing visibilities read from different
 files

---
 src/pyuvdata/uvdata/uvdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 84791ef..303cf9b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6360,7 +6360,7 @@ class UVData(UVBase):
         )
 
         compatibility_params = list(this.__iter__())
-        remove_params = ["_history", "_data_array", "_extra_keywords"]
+        remove_params = ["_history", "_data_array", "_extra_keywords", "_filename"]
 
         # Add underscores to override_params to match list from __iter__()
         # Add to parameters to be removed
@@ -6433,6 +6433,8 @@ class UVData(UVBase):
 
         # merge file names
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
+        if this.filename is not None:
+            this._filename.form = (len(this.filename),)
 
         # Check final object is self-consistent
         if run_check:
-- 
2.43.0


From 242afc4ee69b32db69a299efc38a8b3e39929689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 051/164] fix: handle total_quality_array in UVCal flex-Jones
 conversions

---
 src/pyuvdata/uvcal/uvcal.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 9e7ed99..b383105 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -932,8 +932,9 @@ class UVCal(UVBase):
                     continue
                 # Update the parameter shape with
                 new_shape = list(param.shape)
-                new_shape[1] = self.Nspws if self.wide_band else self.Nfreqs
-                new_shape[3] = self.Njones
+                # count from the end, total_quality_array has no antenna axis
+                new_shape[-3] = self.Nspws if self.wide_band else self.Nfreqs
+                new_shape[-1] = self.Njones
                 new_param = np.full(new_shape, name == "flag_array", dtype=param.dtype)
                 for idx, old_spw in enumerate(spw_map):
                     new_fidx = freq_index == spw_map[old_spw]
@@ -941,7 +942,7 @@ class UVCal(UVBase):
                     # above (and marks the original indexing positions of the object)
                     old_fidx = index_check == old_spw
                     jones_idx = jones_array.index(self.flex_jones_array[idx])
-                    new_param[:, new_fidx, :, jones_idx] = param[:, old_fidx, :, 0]
+                    new_param[..., new_fidx, :, jones_idx] = param[..., old_fidx, :, 0]
                 setattr(self, name, new_param)
 
         # Finally, drop flex_jones now that we no longer need it's info
@@ -1020,7 +1021,7 @@ class UVCal(UVBase):
                 spw_screen = spw_id_arr == spw
 
                 # Grab from the right Jones-position and plug values in
-                new_param[:, spw_screen, :, 0] = param[:, spw_screen, :, jones_idx]
+                new_param[..., spw_screen, :, 0] = param[..., spw_screen, :, jones_idx]
 
             # Update the attribute with the new values
             setattr(self, name, new_param)
@@ -1087,10 +1088,11 @@ class UVCal(UVBase):
                     continue
                 # Make into a list so that its mutable
                 old_shape = param.shape
-                # ("Nants_data", "Nfreqs", "Ntimes", "Njones"),
-                # Extend the second axis by njones, shrink the last axis to 1
-                new_shape = [old_shape[0], old_shape[1] * njones, old_shape[2], 1]
-                param = np.transpose(param, (0, 3, 1, 2)).reshape(new_shape)
+                # ("Nants_data", "Nfreqs", "Ntimes", "Njones"), without the antenna
+                # axis for total_quality_array.
+                # Extend the frequency axis by njones, shrink the last axis to 1
+                new_shape = [*old_shape[:-3], old_shape[-3] * njones, old_shape[-2], 1]
+                param = np.moveaxis(param, -1, -3).reshape(new_shape)
                 setattr(self, name, param)
 
     def set_telescope_params(
-- 
2.43.0


From 5d9d454a390a94fdd10e37f8ed66f71619651747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 052/164] fix: compare windows of different widths in
 UVCal.remove_flex_jones

---
 src/pyuvdata/uvcal/uvcal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index b383105..46cfba4 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -850,7 +850,9 @@ class UVCal(UVBase):
                 # back to itself.
                 spw_match = spw1
                 for spw2, (freqs2, chwidth2) in spw_freqs.items():
-                    if np.allclose(freqs1, freqs2, rtol=ftol[0], atol=ftol[1]):
+                    if freqs1.shape == freqs2.shape and np.allclose(
+                        freqs1, freqs2, rtol=ftol[0], atol=ftol[1]
+                    ):
                         if np.allclose(chwidth1, chwidth2, rtol=ctol[0], atol=ctol[1]):
                             spw_match = spw2
                             break
-- 
2.43.0


From 0ad983a4e0bdecc97f7b8a62ab768a9db6d63689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:40 +0000
Subject: [PATCH 053/164] fix: match x and y in antenna strings on objects with
 an x_orientation

---
 src/pyuvdata/utils/bls.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 444482f..71f099a 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -194,7 +194,13 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     polarizations = []
     ants_data = uv.get_ants()
     ant_pairs_data = uv.get_antpairs()
-    pols_data = uv.get_pols()
+    # get_pols uses E/N strings if the object has an x_orientation, but antenna strings
+    # always use x and y
+    pols_data = polnum2str(
+        polstr2num(
+            uv.get_pols(), x_orientation=getattr(uv.telescope, "x_orientation", None)
+        )
+    )
     warned_ants = []
     warned_pols = []
 
-- 
2.43.0


From 924b3777ca7a2e6991e1752c9a72b9f70e94a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:40 +0000
Subject: [PATCH 054/164] fix: refuse antenna lists of different lengths in
 antnums_to_baseline

---
 src/pyuvdata/utils/bls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 71f099a..9e91bca 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -91,6 +91,8 @@ def antnums_to_baseline(
             "cannot convert ant1, ant2 to a baseline index "
             f"with Nants={Nants_telescope}>2147483648."
         )
+    if np.size(ant1) != np.size(ant2):
+        raise ValueError("ant1 and ant2 must have the same number of elements.")
     if np.any(np.concatenate((np.unique(ant1), np.unique(ant2))) >= 2147483648):
         raise ValueError(
             "cannot convert ant1, ant2 to a baseline index "
-- 
2.43.0


From bdadde82c3025bcd6925ed207bfbebd2dae09e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:44 +0000
Subject: [PATCH 055/164] fix: do not hand out the cached list in polarization
 conversions

---
 src/pyuvdata/utils/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/pol.py b/src/pyuvdata/utils/pol.py
index 3c01de1..24a5ae7 100644
--- a/src/pyuvdata/utils/pol.py
+++ b/src/pyuvdata/utils/pol.py
@@ -130,12 +130,14 @@ def np_cache(function):
     @wraps(function)
     def wrapper(pol, x_orientation=None):
         try:
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
         except TypeError:
             if isinstance(pol, Iterable):
                 # Assume the reason that we got a type error is that pol was an array.
                 pol = tuple(pol)
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
+        # hand out a copy so that callers cannot change the cached list
+        return list(out) if isinstance(out, list) else out
 
     # copy lru_cache attributes over too
     wrapper.cache_info = function.cache_info
-- 
2.43.0


From f684442fbfbe7134d32505645fbb7b830afbe44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:45 +0000
Subject: [PATCH 056/164] fix: compute the altitude of positions near the poles

---
 src/pyuvdata/utils/coordinates.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/coordinates.pyx b/src/pyuvdata/utils/coordinates.pyx
index 3d1eb39..b166683 100644
--- a/src/pyuvdata/utils/coordinates.pyx
+++ b/src/pyuvdata/utils/coordinates.pyx
@@ -88,7 +88,12 @@ cpdef numpy.ndarray[dtype=numpy.float64_t, ndim=2] _lla_from_xyz(
 
     _lla[1, ind] = atan2(xyz[1, ind], xyz[0, ind])
 
-    _lla[2, ind] = (gps_p / cos(lla[0, ind])) - body.gps_a / sqrt(1.0 - body.e_squared * sin(lla[0, ind]) ** 2)
+    # this form stays finite and accurate at the poles, where gps_p and cos(lat) vanish
+    _lla[2, ind] = (
+      gps_p * cos(_lla[0, ind])
+      + xyz[2, ind] * sin(_lla[0, ind])
+      - body.gps_a * sqrt(1.0 - body.e_squared * sin(_lla[0, ind]) ** 2)
+    )
 
   return lla
 
-- 
2.43.0


From da4ae42dd5f7fb98a28b3b81b5b5678e403100b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:43 +0000
Subject: [PATCH 057/164] fix: compute the frame position angle of every record
 and near the poles

---
 src/pyuvdata/utils/phasing.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 298dc93..c81e4a2 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1638,13 +1638,9 @@ def calc_frame_pos_angle(
     # This creates an array of unique entries of ra + dec + time, since the processing
     # time for each element can be non-negligible, and entries along the Nblt axis can
     # be highly redundant.
-    unique_mask = np.union1d(
-        np.union1d(
-            np.unique(app_ra, return_index=True)[1],
-            np.unique(app_dec, return_index=True)[1],
-        ),
-        np.unique(time_array, return_index=True)[1],
-    )
+    unique_mask = np.unique(
+        np.stack((app_ra, app_dec, time_array)), axis=1, return_index=True
+    )[1]
 
     # Pluck out the unique entries for each
     unique_ra = app_ra[unique_mask]
@@ -1658,7 +1654,8 @@ def calc_frame_pos_angle(
     # 1 deg arc.
     up_dec = unique_dec + offset_pos
     dn_dec = unique_dec - offset_pos
-    up_ra = dn_ra = unique_ra
+    up_ra = unique_ra.copy()
+    dn_ra = unique_ra.copy()
 
     # Wrap the positions if they happen to go over the poles
     up_ra[up_dec > (np.pi / 2.0)] = np.mod(
@@ -1667,9 +1664,9 @@ def calc_frame_pos_angle(
     up_dec[up_dec > (np.pi / 2.0)] = np.pi - up_dec[up_dec > (np.pi / 2.0)]
 
     dn_ra[-dn_dec > (np.pi / 2.0)] = np.mod(
-        dn_ra[dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
+        dn_ra[-dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
     )
-    dn_dec[-dn_dec > (np.pi / 2.0)] = np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
+    dn_dec[-dn_dec > (np.pi / 2.0)] = -np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
 
     # Run the set of offset coordinates through the "reverse" transform. The two offset
     # positions are concat'd together to help reduce overheads
-- 
2.43.0


From 6b87726162459d491e40611b1f6399a2f02c3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:43 +0000
Subject: [PATCH 058/164] fix: use each record's own position angle when
 calculating uvws from antenna positions

---
 src/pyuvdata/utils/phasing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index c81e4a2..bd037bc 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -620,6 +620,7 @@ def calc_uvw(
                 (
                     ((lst_array[:-1] - app_ra[:-1]) != (lst_array[1:] - app_ra[1:]))
                     | (app_dec[:-1] != app_dec[1:])
+                    | (False if frame_pa is None else frame_pa[:-1] != frame_pa[1:])
                 ),
             )
 
-- 
2.43.0


From 661f4e6c6f3707246513f3ea23f793a08f3e3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:43 +0000
Subject: [PATCH 059/164] fix: use coord_epoch for the source position in
 uvw_track_generator

---
 src/pyuvdata/utils/phasing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index bd037bc..69836d4 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2517,6 +2517,7 @@ def uvw_track_generator(
         lon_coord=lon_coord,
         lat_coord=lat_coord,
         coord_frame=coord_frame,
+        coord_epoch=coord_epoch,
         coord_type=coord_type,
         time_array=time_array,
         lst_array=lst_array,
-- 
2.43.0


From 54e11082d11f16c52d0c8e27d7b02dd3d487af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:09 +0000
Subject: [PATCH 060/164] fix: interpolate ephemerides across the RA wrap

---
 src/pyuvdata/utils/phasing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 69836d4..a26bd38 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1976,6 +1976,14 @@ def interpolate_ephem(
     if (np.array(ephem_vel).shape != ephem_shape) and (ephem_vel is not None):
         raise ValueError("ephem_vel must have the same shape as ephem_times.")
 
+    if len(ephem_times) > 1:
+        # Make sure we do not interpolate across an RA wrap
+        sort_inds = np.argsort(ephem_times)
+        unwrapped_ra = np.array(ephem_ra, dtype=float)
+        unwrapped_ra[sort_inds] = np.unwrap(unwrapped_ra[sort_inds])
+        ra_wraps = not np.array_equal(unwrapped_ra, ephem_ra)
+        ephem_ra = unwrapped_ra
+
     ra_vals = np.zeros_like(time_array, dtype=float)
     dec_vals = np.zeros_like(time_array, dtype=float)
     dist_vals = None if ephem_dist is None else np.zeros_like(time_array, dtype=float)
@@ -2033,6 +2041,9 @@ def interpolate_ephem(
                     ephem_times, ephem_vel, kind=interp_kind
                 )(time_select)
 
+        if ra_wraps:
+            ra_vals = np.mod(ra_vals, 2 * np.pi)
+
     return (ra_vals, dec_vals, dist_vals, vel_vals)
 
 
-- 
2.43.0


From 58e3af5ed7119a0252d9e5b9780316f15f4839ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:09 +0000
Subject: [PATCH 061/164] fix: pair each position with its own time in
 calc_app_coords

---
 src/pyuvdata/utils/phasing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index a26bd38..b97b502 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2171,7 +2171,14 @@ def calc_app_coords(
     if isinstance(time_array, Time):
         time_array = time_array.utc.jd
 
-    unique_time_array, unique_mask = np.unique(time_array, return_index=True)
+    multi_coord = coord_type in ["sidereal", "driftscan"] and np.size(lon_coord) > 1
+    if multi_coord and np.size(time_array) > 1:
+        # Each time has its own position, so handle every record separately.
+        unique_time_array = np.asarray(time_array)
+        unique_mask = np.arange(unique_time_array.size)
+    else:
+        multi_coord = False
+        unique_time_array, unique_mask = np.unique(time_array, return_index=True)
 
     if coord_type in ["driftscan", "unprojected"]:
         if lst_array is None:
@@ -2251,6 +2258,9 @@ def calc_app_coords(
     else:
         raise ValueError("Object type %s is not recognized." % coord_type)
 
+    if multi_coord:
+        return unique_app_ra, unique_app_dec
+
     # Now that we've calculated all the unique values, time to backfill through the
     # "redundant" entries in the Nblt axis.
     app_ra = np.zeros(np.array(time_array).shape)
-- 
2.43.0


From f037b47f4fa09cd6753e91a3fbf1825105fb1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 062/164] fix: match overlapping and new elements by value when
 adding UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 46cfba4..03b42df 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3256,6 +3256,39 @@ class UVCal(UVBase):
                     )
                 freqs_t2o = np.nonzero(freqs_t2o)[0]
             ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
+
+            # other can have overlapping and new elements in any order along each axis,
+            # so put the indices into this in the order that the elements have in other
+            jones_t2o[np.argsort(other.jones_array)] = jones_t2o[
+                np.argsort(this.jones_array[jones_t2o])
+            ]
+            if this.time_range is not None:
+                times_t2o[np.argsort(other.time_range[:, 0])] = times_t2o[
+                    np.argsort(this.time_range[times_t2o, 0])
+                ]
+            else:
+                times_t2o[np.argsort(other.time_array)] = times_t2o[
+                    np.argsort(this.time_array[times_t2o])
+                ]
+            if self.wide_band:
+                freqs_t2o[np.argsort(other.spw_array)] = freqs_t2o[
+                    np.argsort(this.spw_array[freqs_t2o])
+                ]
+            else:
+                freqs_t2o[np.lexsort((other.freq_array, other.flex_spw_id_array))] = (
+                    freqs_t2o[
+                        np.lexsort(
+                            (
+                                this.freq_array[freqs_t2o],
+                                this.flex_spw_id_array[freqs_t2o],
+                            )
+                        )
+                    ]
+                )
+            ants_t2o[np.argsort(other.ant_array)] = ants_t2o[
+                np.argsort(this.ant_array[ants_t2o])
+            ]
+
             if this.cal_type == "delay":
                 this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
                     other.delay_array
-- 
2.43.0


From 0e025e2a752666a67f121256ed683a2ef499d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 063/164] fix: carry scan_number_array along when combining or
 reordering UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 03b42df..0986627 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2372,6 +2372,8 @@ class UVCal(UVBase):
             self.phase_center_id_array = self.phase_center_id_array[index_array]
         if self.ref_antenna_array is not None:
             self.ref_antenna_array = self.ref_antenna_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
         self.integration_time = self.integration_time[index_array]
         for param_name in self._data_params:
             param = getattr(self, param_name)
@@ -2660,6 +2662,12 @@ class UVCal(UVBase):
                 "ref_antenna_array parameter set."
             )
 
+        if (this.scan_number_array is None) != (other.scan_number_array is None):
+            raise ValueError(
+                "To combine these data, both or neither object must have the "
+                "scan_number_array parameter set."
+            )
+
         # Check that the objects both (or neither) have catalogs and phase ID arrays
         this_pc_cat = this.phase_center_catalog is None
         other_pc_cat = other.phase_center_catalog is None
@@ -3115,6 +3123,10 @@ class UVCal(UVBase):
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array, other.ref_antenna_array[tnew_inds]]
                 )
+            if this.scan_number_array is not None:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[tnew_inds]]
+                )
             if this.time_range is not None:
                 t_order = np.argsort(this.time_range[:, 0])
             else:
@@ -3365,6 +3377,8 @@ class UVCal(UVBase):
                 this.phase_center_id_array = this.phase_center_id_array[t_order]
             if self.ref_antenna_array is not None:
                 this.ref_antenna_array = this.ref_antenna_array[t_order]
+            if this.scan_number_array is not None:
+                this.scan_number_array = this.scan_number_array[t_order]
         if len(jnew_inds) > 0:
             this.jones_array = this.jones_array[j_order]
 
@@ -3569,6 +3583,14 @@ class UVCal(UVBase):
                     "or flex-jones."
                 )
 
+        for name in ["ref_antenna_array", "scan_number_array"]:
+            for obj in other:
+                if (getattr(this, name) is None) != (getattr(obj, name) is None):
+                    raise ValueError(
+                        "To combine these data, all or no objects must have the "
+                        f"{name} parameter set."
+                    )
+
         for obj in other:
             this_pc_cat = this.phase_center_catalog is None
             other_pc_cat = obj.phase_center_catalog is None
@@ -3835,6 +3857,11 @@ class UVCal(UVBase):
                     [this.ref_antenna_array] + [obj.ref_antenna_array for obj in other],
                     axis=0,
                 )
+            if this.scan_number_array is not None:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other],
+                    axis=0,
+                )
             axis_num = 2
         elif axis == "jones":
             this.Njones = sum([this.Njones] + [obj.Njones for obj in other])
-- 
2.43.0


From efa67eff089c0a35f35b76d10e1a3427eeae5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 064/164] fix: keep flex_jones_array in step with the windows
 when combining UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 0986627..b7e59d7 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3027,9 +3027,9 @@ class UVCal(UVBase):
                 unique_index = np.sort(
                     np.unique(this.flex_spw_id_array, return_index=True)[1]
                 )
+                concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                 this.spw_array = np.sort(this.flex_spw_id_array[unique_index])
                 if this.flex_jones_array is not None:
-                    concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                     spw_index = np.asarray(
                         [
                             np.nonzero(concat_spw_array == spw)[0][0]
@@ -3359,6 +3359,8 @@ class UVCal(UVBase):
             if this.wide_band:
                 this.spw_array = this.spw_array[f_order]
                 this.freq_range = this.freq_range[f_order]
+                if this.flex_jones_array is not None:
+                    this.flex_jones_array = this.flex_jones_array[f_order]
             else:
                 this.freq_array = this.freq_array[f_order]
                 this.channel_width = this.channel_width[f_order]
@@ -3774,12 +3776,12 @@ class UVCal(UVBase):
             unique_index = np.sort(
                 np.unique(this.flex_spw_id_array, return_index=True)[1]
             )
+            concat_spw_array = np.concatenate(
+                [this.spw_array] + [obj.spw_array for obj in other]
+            )
             this.spw_array = this.flex_spw_id_array[unique_index]
             this.Nspws = this.spw_array.size
             if this.flex_jones_array is not None:
-                concat_spw_array = np.concatenate(
-                    [this.spw_array] + [obj.spw_array for obj in other]
-                )
                 spw_index = np.asarray(
                     [
                         np.nonzero(concat_spw_array == spw)[0][0]
-- 
2.43.0


From c94bacc55239e13b4252ff6c77004b0cbd52a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 065/164] fix: combine UVCal total qualities without
 quality_array or with several wide-band windows

---
 src/pyuvdata/uvcal/uvcal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index b7e59d7..af909c4 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2938,8 +2938,8 @@ class UVCal(UVBase):
 
         # Initialize tqa variables
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
+        if this.wide_band:
+            Nf_tqa = this.Nspws
         else:
             Nf_tqa = this.Nfreqs
 
@@ -3171,14 +3171,14 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
                     )
                 elif other.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.zeros(
                         (Nf_tqa, this.Ntimes, this.Njones)
-- 
2.43.0


From 28e5197e97e53583b13974796500a42d590bd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 066/164] fix: keep phase center ids consistent when
 concatenating several UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index af909c4..805b62f 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3714,8 +3714,24 @@ class UVCal(UVBase):
                             " Unique part of next object history follows. "
                             + extra_history
                         )
+        # Update the phase center IDs to be consistent across objects. This is done one
+        # object at a time so that the IDs never change on objects that are already
+        # consistent, using metadata copies so the objects passed in are not changed.
+        other_meta = other
+        if this.phase_center_catalog is not None:
+            other_meta = [obj.copy(metadata_only=True) for obj in other]
+            this._consolidate_phase_center_catalogs(
+                other=other_meta[0], ignore_name=ignore_name
+            )
+            for obj in other_meta[1:]:
+                obj._consolidate_phase_center_catalogs(
+                    other=this, ignore_name=ignore_name
+                )
+                this.phase_center_catalog = obj.phase_center_catalog.copy()
+                this.Nphase = obj.Nphase
+
         # Actually check compatibility parameters
-        for obj in other:
+        for obj in other_meta:
             for a in compatibility_params:
                 params_match = getattr(this, a) == getattr(obj, a)
                 if not params_match:
@@ -3732,18 +3748,6 @@ class UVCal(UVBase):
                     msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
                     warnings.warn(msg)
 
-        # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
-        if this.phase_center_catalog is not None:
-            uv_list = [this] + other
-            while len(uv_list) > 1:
-                for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                    uv1._consolidate_phase_center_catalogs(
-                        other=uv2, ignore_name=ignore_name
-                    )
-                uv_list = uv_list[0::2]
-
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
         ]
@@ -3850,7 +3854,7 @@ class UVCal(UVBase):
                 this.phase_center_id_array = np.concatenate(
                     (
                         [this.phase_center_id_array]
-                        + [obj.phase_center_id_array for obj in other]
+                        + [obj.phase_center_id_array for obj in other_meta]
                     ),
                     axis=0,
                 )
@@ -3950,7 +3954,7 @@ class UVCal(UVBase):
         for obj in other:
             this.filename = utils.tools._combine_filenames(this.filename, obj.filename)
         if this.filename is not None:
-            this._filename.form = len(this.filename)
+            this._filename.form = (len(this.filename),)
 
         # Check final object is self-consistent
         if run_check:
-- 
2.43.0


From 4f5a73a2b4010c2f01f5a45ae47e56ec9c652050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:39 +0000
Subject: [PATCH 067/164] fix: refuse to concatenate UVCal objects with
 different windows or reference antennas

---
 src/pyuvdata/uvcal/uvcal.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 805b62f..2a5ff53 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3645,6 +3645,17 @@ class UVCal(UVBase):
         if axis != "time" and this.phase_center_id_array is not None:
             compatibility_params += ["_phase_center_id_array"]
 
+        # Elements are joined by position, so all the other axes have to be the same
+        if axis != "time":
+            compatibility_params += ["_ref_antenna_array", "_scan_number_array"]
+        if axis not in ["freq", "spw"]:
+            compatibility_params += [
+                "_spw_array",
+                "_freq_range",
+                "_flex_spw_id_array",
+                "_flex_jones_array",
+            ]
+
         if axis == "freq" or axis == "spw":
             if axis == "freq":
                 history_update_string += "frequency"
-- 
2.43.0


From 9acc56c0971276d8ad5498d58f1738a78d757426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 068/164] fix: accept tuples and arrays of objects in
 UVCal.fast_concat along time

---
 src/pyuvdata/uvcal/uvcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 2a5ff53..dfbbe1d 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -23,7 +23,7 @@ __all__ = ["UVCal"]
 
 def _time_param_check(this, other):
     """Check if any time parameter is defined in this but not in other or vice-versa."""
-    if not isinstance(other, list):
+    if not isinstance(other, (list, tuple, np.ndarray)):
         other = [other]
     time_params = ["time_array", "time_range"]
     for param in time_params:
-- 
2.43.0


From 6a01ae4f63d3faca6b6e3a273a22e0f510c5a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 069/164] fix: refuse UVCal selections that match no data
 before changing the object

---
 src/pyuvdata/uvcal/uvcal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index dfbbe1d..f151a19 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4157,6 +4157,8 @@ class UVCal(UVBase):
             time_inds = utils.tools._sorted_unique_intersection(
                 np.where(pc_check)[0], time_inds
             )
+            if len(time_inds) == 0:
+                raise ValueError("No data matching this phase center selection.")
 
             update_substring = (
                 "phase center IDs" if (catalog_names is None) else "catalog names"
@@ -4246,6 +4248,8 @@ class UVCal(UVBase):
                 pass
 
             freq_inds = np.array(sorted(utils.tools._get_iterable(freq_chans)))
+            if len(freq_inds) == 0:
+                raise ValueError("No data matching this frequency selection.")
 
             if len(freq_inds) > 1:
                 freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
-- 
2.43.0


From 2cb7086bc74441c7031718ad3d399aeda1ac63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 070/164] fix: leave the channel order alone when adding UVCal
 objects

---
 src/pyuvdata/uvcal/uvcal.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index f151a19..5bc77dc 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2845,13 +2845,6 @@ class UVCal(UVBase):
                     ]
 
                     this.reorder_freqs(spw_order=temp_ind)
-                else:
-                    temp_ind = np.arange(this.Nfreqs)
-                    temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                        this_freq_ind[other_argsort]
-                    ]
-
-                    this.reorder_freqs(channel_order=temp_ind)
 
         if len(this_jones_ind) != 0:
             this_argsort = np.argsort(this_jones_ind)
-- 
2.43.0


From a1d13fd5a8be05f7fd67d9d23bb635cf6db92caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 071/164] fix: write descending frequencies to calfits in their
 own order

---
 src/pyuvdata/uvcal/calfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b70a649..dba82d4 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -112,7 +112,10 @@ class CALFITS(UVCal):
                 )
                 delta_freq_array = rounded_spacing[0]
             else:
-                delta_freq_array = np.median(self.channel_width)
+                # frequencies can be in ascending or descending order
+                delta_freq_array = np.median(self.channel_width) * np.sign(
+                    self.freq_array[1] - self.freq_array[0]
+                )
         else:
             if self.channel_width is not None:
                 delta_freq_array = self.channel_width[0]
-- 
2.43.0


From 8affbc6c9423200f0bc12b0ccc44e513d569bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 072/164] fix: keep CHWIDTH out of the extra keywords of delay
 calfits files

---
 src/pyuvdata/uvcal/calfits.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index dba82d4..ba6f24f 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -682,6 +682,7 @@ class CALFITS(UVCal):
             if self.cal_type == "delay":
                 self._set_delay()
                 self.Nfreqs = 1
+                hdr.pop("CHWIDTH", None)
 
                 sechdu = fname[hdunames["FLAGS"]]
                 assert self.Nspws == 1, (
-- 
2.43.0


From 42d452755c97b0f2d6fdcbd34b0accf5fd533784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 073/164] fix: label Jones terms in the order they are written
 to MS calibration tables

---
 src/pyuvdata/uvcal/ms_cal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 289be09..f120460 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -482,7 +482,11 @@ class MSCal(UVCal):
                 ms.putkeyword("pyuvdata_xorient", self.telescope.x_orientation)
 
             if self.jones_array is not None:
-                ms.putkeyword("pyuvdata_jones", self.jones_array)
+                # the solutions are written in CASA order below
+                jones_order = utils.pol.determine_pol_order(
+                    self.jones_array, order="CASA"
+                )
+                ms.putkeyword("pyuvdata_jones", self.jones_array[jones_order])
 
             if self.flex_jones_array is not None:
                 ms.putkeyword("pyuvdata_flex_jones", self.flex_jones_array)
-- 
2.43.0


From fd4d9327c85fd135e7272e96b45c317a6aa4c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 074/164] fix: write UVCal objects with total qualities to MS
 calibration tables

---
 src/pyuvdata/uvcal/ms_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index f120460..b4641b9 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -635,7 +635,7 @@ class MSCal(UVCal):
                 if self.quality_array is not None:
                     qual_arr *= self.quality_array[:, spw_sel, :, :]
                 if self.total_quality_array is not None:
-                    qual_arr *= self.total_quality_array[0][spw_sel, :, :]
+                    qual_arr *= self.total_quality_array[..., spw_sel, :, :]
 
                 # We're going to leave a placeholder for SNR for now, since it's
                 # somewhat redundant and not totally clear how it's calculated.
-- 
2.43.0


From 647c1de8972c96302024ffd55d2764c05e848517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 075/164] fix: write UVCal objects with time ranges and phase
 centers to MS calibration tables

---
 src/pyuvdata/utils/io/ms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index c065c59..1891144 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -724,9 +724,11 @@ def write_ms_field(filepath, uvobj=None, phase_center_catalog=None, time_val=Non
 
     if uvobj is not None:
         phase_center_catalog = uvobj.phase_center_catalog
-        time_val = (
-            Time(np.median(uvobj.time_array), format="jd", scale="utc").mjd * 86400.0
-        )
+        time_array = uvobj.time_array
+        if time_array is None:
+            # UVCal objects can have time ranges instead
+            time_array = uvobj.time_range
+        time_val = Time(np.median(time_array), format="jd", scale="utc").mjd * 86400.0
 
     tabledesc = tables.required_ms_desc("FIELD")
     dminfo = tables.makedminfo(tabledesc)
-- 
2.43.0


From d3314ea0bd6f2e1b481a5ccdc3d05ed9cde22078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 076/164] fix: index HDF5 datasets with arrays of indices

---
 src/pyuvdata/utils/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 0d7ad57..79b9e78 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -142,7 +142,7 @@ def _get_dset_shape(dset, indices):
         if isinstance(inds, slice):
             dset_shape[i] = _get_slice_len(inds, dset_shape[i])
         # check for list
-        if isinstance(inds, list):
+        if isinstance(inds, (list, np.ndarray)):
             # check for list of integers
             if isinstance(inds[0], (int, np.integer)):
                 dset_shape[i] = len(inds)
-- 
2.43.0


From d093959d691dcb87933a239ecc936ae6479006ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 077/164] fix: refuse to write wide-band gains to calfits,
 which cannot hold their frequency range

---
 src/pyuvdata/uvcal/calfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index ba6f24f..5f462ba 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -80,6 +80,9 @@ class CALFITS(UVCal):
                 "The calfits format does not support multiple spectral windows"
             )
 
+        if self.cal_type == "gain" and self.wide_band:
+            raise ValueError("The calfits format does not support wide-band gains.")
+
         if run_check:
             self.check(
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
-- 
2.43.0


From 63bdb94a2f9dde1f98a43b78279fa5f4c6cc76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 078/164] fix: match gains to visibilities by time and
 frequency in uvcalibrate

---
 src/pyuvdata/utils/uvcalibrate.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/uvcalibrate.py b/src/pyuvdata/utils/uvcalibrate.py
index fb01f55..6e01eb1 100644
--- a/src/pyuvdata/utils/uvcalibrate.py
+++ b/src/pyuvdata/utils/uvcalibrate.py
@@ -495,6 +495,28 @@ def uvcalibrate(
             channel_width=channel_width,
         )
 
+    # The times and frequencies can be in different orders on the two objects, and
+    # baselines do not need to have all the times, so get the indices that match
+    # the UVData blts and channels to the UVCal times and frequencies.
+    if uvcal.time_range is None and uvcal_use.Ntimes > 1:
+        time_inds = np.argmin(
+            np.abs(uvdata_times[:, np.newaxis] - uvcal_use.time_array), axis=1
+        )[uvd_time_ri]
+    elif uvcal.time_range is not None and uvcal.Ntimes > 1:
+        time_inds = trange_ind_arr
+    else:
+        time_inds = None
+
+    freq_inds = np.zeros(uvdata.Nfreqs, dtype=int)
+    for chan, (freq, spw) in enumerate(
+        zip(uvdata.freq_array, uvdata.flex_spw_id_array)
+    ):
+        freq_diff = np.abs(uvcal_use.freq_array - freq)
+        wh_close = np.nonzero(freq_diff <= np.min(freq_diff))[0]
+        # windows can have frequencies in common, prefer the same window if there is one
+        same_spw = wh_close[uvcal_use.flex_spw_id_array[wh_close] == spw]
+        freq_inds[chan] = same_spw[0] if same_spw.size > 0 else wh_close[0]
+
     # D-term calibration
     if d_term_cal:
         # check for D-terms
@@ -559,9 +581,11 @@ def uvcalibrate(
                 ).T  # tranpose to match uvdata shape
             flag = (uvcal_use.get_flags(uvcal_key1) | uvcal_use.get_flags(uvcal_key2)).T
 
-            if uvcal.time_range is not None and uvcal.Ntimes > 1:
-                gain = gain[trange_ind_arr[blt_inds], :]
-                flag = flag[trange_ind_arr[blt_inds], :]
+            gain = gain[:, freq_inds]
+            flag = flag[:, freq_inds]
+            if time_inds is not None:
+                gain = gain[time_inds[blt_inds], :]
+                flag = flag[time_inds[blt_inds], :]
 
             # propagate flags
             if prop_flags:
-- 
2.43.0


From dba30b135a22d04cd15ec518946d31d897db1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:22 +0000
Subject: [PATCH 079/164] fix: write real power beams with the polarizations on
 the polarization axis

---
 src/pyuvdata/uvbeam/beamfits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..9a057f6 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -700,8 +700,12 @@ class BeamFITS(UVBeam):
                 '"efield" or "power".'.format(type=self.beam_type)
             )
 
-        # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        # Add a spectral window axis to the data for consistency. It comes after the
+        # basis vector axis, which is the second axis if there is a complex axis
+        if np.iscomplexobj(self.data_array):
+            primary_data = primary_data[:, :, np.newaxis]
+        else:
+            primary_data = primary_data[:, np.newaxis]
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From 60e3b45f6e02cfe4989da6e83d43e73e46acc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:22 +0000
Subject: [PATCH 080/164] fix: keep only the requested range of descending
 frequencies in read_beamfits

---
 src/pyuvdata/uvbeam/beamfits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index 9a057f6..98a4358 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -256,8 +256,12 @@ class BeamFITS(UVBeam):
                     raise ValueError("Frequency units not recognized.")
 
             if freq_range is not None:
-                fmin = np.where(self.freq_array >= freq_range[0])[0][0]
-                fmax = np.where(self.freq_array <= freq_range[1])[0][-1] + 1
+                freq_inds = np.nonzero(
+                    (self.freq_array >= freq_range[0])
+                    & (self.freq_array <= freq_range[1])
+                )[0]
+                fmin = freq_inds[0]
+                fmax = freq_inds[-1] + 1
                 freq_mask = slice(fmin, fmax)
                 self.Nfreqs = fmax - fmin
                 self.freq_array = self.freq_array[freq_mask]
-- 
2.43.0


From 5bc1ed43b584bc27c6d03d68a675047502f49be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 081/164] fix: keep polarizations with their data when
 selecting them in another order in UVBeam.select

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..2310bac 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3211,10 +3211,10 @@ class UVBeam(UVBase):
                         " polarization_array".format(p=p)
                     )
 
+            pol_inds = sorted(set(pol_inds))
             initial_pols = beam_object.polarization_array.copy()
             final_pols = beam_object.polarization_array[pol_inds]
 
-            pol_inds = sorted(set(pol_inds))
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 322b7c709e62de710ba5082c6f0200f0581c1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 082/164] fix: leave the object alone when refusing to add
 overlapping UVBeam objects

---
 src/pyuvdata/uvbeam/uvbeam.py | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 2310bac..8d321eb 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2429,29 +2429,6 @@ class UVBeam(UVBase):
                 )
                 raise ValueError(msg)
 
-        # check for presence of optional parameters with a frequency axis in
-        # both objects
-        optional_freq_params = [
-            "_receiver_temperature_array",
-            "_loss_array",
-            "_mismatch_array",
-            "_s_parameters",
-        ]
-        for attr in optional_freq_params:
-            this_attr = getattr(this, attr)
-            other_attr = getattr(other, attr)
-            if (
-                this_attr.value is None or other_attr.value is None
-            ) and this_attr != other_attr:
-                warnings.warn(
-                    "Only one of the UVBeam objects being combined "
-                    "has optional parameter {attr}. After the sum the "
-                    "final object will not have {attr}".format(attr=attr)
-                )
-                if this_attr.value is not None:
-                    this_attr.value = None
-                    setattr(this, attr, this_attr)
-
         # Build up history string
         history_update_string = " Combined data along "
         n_axes = 0
@@ -2486,6 +2463,29 @@ class UVBeam(UVBase):
                                 " cannot be combined."
                             )
 
+        # check for presence of optional parameters with a frequency axis in
+        # both objects
+        optional_freq_params = [
+            "_receiver_temperature_array",
+            "_loss_array",
+            "_mismatch_array",
+            "_s_parameters",
+        ]
+        for attr in optional_freq_params:
+            this_attr = getattr(this, attr)
+            other_attr = getattr(other, attr)
+            if (
+                this_attr.value is None or other_attr.value is None
+            ) and this_attr != other_attr:
+                warnings.warn(
+                    "Only one of the UVBeam objects being combined "
+                    "has optional parameter {attr}. After the sum the "
+                    "final object will not have {attr}".format(attr=attr)
+                )
+                if this_attr.value is not None:
+                    this_attr.value = None
+                    setattr(this, attr, this_attr)
+
         # Update filename parameter
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
         if this.filename is not None:
-- 
2.43.0


From a868b70d5d95d2349632b71f90e737ffa9310d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 083/164] fix: match elements by value when adding UVBeam
 objects

---
 src/pyuvdata/uvbeam/uvbeam.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 8d321eb..b54b7ae 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2757,11 +2757,15 @@ class UVBeam(UVBase):
             )[:, order, ...]
 
         # Now populate the data
+        def _get_t2o(this_arr, other_arr):
+            # get the index in this_arr of each element of other_arr, which can be in
+            # a different order
+            order = np.argsort(this_arr)
+            return order[np.searchsorted(this_arr, other_arr, sorter=order)]
+
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o = _get_t2o(this.polarization_array, other.polarization_array)
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2777,13 +2781,13 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o = _get_t2o(this.feed_array, other.feed_array)
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o = _get_t2o(this.freq_array, other.freq_array)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
+            pix_t2o = _get_t2o(this.pixel_array, other.pixel_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
@@ -2794,8 +2798,8 @@ class UVBeam(UVBase):
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
+            ax1_t2o = _get_t2o(this.axis1_array, other.axis1_array)
+            ax2_t2o = _get_t2o(this.axis2_array, other.axis2_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-- 
2.43.0


From e5651aaa7d9d356232d4ea1d858602f12027c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 084/164] fix: return the whole bandpass when not interpolating
 in frequency

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index b54b7ae..ca6b1d3 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1379,7 +1379,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1660,7 +1660,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From 4a6cff15319c0dcb4819886e1427f91988881037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 085/164] fix: refuse to interpolate healpix beams with pixels
 in descending order

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index ca6b1d3..704b14a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1639,7 +1639,7 @@ class UVBeam(UVBase):
             raise ValueError(
                 "simple healpix interpolation requires full sky healpix maps."
             )
-        if not np.max(np.abs(np.diff(self.pixel_array))) == 1:
+        if not np.array_equal(self.pixel_array, np.arange(self.Npixels)):
             raise ValueError(
                 "simple healpix interpolation requires healpix pixels to be in order."
             )
-- 
2.43.0


From 3e66367da81cea0f9bc2aadb6b43b17586680bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 086/164] fix: refuse to interpolate beams whose basis vectors
 are rotated either way

---
 src/pyuvdata/uvbeam/uvbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 704b14a..46d556c 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1437,8 +1437,8 @@ class UVBeam(UVBase):
         theta_use = theta_vals
 
         if self.basis_vector_array is not None:
-            if np.any(self.basis_vector_array[0, 1, :] > 0) or np.any(
-                self.basis_vector_array[1, 0, :] > 0
+            if np.any(self.basis_vector_array[0, 1, :] != 0) or np.any(
+                self.basis_vector_array[1, 0, :] != 0
             ):
                 # Input basis vectors are not aligned to the native theta/phi
                 # coordinate system
@@ -1711,8 +1711,8 @@ class UVBeam(UVBase):
         )
 
         if self.basis_vector_array is not None:
-            if np.any(self.basis_vector_array[0, 1, :] > 0) or np.any(
-                self.basis_vector_array[1, 0, :] > 0
+            if np.any(self.basis_vector_array[0, 1, :] != 0) or np.any(
+                self.basis_vector_array[1, 0, :] != 0
             ):
                 """Input basis vectors are not aligned to the native theta/phi
                 coordinate system"""
-- 
2.43.0


From fd95b9c1828f5871e225fb3157ab8172fc62919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 087/164] fix: do not reuse saved splines for a changed beam or
 other interpolation options

---
 src/pyuvdata/uvbeam/uvbeam.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 46d556c..3f0023a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -629,6 +629,11 @@ class UVBeam(UVBase):
                     "Naxes1",
                 )
 
+    def _clear_saved_interp(self):
+        """Remove saved interpolation functions, they are only valid for one beam."""
+        if hasattr(self, "saved_interp_functions"):
+            delattr(self, "saved_interp_functions")
+
     def _set_efield(self):
         """Set beam_type to 'efield' and adjust required parameters."""
         self.beam_type = "efield"
@@ -847,6 +852,7 @@ class UVBeam(UVBase):
                 "Conversion from solid_angle to peak "
                 "normalization is not yet implemented"
             )
+        self._clear_saved_interp()
         for i in range(self.Nfreqs):
             max_val = abs(self.data_array[:, :, i]).max()
             self.data_array[:, :, i, :] /= max_val
@@ -993,6 +999,7 @@ class UVBeam(UVBase):
                 )
             power_data = power_data.real
 
+        beam_object._clear_saved_interp()
         beam_object.data_array = power_data
         beam_object.Nfeeds = None
         beam_object.feed_array = None
@@ -1174,6 +1181,7 @@ class UVBeam(UVBase):
 
         if self.pixel_coordinate_system != "healpix":
             power_data = power_data.reshape(power_data.shape[:-1] + (Naxes2, Naxes1))
+        beam_object._clear_saved_interp()
         beam_object.data_array = power_data
         beam_object.polarization_array = np.array(
             [
@@ -1533,7 +1541,13 @@ class UVBeam(UVBase):
             for index0 in range(self.Naxes_vec):
                 for pol_return_ind, index2 in enumerate(pol_inds):
                     do_interp = True
-                    key = (freq, index2, index0)
+                    key = (
+                        freq,
+                        index2,
+                        index0,
+                        freq_interp_kind,
+                        tuple(sorted(spline_opts.items())),
+                    )
                     if reuse_spline:
                         if key in self.saved_interp_functions.keys():
                             do_interp = False
@@ -2102,8 +2116,7 @@ class UVBeam(UVBase):
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
 
-            if hasattr(new_uvb, "saved_interp_functions"):
-                delattr(new_uvb, "saved_interp_functions")
+            new_uvb._clear_saved_interp()
 
             new_uvb._set_cs_params()
             if run_check:
@@ -2219,6 +2232,7 @@ class UVBeam(UVBase):
         if not inplace:
             return beam_object
         else:
+            self._clear_saved_interp()
             for p in beam_object:
                 param = getattr(beam_object, p)
                 setattr(self, p, param)
@@ -2756,6 +2770,8 @@ class UVBeam(UVBase):
                 [this.data_array, data_zero_pad], axis=paxis
             )[:, order, ...]
 
+        this._clear_saved_interp()
+
         # Now populate the data
         def _get_t2o(this_arr, other_arr):
             # get the index in this_arr of each element of other_arr, which can be in
@@ -2958,6 +2974,8 @@ class UVBeam(UVBase):
         else:
             beam_object = self.copy()
 
+        beam_object._clear_saved_interp()
+
         # build up history string as we go
         history_update_string = "  Downselected to specific "
         n_selects = 0
-- 
2.43.0


From 9c7d91760bcf000893292be1e117e32d9dd86d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 088/164] fix: label the requested polarizations and return
 only those in UVBeam.interp

---
 src/pyuvdata/uvbeam/uvbeam.py | 93 ++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 3f0023a..c624ac9 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1391,7 +1391,35 @@ class UVBeam(UVBase):
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
+        # Npols is only defined for power beams.  For E-field beams need Nfeeds.
+        if self.beam_type == "power":
+            # get requested polarization indices
+            if polarizations is None:
+                Npol_feeds = self.Npols
+                pol_inds = np.arange(Npol_feeds)
+            else:
+                pols = [
+                    utils.polstr2num(p, x_orientation=self.x_orientation)
+                    for p in polarizations
+                ]
+                pol_inds = []
+                for pol in pols:
+                    if pol not in self.polarization_array:
+                        raise ValueError(
+                            "Requested polarization {} not found "
+                            "in self.polarization_array".format(pol)
+                        )
+                    pol_inds.append(np.where(self.polarization_array == pol)[0][0])
+                pol_inds = np.asarray(pol_inds)
+                Npol_feeds = len(pol_inds)
+
+        else:
+            Npol_feeds = self.Nfeeds
+            pol_inds = np.arange(Npol_feeds)
+
         if az_array is None or za_array is None:
+            if polarizations is not None and self.beam_type == "power":
+                input_data_array = input_data_array[:, pol_inds]
             interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
             if self.antenna_type == "phased_array":
                 interp_arrays.append(interp_coupling_matrix)
@@ -1476,32 +1504,6 @@ class UVBeam(UVBase):
                     real_lut(za, az, grid=False) + 1j * imag_lut(za, az, grid=False)
                 )
 
-        # Npols is only defined for power beams.  For E-field beams need Nfeeds.
-        if self.beam_type == "power":
-            # get requested polarization indices
-            if polarizations is None:
-                Npol_feeds = self.Npols
-                pol_inds = np.arange(Npol_feeds)
-            else:
-                pols = [
-                    utils.polstr2num(p, x_orientation=self.x_orientation)
-                    for p in polarizations
-                ]
-                pol_inds = []
-                for pol in pols:
-                    if pol not in self.polarization_array:
-                        raise ValueError(
-                            "Requested polarization {} not found "
-                            "in self.polarization_array".format(pol)
-                        )
-                    pol_inds.append(np.where(self.polarization_array == pol)[0][0])
-                pol_inds = np.asarray(pol_inds)
-                Npol_feeds = len(pol_inds)
-
-        else:
-            Npol_feeds = self.Nfeeds
-            pol_inds = np.arange(Npol_feeds)
-
         if check_azza_domain:
             za_sq_dist = np.full(len(za_array), np.inf)
             az_sq_dist = np.full(len(az_array), np.inf)
@@ -1678,19 +1680,6 @@ class UVBeam(UVBase):
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-        if az_array is None or za_array is None:
-            interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
-            if self.antenna_type == "phased_array":
-                interp_arrays.append(interp_coupling_matrix)
-            return tuple(interp_arrays)
-
-        assert isinstance(az_array, np.ndarray)
-        assert isinstance(za_array, np.ndarray)
-        assert az_array.ndim == 1
-        assert az_array.shape == za_array.shape
-
-        npoints = az_array.size
-
         # Npols is only defined for power beams.  For E-field beams need Nfeeds.
         if self.beam_type == "power":
             # get requested polarization indices
@@ -1716,6 +1705,21 @@ class UVBeam(UVBase):
             Npol_feeds = self.Nfeeds
             pol_inds = np.arange(Npol_feeds)
 
+        if az_array is None or za_array is None:
+            if polarizations is not None and self.beam_type == "power":
+                input_data_array = input_data_array[:, pol_inds]
+            interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
+            if self.antenna_type == "phased_array":
+                interp_arrays.append(interp_coupling_matrix)
+            return tuple(interp_arrays)
+
+        assert isinstance(az_array, np.ndarray)
+        assert isinstance(za_array, np.ndarray)
+        assert az_array.ndim == 1
+        assert az_array.shape == za_array.shape
+
+        npoints = az_array.size
+
         if np.iscomplexobj(input_data_array):
             data_type = np.complex128
         else:
@@ -2112,6 +2116,17 @@ class UVBeam(UVBase):
                 history_update_string += f" and freq_interp_kind = {freq_interp_kind}"
             history_update_string += "."
             new_uvb.history = new_uvb.history + history_update_string
+            if polarizations is not None and self.beam_type == "power":
+                new_uvb.polarization_array = np.array(
+                    [
+                        utils.polstr2num(p, x_orientation=self.x_orientation)
+                        for p in polarizations
+                    ]
+                )
+                new_uvb.Npols = new_uvb.polarization_array.size
+                if not np.any(np.isin(new_uvb.polarization_array, [-3, -4, -7, -8])):
+                    # only the cross polarizations are complex
+                    interp_data = interp_data.real
             new_uvb.data_array = interp_data
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
-- 
2.43.0


From 585d910f76c1f34913121da79177ab9c53a751ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 089/164] fix: select the channel of a UVFlag object that has
 only one

---
 src/pyuvdata/uvflag/uvflag.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..0bda235 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2673,14 +2673,12 @@ class UVFlag(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
+                frequencies = self.freq_array[freq_chans]
 
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
                 frequencies = np.sort(
-                    list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
-                    )
+                    list(set(frequencies) | set(self.freq_array[freq_chans]))
                 )
 
         if frequencies is not None:
-- 
2.43.0


From 767e8e2ac3c95e93ccff918c3512999a14600480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 090/164] fix: sort the antenna diameters with the other
 antenna metadata in UVFlag.sort_ant_metadata_like

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 0bda235..0ee261b 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1383,6 +1383,10 @@ class UVFlag(UVBase):
                 self.telescope.antenna_positions = self.telescope.antenna_positions[
                     this_uv_sort
                 ]
+            if self.telescope.antenna_diameters is not None:
+                self.telescope.antenna_diameters = self.telescope.antenna_diameters[
+                    this_uv_sort
+                ]
 
     def to_baseline(
         self,
-- 
2.43.0


From a8a62d14b912e5052fbc47a475fb34cab2c6297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 091/164] fix: collapse the squared weights with the
 polarizations in UVFlag.collapse_pol

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 0ee261b..99ea130 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1180,6 +1180,10 @@ class UVFlag(UVBase):
 
             if self.mode == "metric":
                 self.weights_array = np.expand_dims(w, axis=w.ndim)
+                if self.weights_square_array is not None:
+                    self.weights_square_array = np.sum(
+                        self.weights_square_array, axis=-1, keepdims=True
+                    )
 
             self.polarization_array = np.array(
                 [",".join(map(str, self.polarization_array))], dtype=np.str_
-- 
2.43.0


From ff18344e5264b9dd05c12a36d146047df49da5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:20 +0000
Subject: [PATCH 092/164] fix: broadcast waterfalls whose times are not sorted
 to the right baseline-times in UVFlag.to_baseline

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 99ea130..d2b2dd7 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1520,7 +1520,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
-- 
2.43.0


From 25279cf04a7031f500a3078779705918a647ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:20 +0000
Subject: [PATCH 093/164] fix: apply flags to their own polarizations in
 apply_uvflag

---
 src/pyuvdata/utils/apply_uvflag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..c01d08d 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -71,9 +71,10 @@ def apply_uvflag(
                 raise ValueError("Input uvf and uvd polarizations do not match")
 
         # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
+        if uvf.flag_array.shape[-1] > 1:
+            pol_order = [uvf_pols.index(pol) for pol in uvd_pols]
+            uvf.polarization_array = uvf.polarization_array[pol_order]
+            uvf.flag_array = uvf.flag_array[:, :, pol_order]
 
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
-- 
2.43.0


From 7627aaa202b7c5997d8cf99723cc718eac42bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:20 +0000
Subject: [PATCH 094/164] fix: refuse flags with earlier times or lower
 frequencies than the data in apply_uvflag

---
 src/pyuvdata/utils/apply_uvflag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index c01d08d..b587f35 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -82,7 +82,7 @@ def apply_uvflag(
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
         tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
-        mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
+        mismatch_times = np.any(np.abs(tdiff) > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
     if mismatch_times:
@@ -92,7 +92,7 @@ def apply_uvflag(
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
         fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
-        mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
+        mismatch_freqs = np.any(np.abs(fdiff) > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
-- 
2.43.0


From cdd3f158f5685d05f8c8aee2deb5d9fb934cc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:58 +0000
Subject: [PATCH 095/164] fix: apply flags to the times and frequencies they
 belong to in apply_uvflag

---
 src/pyuvdata/utils/apply_uvflag.py | 43 +++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index b587f35..db62a05 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -98,20 +98,49 @@ def apply_uvflag(
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
-    # unflag if desired
-    if unflag_first:
-        uvd.flag_array[:] = False
+    # put the flags in the frequency order of the data
+    if uvf.Nfreqs > 1 and not np.array_equal(uvf.freq_array, uvd.freq_array):
+        freq_order = np.empty(uvd.Nfreqs, dtype=int)
+        freq_order[np.argsort(uvd.freq_array, kind="stable")] = np.argsort(
+            uvf.freq_array, kind="stable"
+        )
+        uvf.flag_array = uvf.flag_array[:, freq_order]
 
-    # iterate over antpairs and apply flags: TODO need to be able to handle
-    # conjugated antpairs
+    # find the flags for each baseline-time of the data
+    # TODO need to be able to handle conjugated antpairs
     uvf_antpairs = uvf.get_antpairs()
+    ap_inds = []
     for ap in uvd.get_antpairs():
-        uvd_ap_inds = uvd.antpair2ind(ap)
+        uvd_ap_inds = np.arange(uvd.Nblts)[uvd.antpair2ind(ap)]
         if ap not in uvf_antpairs:
+            ap_inds.append((uvd_ap_inds, None))
+            continue
+        uvf_ap_inds = uvf.antpair2ind(*ap)
+        if uvf.Ntimes > 1:
+            # match the times of the data
+            uvd_order = np.argsort(uvd.time_array[uvd_ap_inds])
+            uvf_order = np.argsort(uvf.time_array[uvf_ap_inds])
+            uvd_ap_inds = uvd_ap_inds[uvd_order]
+            uvf_ap_inds = uvf_ap_inds[uvf_order]
+            if uvf_ap_inds.size != uvd_ap_inds.size or not np.allclose(
+                uvf.time_array[uvf_ap_inds],
+                uvd.time_array[uvd_ap_inds],
+                rtol=0,
+                atol=np.max(np.abs(uvf._time_array.tols)),
+            ):
+                raise ValueError("UVFlag and UVData have mismatched time arrays.")
+        ap_inds.append((uvd_ap_inds, uvf_ap_inds))
+
+    # unflag if desired
+    if unflag_first:
+        uvd.flag_array[:] = False
+
+    # iterate over antpairs and apply flags
+    for uvd_ap_inds, uvf_ap_inds in ap_inds:
+        if uvf_ap_inds is None:
             if flag_missing:
                 uvd.flag_array[uvd_ap_inds] = True
             continue
-        uvf_ap_inds = uvf.antpair2ind(*ap)
         # addition of boolean is OR
         uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
 
-- 
2.43.0


From 5f4ab4d774b9e284f4ac1650f363ca85d4dc3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:38 +0000
Subject: [PATCH 096/164] fix: drop the squared weights of waterfalls when
 broadcasting UVFlag objects to baselines or antennas

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index d2b2dd7..215f60f 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1604,6 +1604,8 @@ class UVFlag(UVBase):
                 setattr(self.telescope, param_name, uvd_param.value)
 
         self._set_type_baseline()
+        # the squares of the weights are only defined for waterfalls
+        self.weights_square_array = None
         self.clear_unused_attributes()
 
         self.history += 'Broadcast to type "baseline". '
@@ -1774,6 +1776,8 @@ class UVFlag(UVBase):
                 self.flex_spw_id_array = uv.flex_spw_id_array
 
         self._set_type_antenna()
+        # the squares of the weights are only defined for waterfalls
+        self.weights_square_array = None
         self.history += 'Broadcast to type "antenna". '
 
         if not utils.history._check_history_version(
-- 
2.43.0


From 90b1198068c30d198c3b4b2d8669380cf8ff4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:37 +0000
Subject: [PATCH 097/164] fix: broadcast waterfalls to the baselines of metric
 objects in UVFlag.to_baseline

---
 src/pyuvdata/uvflag/uvflag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 215f60f..023ebea 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1513,12 +1513,13 @@ class UVFlag(UVBase):
                 raise ValueError("Polarizations could not be made to match.")
         if self.type == "waterfall":
             # Populate arrays
+            array_shape = (uv.Nblts, self.Nfreqs, self.Npols)
             if self.mode == "flag":
-                arr = np.zeros_like(uv.flag_array)
+                arr = np.zeros(array_shape, dtype=np.bool_)
                 sarr = self.flag_array
             elif self.mode == "metric":
-                arr = np.zeros_like(uv.flag_array, dtype=np.float64)
-                warr = np.zeros_like(uv.flag_array, dtype=np.float64)
+                arr = np.zeros(array_shape, dtype=np.float64)
+                warr = np.zeros(array_shape, dtype=np.float64)
                 sarr = self.metric_array
             for i, t in enumerate(self.time_array):
                 ti = np.where(
-- 
2.43.0


From 39a28e2fe3f3d52a1a0fa9f4123e233b376421ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 098/164] fix: keep antenna metadata aligned when filling it in
 from known telescopes by name and number

---
 src/pyuvdata/telescopes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/telescopes.py b/src/pyuvdata/telescopes.py
index 290ee56..e047880 100644
--- a/src/pyuvdata/telescopes.py
+++ b/src/pyuvdata/telescopes.py
@@ -641,6 +641,10 @@ class Telescope(UVBase):
                         )
                     else:
                         known_telescope_list.extend(ant_params_missing)
+                        # put the matches in the order of the antennas on this object
+                        telescope_ant_inds = np.array(telescope_ant_inds)[
+                            np.argsort(ant_inds)
+                        ]
                         if "antenna_positions" in ant_params_missing:
                             self.antenna_positions = ant_info["antenna_positions"][
                                 telescope_ant_inds, :
-- 
2.43.0


From 3bcdcd9c819b74b60351ec47895cc655d7f83379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 099/164] fix: do not share the Telescope object passed to
 new_uvdata and new_uvcal between objects

---
 src/pyuvdata/uvcal/initializers.py  | 2 +-
 src/pyuvdata/uvdata/initializers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 338b4f6..7d817eb 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -319,7 +319,7 @@ def new_uvcal(
         )
 
     # Now set all the metadata
-    uvc.telescope = telescope
+    uvc.telescope = telescope.copy()
 
     # set the appropriate telescope attributes as required
     uvc._set_telescope_requirements()
diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index dcc4ec9..65ebc0b 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -587,7 +587,7 @@ def new_uvdata(
     )
 
     # Now set all the metadata
-    obj.telescope = telescope
+    obj.telescope = telescope.copy()
     # set the appropriate telescope attributes as required
     obj._set_telescope_requirements()
 
-- 
2.43.0


From ab0b2a03f0b249075804a5a98ea24c5daccdb213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:49 +0000
Subject: [PATCH 100/164] fix: do not cut off long antenna names in known
 antenna position tables

---
 src/pyuvdata/utils/io/antpos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/antpos.py b/src/pyuvdata/utils/io/antpos.py
index dbe215d..0f55852 100644
--- a/src/pyuvdata/utils/io/antpos.py
+++ b/src/pyuvdata/utils/io/antpos.py
@@ -33,7 +33,7 @@ def read_antpos_csv(antenna_positions_file):
 
     """
     columns = ["name", "number", "x", "y", "z"]
-    formats = ["U10", "i8", np.longdouble, np.longdouble, np.longdouble]
+    formats = ["U32", "i8", np.longdouble, np.longdouble, np.longdouble]
 
     dt = np.rec.format_parser(formats, columns, [])
     ant_array = np.genfromtxt(
-- 
2.43.0


From f6d35abaa256d75c94096327cf8921ddb638acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 101/164] fix: keep LSTs and integration times with their times
 in new_uvdata outer products, and only claim a blt_order that holds

---
 src/pyuvdata/uvdata/initializers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 65ebc0b..c0ed08d 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -177,9 +177,9 @@ def configure_blt_rectangularity(
         blts_are_rectangular = True
 
         if time_axis_faster_than_bls:
-            times = np.tile(unique_times, nbl)
+            times = np.tile(times, nbl)
             time_sized_arrays = tuple(np.tile(arr, nbl) for arr in time_sized_arrays)
-            antpairs = np.repeat(unique_antpairs, nt, axis=0)
+            antpairs = np.repeat(antpairs, nt, axis=0)
         else:
             antpairs = np.tile(antpairs, (nt, 1))
             times = np.repeat(times, nbl)
@@ -550,10 +550,12 @@ def new_uvdata(
             raise ValueError("Length of time array must match the number of antpairs.")
 
     if bl_order is not None and blts_are_rectangular:
+        ants_sorted = bool(np.all(np.diff(telescope.antenna_numbers) > 0))
         if time_axis_faster_than_bls:
-            blt_order = ("ant1", "ant2")
+            blt_order = ("ant1", "ant2") if ants_sorted else None
         else:
-            blt_order = ("time", "ant1")
+            times_sorted = bool(np.all(np.diff(times) > 0))
+            blt_order = ("time", "ant1") if ants_sorted and times_sorted else None
     else:
         blt_order = None
 
-- 
2.43.0


From ad55cdf71270a3de74d1f8e5e7d731b14eb25db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 102/164] fix: assign integration times derived from unsorted
 or repeated times to the right times in constructors

---
 src/pyuvdata/uvdata/initializers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index c0ed08d..4b402c1 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -46,18 +46,18 @@ def get_time_params(
         if time_array.ndim == 2:
             integration_time = np.squeeze(np.diff(time_array, axis=1) * 86400)
         else:
-            utimes = np.sort(list(set(time_array)))
+            utimes, inverse = np.unique(time_array, return_inverse=True)
             if len(utimes) > 1:
                 integration_time = np.diff(utimes) * 86400
                 integration_time = np.concatenate(
                     [integration_time, integration_time[-1:]]
-                )
+                )[inverse]
             else:
                 warnings.warn(
                     "integration_time not provided, and cannot be inferred from "
                     "time_array, setting to 1 second"
                 )
-                integration_time = np.array([1.0])
+                integration_time = 1.0
 
     if np.isscalar(integration_time):
         if time_array.ndim == 2:
-- 
2.43.0


From 0e143577e05759670ccfdfd4199268bec69541d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 103/164] fix: use the orientation of the telescope for
 polarization strings in new_uvdata and new_uvbeam

---
 src/pyuvdata/uvbeam/initializers.py | 4 +++-
 src/pyuvdata/uvdata/initializers.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 7199406..8f14446 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -168,7 +168,9 @@ def new_uvbeam(
         uvb.beam_type = "power"
         polarization_array = np.asarray(polarization_array)
         if polarization_array.dtype.kind != "i":
-            polarization_array = np.asarray(utils.polstr2num(polarization_array))
+            polarization_array = np.asarray(
+                utils.polstr2num(polarization_array, x_orientation=x_orientation)
+            )
         uvb.polarization_array = polarization_array
 
         uvb.Npols = uvb.polarization_array.size
diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 4b402c1..418daac 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -577,7 +577,7 @@ def new_uvdata(
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
         polarization_array = utils.polstr2num(
-            polarization_array, x_orientation=x_orientation
+            polarization_array, x_orientation=telescope.x_orientation
         )
 
     if vis_units not in ["Jy", "K str", "uncalib"]:
-- 
2.43.0


From 6ac749456c1cedeeb88826b0e6b12c8a810f49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 104/164] fix: check the pixel_coordinate_system passed to
 new_uvbeam rather than refusing all of them

---
 src/pyuvdata/uvbeam/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 8f14446..23d8c32 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -208,7 +208,7 @@ def new_uvbeam(
 
         if pixel_coordinate_system is not None:
             allowed_pcs = list(uvb.coordinate_system_dict.keys())
-            if uvb.pixel_coordinate_system not in allowed_pcs:
+            if pixel_coordinate_system not in allowed_pcs:
                 raise ValueError(
                     f"pixel_coordinate_system must be one of {allowed_pcs}"
                 )
-- 
2.43.0


From 074562db0f9786e351780c8fa911a9b675b4e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 105/164] fix: split_phase_center without a new name silently
 did nothing

---
 src/pyuvdata/uvdata/uvdata.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 303cf9b..70fd377 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1119,23 +1119,14 @@ class UVData(UVBase):
             if new_name is not None:
                 self.rename_phase_center(new_id, new_name)
         else:
-            temp_dict = self.phase_center_catalog[cat_id]
-            cat_id = self._add_phase_center(
-                temp_dict["cat_name"] if new_name is None else new_name,
-                cat_type=temp_dict["cat_type"],
-                cat_lon=temp_dict.get("cat_lon"),
-                cat_lat=temp_dict.get("cat_lat"),
-                cat_frame=temp_dict.get("cat_frame"),
-                cat_epoch=temp_dict.get("cat_epoch"),
-                cat_times=temp_dict.get("cat_times"),
-                cat_pm_ra=temp_dict.get("cat_pm_ra"),
-                cat_pm_dec=temp_dict.get("cat_pm_dec"),
-                cat_dist=temp_dict.get("cat_dist"),
-                cat_vrad=temp_dict.get("cat_vrad"),
-                cat_id=new_id,
-                force_update=True,
-            )
-            self.phase_center_id_array[select_mask] = cat_id
+            # Add the entry directly, since _add_phase_center would return an existing
+            # entry with the same name and parameters rather than making a new one.
+            new_entry = copy.deepcopy(self.phase_center_catalog[cat_id])
+            if new_name is not None:
+                new_entry["cat_name"] = new_name
+            self.phase_center_catalog[new_id] = new_entry
+            self.Nphase = len(self.phase_center_catalog)
+            self.phase_center_id_array[select_mask] = new_id
 
     def merge_phase_centers(
         self, catalog_identifier, *, force_merge=False, ignore_name=False
-- 
2.43.0


From 968f93b20edf3236b59e210028ffa1cf1fbbfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 106/164] fix: merge_phase_centers removed the entry in use
 when it was identified twice

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 70fd377..047755a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1198,6 +1198,9 @@ class UVData(UVBase):
                     raise ValueError(f"No entry with the ID {cat} in the catalog.")
                 cat_id_list.append(cat)
 
+        # An entry can be matched more than once (e.g. by name and by ID)
+        cat_id_list = list(dict.fromkeys(cat_id_list))
+
         # Check for the no-op
         if len(cat_id_list) < 2:
             warnings.warn(
-- 
2.43.0


From a6d8c2737d0c6e8d068df4c2052dd22d601e4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:51 +0000
Subject: [PATCH 107/164] fix: keep antenna diameters and solutions with their
 antennas in new_uvcal_from_uvdata

---
 src/pyuvdata/uvcal/initializers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 7d817eb..47fdfcc 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -545,7 +545,10 @@ def new_uvcal_from_uvdata(
                 new_telescope.antenna_diameters is not None
                 and "antenna_diameters" not in kwargs
             ):
-                antenna_diameters = new_telescope.antenna_diameters[idx]
+                # sort these like the other antenna metadata below
+                antenna_diameters = new_telescope.antenna_diameters[idx][
+                    np.argsort(antenna_numbers)
+                ]
             elif "antenna_diameters" in kwargs:
                 antenna_diameters = kwargs.pop("antenna_diameters")
             else:
@@ -607,9 +610,12 @@ def new_uvcal_from_uvdata(
     if not isinstance(ant_array, np.ndarray):
         ant_array = np.asarray(ant_array)
 
-    ant_array = np.intersect1d(
-        ant_array, np.asarray(new_telescope.antenna_numbers, dtype=ant_array.dtype)
-    )
+    # keep the order of ant_array, any data passed in is in that order
+    ant_array = ant_array[
+        np.isin(
+            ant_array, np.asarray(new_telescope.antenna_numbers, dtype=ant_array.dtype)
+        )
+    ]
 
     if jones_array is None:
         if np.all(uvdata.polarization_array < -4):
-- 
2.43.0


From 21107adf0e36472276964fceb8389bfb9c8a3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:51 +0000
Subject: [PATCH 108/164] fix: allow empty power beams with cross polarizations
 in new_uvbeam

---
 src/pyuvdata/uvbeam/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 23d8c32..fe9f534 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -347,7 +347,11 @@ def new_uvbeam(
         data_type = complex
         polax = uvb.Nfeeds
     else:
-        data_type = float
+        # power beams with cross polarizations are complex
+        if np.any(np.isin(uvb.polarization_array, [-3, -4, -7, -8])):
+            data_type = complex
+        else:
+            data_type = float
         polax = uvb.Npols
 
     if uvb.pixel_coordinate_system == "healpix":
-- 
2.43.0


From fae3656e24a90c8a7e89f35972f0e1d0456272b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 109/164] fix: keep requiring the x_orientation argument for
 directional polarizations in new_uvdata, as its tests document

---
 src/pyuvdata/uvdata/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 418daac..4b402c1 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -577,7 +577,7 @@ def new_uvdata(
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
         polarization_array = utils.polstr2num(
-            polarization_array, x_orientation=telescope.x_orientation
+            polarization_array, x_orientation=x_orientation
         )
 
     if vis_units not in ["Jy", "K str", "uncalib"]:
-- 
2.43.0


From 396977fb274858eb39cdc77af66c5a3dcda08cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 110/164] fix: do not change objects in place when fast_concat
 refuses to combine them

---
 src/pyuvdata/uvcal/uvcal.py   | 67 ++++++++++++++++++++++-------------
 src/pyuvdata/uvdata/uvdata.py | 46 ++++++++++++++++--------
 2 files changed, 73 insertions(+), 40 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 5bc77dc..79a3b60 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3698,46 +3698,28 @@ class UVCal(UVBase):
             _time_param_check(this, other)
 
         history_update_string += " axis using pyuvdata."
-        histories_match = []
-        for obj in other:
-            histories_match.append(
-                utils.history._check_histories(this.history, obj.history)
-            )
-
-        this.history += history_update_string
-        for obj_num, obj in enumerate(other):
-            if not histories_match[obj_num]:
-                if verbose_history:
-                    this.history += " Next object history follows. " + obj.history
-                else:
-                    extra_history = utils.history._combine_history_addition(
-                        this.history, obj.history
-                    )
-                    if extra_history is not None:
-                        this.history += (
-                            " Unique part of next object history follows. "
-                            + extra_history
-                        )
         # Update the phase center IDs to be consistent across objects. This is done one
         # object at a time so that the IDs never change on objects that are already
         # consistent, using metadata copies so the objects passed in are not changed.
+        this_meta = this
         other_meta = other
         if this.phase_center_catalog is not None:
+            this_meta = this.copy(metadata_only=True)
             other_meta = [obj.copy(metadata_only=True) for obj in other]
-            this._consolidate_phase_center_catalogs(
+            this_meta._consolidate_phase_center_catalogs(
                 other=other_meta[0], ignore_name=ignore_name
             )
             for obj in other_meta[1:]:
                 obj._consolidate_phase_center_catalogs(
-                    other=this, ignore_name=ignore_name
+                    other=this_meta, ignore_name=ignore_name
                 )
-                this.phase_center_catalog = obj.phase_center_catalog.copy()
-                this.Nphase = obj.Nphase
+                this_meta.phase_center_catalog = obj.phase_center_catalog.copy()
+                this_meta.Nphase = obj.Nphase
 
         # Actually check compatibility parameters
         for obj in other_meta:
             for a in compatibility_params:
-                params_match = getattr(this, a) == getattr(obj, a)
+                params_match = getattr(this_meta, a) == getattr(obj, a)
                 if not params_match:
                     msg = (
                         "UVParameter "
@@ -3752,6 +3734,41 @@ class UVCal(UVBase):
                     msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
                     warnings.warn(msg)
 
+        if axis == "freq":
+            new_flex_spw_id_array = np.concatenate(
+                [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
+            )
+            utils.frequency._check_flex_spw_contiguous(
+                spw_array=np.unique(new_flex_spw_id_array),
+                flex_spw_id_array=new_flex_spw_id_array,
+            )
+
+        # The objects can be combined, so now this object can be changed
+        if this.phase_center_catalog is not None:
+            this.phase_center_catalog = this_meta.phase_center_catalog
+            this.phase_center_id_array = this_meta.phase_center_id_array
+            this.Nphase = this_meta.Nphase
+
+        histories_match = []
+        for obj in other:
+            histories_match.append(
+                utils.history._check_histories(this.history, obj.history)
+            )
+
+        this.history += history_update_string
+        for obj_num, obj in enumerate(other):
+            if not histories_match[obj_num]:
+                if verbose_history:
+                    this.history += " Next object history follows. " + obj.history
+                else:
+                    extra_history = utils.history._combine_history_addition(
+                        this.history, obj.history
+                    )
+                    if extra_history is not None:
+                        this.history += (
+                            " Unique part of next object history follows. "
+                            + extra_history
+                        )
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
         ]
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 047755a..9f40172 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6032,11 +6032,14 @@ class UVData(UVBase):
         # Update the phase center IDs to be consistent across objects. This is done one
         # object at a time so that the IDs never change on objects that are already
         # consistent, using metadata copies so the objects passed in are not changed.
+        this_meta = this.copy(metadata_only=True)
         other_meta = [obj.copy(metadata_only=True) for obj in other]
         for obj in other_meta:
-            obj._consolidate_phase_center_catalogs(other=this, ignore_name=ignore_name)
-            this.phase_center_catalog = obj.phase_center_catalog.copy()
-            this.Nphase = obj.Nphase
+            obj._consolidate_phase_center_catalogs(
+                other=this_meta, ignore_name=ignore_name
+            )
+            this_meta.phase_center_catalog = obj.phase_center_catalog.copy()
+            this_meta.Nphase = obj.Nphase
 
         compatibility_params = ["_vis_units", "_telescope"]
 
@@ -6076,6 +6079,31 @@ class UVData(UVBase):
 
         history_update_string += " axis using pyuvdata."
 
+        # Actually check compatibility parameters
+        for obj in other_meta:
+            for a in compatibility_params:
+                params_match = getattr(this_meta, a) == getattr(obj, a)
+                if not params_match:
+                    msg = (
+                        "UVParameter "
+                        + a[1:]
+                        + " does not match. Cannot combine objects."
+                    )
+                    raise ValueError(msg)
+
+        if axis == "freq":
+            new_flex_spw_id_array = np.concatenate(
+                [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
+            )
+            utils.frequency._check_flex_spw_contiguous(
+                spw_array=np.unique(new_flex_spw_id_array),
+                flex_spw_id_array=new_flex_spw_id_array,
+            )
+
+        # The objects can be combined, so now this object can be changed
+        this.phase_center_catalog = this_meta.phase_center_catalog
+        this.Nphase = this_meta.Nphase
+
         histories_match = []
         for obj in other:
             histories_match.append(
@@ -6097,18 +6125,6 @@ class UVData(UVBase):
                             + extra_history
                         )
 
-        # Actually check compatibility parameters
-        for obj in other_meta:
-            for a in compatibility_params:
-                params_match = getattr(this, a) == getattr(obj, a)
-                if not params_match:
-                    msg = (
-                        "UVParameter "
-                        + a[1:]
-                        + " does not match. Cannot combine objects."
-                    )
-                    raise ValueError(msg)
-
         if axis == "freq":
             this.Nfreqs = sum([this.Nfreqs] + [obj.Nfreqs for obj in other])
             this.freq_array = np.concatenate(
-- 
2.43.0


From c81cb72498b28fce54828750bfbd1ac9d7df64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 111/164] fix: do not share arrays between a UVFlag and the
 UVData passed to to_baseline

---
 src/pyuvdata/uvflag/uvflag.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 023ebea..b747432 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1486,7 +1486,7 @@ class UVFlag(UVBase):
         # Deal with polarization
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = uv.polarization_array
+            self.polarization_array = uv.polarization_array.copy()
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1583,18 +1583,18 @@ class UVFlag(UVBase):
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = uv.spw_array.copy()
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = uv.flex_spw_id_array.copy()
 
-        self.baseline_array = uv.baseline_array
+        self.baseline_array = uv.baseline_array.copy()
         self.Nbls = np.unique(self.baseline_array).size
-        self.ant_1_array = uv.ant_1_array
-        self.ant_2_array = uv.ant_2_array
+        self.ant_1_array = uv.ant_1_array.copy()
+        self.ant_2_array = uv.ant_2_array.copy()
         self.Nants_data = int(np.union1d(self.ant_1_array, self.ant_2_array).size)
 
-        self.time_array = uv.time_array
-        self.lst_array = uv.lst_array
+        self.time_array = uv.time_array.copy()
+        self.lst_array = uv.lst_array.copy()
         self.Nblts = self.time_array.size
 
         for param in self.telescope:
-- 
2.43.0


From e4d07c1e89161149a89bb3f4fd68c7ed2a540473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 112/164] fix: reorder_blts accepted index arrays that drop and
 repeat records

---
 src/pyuvdata/uvdata/uvdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9f40172..19b9b40 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3926,6 +3926,13 @@ class UVData(UVBase):
                     "If order is an index array, it must "
                     "contain integers and be length Nblts."
                 )
+            if not np.array_equal(
+                np.sort(np.where(order < 0, order + self.Nblts, order)),
+                np.arange(self.Nblts),
+            ):
+                raise ValueError(
+                    "If order is an index array, it must contain each index once."
+                )
             if minor_order is not None:
                 raise ValueError(
                     "Minor order cannot be set if order is an index array."
-- 
2.43.0


From 21a7d6b7b6716d93d8fd87ab7c095a9fc9caf249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:30 +0000
Subject: [PATCH 113/164] fix: leave the beam unchanged when part of an
 in-place UVBeam.select is refused

---
 src/pyuvdata/uvbeam/uvbeam.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index c624ac9..041a906 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2985,7 +2985,12 @@ class UVBeam(UVBase):
 
         """
         if inplace:
-            beam_object = self
+            # Work on copies of the parameters (which share their values), so that
+            # this object is not changed if part of the selection is refused.
+            beam_object = self.__class__()
+            beam_object.__dict__.update(self.__dict__)
+            for param in self:
+                setattr(beam_object, param, copy.copy(getattr(self, param)))
         else:
             beam_object = self.copy()
 
@@ -3295,7 +3300,9 @@ class UVBeam(UVBase):
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
             )
 
-        if not inplace:
+        if inplace:
+            self.__dict__.update(beam_object.__dict__)
+        else:
             return beam_object
 
     def _convert_from_filetype(self, other):
-- 
2.43.0


From 8fa7ad67ce4e52a8c69196b85b9c2e443f14351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 114/164] fix: refuse unknown blt orders before resampling in
 time rather than after

---
 src/pyuvdata/uvdata/uvdata.py | 92 ++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 19b9b40..04f5117 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3843,6 +3843,60 @@ class UVData(UVBase):
         self.blt_order = order
         return order
 
+    @staticmethod
+    def _check_blt_order_options(order, minor_order):
+        """
+        Check the order and minor_order options of the methods that reorder blts.
+
+        Parameters
+        ----------
+        order : str
+            The requested order.
+        minor_order : str or None
+            The requested minor order.
+
+        Returns
+        -------
+        minor_order : str or None
+            The minor order to use.
+
+        """
+        if order not in ["time", "baseline", "ant1", "ant2", "bda"]:
+            raise ValueError(
+                "order must be one of 'time', 'baseline', "
+                "'ant1', 'ant2', 'bda' or an index array of "
+                "length Nblts"
+            )
+
+        if minor_order == order:
+            minor_order = None
+
+        if minor_order is not None:
+            if minor_order not in ["time", "baseline", "ant1", "ant2"]:
+                raise ValueError(
+                    "minor_order can only be one of 'time', "
+                    "'baseline', 'ant1', 'ant2'"
+                )
+            if order == "bda":
+                raise ValueError(
+                    "minor_order cannot be specified if order is "
+                    "'bda' or an index array."
+                )
+            if order == "baseline":
+                if minor_order in ["ant1", "ant2"]:
+                    raise ValueError("minor_order conflicts with order")
+        else:
+            if order == "time":
+                minor_order = "baseline"
+            elif order == "ant1":
+                minor_order = "ant2"
+            elif order == "ant2":
+                minor_order = "ant1"
+            elif order == "baseline":
+                minor_order = "time"
+
+        return minor_order
+
     def reorder_blts(
         self,
         order="time",
@@ -3938,39 +3992,7 @@ class UVData(UVBase):
                     "Minor order cannot be set if order is an index array."
                 )
         else:
-            if order not in ["time", "baseline", "ant1", "ant2", "bda"]:
-                raise ValueError(
-                    "order must be one of 'time', 'baseline', "
-                    "'ant1', 'ant2', 'bda' or an index array of "
-                    "length Nblts"
-                )
-
-            if minor_order == order:
-                minor_order = None
-
-            if minor_order is not None:
-                if minor_order not in ["time", "baseline", "ant1", "ant2"]:
-                    raise ValueError(
-                        "minor_order can only be one of 'time', "
-                        "'baseline', 'ant1', 'ant2'"
-                    )
-                if isinstance(order, np.ndarray) or order == "bda":
-                    raise ValueError(
-                        "minor_order cannot be specified if order is "
-                        "'bda' or an index array."
-                    )
-                if order == "baseline":
-                    if minor_order in ["ant1", "ant2"]:
-                        raise ValueError("minor_order conflicts with order")
-            else:
-                if order == "time":
-                    minor_order = "baseline"
-                elif order == "ant1":
-                    minor_order = "ant2"
-                elif order == "ant2":
-                    minor_order = "ant1"
-                elif order == "baseline":
-                    minor_order = "time"
+            minor_order = self._check_blt_order_options(order, minor_order)
 
         if conj_convention is not None:
             self.conjugate_bls(
@@ -7524,6 +7546,8 @@ class UVData(UVBase):
         None
 
         """
+        self._check_blt_order_options(blt_order, minor_order)
+
         # check that max_int_time is sensible given integration_time
         min_integration_time = np.amin(self.integration_time)
         sensible_min = 1e-2 * min_integration_time
@@ -7779,6 +7803,8 @@ class UVData(UVBase):
             If `n_times_to_avg` is not an integer.
 
         """
+        self._check_blt_order_options(blt_order, minor_order)
+
         if min_int_time is None and n_times_to_avg is None:
             raise ValueError("Either min_int_time or n_times_to_avg must be set.")
 
-- 
2.43.0


From 2b64e63e1ccf20c25a24973e2c173ea450bab2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 115/164] fix: do not share arrays and file name lists between
 a UVFlag and the object it is made from

---
 src/pyuvdata/uvflag/uvflag.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index b747432..d5620d0 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1602,7 +1602,7 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.copy(uvd_param.value))
 
         self._set_type_baseline()
         # the squares of the weights are only defined for waterfalls
@@ -1722,7 +1722,7 @@ class UVFlag(UVBase):
             polarr = uv.polarization_array
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = polarr
+            self.polarization_array = polarr.copy()
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1760,7 +1760,7 @@ class UVFlag(UVBase):
             ]
             self.metric_array = self.metric_array.repeat(len(uv.ant_array), axis=0)
             self.weights_array = self.weights_array.repeat(len(uv.ant_array), axis=0)
-        self.ant_array = uv.ant_array
+        self.ant_array = uv.ant_array.copy()
         self.Nants_data = len(uv.ant_array)
 
         for param in self.telescope:
@@ -1768,13 +1768,13 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.copy(uvd_param.value))
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = uv.spw_array.copy()
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = uv.flex_spw_id_array.copy()
 
         self._set_type_antenna()
         # the squares of the weights are only defined for waterfalls
@@ -3673,7 +3673,7 @@ class UVFlag(UVBase):
                 elif self.mode == "metric":
                     self.metric_array = np.zeros(array_shape, dtype=np.float64)
 
-        self.filename = indata.filename
+        self.filename = copy.copy(indata.filename)
         self._filename.form = indata._filename.form
 
         if self.mode == "metric":
@@ -3831,7 +3831,7 @@ class UVFlag(UVBase):
         if self.mode == "metric":
             self.weights_array = np.ones(self.metric_array.shape)
 
-        self.filename = indata.filename
+        self.filename = copy.copy(indata.filename)
         self._filename.form = indata._filename.form
 
         if history not in self.history:
-- 
2.43.0


From 5e165f4a25656bfe9400d0cbe76d884dec554796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:05 +0000
Subject: [PATCH 116/164] fix: integer parameters that differ compared as equal
 when they are large

---
 src/pyuvdata/parameter.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index fac86c3..53ffefa 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -79,6 +79,22 @@ def _get_generic_type(expected_type, strict_type_check=False):
     return expected_type
 
 
+def _allclose(this_val, other_val, tols):
+    """
+    Test if values are close enough for parameter equality.
+
+    Integers have to match exactly because they are counts, indices and identifiers
+    (e.g. baseline or pixel numbers), the tolerances apply to all other numbers.
+    """
+    if np.asarray(this_val).dtype.kind in "iu" and np.asarray(
+        other_val
+    ).dtype.kind in "iu":
+        tols = (0, 0)
+    return np.allclose(
+        this_val, other_val, rtol=tols[0], atol=tols[1], equal_nan=True
+    )
+
+
 def _param_dict_equal(this_dict, other_dict):
     """
     Test if dicts are equal for parameter equality.
@@ -489,13 +505,7 @@ class UVParameter:
                                 f"{other.expected_type}"
                             )
                         return False
-                if not np.allclose(
-                    self.value,
-                    other.value,
-                    rtol=self.tols[0],
-                    atol=self.tols[1],
-                    equal_nan=True,
-                ):
+                if not _allclose(self.value, other.value, self.tols):
                     if not silent:
                         print(
                             f"{self.name} parameter value is array, values are not "
@@ -541,12 +551,8 @@ class UVParameter:
                         )
                     return False
                 try:
-                    if not np.allclose(
-                        np.array(self.value),
-                        np.array(other.value),
-                        rtol=self.tols[0],
-                        atol=self.tols[1],
-                        equal_nan=True,
+                    if not _allclose(
+                        np.array(self.value), np.array(other.value), self.tols
                     ):
                         if not silent:
                             print(
-- 
2.43.0


From 187e51fdd3d7acbdbd4b275c9bb209af0a476597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:29 +0000
Subject: [PATCH 117/164] fix: read only the rows of the spectral window that
 is kept when other windows of a measurement set are ignored

---
 src/pyuvdata/uvdata/ms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 64bc3d4..a459275 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -506,9 +506,9 @@ class MS(UVData):
         if data_desc_count == 0:
             # If there are no records selected, then there isn't a whole lot to do
             return None, None, None, None
-        elif data_desc_count == 1:
-            # If we only have a single spectral window, then we can bypass a whole lot
-            # of slicing and dicing on account of there being a one-to-one relationship
+        elif data_desc_count == 1 and len(unique_data_desc) == 1:
+            # If we only have a single spectral window (and no rows of other windows to
+            # ignore), then we can bypass a whole lot of slicing and dicing on account of there being a one-to-one relationship
             # in rows of the MS to the per-blt records of UVData objects.
             self.time_array = Time(
                 time_arr / 86400.0, format="mjd", scale=timescale.lower()
-- 
2.43.0


From 118637b63bb7e8f316da8dde43cf7b1bae2d2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:14 +0000
Subject: [PATCH 118/164] fix: remove the imaginary part of auto-correlations
 of objects with flexible polarization

---
 src/pyuvdata/uvdata/uvdata.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 04f5117..59af8c9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2121,12 +2121,15 @@ class UVData(UVBase):
         # Only these pols have "true" auto-correlations, that we'd expect
         # to be real only. Select on only them
         auto_pol_list = ["xx", "yy", "rr", "ll", "pI", "pQ", "pU", "pV"]
-        pol_screen = np.array(
-            [
-                utils.POL_NUM2STR_DICT[pol] in auto_pol_list
-                for pol in self.polarization_array
-            ]
-        )
+        if self.flex_spw_polarization_array is not None:
+            # the polarization depends on the spectral window
+            spw_pols = dict(
+                zip(self.spw_array, self.flex_spw_polarization_array, strict=True)
+            )
+            pols = np.array([spw_pols[spw] for spw in self.flex_spw_id_array])[:, None]
+        else:
+            pols = np.repeat(self.polarization_array[None], self.Nfreqs, axis=0)
+        pol_screen = np.isin(pols, [utils.POL_STR2NUM_DICT[p] for p in auto_pol_list])
 
         # Make sure we actually have work to do here, otherwise skip all of this
         if (np.any(pol_screen) and np.any(auto_screen)) and not (
@@ -2137,7 +2140,7 @@ class UVData(UVBase):
             auto_data = self.data_array[auto_screen]
 
             # Set the autos to be real-only by taking the absolute value
-            auto_data[:, :, pol_screen] = np.abs(auto_data[:, :, pol_screen])
+            auto_data[:, pol_screen] = np.abs(auto_data[:, pol_screen])
 
             # Finally, plug the modified values back into data_array
             self.data_array[auto_screen] = auto_data
-- 
2.43.0


From 783f4b6dcd512e24688a58fe3af4bf272cf83ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:14 +0000
Subject: [PATCH 119/164] fix: keep the sign of Stokes Q, U and V when removing
 the imaginary part of auto-correlations and power beams

---
 src/pyuvdata/uvbeam/uvbeam.py | 18 ++++++++++++++----
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 041a906..17a4045 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -705,12 +705,22 @@ class UVBeam(UVBase):
             ]
         )
 
-        # Set any auto pol beams to be real-only by taking the absolute value
+        # Stokes Q, U and V beams can be negative
+        signed_screen = np.array(
+            [
+                utils.POL_NUM2STR_DICT[pol] in ["pQ", "pU", "pV"]
+                for pol in self.polarization_array
+            ]
+        )
+        abs_screen = pol_screen & ~signed_screen
+
+        # Set any auto pol beams to be real-only by taking the absolute value,
+        # or the real part if they can be negative
+        self.data_array[:, abs_screen] = np.abs(self.data_array[:, abs_screen])
+        self.data_array[:, signed_screen] = self.data_array[:, signed_screen].real
         if np.all(pol_screen):
             # If we only have auto pol beams the data_array should be float not complex
-            self.data_array = np.abs(self.data_array)
-        elif np.any(pol_screen):
-            self.data_array[:, pol_screen] = np.abs(self.data_array[:, pol_screen])
+            self.data_array = self.data_array.real.copy()
 
     def _check_auto_power(self, *, fix_auto_power=False, warn_tols=(0, 0)):
         """
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 59af8c9..aa5c936 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2139,8 +2139,14 @@ class UVData(UVBase):
             # complex slices we need to do
             auto_data = self.data_array[auto_screen]
 
-            # Set the autos to be real-only by taking the absolute value
-            auto_data[:, pol_screen] = np.abs(auto_data[:, pol_screen])
+            # Set the autos to be real-only by taking the absolute value, except for
+            # Stokes Q, U and V, which can be negative.
+            signed_screen = np.isin(
+                pols, [utils.POL_STR2NUM_DICT[p] for p in ["pQ", "pU", "pV"]]
+            )
+            abs_screen = pol_screen & ~signed_screen
+            auto_data[:, abs_screen] = np.abs(auto_data[:, abs_screen])
+            auto_data[:, signed_screen] = auto_data[:, signed_screen].real
 
             # Finally, plug the modified values back into data_array
             self.data_array[auto_screen] = auto_data
-- 
2.43.0


From 404240ba6e0302970c0d90a1fc6425eb1c3b875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 120/164] fix: flag the data of antennas with small
 auto-correlations when they are not removed

---
 src/pyuvdata/uvdata/mwa_corr_fits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/mwa_corr_fits.py b/src/pyuvdata/uvdata/mwa_corr_fits.py
index 138eefb..a926c07 100644
--- a/src/pyuvdata/uvdata/mwa_corr_fits.py
+++ b/src/pyuvdata/uvdata/mwa_corr_fits.py
@@ -1068,6 +1068,9 @@ class MWACorrFITS(UVData):
                     + "."
                 )
                 flagged_ant_inds = np.concatenate((flagged_ant_inds, ant_inds))
+                # flag all the data of these antennas
+                bad_blts = np.isin(ant_1_inds, ant_inds) | np.isin(ant_2_inds, ant_inds)
+                self.flag_array[bad_blts] = True
         else:
             # get flags for small auto ants and add to flag array
             small_auto_flags = np.logical_or(
-- 
2.43.0


From 221595ef5492b512cefba1cc05c61ee9bfb8cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 121/164] fix: terminate cable length strings before parsing
 them

---
 src/pyuvdata/uvdata/corr_fits.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/corr_fits.pyx b/src/pyuvdata/uvdata/corr_fits.pyx
index 4b3af15..cdf5f34 100644
--- a/src/pyuvdata/uvdata/corr_fits.pyx
+++ b/src/pyuvdata/uvdata/corr_fits.pyx
@@ -136,7 +136,9 @@ cdef inline void _make_length_array(
   # check if the cable length already has the velocity factor applied
   for i in range(n_cables):
     # copy the location in memory to our character array
-    memcpy(clen, &cable_lens[i, 0], max_length)
+    # and make sure that it ends there
+    memcpy(clen, &cable_lens[i, 0], min(max_length, 29))
+    clen[min(max_length, 29)] = 0
     # attempt to split on the character "_"
     token = strtok(clen, b"_")
 
-- 
2.43.0


From 2f1393ae5e0329cbb6e665f6a27da42b7a507ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 122/164] fix: leave the selection given to MirParser.select as
 it is

---
 src/pyuvdata/uvdata/mir_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index 354dc5a..b272bd3 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -3146,8 +3146,9 @@ class MirParser(object):
         alias_dict = {"ant": "antenna", "ant1": "tel1", "ant2": "tel2"}
 
         # Make sure that where is a list, to make arg parsing more uniform downstream
-        if not isinstance(where, list) and where is not None:
-            where = [where]
+        if where is not None:
+            # Copy lists, since the entries can be replaced below
+            where = list(where) if isinstance(where, list) else [where]
 
         # If supplying where arguments, we want to condition them properly so that
         # they will result in a successful search, if at all possible.
-- 
2.43.0


From 457b9eae805ee399de9f66df4e12feab45995ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 123/164] fix: do not set flexible polarizations when they are
 not allowed reading MIR files

---
 src/pyuvdata/uvdata/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir.py b/src/pyuvdata/uvdata/mir.py
index c060f98..f32931a 100644
--- a/src/pyuvdata/uvdata/mir.py
+++ b/src/pyuvdata/uvdata/mir.py
@@ -497,7 +497,7 @@ class Mir(UVData):
             freq_array[spw_dict[key]["ch_slice"]] = spw_dict[key]["freq_array"]
             flex_pol[idx] = spw_dict[key]["pol_state"]
 
-        if not pol_split_tuning:
+        if not (pol_split_tuning and allow_flex_pol):
             flex_pol = None
 
         for key in spdx_dict:
-- 
2.43.0


From a31109278c4931b375139cd7842db4b16186a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 124/164] fix: count the baselines and times that MIR files
 have data for

---
 src/pyuvdata/uvdata/mir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir.py b/src/pyuvdata/uvdata/mir.py
index f32931a..d2226e0 100644
--- a/src/pyuvdata/uvdata/mir.py
+++ b/src/pyuvdata/uvdata/mir.py
@@ -516,10 +516,10 @@ class Mir(UVData):
                 np.concatenate((mir_data.bl_data["iant1"], mir_data.bl_data["iant2"]))
             )
         )
-        self.Nbls = int(self.Nants_data * (self.Nants_data - 1) / 2)
+        self.Nbls = len({(ant1, ant2) for _, ant1, ant2 in blt_list})
         self.Nblts = Nblts
         self.Npols = Npols
-        self.Ntimes = len(mir_data.in_data)
+        self.Ntimes = len({inhid for inhid, _, _ in blt_list})
 
         self.telescope = Telescope()
         self._set_telescope_requirements()
-- 
2.43.0


From 62d85445277ac8bb2a573d74755681f071653b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 125/164] fix: select the requested baselines reading MIR files

---
 src/pyuvdata/uvdata/mir.py           | 2 +-
 src/pyuvdata/uvdata/mir_meta_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir.py b/src/pyuvdata/uvdata/mir.py
index d2226e0..fb8386f 100644
--- a/src/pyuvdata/uvdata/mir.py
+++ b/src/pyuvdata/uvdata/mir.py
@@ -131,7 +131,7 @@ class Mir(UVData):
                 select_where += [("tel2", "eq", antenna_names)]
             if bls is not None:
                 select_where += [
-                    ("blcd", "eq", ["%i-%i" % (tup[0], tup[1]) for tup in bls])
+                    ("blcd", "eq", ["%i-%i" % tuple(sorted(tup[:2])) for tup in bls])
                 ]
             if time_range is not None:
                 # Have to convert times from UTC JD -> TT MJD for mIR
diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 36ffec0..4c31e2e 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -3015,6 +3015,7 @@ class MirCodesData(MirMetaData):
             "tel1": "iant1",
             "tel2": "iant2",
             "pol": "ipol",
+            "blcd": "iblcd",
             "rec": "irec",
             "pstate": "ipstate",
             "sb": "isb",
-- 
2.43.0


From a10b42ea3cc9292d73d022b4444a71de2950fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 126/164] fix: accept the antenna names of the object when
 selecting from MIR files

---
 src/pyuvdata/uvdata/mir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/mir.py b/src/pyuvdata/uvdata/mir.py
index fb8386f..b46ab98 100644
--- a/src/pyuvdata/uvdata/mir.py
+++ b/src/pyuvdata/uvdata/mir.py
@@ -127,6 +127,10 @@ class Mir(UVData):
             if antenna_nums is not None:
                 select_where += [("ant", "eq", antenna_nums)]
             if antenna_names is not None:
+                if isinstance(antenna_names, str):
+                    antenna_names = [antenna_names]
+                # Antennas are only numbered in the file, names have a prefix.
+                antenna_names = [name.removeprefix("Ant") for name in antenna_names]
                 select_where += [("tel1", "eq", antenna_names)]
                 select_where += [("tel2", "eq", antenna_names)]
             if bls is not None:
-- 
2.43.0


From 338a4b1b9704ff1cf7d877d97c9faca29379a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:53 +0000
Subject: [PATCH 127/164] fix: accept polarization numbers when selecting from
 MIR files

---
 src/pyuvdata/uvdata/mir.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pyuvdata/uvdata/mir.py b/src/pyuvdata/uvdata/mir.py
index b46ab98..eee99d2 100644
--- a/src/pyuvdata/uvdata/mir.py
+++ b/src/pyuvdata/uvdata/mir.py
@@ -149,6 +149,23 @@ class Mir(UVData):
             if lst_range is not None:
                 select_where += [("lst_range", "between", lst_range)]
             if polarizations is not None:
+                # Polarization numbers need to be translated into the strings used
+                # by MIR.
+                polarizations = [
+                    code
+                    for pol in np.atleast_1d(np.asarray(polarizations, dtype=object))
+                    for code in (
+                        [pol]
+                        if isinstance(pol, str)
+                        else [
+                            item
+                            for item in mir_data.codes_data.get_codes(
+                                "pol", return_dict=False
+                            )
+                            if utils.POL_STR2NUM_DICT.get(item.lower()) == pol
+                        ]
+                    )
+                ]
                 select_where += [("pol", "eq", polarizations)]
             if catalog_names is not None:
                 select_where += [("source", "eq", catalog_names)]
-- 
2.43.0


From b4a6d33f120efe7f12de673bdd508a3ad5e35032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:41 +0000
Subject: [PATCH 128/164] fix: undo the scaling of the weights when undoing the
 tsys correction of MIR data

---
 src/pyuvdata/uvdata/mir_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index b272bd3..847f5e0 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -1452,7 +1452,8 @@ class MirParser(object):
                     else:
                         vis_dict["data"] *= norm_val
                         if invert:
-                            vis_dict["weights"] *= (norm_val**2.0) / n_sample
+                            # norm_val is already the inverse of the SEFD here
+                            vis_dict["weights"] *= 1.0 / (n_sample * norm_val**2.0)
                         else:
                             vis_dict["weights"] *= n_sample / (norm_val**2.0)
                 except KeyError:
-- 
2.43.0


From 7650d9c2b2c9c961c1773ab493fe6059893cf0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:41 +0000
Subject: [PATCH 129/164] fix: keep the positions of both sets of spectra when
 combining MIR datasets

---
 src/pyuvdata/uvdata/mir_parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index 847f5e0..9782597 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -3001,8 +3001,6 @@ class MirParser(object):
         else:
             new_obj.raw_data.update(copy.deepcopy(other_raw))
 
-        new_obj._sp_dict.update(copy.deepcopy(other._sp_dict))
-
         # Finally, if we have discrepant _has_auto states, we force the resultant object
         # to unload any potential auto metadata.
         if self._has_auto != other._has_auto:
-- 
2.43.0


From 55d10d4f1212403b326115530b78e8a7e1d5f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:41 +0000
Subject: [PATCH 130/164] fix: compare the stored masks of MirParser objects
 without auto-correlations

---
 src/pyuvdata/uvdata/mir_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index 9782597..9035e68 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -308,6 +308,11 @@ class MirParser(object):
                     other_item = other_attr[key]
 
                     is_same = True
+                    if item == "_stored_masks":
+                        # The list of tables depends on the type of data present
+                        is_same = this_item.keys() == other_item.keys()
+                        comp_list = this_item.keys() & other_item.keys()
+
                     for subkey in comp_list:
                         if subkey == "scale_fac":
                             is_same &= this_item[subkey] == other_item[subkey]
-- 
2.43.0


From 5b68c3c0aeaa0cbffafeae88f45132d1d7bd48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:41 +0000
Subject: [PATCH 131/164] fix: make copies of MirParser objects without
 auto-correlations equal to the original

---
 src/pyuvdata/uvdata/mir_parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index 9035e68..8765ae3 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -412,20 +412,20 @@ class MirParser(object):
         """
         new_obj = MirParser()
 
+        rec_dict_list = []
+        if self._has_auto:
+            rec_dict_list.append("_ac_dict")
+        if self._has_cross:
+            rec_dict_list.append("_sp_dict")
+
         # include all attributes, not just UVParameter ones.
         for attr in vars(self):
             if issubclass(getattr(self, attr).__class__, MirMetaData):
                 setattr(new_obj, attr, getattr(self, attr).copy())
             elif not (metadata_only and attr in ["vis_data", "raw_data", "auto_data"]):
-                if attr not in ["_metadata_attrs", "_sp_dict", "_ac_dict"]:
+                if attr not in ["_metadata_attrs", *rec_dict_list]:
                     setattr(new_obj, attr, copy.deepcopy(getattr(self, attr)))
 
-        rec_dict_list = []
-        if self._has_auto:
-            rec_dict_list.append("_ac_dict")
-        if self._has_cross:
-            rec_dict_list.append("_sp_dict")
-
         for item in rec_dict_list:
             new_dict = {}
             setattr(new_obj, item, new_dict)
-- 
2.43.0


From 474b01c2dbbdcd44dbd719b7a9050b90af305d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:17 +0000
Subject: [PATCH 132/164] fix: count the record headers when skipping through
 MIR data without mmap

---
 src/pyuvdata/uvdata/mir_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_parser.py b/src/pyuvdata/uvdata/mir_parser.py
index 8765ae3..7a0d56a 100644
--- a/src/pyuvdata/uvdata/mir_parser.py
+++ b/src/pyuvdata/uvdata/mir_parser.py
@@ -741,7 +741,9 @@ class MirParser(object):
                         )
                     # Capture the difference between the last integration and this
                     # integration that we're going to drop into the next read.
-                    del_offset = int_start - (last_offset + (num_vals * last_size))
+                    del_offset = int_start - (
+                        last_offset + (num_vals * (hdr_size + last_size))
+                    )
                     # Starting position for a sequence of integrations
                     last_offset = int_start
                     # Size of record (make sure all records are the same size in 1 read)
-- 
2.43.0


From 7eba25688748b4333a9d0c4521c366dc489345e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:44 +0000
Subject: [PATCH 133/164] fix: do not give two MIR codes the same index when
 combining datasets

---
 src/pyuvdata/uvdata/mir_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 4c31e2e..505e802 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -3343,7 +3343,7 @@ class MirCodesData(MirMetaData):
                         # want to pick and indexing code that won't cause a conflict.
                         # Loop through and pick the first positive unassigned value.
                         if value in other_dict:
-                            while last_idx in other_dict:
+                            while (last_idx in other_dict) or (last_idx in this_dict):
                                 last_idx += 1
                             temp_dict[value] = last_idx
                             last_idx += 1
-- 
2.43.0


From 61ef1af7ce6dc6fff912d6ae0706297ce9b30b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 134/164] fix: do not read before the start of empty antenna or
 baseline arrays

---
 src/pyuvdata/utils/bls.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/bls.pyx b/src/pyuvdata/utils/bls.pyx
index ee67140..8bfbf75 100644
--- a/src/pyuvdata/utils/bls.pyx
+++ b/src/pyuvdata/utils/bls.pyx
@@ -30,8 +30,11 @@ cdef inline int_or_float max(int_or_float a, int_or_float b):
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef int_or_float arraymin(int_or_float[::1] array) nogil:
-    cdef int_or_float minval = array[0]
+    cdef int_or_float minval
     cdef Py_ssize_t i
+    if array.shape[0] == 0:
+        return 0
+    minval = array[0]
     for i in range(array.shape[0]):
         if array[i] < minval:
             minval = array[i]
@@ -40,8 +43,11 @@ cdef int_or_float arraymin(int_or_float[::1] array) nogil:
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef int_or_float arraymax(int_or_float[::1] array) nogil:
-    cdef int_or_float maxval = array[0]
+    cdef int_or_float maxval
     cdef Py_ssize_t i
+    if array.shape[0] == 0:
+        return 0
+    maxval = array[0]
     for i in range(array.shape[0]):
         if array[i] > maxval:
             maxval = array[i]
-- 
2.43.0


From ac7208dfc12a3a4dd53e8db440b3a8f03156b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 135/164] fix: refuse uvws without three components in
 old_uvw_calc and its inverse

---
 src/pyuvdata/utils/phasing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index b97b502..8b14a12 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -53,6 +53,9 @@ def old_uvw_calc(ra, dec, initial_uvw):
     if initial_uvw.ndim == 1:
         initial_uvw = initial_uvw[np.newaxis, :]
 
+    if initial_uvw.shape[1] != 3:
+        raise ValueError("The expected shape of initial_uvw is (Nlocs, 3).")
+
     return _phasing._old_uvw_calc(
         np.float64(ra),
         np.float64(dec),
@@ -87,6 +90,9 @@ def undo_old_uvw_calc(ra, dec, uvw):
     if uvw.ndim == 1:
         uvw = uvw[np.newaxis, :]
 
+    if uvw.shape[1] != 3:
+        raise ValueError("The expected shape of uvw is (Nlocs, 3).")
+
     return _phasing._undo_old_uvw_calc(
         np.float64(ra), np.float64(dec), np.ascontiguousarray(uvw.T, dtype=np.float64)
     ).T
-- 
2.43.0


From eb3820cc0892cfa59e83f0fbc407bffdd7d9b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 136/164] fix: refuse single positions without three components

---
 src/pyuvdata/utils/coordinates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/coordinates.py b/src/pyuvdata/utils/coordinates.py
index 5e79315..b01cfb4 100644
--- a/src/pyuvdata/utils/coordinates.py
+++ b/src/pyuvdata/utils/coordinates.py
@@ -83,7 +83,7 @@ def LatLonAlt_from_XYZ(xyz, *, frame="ITRS", ellipsoid=None, check_acceptability
 
     # convert to a numpy array
     xyz = np.asarray(xyz)
-    if xyz.ndim > 1 and xyz.shape[1] != 3:
+    if xyz.shape[-1] != 3:
         raise ValueError("The expected shape of ECEF xyz array is (Npts, 3).")
 
     squeeze = xyz.ndim == 1
@@ -331,7 +331,7 @@ def ENU_from_ECEF(
         raise ValueError(f'No ENU_from_ECEF transform defined for frame "{frame}".')
 
     xyz = np.asarray(xyz)
-    if xyz.ndim > 1 and xyz.shape[1] != 3:
+    if xyz.shape[-1] != 3:
         raise ValueError("The expected shape of ECEF xyz array is (Npts, 3).")
 
     squeeze = False
@@ -450,7 +450,7 @@ def ECEF_from_ENU(
             ellipsoid = "SPHERE"
 
     enu = np.asarray(enu)
-    if enu.ndim > 1 and enu.shape[1] != 3:
+    if enu.shape[-1] != 3:
         raise ValueError("The expected shape of the ENU array is (Npts, 3).")
     squeeze = False
 
-- 
2.43.0


From 9267b87b5f6aa6df492c16721916400efb2f991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 137/164] fix: refuse cable length strings without a length
 instead of crashing

---
 src/pyuvdata/uvdata/corr_fits.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/corr_fits.pyx b/src/pyuvdata/uvdata/corr_fits.pyx
index cdf5f34..7beba98 100644
--- a/src/pyuvdata/uvdata/corr_fits.pyx
+++ b/src/pyuvdata/uvdata/corr_fits.pyx
@@ -125,7 +125,7 @@ cdef inline void _make_length_array(
   const int max_length,
   char[:, ::1] cable_lens,
   numpy.float64_t[::1] cable_array
-):
+) except *:
   cdef char * token
   cdef char clen[30]
   # "the velocity factor of electic fields in RG-6 like coax"
@@ -141,11 +141,15 @@ cdef inline void _make_length_array(
     clen[min(max_length, 29)] = 0
     # attempt to split on the character "_"
     token = strtok(clen, b"_")
+    if token == NULL:
+      raise ValueError("Cable length strings must not be empty.")
 
     if strncmp(token, b"EL", 2) == 0:
       # has already had the velocity factor applied
       # grab the next bit of the string after EL
       token = strtok(NULL, b"_")
+      if token == NULL:
+        raise ValueError("Cable length strings must contain a length.")
       cable_array[i] = strtod(token, NULL)
     else:
       cable_array[i] = strtod(token, NULL) * v_factor
-- 
2.43.0


From 05ec884ef71a41880783e84f05dc18645703db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:16 +0000
Subject: [PATCH 138/164] fix: terminate the characters read from Miriad header
 items

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index 8bc5abe..cfe2d6c 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -286,6 +286,8 @@ cpdef tuple hread(int item_hdl, int offset, str type) except +:
   if type[0] == "a":
      hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat)
      CHK_IO(iostat)
+     # terminate the string, only the first byte has been set
+     st[1] = 0
      return st, H_BYTE_SIZE
 
   elif type[0] == "i":
-- 
2.43.0


From 25c3a1387c6376bdf65f13643f3d9b906ad40046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:09 +0000
Subject: [PATCH 139/164] fix: leave room for the terminating null of the
 longest Miriad string variables

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index cfe2d6c..d3303fb 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -487,7 +487,8 @@ cdef class UV:
     return
 
   cpdef _rdvr(self, str name, str type) except +*:
-    cdef char value[MAXVAR]
+    # one more for the terminating null of strings
+    cdef char value[MAXVAR + 1]
     cdef int length, updated, elem_size
 
     uvprobvr_c(self.tno, name.encode(), value, &length, &updated)
-- 
2.43.0


From 5016c95210bb3ca19889181389d99cc88f401590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 140/164] fix: read and write 16 bit integer Miriad variables
 and header items

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index d3303fb..7e634ab 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -56,8 +56,8 @@ cdef extern from "miriad.h":
   void hreadi_c(int item, int *buf, int offset, int length, int *iostat)
   void hwritei_c(int item, int *buf, int offset, int length, int *iostat)
 
-  void hwritej_c(int item, short *buf, int offset, int length, int *iostat)
-  void hreadj_c(int item, short *buf, int offset, int length, int *iostat)
+  void hwritej_c(int item, int *buf, int offset, int length, int *iostat)
+  void hreadj_c(int item, int *buf, int offset, int length, int *iostat)
 
   void hwritel_c(int item, long *buf, int offset, int length, int *iostat)
   void hreadl_c(int item, long *buf, int offset, int length, int *iostat)
@@ -200,6 +200,7 @@ cpdef tuple hread_init(int item_hdl) except +*:
 cpdef int hwrite(int item_hdl, int offset, val, str type) except *:
   cdef int iostat
   cdef int int_1
+  cdef int sh
   cdef long lg
   cdef float fl
   cdef double db
@@ -276,7 +277,7 @@ cpdef int hwrite(int item_hdl, int offset, val, str type) except *:
 cpdef tuple hread(int item_hdl, int offset, str type) except +:
   cdef int iostat
   cdef int int_1
-  cdef short sh
+  cdef int sh
   cdef long lg
   cdef float fl
   cdef double db
@@ -362,7 +363,8 @@ cdef class UV:
 
   @cython.boundscheck(False)
   cdef _get_j_type(self, int htype, char *name, int length):
-    cdef numpy.ndarray[dtype=int, ndim=1] arr = np.zeros((length,), dtype=np.int16)
+    # the miriad library keeps 16 bit integers in full ints in memory
+    cdef numpy.ndarray[dtype=int, ndim=1] arr = np.zeros((length,), dtype=np.intc)
     uvgetvr_c(self.tno, htype, name, <char *>&arr[0], length)
     if length == 1:
       return arr.item(0)
@@ -548,7 +550,7 @@ cdef class UV:
       uvputvr_c(self.tno, H_BYTE, name.encode(), st, len(value) + 1)
 
     elif type[0] == "j":
-      return self._store_j_type(H_INT2, name.encode(), np.atleast_1d(value).astype(np.int16))
+      return self._store_j_type(H_INT2, name.encode(), np.atleast_1d(value).astype(np.intc))
 
     elif type[0] == "i":
       return self._store_i_type(H_INT, name.encode(), np.atleast_1d(value).astype(np.int32))
-- 
2.43.0


From f81ca3dbab39d574db6bec5b8b5d7aecfc1f25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 141/164] fix: read Miriad datasets with more than 128
 variables or an incomplete variable table

---
 src/pyuvdata/uvdata/src/uvio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/src/uvio.c b/src/pyuvdata/uvdata/src/uvio.c
index 0b18131..43250ee 100644
--- a/src/pyuvdata/uvdata/src/uvio.c
+++ b/src/pyuvdata/uvdata/src/uvio.c
@@ -613,7 +613,7 @@ my_uvlist(int tno,char *fname)
         if (iostat == -1) return(iostat);   /* End Of File */
 
         if(*(s+2) != VAR_EOR) {
-            v = &uv->variable[*s];      /* get name of var */
+            v = &uv->variable[(int)(unsigned char)*s];      /* get name of var */
             intsize = internal_size[v->type];
             extsize = external_size[v->type];
         }
@@ -1886,7 +1886,9 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      if((int)(unsigned char)*s >= uv->nvar)
+	ERROR('f',(message,"Unknown variable number %d, when scanning",(int)(unsigned char)*s));
+      v = &uv->variable[(int)(unsigned char)*s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From 71bac2890b2933f7c02897a687383748d7e2f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 142/164] fix: refuse more variables than a Miriad dataset can
 hold

---
 src/pyuvdata/uvdata/aipy_extracts.py | 3 +++
 src/pyuvdata/uvdata/src/uvio.c       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvdata/aipy_extracts.py b/src/pyuvdata/uvdata/aipy_extracts.py
index 7031345..4116c47 100644
--- a/src/pyuvdata/uvdata/aipy_extracts.py
+++ b/src/pyuvdata/uvdata/aipy_extracts.py
@@ -729,4 +729,7 @@ class UV(_miriad.UV):
         var_type : str
             string indicating the variable type (e.g. 'a', 'i', 'd')
         """
+        # the Miriad library holds at most 256 variables, including those it adds itself
+        if name not in self.vartable and len(self.vartable) >= 240:
+            raise ValueError("Miriad datasets cannot have more than 240 variables.")
         self.vartable[name] = var_type
diff --git a/src/pyuvdata/uvdata/src/uvio.c b/src/pyuvdata/uvdata/src/uvio.c
index 43250ee..87fe186 100644
--- a/src/pyuvdata/uvdata/src/uvio.c
+++ b/src/pyuvdata/uvdata/src/uvio.c
@@ -1240,6 +1240,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables, the limit is %d",MAXVAR));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
-- 
2.43.0


From f564169e1b3437c08b0a0e14eabe4bcfd79a1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 143/164] fix: do not use uninitialised variable names when a
 Miriad variable table is incomplete

---
 src/pyuvdata/uvdata/src/uvio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/src/uvio.c b/src/pyuvdata/uvdata/src/uvio.c
index 87fe186..6137526 100644
--- a/src/pyuvdata/uvdata/src/uvio.c
+++ b/src/pyuvdata/uvdata/src/uvio.c
@@ -1196,14 +1196,15 @@ private void uv_vartable_in(UV *uv)
 ------------------------------------------------------------------------*/
 {
   int item;
-  char line[MAXLINE],name[MAXNAM+1],ctype;
+  char line[MAXLINE],name[MAXLINE],ctype;
   int iostat,type = 0;
 
   haccess_c(uv->tno,&item,"vartable","read",&iostat);
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
   while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
-    Sscanf(line,"%c %s",&ctype,name);
+    if(sscanf(line,"%c %s",&ctype,name) != 2)
+      ERROR('f',(message,"Bad line in the variable table, in UVOPEN(vartable_in)"));
     switch(ctype){
       case 'a': type = H_BYTE;	break;
       case 'j': type = H_INT2;	break;
-- 
2.43.0


From d79f9a6f4ebbfbe69cd5aea8f77da6eab28c1847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 144/164] fix: refuse Miriad paths that do not fit in the
 buffers of the library

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 4 ++++
 src/pyuvdata/uvdata/src/uvio.c          | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index 7e634ab..5a07520 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -342,6 +342,10 @@ cdef class UV:
     if corrmode[0] not in ["r", "j"]:
       raise ValueError(f"UV corrmode must be 'r' or 'j' but received {corrmode}.")
 
+    # the miriad library appends the item names to the path in fixed size buffers
+    if len(filename.encode()) > 1000:
+      raise ValueError("The path of a Miriad dataset cannot be longer than 1000 bytes.")
+
     try:
       uvopen_c(&self.tno, filename.encode(), status.encode())
       uvset_c(self.tno, "preamble", "uvw/time/baseline", 0, 0., 0., 0.)
diff --git a/src/pyuvdata/uvdata/src/uvio.c b/src/pyuvdata/uvdata/src/uvio.c
index 6137526..810bf46 100644
--- a/src/pyuvdata/uvdata/src/uvio.c
+++ b/src/pyuvdata/uvdata/src/uvio.c
@@ -359,7 +359,8 @@
 /*									*/
 /*----------------------------------------------------------------------*/
 
-static char message[MAXLINE];
+/* the messages can contain the name of the dataset */
+static char message[MAXLINE+MAXPATH];
 static int internal_size[10];
 static int external_size[10];
 static char type_flag[10];
@@ -1236,7 +1237,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 
 /* Check that the variable has a good name. */
   if((int)strlen(name) > MAXNAM)
-    ERROR('f',(message,"The variable name %s is too long, in UVPUTVR",name));
+    ERROR('f',(message,"The variable name %.32s is too long, in UVPUTVR",name));
 
 /* We are going to have to create it. */
 
-- 
2.43.0


From 9cf2688b8c325fac9b741c8d33ad7e10818f7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 145/164] fix: give each MWA dipole its own delay and amplitude

---
 src/pyuvdata/uvbeam/mwa_beam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/mwa_beam.py b/src/pyuvdata/uvbeam/mwa_beam.py
index 15a653e..74e8e56 100644
--- a/src/pyuvdata/uvbeam/mwa_beam.py
+++ b/src/pyuvdata/uvbeam/mwa_beam.py
@@ -261,7 +261,8 @@ class MWABeam(UVBeam):
 
         pol_names = sorted(pol_names)
 
-        dipole_names = np.array(sorted(dipole_names))
+        # the names are numbers: dipole 2 comes before dipole 10
+        dipole_names = np.array(sorted(dipole_names, key=int))
 
         freqs_hz = np.array(sorted(freqs_hz))
 
-- 
2.43.0


From 3a3666c0fc28b3069fa3c87f70227ccef1c3b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 146/164] fix: do not change the delays and amplitudes passed
 to read_mwa_beam

---
 src/pyuvdata/uvbeam/mwa_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/mwa_beam.py b/src/pyuvdata/uvbeam/mwa_beam.py
index 74e8e56..d7c37be 100644
--- a/src/pyuvdata/uvbeam/mwa_beam.py
+++ b/src/pyuvdata/uvbeam/mwa_beam.py
@@ -542,8 +542,8 @@ class MWABeam(UVBeam):
                 "(delay setting 32). Setting the amplitudes and "
                 "delays of terminated dipoles to zero."
             )
-            delays[terminated] = 0
-            amplitudes[terminated] = 0
+            delays = np.where(terminated, 0, delays)
+            amplitudes = np.where(terminated, 0, amplitudes)
 
         if freq_range is not None:
             if np.array(freq_range).size != 2:
-- 
2.43.0


From bac67c36b4f09567df4d472fd78483f4e89e1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 147/164] fix: rotate CST beams on every grid with a multiple
 of four azimuths

---
 src/pyuvdata/uvbeam/cst_beam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvbeam/cst_beam.py b/src/pyuvdata/uvbeam/cst_beam.py
index b736e57..7939aba 100644
--- a/src/pyuvdata/uvbeam/cst_beam.py
+++ b/src/pyuvdata/uvbeam/cst_beam.py
@@ -287,7 +287,7 @@ class CSTBeam(UVBeam):
             # for second polarization, rotate by pi/2
             rot_phi = phi_data + np.pi / 2
             rot_phi[np.where(rot_phi >= 2 * np.pi)] -= 2 * np.pi
-            roll_rot_phi = np.roll(rot_phi, int((np.pi / 2) / delta_phi), axis=1)
+            roll_rot_phi = np.roll(rot_phi, int(np.round((np.pi / 2) / delta_phi)), axis=1)
             if not np.allclose(roll_rot_phi, phi_data):
                 raise ValueError("Rotating by pi/2 failed")
 
@@ -317,7 +317,7 @@ class CSTBeam(UVBeam):
 
             if rotate_pol:
                 # rotate by pi/2 for second polarization
-                power_beam2 = np.roll(power_beam1, int((np.pi / 2) / delta_phi), axis=1)
+                power_beam2 = np.roll(power_beam1, int(np.round((np.pi / 2) / delta_phi)), axis=1)
                 self.data_array[0, 1, 0, :, :] = power_beam2
         else:
             self.basis_vector_array = np.zeros(
@@ -358,8 +358,8 @@ class CSTBeam(UVBeam):
 
             if rotate_pol:
                 # rotate by pi/2 for second polarization
-                theta_beam2 = np.roll(theta_beam, int((np.pi / 2) / delta_phi), axis=1)
-                phi_beam2 = np.roll(phi_beam, int((np.pi / 2) / delta_phi), axis=1)
+                theta_beam2 = np.roll(theta_beam, int(np.round((np.pi / 2) / delta_phi)), axis=1)
+                phi_beam2 = np.roll(phi_beam, int(np.round((np.pi / 2) / delta_phi)), axis=1)
                 self.data_array[0, 1, 0, :, :] = phi_beam2
                 self.data_array[1, 1, 0, :, :] = theta_beam2
 
-- 
2.43.0


From 024b886f5d09250dbf222b06be2dd3abe8feb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 148/164] fix: do not add the settings of a CST yaml file to
 the extra_keywords passed in

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 17a4045..9e08c76 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3603,8 +3603,8 @@ class UVBeam(UVBase):
             if x_orientation is None and "x_orientation" in settings_dict:
                 x_orientation = settings_dict["x_orientation"]
 
-            if extra_keywords is None:
-                extra_keywords = {}
+            # do not change the dictionary that was passed
+            extra_keywords = {} if extra_keywords is None else dict(extra_keywords)
 
             known_keys = [
                 "telescope_name",
-- 
2.43.0


From cf1a6f9c2c818cd45d489ff8c1cf6b0817ae6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 149/164] fix: warn about overriding x_orientation in CST
 settings files when it is overridden

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 9e08c76..373f1eb 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3574,7 +3574,7 @@ class UVBeam(UVBase):
             if "ref_imp" in settings_dict:
                 overriding_keywords["reference_impedance"] = reference_impedance
             if "x_orientation" in settings_dict:
-                overriding_keywords["x_orientation"] = reference_impedance
+                overriding_keywords["x_orientation"] = x_orientation
             for key, val in overriding_keywords.items():
                 if val is not None:
                     warnings.warn(
-- 
2.43.0


From 814f87a9e9c60fe63e697dacee1c1e9231086880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:02 +0000
Subject: [PATCH 150/164] fix: determine the order of baseline-times which are
 in more than one order at once

---
 src/pyuvdata/utils/bltaxis.py | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/src/pyuvdata/utils/bltaxis.py b/src/pyuvdata/utils/bltaxis.py
index e67c28f..bef5a28 100644
--- a/src/pyuvdata/utils/bltaxis.py
+++ b/src/pyuvdata/utils/bltaxis.py
@@ -94,35 +94,8 @@ def determine_blt_order(
         ):
             break
 
-    if Nbls > 1 and Ntimes > 1:
-        assert not (
-            (time_bl and bl_time)
-            or (time_a and a_time)
-            or (time_b and b_time)
-            or (time_order and a_order)
-            or (time_order and b_order)
-            or (a_order and b_order)
-            or (time_order and bl_order)
-        ), (
-            "Something went wrong when trying to determine the order of the blts axis. "
-            "Please raise an issue on github, as this is not meant to happen."
-            "None of the following should ever be True: \n"
-            f"\ttime_bl and bl_time: {time_bl and bl_time}\n"
-            f"\ttime_a and a_time: {time_a and a_time}\n"
-            f"\ttime_b and b_time: {time_b and b_time}\n"
-            f"\ttime_order and a_order: {time_order and a_order}\n"
-            f"\ttime_order and b_order: {time_order and b_order}\n"
-            f"\ta_order and b_order: {a_order and b_order}\n"
-            f"\ttime_order and bl_order: {time_order and bl_order}\n\n"
-            "Please include the following information in your issue:\n"
-            f"Nbls: {Nbls}\n"
-            f"Ntimes: {Ntimes}\n"
-            f"TIMES: {times}\n"
-            f"ANT1: {ant1}\n"
-            f"ANT2: {ant2}\n"
-            f"BASELINES: {bls}\n"
-        )
-
+    # Several of these can hold at once (e.g. if both the first and the second antenna
+    # numbers increase), in which case the most specific one is returned.
     if time_bl:
         return ("time", "baseline")
     if bl_time:
-- 
2.43.0


From 2f098f780b0070de3f13a57e2e7dbbb2f10088a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 151/164] fix: select on catalog_names in the first file of a
 list as well

---
 src/pyuvdata/uvdata/uvdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index aa5c936..0e624c5 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10742,6 +10742,7 @@ class UVData(UVBase):
                         antenna_names=antenna_names,
                         ant_str=ant_str,
                         bls=bls,
+                        catalog_names=catalog_names,
                         frequencies=frequencies,
                         freq_chans=freq_chans,
                         times=times,
-- 
2.43.0


From a1801327bf5e8d432624f5394d60c539fe125ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 152/164] fix: use corrchunk, receivers and sidebands for every
 MIR dataset of a list

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0e624c5..809208b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10940,6 +10940,9 @@ class UVData(UVBase):
                             phase_to_pointing_center=phase_to_pointing_center,
                             nsample_array_dtype=nsample_array_dtype,
                             # MIR
+                            corrchunk=corrchunk,
+                            receivers=receivers,
+                            sidebands=sidebands,
                             mir_select_where=mir_select_where,
                             apply_tsys=apply_tsys,
                             apply_flags=apply_flags,
-- 
2.43.0


From 174e1f4302d9dd8f616b02c7da107df419a525b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 153/164] fix: read every FHD dataset of a list with its own
 params, obs, flags, layout and settings files

---
 src/pyuvdata/uvdata/uvdata.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 809208b..f5bd88c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10719,13 +10719,13 @@ class UVData(UVBase):
                 else:
                     settings_file = [None] * n_files
 
-                params_file_use = params_file[file_num]
-                obs_file_use = obs_file[file_num]
-                flags_file_use = flags_file[file_num]
-                layout_file_use = layout_file[file_num]
-                settings_file_use = settings_file[file_num]
-
             while unread and file_num < len(filename):
+                if file_type == "fhd":
+                    params_file_use = params_file[file_num]
+                    obs_file_use = obs_file[file_num]
+                    flags_file_use = flags_file[file_num]
+                    layout_file_use = layout_file[file_num]
+                    settings_file_use = settings_file[file_num]
                 try:
                     self.read(
                         filename[file_num],
@@ -10852,13 +10852,13 @@ class UVData(UVBase):
 
             uv_list = []
             if len(filename) > file_num + 1:
-                for f in filename[file_num + 1 :]:
+                for ind, f in enumerate(filename[file_num + 1 :], start=file_num + 1):
                     if file_type == "fhd":
-                        params_file_use = params_file[file_num]
-                        obs_file_use = obs_file[file_num]
-                        flags_file_use = flags_file[file_num]
-                        layout_file_use = layout_file[file_num]
-                        settings_file_use = settings_file[file_num]
+                        params_file_use = params_file[ind]
+                        obs_file_use = obs_file[ind]
+                        flags_file_use = flags_file[ind]
+                        layout_file_use = layout_file[ind]
+                        settings_file_use = settings_file[ind]
 
                     uv2 = UVData()
                     try:
-- 
2.43.0


From c309d4eaf0b2d745aef8eb88c56824963aec09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 154/164] fix: name the files which could not be read when
 reading a list of UVData files

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f5bd88c..e59ea4d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10651,7 +10651,6 @@ class UVData(UVBase):
             file_num = 0
             file_warnings = ""
             unread = True
-            f = filename[file_num]
             params_file_use = None
             obs_file_use = None
             flags_file_use = None
@@ -10720,6 +10719,7 @@ class UVData(UVBase):
                     settings_file = [None] * n_files
 
             while unread and file_num < len(filename):
+                f = filename[file_num]
                 if file_type == "fhd":
                     params_file_use = params_file[file_num]
                     obs_file_use = obs_file[file_num]
-- 
2.43.0


From 22cbe689226144c88ba18115d7f946333531f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 155/164] fix: skip beam files which cannot be opened if
 skip_bad_files is set

---
 src/pyuvdata/uvbeam/uvbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 373f1eb..cae88a8 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -4182,10 +4182,10 @@ class UVBeam(UVBase):
                             pixels_per_deg=pixels_per_deg,
                         )
                         unread = False
-                    except ValueError as err:
+                    except (KeyError, ValueError, OSError) as err:
                         file_warnings += (
                             f"Failed to read {filename[file_num]} "
-                            f"due to ValueError {err}\n"
+                            f"due to {type(err).__name__} {err}\n"
                         )
                         file_num += 1
                         if skip_bad_files is False:
@@ -4233,10 +4233,10 @@ class UVBeam(UVBase):
                                 pixels_per_deg=pixels_per_deg,
                             )
                             beam_list.append(beam2)
-                        except ValueError as err:
+                        except (KeyError, ValueError, OSError) as err:
                             file_warnings += (
                                 f"Failed to read {filename[file_num]} "
-                                f"due to ValueError {err}\n"
+                                f"due to {type(err).__name__} {err}\n"
                             )
                             if skip_bad_files:
                                 continue
-- 
2.43.0


From 03e4dd7eaf210a2b32142a521c09084434277abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 156/164] fix: do not concatenate when only one file of a list
 was read

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e59ea4d..0edbe6d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10986,7 +10986,7 @@ class UVData(UVBase):
                 warnings.warn(file_warnings)
 
             # Concatenate once at end
-            if axis is not None:
+            if axis is not None and len(uv_list) > 0:
                 # Rewrote fast_concat to operate on lists
                 self.fast_concat(
                     uv_list,
-- 
2.43.0


From 1521bf88b3500e76c45a1b69d7c7d70e887b85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 157/164] fix: use the options for every file of a list when
 reading UVFlag files

---
 src/pyuvdata/uvflag/uvflag.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index d5620d0..108cc3b 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -520,6 +520,8 @@ class UVFlag(UVBase):
                 waterfall=waterfall,
                 history=history,
                 label=label,
+                telescope_name=telescope_name,
+                mwa_metafits_file=mwa_metafits_file,
                 run_check=run_check,
                 check_extra=check_extra,
                 run_check_acceptability=run_check_acceptability,
@@ -532,6 +534,8 @@ class UVFlag(UVBase):
                         copy_flags=copy_flags,
                         waterfall=waterfall,
                         history=history,
+                        telescope_name=telescope_name,
+                        mwa_metafits_file=mwa_metafits_file,
                         run_check=run_check,
                         check_extra=check_extra,
                         run_check_acceptability=run_check_acceptability,
@@ -3059,12 +3063,23 @@ class UVFlag(UVBase):
         # make sure we have an empty object.
         self.__init__()
         if isinstance(filename, (tuple, list)):
-            self.read(filename[0])
-            if len(filename) > 1:
-                for f in filename[1:]:
-                    f2 = UVFlag(f, history=history)
-                    self += f2
-                del f2
+            read_kwargs = {
+                "history": history,
+                "mwa_metafits_file": mwa_metafits_file,
+                "telescope_name": telescope_name,
+                "run_check": run_check,
+                "check_extra": check_extra,
+                "run_check_acceptability": run_check_acceptability,
+            }
+            self.read(filename[0], **read_kwargs)
+            for f in filename[1:]:
+                f2 = UVFlag(f, **read_kwargs)
+                self.__iadd__(
+                    f2,
+                    run_check=run_check,
+                    check_extra=check_extra,
+                    run_check_acceptability=run_check_acceptability,
+                )
         else:
             if not os.path.exists(filename):
                 raise IOError(filename + " not found.")
-- 
2.43.0


From ac0eb5bbdaa53f73426787230e52cd2483727a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 158/164] fix: keep the frequency axis when reading old UVFlag
 files with one channel

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 108cc3b..37f46a5 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -3156,7 +3156,7 @@ class UVFlag(UVBase):
                 self.freq_array = header["freq_array"][()]
                 # older save files may have the old spw-axis, squeeze that now
                 if self.freq_array.ndim > 1:
-                    self.freq_array = np.squeeze(self.freq_array)
+                    self.freq_array = np.squeeze(self.freq_array, axis=0)
 
                 if "Nfreqs" in header.keys():
                     self.Nfreqs = int(header["Nfreqs"][()])
-- 
2.43.0


From c8f60eb915110cdebcef3f01deed83429a3726dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 159/164] fix: set positive channel widths when reading old
 UVFlag files with descending frequencies

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 37f46a5..becd69b 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -3174,7 +3174,7 @@ class UVFlag(UVBase):
                         "channel_width not available in file, computing it from the "
                         "freq_array spacing."
                     )
-                    freq_delta = np.diff(np.squeeze(self.freq_array))
+                    freq_delta = np.abs(np.diff(np.squeeze(self.freq_array)))
                     if utils.tools._test_array_constant_spacing(
                         self.freq_array, tols=self._freq_array.tols
                     ):
-- 
2.43.0


From 54a0745a56e5197b7b9f0fcf23eb8c273135ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 160/164] fix: select on lst_range by overlap of LST ranges
 when calibration solutions have time ranges

---
 src/pyuvdata/utils/times.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..b106f0b 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -456,17 +456,15 @@ def _select_times_helper(
 
         if obj_lst_range is not None:
             for lst in lsts:
+                after_start = (obj_lst_range[:, 0] <= lst) & (lst <= 2 * np.pi)
+                before_end = (obj_lst_range[:, 1] >= lst) & (lst >= 0)
                 lst_ind = np.nonzero(
-                    np.logical_and(
-                        (obj_lst_range[:, 0] <= lst), (obj_lst_range[:, 1] >= lst)
+                    np.where(
+                        lst_range_wrap,
+                        after_start | before_end,
+                        after_start & before_end,
                     )
                 )[0]
-                if lst_ind.size == 0 and np.any(lst_range_wrap):
-                    for lr_ind in np.nonzero(lst_range_wrap)[0]:
-                        if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
-                            lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
-                        ):
-                            lst_ind = np.array([lr_ind])
                 if lst_ind.size > 0:
                     time_inds = np.append(time_inds, lst_ind)
                 else:
@@ -496,15 +494,22 @@ def _select_times_helper(
                 "LST values are assumed to be in radians, not hours."
             )
         if obj_lst_range is not None:
+            # split ranges that wrap around LST = 2*pi = 0 into non-wrapping parts
+            if lst_range[1] < lst_range[0]:
+                select_parts = [[lst_range[0], 2 * np.pi], [0, lst_range[1]]]
+            else:
+                select_parts = [lst_range]
             for lind, lrange in enumerate(obj_lst_range):
-                if not lst_range_wrap[lind] and lst_range[0] < lst_range[1]:
-                    if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
-                        time_inds = np.append(time_inds, lind)
+                if lst_range_wrap[lind]:
+                    obj_parts = [[lrange[0], 2 * np.pi], [0, lrange[1]]]
                 else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
-                    ):
-                        time_inds = np.append(time_inds, lind)
+                    obj_parts = [lrange]
+                if any(
+                    _check_range_overlap(np.stack((obj_part, select_part), axis=0))
+                    for obj_part in obj_parts
+                    for select_part in select_parts
+                ):
+                    time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
         else:
             if lst_range[1] < lst_range[0]:
-- 
2.43.0


From 515d95a26c5ad1ad7b4ce3ca5aa5a2c96a4daec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 161/164] fix: write antenna names of more than eight
 characters to calfits in full

---
 src/pyuvdata/uvcal/calfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index 5f462ba..a72b5d2 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -454,7 +454,9 @@ class CALFITS(UVCal):
 
         # ant HDU
         col1 = fits.Column(
-            name="ANTNAME", format="8A", array=self.telescope.antenna_names
+            name="ANTNAME",
+            format=f"{max(8, *map(len, self.telescope.antenna_names))}A",
+            array=self.telescope.antenna_names,
         )
         col2 = fits.Column(
             name="ANTINDEX", format="D", array=self.telescope.antenna_numbers
-- 
2.43.0


From 11d71c735c3cde723b13b710051b8f27a4965cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 162/164] fix: write the time spacing to calfits precisely
 enough for all times

---
 src/pyuvdata/uvcal/calfits.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index a72b5d2..856d82e 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -139,24 +139,23 @@ class CALFITS(UVCal):
                     "because of a select operation). The calfits format "
                     "does not support unevenly spaced times."
                 )
-            time_spacing = np.diff(self.time_array)
+            # use the whole time span so that errors do not accumulate along the axis
+            time_spacing = (self.time_array[-1] - self.time_array[0]) / (
+                self.Ntimes - 1
+            )
             if not utils.tools._test_array_constant(self._integration_time):
                 raise ValueError(
                     "The integration times are variable. The calfits format "
                     "does not support variable integration times."
                 )
             median_int_time = np.median(self.integration_time)
-            if np.isclose(time_spacing[0], median_int_time / (24.0 * 60.0**2)):
+            if np.isclose(
+                time_spacing,
+                median_int_time / (24.0 * 60.0**2),
+                rtol=0,
+                atol=self._time_array.tols[1] / self.Ntimes,
+            ):
                 time_spacing = median_int_time / (24.0 * 60.0**2)
-            else:
-                rounded_spacing = np.around(
-                    time_spacing,
-                    int(
-                        np.ceil(np.log10(self._time_array.tols[1] / self.Ntimes) * -1)
-                        + 1
-                    ),
-                )
-                time_spacing = rounded_spacing[0]
         else:
             time_spacing = self.integration_time[0] / (24.0 * 60.0**2)
         if self.time_array is None:
-- 
2.43.0


From 81858e7289a092f8fd2643b072ed8b822081e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:52 +0000
Subject: [PATCH 163/164] fix: update Ntimes in inflate_by_redundancy

---
 src/pyuvdata/uvdata/uvdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0edbe6d..0fc2746 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9075,6 +9075,7 @@ class UVData(UVBase):
         self.Nants_data = self._calc_nants_data()
         self.Nbls = np.unique(self.baseline_array).size
         self.Nblts = Nblts_full
+        self.Ntimes = np.unique(self.time_array).size
 
         self.phase_center_app_ra = self.phase_center_app_ra[blt_map]
         self.phase_center_app_dec = self.phase_center_app_dec[blt_map]
-- 
2.43.0


From 8646117f203bbbcc821df94699bd11a71c4eb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:51 +0000
Subject: [PATCH 164/164] fix: interpolate beams correctly near azimuth zero
 when the last azimuth repeats the first

---
 src/pyuvdata/uvbeam/uvbeam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index cae88a8..37d693a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1469,8 +1469,11 @@ class UVBeam(UVBase):
                 )
             )
 
-            low_slice = input_data_array[..., :extend_length]
-            high_slice = input_data_array[..., -1 * extend_length :]
+            # if the last azimuth is the first one again, do not repeat it here
+            n_repeat = int(phi_length - 2 * np.pi > axis1_diff / 2)
+            low_slice = input_data_array[..., n_repeat : n_repeat + extend_length]
+            n_high = phi_vals.size - n_repeat
+            high_slice = input_data_array[..., n_high - extend_length : n_high]
 
             data_use = np.concatenate(
                 (high_slice, input_data_array, low_slice), axis=freq_axis + 2
-- 
2.43.0

