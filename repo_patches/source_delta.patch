From d5d3a49c5f0f076e95818cce9d1b59f19ddbfa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 01/89] fix: Image.copy(copy_data=False) shared the headers
 with the original

---
 corgidrp/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..830314b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -508,6 +508,10 @@ class Image():
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
             new_img.hdu_names = copy.copy(self.hdu_names)
+            # headers are always copied, even if the data is not
+            for name, value in vars(self).items():
+                if isinstance(value, fits.Header):
+                    setattr(new_img, name, value.copy())
 
         # update DRP version tracking
         new_img.ext_hdr['DRPVERSN'] =  corgidrp.__version__
-- 
2.43.0


From 368462c092a248269bcc751fa0258ae8d428c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 02/89] fix: detect_cosmic_rays dropped the EM gain of frames
 with a measured gain (EMGAIN_M)

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..96c6362 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From 66c32db8df61ee50deee93bc44d4052a5bf137b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 03/89] fix: prescan_biassub aligned the prescan rows with the
 default detector geometry instead of the given one

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 96c6362..3151c17 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From 4a8b08dd09a94f1ef29994e1bb70f6ae6875429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 04/89] fix: correct_bad_pixels lost DQ and bad pixel flags
 above 128

---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..577ee3d 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,11 +367,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.copy()
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(dq_cube.dtype))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From d9298bb0b1d97a36f990909ab2092cbb8770fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 05/89] fix: ND filter sweet spot files could not be autoloaded
 because their DATATYPE was not registered

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 830314b..af4e530 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2563,7 +2563,7 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset}
 
 def autoload(filepath):
     """
-- 
2.43.0


From 441dc5599993a291770f4e3fbb98d4a58587f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 06/89] fix: autoload crashed with an unbound variable instead
 of reporting the data shape

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index af4e530..2df1859 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2589,7 +2589,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From 7a287196432ab7ab4f9801e33a0a78cac33c6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 07/89] fix: InterpolateCT wrote the edge case value to the
 wrong target position

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 2df1859..c945b2d 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1833,7 +1833,7 @@ class CoreThroughputCalibration(Image):
             for idx_x in idx_x_arr:
                 # If and only if the same index is in both, it's the same location
                 if idx_x in idx_y_arr:
-                    interpolated_values[idx_x] = core_throughput[idx_x]
+                    interpolated_values[idx] = core_throughput[idx_x]
             
         # Raise ValueError if all CT are NaN
         if np.all(np.isnan(interpolated_values)):
-- 
2.43.0


From aa3af29c29cfab93ca94fc399d47efdd88b649a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 08/89] fix: data hashes differed between python processes
 (salted builtin hash)

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c945b2d..44ed179 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import re
 import warnings
@@ -600,7 +601,7 @@ class Image():
 
         total_bytes = data_bytes + err_bytes + dq_bytes
 
-        return str(hash(total_bytes))
+        return hashlib.sha256(total_bytes).hexdigest()
 
     def add_extension_hdu(self, name, data = None, header=None):
         """
@@ -1233,7 +1234,7 @@ class DetectorParams(Image):
         for key in self.params:
             hashing_str += str(self.params[key])
 
-        return str(hash(hashing_str))
+        return hashlib.sha256(hashing_str.encode()).hexdigest()
 
 class AstrometricCalibration(Image):
     """
-- 
2.43.0


From 50804f1f2589702f1208eea4d1ee1b2d2d1058ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 09/89] fix: convert_to_electrons erased the individually
 tracked error layers

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 577ee3d..3c7ce5d 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,7 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    kgain_error = kgain*kgain_dataset.all_err
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From 387886e51d4ebe40ed51a0946a6c347af7d711f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 10/89] fix: autogen_recipe modified the template passed in by
 the user

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..44fc9e0 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import json
 import astropy.time as time
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template)
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From 98927ed05011d6e0eed7b68530c844cb68b36949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 11/89] fix: skip_missing_cal_steps was ignored when
 calibrations are identified just in time

---
 corgidrp/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 44fc9e0..ec0a742 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -422,6 +422,9 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # the step may have just been marked to be skipped because of a missing calibration
+                    if "skip" in step and step["skip"]:
+                        continue
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 5b22394060ae8543e4d788d72fe7bd85f0ec7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 12/89] fix: flag_nans overwrote the existing DQ flags of nan
 pixels

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..253f0bc 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(int), flag_val)
 
     return dataset_out
-- 
2.43.0


From f515a213ac24b71c74c5f0e3317387a3d09b2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 13/89] fix: build_trad_dark wrote the dark's headers into its
 first input frame

---
 corgidrp/darks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..2cb19b5 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From d49e7749e46d98fdc070b4b6bb61e36691cfe399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 14/89] fix: create_onsky_flatfield modified the data and
 headers of its input frames

---
 corgidrp/flat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..7cfeb5b 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -229,9 +229,9 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
 
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
-        planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        planet_image=dataset[j].data.copy()
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
-- 
2.43.0


From 61ac11af598ba1d9ca9a68c3ba158b978a5c0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 15/89] fix: taking a subset of a Dataset disconnected the
 frames of the original from its data cube

---
 corgidrp/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 44ed179..7b884e5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -70,7 +70,8 @@ class Dataset():
             return self.frames[indices]
         else:
             # return a subset of the dataset
-            return Dataset(self.frames[indices])
+            # (shallow copies of the frames, because a Dataset points its frames to its own data cube)
+            return Dataset([copy.copy(frame) for frame in self.frames[indices]])
 
     def __len__(self):
         return len(self.frames)
@@ -241,7 +242,8 @@ class Dataset():
         split_datasets = []
         for combo in grouped.indices:
             dataset_indices = grouped.indices[combo]
-            sub_dataset = self[dataset_indices]
+            # the frames are shared with the sub-datasets
+            sub_dataset = Dataset(self.frames[dataset_indices])
             split_datasets.append(sub_dataset)
 
         return split_datasets, unique_vals
-- 
2.43.0


From d463fc18a57470d5e6d160c0d8fbbbc0665e2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 16/89] fix: crop centered all frames on the star location of
 the first frame

---
 corgidrp/l3_to_l4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..518c2de 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -302,6 +302,7 @@ def crop(input_dataset, sizexy=None, centerxy=None):
        
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
+    input_sizexy, input_centerxy = sizexy, centerxy
 
     for frame in dataset:
         prihdr = frame.pri_hdr
@@ -309,6 +310,9 @@ def crop(input_dataset, sizexy=None, centerxy=None):
         dqhdr = frame.dq_hdr
         errhdr = frame.err_hdr
 
+        # The size and center that were not passed in are chosen for each frame
+        sizexy, centerxy = input_sizexy, input_centerxy
+
         # Pick default crop size based on the size of the effective field of view
         if sizexy is None:
             if exthdr['LSAMNAME'] == 'NFOV':
-- 
2.43.0


From f5272bd3537adb5ca4c44038b52bf264c03327f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 17/89] fix: crop did not update the reference pixel of the WCS
 in the image extension header

---
 corgidrp/l3_to_l4.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 518c2de..6f7ec86 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -386,6 +386,12 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             prihdr["CRPIX1"] -= x1
             prihdr["CRPIX2"] -= y1
             updated_hdrs.append('CRPIX1/2')
+        if ("CRPIX1" in exthdr.keys()):
+            # create_wcs writes the WCS in the image extension header
+            exthdr["CRPIX1"] -= x1
+            exthdr["CRPIX2"] -= y1
+            if 'CRPIX1/2' not in updated_hdrs:
+                updated_hdrs.append('CRPIX1/2')
         if not ("DETPIX0X" in exthdr.keys()):
             exthdr.set('DETPIX0X',0)
             exthdr.set('DETPIX0Y',0)
-- 
2.43.0


From 9b1385f97cda5ed6e7cf6d47dac11dc24cd5968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 18/89] fix: compute_flux_ratio_noise used the default
 separations of the first frame for all frames

---
 corgidrp/l4_to_tda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..b6c5d1c 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -207,7 +207,10 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
     output_dataset = input_dataset.copy()
     if len(input_dataset) != len(unocculted_star_dataset):
         raise ValueError('The number of frames in input_dataset and unocculted_star_dataset must be the same.')
+    input_separations, input_halfwidth = requested_separations, halfwidth
     for i, frame in enumerate(output_dataset.frames):
+        # the separations and halfwidth that were not passed in are chosen for each frame
+        requested_separations, halfwidth = input_separations, input_halfwidth
         pixscale_mas = frame.ext_hdr['PLTSCALE']  
         klip_tp = frame.hdu_list['KL_THRU'].data[1:,:,0]
         core_tp = frame.hdu_list['CT_THRU'].data[1]
-- 
2.43.0


From 8fca0da06e4963060370f55f7fc0c6d7aa78e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 19/89] fix: photon-counted master dark listed ignored
 remainder frames as its parents

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..49eda56 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From 79f5e4f7a0831c48c7a305210ccdf9aa0d2cbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 20/89] fix: get_pc_mean disconnected the frames of its input
 from their data cube

---
 corgidrp/photon_counting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 49eda56..3010929 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -150,8 +150,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
-        subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-        sub_dataset = data.Dataset(subset_frames)
+        sub_dataset = input_dataset[bin_size*i:bin_size*(i+1)]
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
         if len(test_dataset) > 1:
-- 
2.43.0


From d995a4ca53a388959a662f3aca8abdef26d4968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 21/89] fix: darks and noise maps recorded only the first
 frame's parents if their input frames have parents

---
 corgidrp/darks.py           | 4 ++++
 corgidrp/photon_counting.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 2cb19b5..a18d278 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -251,6 +251,8 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
+    # the parents of the first frame only; the dark records the parents of all frames
+    exthdr.remove('DRPNFILE', ignore_missing=True)
 
     master_dark = Dark(data, prihdr, exthdr, dataset, err, dq, errhdr)
     master_dark.ext_hdr['BUNIT'] = 'Detected Electrons'
@@ -734,6 +736,8 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     err_hdr['BUNIT'] = 'Detected Electrons'
 
     exthdr['DATATYPE'] = 'DetectorNoiseMaps'
+    # the parents of the first frame only; the noise maps record the parents of all frames
+    exthdr.remove('DRPNFILE', ignore_missing=True)
 
     # bias offset
     exthdr['B_O'] = bias_offset
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 3010929..70bda54 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -329,6 +329,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         ext_hdr['NAXIS2'] = combined_pc_mean.shape[1]
         ext_hdr['PCTHRESH'] = thresh
         ext_hdr['NUM_FR'] = len(sub_dataset) 
+        # the parents of one frame only; the dark records the parents of all frames
+        ext_hdr.remove('DRPNFILE', ignore_missing=True)
         ext_hdr['HISTORY'] = "Photon-counted {0} dark frames for each master dark of the output dataset.  Number of subsets: {1}.  Total number of master darks in input dataset: {2}. Using T_factor={3} and niter={4}.".format(len(sub_dataset), num_bins, len(input_dataset), T_factor, niter)
         pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset[:index_of_last_frame_used])
         return pc_dark
-- 
2.43.0


From cb14d793445411d75261eff3d91bd903562f24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 22/89] fix: reading a file with unnamed individual error
 layers crashed when errors are not tracked

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 7b884e5..51f9f7a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -411,7 +411,7 @@ class Image():
             num_errs = self.err.shape[0] - 1
             # delete keywords specifying the error of each individual slice
             for i in range(num_errs):
-                del self.err_hdr['Layer_{0}'.format(i + 2)]
+                self.err_hdr.remove('Layer_{0}'.format(i + 2), ignore_missing=True)
             self.err = self.err[:1] # only save the total err, preserve 3-D shape
         self.err_hdr['TRK_ERRS'] = corgidrp.track_individual_errors # specify whether we are tracing errors
 
-- 
2.43.0


From ab4eb62b6bbb2d4d83b3a1355973b864e0e2fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 23/89] fix: em_gain_division and divide_by_exptime returned
 frames disconnected from the data cube

---
 corgidrp/l2a_to_l2b.py | 3 +--
 corgidrp/l2b_to_l3.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3c7ce5d..303a875 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -315,8 +315,7 @@ def em_gain_division(input_dataset):
         emgain_cube[i] /= emgain
         emgain_error[i] /= emgain
 
-    dataset_list, _ = emgain_dataset.split_dataset(exthdr_keywords=['EMGAIN_C'])
-    if len(dataset_list) > 1:
+    if len({frame.ext_hdr['EMGAIN_C'] for frame in emgain_dataset}) > 1:
         history_msg = "data divided by EM gain for dataset with frames with different commanded EM gains"
     else:
         history_msg = "data divided by EM gain for dataset with frames with the same commanded EM gain"
diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..a0731a0 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,6 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +97,7 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
+        all_data_new[i] = data.frames[i].data / exposure_time
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 72aa4bc22428f001728fb48431077e41b3ea09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 24/89] fix: checking the uniformity of a dataset's settings
 disconnected its frames from the data cube

---
 corgidrp/darks.py                 | 4 ++--
 corgidrp/l2a_to_l2b.py            | 2 +-
 corgidrp/nd_filter_calibration.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index a18d278..d3b07e6 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -189,7 +189,7 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     if detector_regions is None:
             detector_regions = detector_areas
 
-    _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
     # getting telemetry rows to ignore in fit
@@ -807,7 +807,7 @@ def build_synthesized_dark(dataset, noisemaps, detector_regions=None, full_frame
         Fd = noise_maps.FPN_map
         Dd = noise_maps.DC_map
         Cd = noise_maps.CIC_map
-        _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+        _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
         if len(unique_vals) > 1:
             raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
         try: # use measured EM gain if available TODO change hdr name if necessary
diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 303a875..509b5d7 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -58,7 +58,7 @@ def dark_subtraction(input_dataset, dark, detector_regions=None, outputdir=None)
     Returns:
         corgidrp.data.Dataset: a dark-subtracted version of the input dataset including error propagation
     """
-    _, unique_vals = input_dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = input_dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
 
diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..c6dc3be 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -52,9 +52,9 @@ def group_by_keyword(dataset, prihdr_keyword=None, exthdr_keyword=None):
 
     # Determine the splitting method
     if prihdr_keyword:
-        split_datasets, unique_vals = dataset.split_dataset(prihdr_keywords=[prihdr_keyword])
+        split_datasets, unique_vals = dataset.copy(copy_data=False).split_dataset(prihdr_keywords=[prihdr_keyword])
     else:
-        split_datasets, unique_vals = dataset.split_dataset(exthdr_keywords=[exthdr_keyword])
+        split_datasets, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=[exthdr_keyword])
 
     # Construct dictionary {target: subset}
     groups = {}
-- 
2.43.0


From bc8e6c607e49a99c403544e5174ef9c4519d7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 25/89] fix: convert_to_flux applied the color correction of
 the first frame to all frames

---
 corgidrp/l4_to_tda.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index b6c5d1c..09e40d1 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -151,19 +151,21 @@ def convert_to_flux(input_dataset, fluxcal_factor):
     flux_dataset = input_dataset.copy()
     flux_cube = flux_dataset.all_data
     flux_error = flux_dataset.all_err
-    if "COL_COR" in flux_dataset[0].ext_hdr:
-        color_cor_fac = flux_dataset[0].ext_hdr['COL_COR']
-    else: 
-        warnings.warn("There is no COL_COR keyword in the header, color correction was not done, it is set to 1")
-        color_cor_fac = 1
-    factor = fluxcal_factor.fluxcal_fac/color_cor_fac
-    factor_error = fluxcal_factor.fluxcal_err/color_cor_fac
+    color_cor_fac = np.ones(len(flux_dataset))
+    for i, frame in enumerate(flux_dataset):
+        if "COL_COR" in frame.ext_hdr:
+            color_cor_fac[i] = frame.ext_hdr['COL_COR']
+        else: 
+            warnings.warn("There is no COL_COR keyword in the header, color correction was not done, it is set to 1")
+    # each frame has its own color correction
+    factor = (fluxcal_factor.fluxcal_fac/color_cor_fac)[:, np.newaxis, np.newaxis]
+    factor_error = (fluxcal_factor.fluxcal_err/color_cor_fac)[:, np.newaxis, np.newaxis]
     error_frame = flux_cube * factor_error
     flux_cube *= factor
     
     #scale also the old error with the flux_factor and propagate the error 
     # err = sqrt(err_flux^2 * flux_fac^2 + fluxfac_err^2 * flux^2)
-    factor_2d = np.ones(np.shape(flux_dataset[0].data)) * factor #TODO 2D should not be necessary anymore after improve_err is merged
+    factor_2d = np.ones(np.shape(flux_cube)) * factor #TODO 2D should not be necessary anymore after improve_err is merged
     flux_dataset.rescale_error(factor_2d, "fluxcal_factor")
     flux_dataset.add_error_term(error_frame, "fluxcal_error")
 
-- 
2.43.0


From 42ba7c587174288bb58a563b34c758d696c11c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 26/89] fix: a recipe with an absent optional calibration could
 not be run again with just-in-time calibrations

---
 corgidrp/walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index ec0a742..2f8271a 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,7 +203,7 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        if step["calibs"][calib] is not None and "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
-- 
2.43.0


From 889c1fffa287b58d97f1625485bd12d38d82eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 27/89] fix: the bias columns of ENG_CONV frames lay outside
 their prescan section, making the whole frame NaN

---
 corgidrp/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 253f0bc..049d091 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -208,8 +208,8 @@ detector_areas= {
             'rows': 2200,
             'cols': 1128,
             'r0c0': [0, 1072],
-            'col_start': 1200,
-            'col_end': 1400
+            'col_start': 128, # relative to the section: columns 1200-1400 of the frame
+            'col_end': 328
             },
         'prescan_reliable' : {
             # not sure if these are good in the eng_conv case where the geometry is
-- 
2.43.0


From 99ac32cf304152272825b5cf0ada95406d0cd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 28/89] fix: the imaging area of ENG_EM and ENG_CONV frames was
 located wrongly (empty, or overlapping the prescan)

---
 corgidrp/detector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 049d091..c54dc57 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -338,14 +338,13 @@ def imaging_area_geom(arrtype, detector_regions=None):
         detector_regions = detector_areas
     _, cols_pre, _ = unpack_geom(arrtype, 'prescan', detector_regions)
     _, cols_serial_ovr, _ = unpack_geom(arrtype, 'serial_overscan', detector_regions)
-    rows_parallel_ovr, _, _ = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
-    #_, _, r0c0_image = self._unpack_geom('image')
-    fluxmap_rows, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
+    rows_parallel_ovr, _, r0c0_parallel = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
 
     rows_im = detector_regions[arrtype]['frame_rows'] - rows_parallel_ovr
     cols_im = detector_regions[arrtype]['frame_cols'] - cols_pre - cols_serial_ovr
-    r0c0_im = r0c0_image.copy()
-    r0c0_im[0] = r0c0_im[0] - (rows_im - fluxmap_rows)
+    # the imaging area ends where the parallel overscan begins (there can be
+    # shielded pixels on all sides of the image section)
+    r0c0_im = [r0c0_parallel[0] - rows_im, r0c0_parallel[1]]
 
     return rows_im, cols_im, r0c0_im
 
-- 
2.43.0


From 90b8f143aea02ca680e0b896174e0e9481a7b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 29/89] fix: noise-map calibration crashed when the stack with
 the least gain x time had the highest gain

---
 corgidrp/darks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index d3b07e6..b727b19 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -565,7 +565,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # same time, next gain up from least gain (close in time*gain but different
     # gain so that effective read noise values are more uncorrelated)
     tinds = np.where(exptime_arr == exptime_arr[min1])
-    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min()
+    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min(initial=np.inf)
     ginds = np.where(EMgain_arr == nextg)
     intersect = np.intersect1d(tinds, ginds)
     if intersect.size > 0:
-- 
2.43.0


From 21c66662de336eb37185057f6d055a17b9a3e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 30/89] fix: noise maps of a pixel masked in every frame of a
 sub-stack were fitted with a zero in its place

---
 corgidrp/darks.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index b727b19..f924880 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -454,6 +454,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     mean_frames = []
     total_errs = []
     mean_num_good_fr = []
+    empty_maps = []
     unreliable_pix_map = np.zeros((detector_regions['SCI']['frame_rows'],
                                    detector_regions['SCI']['frame_cols'])).astype(int)
     unfittable_pix_map = unreliable_pix_map.copy()
@@ -517,6 +518,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
         mean_num_good_fr.append(mean_num)
         unreliable_pix_map += pixel_mask
         unfittable_pix_map += combined_bpmap
+        empty_maps.append(combined_bpmap.astype(bool))
     unreliable_pix_map = unreliable_pix_map.astype(int)
     mean_stack = np.stack(mean_frames)
     mean_err_stack = np.stack(total_errs)
@@ -589,6 +591,21 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
 
     # matrix to be used for least squares and covariance matrix
     X = np.array([np.ones([len(EMgain_arr)]), EMgain_arr, EMgain_arr*exptime_arr]).T
+    cov_matrix = np.linalg.inv(X.T@X)
+    cov_diag = np.tile(np.diag(cov_matrix)[:, None, None], (1,) + mean_stack[0].shape)
+    # a sub-stack in which a pixel was masked in every frame says nothing about
+    # that pixel: fit the pixel with the other sub-stacks only (put the value
+    # predicted by them in place of the missing one, so that its residual is 0)
+    empty_stack = np.stack(empty_maps)
+    num_fitted = np.maximum(M - np.sum(empty_stack, axis=0), 4)
+    for r, c in np.argwhere(empty_stack.any(axis=0) & (output_dq != 1)):
+        empty = empty_stack[:, r, c]
+        X_good = X[~empty]
+        if np.linalg.matrix_rank(X_good) < 3:
+            output_dq[r, c] = 1 # cannot be fit
+            continue
+        mean_stack[empty, r, c] = X[empty]@np.linalg.pinv(X_good)@mean_stack[~empty, r, c]
+        cov_diag[:, r, c] = np.diag(np.linalg.inv(X_good.T@X_good))
     mean_stack_Y = np.transpose(mean_stack, (2,0,1))
     params_Y = np.linalg.pinv(X)@mean_stack_Y
     #next line: checked with KKT method for including bounds
@@ -603,20 +620,19 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # This is OLS since the parameters to fit are linear in fit function
     # 3: number of fitted params
     residual_stack = mean_stack - np.transpose(X@params_Y, (1,2,0))
-    sigma2_frame = np.sum(residual_stack**2, axis=0)/(M - 3)
+    sigma2_frame = np.sum(residual_stack**2, axis=0)/(num_fitted - 3)
     # average sigma2 for image area and use that for all three vars since
     # that's only place where all 3 (F, C, and D) should be present
     sigma2_image = imaging_slice('SCI', sigma2_frame, detector_regions)
     sigma2 = np.mean(sigma2_image)
-    cov_matrix = np.linalg.inv(X.T@X)
 
     # For full frame map of standard deviation:
-    FPN_std_map = np.sqrt(sigma2_frame*cov_matrix[0,0])
-    CIC_std_map = np.sqrt(sigma2_frame*cov_matrix[1,1])
+    FPN_std_map = np.sqrt(sigma2_frame*cov_diag[0])
+    CIC_std_map = np.sqrt(sigma2_frame*cov_diag[1])
     # D_std_map here used only for bias_offset error estimate
-    DC_std_map = np.sqrt(sigma2_frame*cov_matrix[2,2])
+    DC_std_map = np.sqrt(sigma2_frame*cov_diag[2])
     # Dark current should only be in image area, so error only for that area:
-    D_std_map_im = np.sqrt(sigma2_image*cov_matrix[2,2])
+    D_std_map_im = imaging_slice('SCI', DC_std_map, detector_regions)
 
     var_matrix = sigma2*cov_matrix
     # variances here would naturally account for masked pixels due to cosmics
-- 
2.43.0


From 0668b696b921a0b4e2f8930e7a7df5750722876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 31/89] fix: split_dataset silently dropped the frames whose
 keyword is undefined

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 51f9f7a..bd8088f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -236,7 +236,7 @@ class Dataset():
         # track all combinations
         df = pd.DataFrame(data=all_data, columns=col_names)
 
-        grouped = df.groupby(col_names)
+        grouped = df.groupby(col_names, dropna=False)
 
         unique_vals = list(grouped.indices.keys()) # each unique set of values
         split_datasets = []
-- 
2.43.0


From e3c3624bd3a3f6a2d7656537408050d2c21099c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 32/89] fix: split_dataset mixed up the types of the keywords:
 equal values fell into different groups next to a text keyword

---
 corgidrp/data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index bd8088f..3cac4dd 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -231,12 +231,10 @@ class Dataset():
                 col_names.append(key)
                 col_vals.append(dataset_vals)
 
-        all_data = np.array(col_vals).T
+        # track all combinations; each column keeps the type of its own values
+        df = pd.DataFrame({i: vals for i, vals in enumerate(col_vals)})
 
-        # track all combinations
-        df = pd.DataFrame(data=all_data, columns=col_names)
-
-        grouped = df.groupby(col_names, dropna=False)
+        grouped = df.groupby(list(df.columns), dropna=False)
 
         unique_vals = list(grouped.indices.keys()) # each unique set of values
         split_datasets = []
-- 
2.43.0


From 5156717de75ac53b92db6bd000915f2d73fdca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 33/89] fix: add the standard deviation, not the variance, to
 the photon-counted error

varL23 is a variance (electrons squared) but was added to the rate as if it
were an error, understating the error extension by an order of magnitude.
---
 corgidrp/photon_counting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 70bda54..e997c58 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -261,9 +261,9 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         # statistical error from the photon-counting and photometric correction process. 
         # expected error from photon counting (biggest source from the actual values, not 
         # mean_expected_up or mean_expected_low):
-        pc_variance = varL23(em_gain,mean_expected,thresh,nframes)
-        up = mean_expected_up +  pc_variance
-        low = mean_expected_low -  pc_variance
+        pc_std = np.sqrt(varL23(em_gain,mean_expected,thresh,nframes))
+        up = mean_expected_up +  pc_std
+        low = mean_expected_low -  pc_std
         errs.append(np.max([up - mean_expected, mean_expected - low], axis=0))
         dq = (nframes == 0).astype(int) 
         pc_means.append(mean_expected)
-- 
2.43.0


From 4a7add012c2ca94703578872eb8baccbfcbe47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 34/89] fix: with safemode off, negative photon counts give a
 warning as documented

get_pc_mean(safemode=False) promises a warning both for too bright frames and
for negative counts, but the latter always raised.
---
 corgidrp/photon_counting.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index e997c58..bff3e5d 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -252,16 +252,16 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         # and it doesn't matter anyways since its DQ value will be 1 (it will be masked when the 
         # bad pixel correction is run, which comes after this photon-counting step)
         mean_expected = corr_photon_count(frame_pc_coadded, nframes, thresh,
-                                            em_gain, considered_indices, niter)
+                                            em_gain, considered_indices, niter, safemode)
         mean_expected_up = corr_photon_count(frame_pc_coadded_up, nframes, thresh,
-                                            em_gain, considered_indices, niter)
+                                            em_gain, considered_indices, niter, safemode)
         mean_expected_low = corr_photon_count(frame_pc_coadded_low, nframes, thresh,
-                                            em_gain, considered_indices, niter)
+                                            em_gain, considered_indices, niter, safemode)
         ##### error calculation: accounts for err coming from input dataset and 
         # statistical error from the photon-counting and photometric correction process. 
         # expected error from photon counting (biggest source from the actual values, not 
         # mean_expected_up or mean_expected_low):
-        pc_std = np.sqrt(varL23(em_gain,mean_expected,thresh,nframes))
+        pc_std = np.sqrt(varL23(em_gain,np.maximum(mean_expected, 0),thresh,nframes))
         up = mean_expected_up +  pc_std
         low = mean_expected_low -  pc_std
         errs.append(np.max([up - mean_expected, mean_expected - low], axis=0))
@@ -335,7 +335,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset[:index_of_last_frame_used])
         return pc_dark
 
-def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
+def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2, safemode=True):
     """Correct photon counted images.
 
     Args:
@@ -345,6 +345,7 @@ def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
         g (float): EM gain.
         mask_indices (array-like): indices of pixel positions to use.
         niter (int, optional): Number of Newton's method iterations. Defaults to 2.
+        safemode (bool, optional): If False, negative counts give a warning instead of an exception. Defaults to True.
 
     Returns:
         lam (array_like): Mean expeted electrons per pixel (lambda).
@@ -354,7 +355,7 @@ def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
     lam0 = calc_lam_approx(nobs, nfr, t, g)
 
     # Use Newton's method to converge at a value for lambda
-    lam = lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices)
+    lam = lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices, safemode)
 
     return lam
 
@@ -393,7 +394,7 @@ def calc_lam_approx(nobs, nfr, t, g):
     return lam1
 
 
-def lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices):
+def lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices, safemode=True):
     """Newton fit for finding lambda.
 
     Args:
@@ -404,6 +405,7 @@ def lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices):
         lam0 (array_like): Initial guess for lambda.
         niter (int): Number of Newton's fit iterations to take.
         mask_indices (array-like): indices of pixel positions to use.
+        safemode (bool, optional): If False, negative counts give a warning instead of an exception. Defaults to True.
 
     Returns:
         lam (array_like): Mean expected (lambda).
@@ -420,8 +422,12 @@ def lam_newton_fit(nobs, nfr, t, g, lam0, niter, mask_indices):
         lam_est_m -= func / dfunc
 
     if np.nanmin(lam_est_m.data[mask_indices]) < 0:
-        raise PhotonCountException('negative number of photon counts; '
-        'try decreasing the frametime')
+        if safemode:
+            raise PhotonCountException('negative number of photon counts; '
+            'try decreasing the frametime')
+        else:
+            warnings.warn('negative number of photon counts; '
+            'try decreasing the frametime')
 
     # Fill zero values back in
     lam = lam_est_m.filled(0)
-- 
2.43.0


From 7a8e5b4e7918c69f1c8d0d76c89f795131b5c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 35/89] fix: interpolate the core throughput at the maximum
 azimuth where it was measured

Targets at exactly the largest measured azimuth were moved to the smallest one,
so a measured location could return the throughput of another azimuth.
---
 corgidrp/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 3cac4dd..21c440f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1803,8 +1803,10 @@ class CoreThroughputCalibration(Image):
         azimuth_cor = np.arctan2(y_cor, x_cor) - azimuth0
        
         # MOD this azimuth so that we're in the right range: all angles will be
-        # within [0, azimuths.max()), including negative values
-        azimuth_cor = azimuth_cor % azimuths.max()
+        # within [0, azimuths.max()], including negative values. The maximum
+        # azimuth itself is part of the CT dataset and must not become zero
+        azimuth_cor = np.where(azimuth_cor == azimuths.max(), azimuth_cor,
+            azimuth_cor % azimuths.max())
        
         if logr: 
             radii = np.log10(radii)
-- 
2.43.0


From 4f801224c221afb476b87669094b6ac307f19caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 36/89] fix: save the core throughput map to the file the
 caller names

With save=True and a filepath nothing was written; only the default path was.
---
 corgidrp/corethroughput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..05fe131 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -535,7 +535,7 @@ def CreateCTMap(
         if filepath == None:
             # Choose a default location and filename
             filepath = os.path.join(corgidrp.default_cal_dir, 'ct_map.csv')
-            np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
-            print(f'CT map saved in {filepath:s}')
+        np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
+        print(f'CT map saved in {filepath:s}')
     
     return ct_map
-- 
2.43.0


From 70e7276961ac635ed728fac4271ed209dc6c2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 37/89] fix: flag a high OD variation of any target, not only
 of the last one

---
 corgidrp/nd_filter_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index c6dc3be..cc9863e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -471,6 +471,7 @@ def create_nd_filter_cal(stars_dataset,
     flux_results = {}
     aggregated_data_list = []
     common_metadata = {}
+    od_var_flag = False
 
     for target, files in grouped_files.items():
         if not files:
@@ -481,7 +482,8 @@ def create_nd_filter_cal(stars_dataset,
                                           phot_kwargs)
         flux_results[target] = star_data
 
-        od_var_flag = star_data['flag']
+        # one target with a high OD variation is enough to raise the flag
+        od_var_flag = bool(od_var_flag or star_data['flag'])
 
         # Convert to Nx3 array [OD, x, y]
         target_sweet_spot = np.column_stack((
-- 
2.43.0


From ef29adb90662e69ef78fc243cb24273b449aa30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 38/89] fix: leave the headers of the input frames alone in the
 ND filter calibration

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index cc9863e..72d2c3d 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From ad1fe7bacf9fcc61037ff65ef966c0605d94e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 39/89] fix: calibrate the ND filter from bright stars alone
 when a fluxcal factor is given

---
 corgidrp/nd_filter_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 72d2c3d..410aeaa 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -452,8 +452,9 @@ def create_nd_filter_cal(stars_dataset,
             dim_stars_dataset.extend(records)
 
     bright_stars_dataset = Dataset(bright_stars_dataset)
-    dim_stars_dataset = Dataset(dim_stars_dataset)
-
+    # there may be no dim star frames if a fluxcal factor is provided
+    if fluxcal_factor is None:
+        dim_stars_dataset = Dataset(dim_stars_dataset)
 
     # 2. If a fluxcal factor was provided, use that for the dim stars
     if fluxcal_factor is not None:
-- 
2.43.0


From 9bc8b9814376ba4e4ec9968a08f1e15fb6757b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 40/89] fix: give the ND filter calibration working default
 photometry parameters

---
 corgidrp/nd_filter_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 410aeaa..428a220 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -431,7 +431,8 @@ def create_nd_filter_cal(stars_dataset,
         sweet_spot_dataset (corgidrp.Data.NDFilterSweetSpotDataset): ND Filter calibration product for the dataset given
     """
     if phot_kwargs is None:
-        phot_kwargs = {}
+        # same default aperture radius and FWHM as the flux calibration
+        phot_kwargs = {'fwhm': 3} if phot_method == "Gaussian" else {'encircled_radius': 5}
 
     # 1. Split the stars dataset into dim and bright stars based on FPAMNAME or FSAMNAME
     dim_stars_dataset = []
-- 
2.43.0


From cb3c58cffdbfa8e44e862379bf5ca8739144d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 41/89] fix: compare the ND photometry with the band flux when
 the calibration factor is one of flux

---
 corgidrp/nd_filter_calibration.py | 40 +++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 428a220..9afa9ba 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -125,6 +125,32 @@ def compute_expected_band_irradiance(star_name, filter_name):
     return fluxcal.calculate_band_irradiance(transmission, calspec_flux, wave)
 
 
+def compute_expected_band_flux(star_name, filter_name):
+    """
+    Compute the expected average band flux (erg/(s*cm^2*AA)) for a given star.
+
+    Parameters:
+        star_name (str): The name of the star for which to compute the flux.
+        filter_name (str): The name of the filter used to determine the transmission curve.
+
+    Returns:
+        float: The computed average band flux in erg/(s*cm^2*AA).
+    
+    Raises:
+        ValueError: If no matching filter curve file is found.
+    """
+    calspec_filepath = fluxcal.get_calspec_file(star_name)
+    datadir = os.path.join(os.path.dirname(fluxcal.__file__), "data", "filter_curves")
+    filter_files = [f for f in os.listdir(datadir) if filter_name in f and f.endswith('.csv')]
+    if not filter_files:
+        raise ValueError(f"No filter curve available with name {filter_name}")
+    
+    filter_filename = os.path.join(datadir, filter_files[0])
+    wave, transmission = fluxcal.read_filter_curve(filter_filename)
+    calspec_flux = fluxcal.read_cal_spec(calspec_filepath, wave)
+    return fluxcal.calculate_band_flux(transmission, calspec_flux, wave)
+
+
 def compute_avg_calibration_factor(dim_stars_dataset, phot_method, flux_or_irr="irr", phot_kwargs=None):
     """
     Compute the average flux calibration factor using dim stars (no ND filter).
@@ -223,7 +249,7 @@ def _compute_od_for_file(entry, target, phot_method, phot_kwargs, ref_fpam_name,
 
 
 def process_bright_target(target, files, cal_factor, od_raster_threshold,
-                          phot_method="Aperture", phot_kwargs=None):
+                          phot_method="Aperture", phot_kwargs=None, flux_or_irr="irr"):
     """
     Process bright star files for one target to compute optical density (OD)
     and (x, y) centroids for each dithered observation.
@@ -239,6 +265,7 @@ def process_bright_target(target, files, cal_factor, od_raster_threshold,
         od_raster_threshold (float): Threshold for flagging OD variations.
         phot_method (str): Photometry method to use ("Aperture" or "Gaussian").
         phot_kwargs (dict, optional): Dictionary of keyword arguments to forward to the photometry function.
+        flux_or_irr (str): Whether the calibration factor is for flux ('flux') or in-band irradiance ('irr').
     
     Returns:
         dict: A dictionary containing computed OD values, centroids, and other metadata.
@@ -258,9 +285,12 @@ def process_bright_target(target, files, cal_factor, od_raster_threshold,
     else:
         cal_factor_value = cal_factor
 
-    # Compute expected flux
-    expected_irradiance_no_nd = compute_expected_band_irradiance(target, ref_cfam_name)
-    expected_flux = expected_irradiance_no_nd / cal_factor_value
+    # Compute expected flux, in the same quantity as the calibration factor
+    if flux_or_irr == "flux":
+        expected_no_nd = compute_expected_band_flux(target, ref_cfam_name)
+    else:
+        expected_no_nd = compute_expected_band_irradiance(target, ref_cfam_name)
+    expected_flux = expected_no_nd / cal_factor_value
 
     od_values, x_values, y_values = [], [], []
 
@@ -481,7 +511,7 @@ def create_nd_filter_cal(stars_dataset,
         print(f"Processing bright target files: {target}")
         star_data = process_bright_target(target, files, cal_factor,
                                           od_raster_threshold, phot_method,
-                                          phot_kwargs)
+                                          phot_kwargs, flux_or_irr)
         flux_results[target] = star_data
 
         # one target with a high OD variation is enough to raise the flag
-- 
2.43.0


From a8f741616f76b2e27757cfd907c6f488492490f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 42/89] fix: leave the headers of the input image alone in the
 flux calibration

---
 corgidrp/fluxcal.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..f8787c0 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -479,12 +479,10 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        bunit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        bunit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -500,10 +498,12 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = bunit
+    fluxcal_obj.err_hdr['BUNIT'] = bunit
 
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
@@ -578,12 +578,10 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        bunit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        bunit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -598,10 +596,12 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = bunit
+    fluxcal_obj.err_hdr['BUNIT'] = bunit
     
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
-- 
2.43.0


From 257990a4fce50bde071f0bf284c23f31ebf611b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 43/89] fix: let the Gaussian photometry use its default fit
 region on odd-sized frames

---
 corgidrp/fluxcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index f8787c0..275956b 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -396,7 +396,8 @@ def phot_by_gauss2d_fit(image, fwhm, fit_shape=None, background_sub=False, r_in=
     err[err == 0] = np.finfo(np.float32).eps
 
     if fit_shape is None:
-        fit_shape = image.data.shape[0] - 1
+        # the fit region has to be odd
+        fit_shape = image.data.shape[0] - 1 + image.data.shape[0] % 2
 
     psf_phot = fit_2dgaussian(dat, xypos=pos, fwhm=fwhm, fit_shape=fit_shape,
                               mask=image.dq.astype(bool), error=err)
-- 
2.43.0


From b7bb22ca8a1fee2f11ec1483f70c891ab1f64fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 44/89] fix: return the photometric zero point as the
 documented single number

---
 corgidrp/l4_to_tda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 09e40d1..8614f64 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -536,7 +536,8 @@ def calculate_zero_point(image, star_name, encircled_radius, phot_kwargs=None):
     app_mag = mag_dataset[0].ext_hdr["APP_MAG"]
 
     # Compute zero point using real measured photons
-    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
+    # the photometry also returns its error (and background), which are no part of the zero point
+    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)[0]
     zp = app_mag + 2.5 * np.log10(ap_sum)
 
     return zp
\ No newline at end of file
-- 
2.43.0


From dbbec26c69b8d0db5a65acc7fe8533933c82a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 45/89] fix: find sources with a given PSF of any box size

---
 corgidrp/l4_to_tda.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 8614f64..7b559f5 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -464,6 +464,10 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
         sigma = fwhm / (2.0 * np.sqrt(2.0 * np.log(2))) # Convert FWHM to sigma
         psf = np.exp(-(x**2 + y**2) / (2.0 * sigma**2))
 
+    # The given PSF may have a box of its own size
+    y, x = np.indices(psf.shape)
+    y -= psf.shape[0] // 2 ; x -= psf.shape[1] // 2
+
     # Generate a binary mask for PSF convolution   
     distance_map = np.sqrt(x**2 + y**2)  
     idx = np.where( (distance_map <= fwhm*0.5) )   
-- 
2.43.0


From 5b70e76df8343ee83152a3609c30eab7a9ba8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 46/89] fix: find sources close to the edge of the image

---
 corgidrp/find_source.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/corgidrp/find_source.py b/corgidrp/find_source.py
index b3f7020..d180633 100644
--- a/corgidrp/find_source.py
+++ b/corgidrp/find_source.py
@@ -62,12 +62,15 @@ def psf_scalesub(image, xy, psf, fwhm):
 
     # Scale PSF to match local flux and subtract it
     psf_window = psf.shape[0] // 2
-    psf_scaled = psf * np.nanmedian(image[
-        xy[0]-psf_window:xy[0]+psf_window+1,
-        xy[1]-psf_window:xy[1]+psf_window+1] / psf)
+    # the part of the PSF box that lies inside the image
+    y0, y1 = max(0, xy[0]-psf_window), min(image.shape[0], xy[0]+psf_window+1)
+    x0, x1 = max(0, xy[1]-psf_window), min(image.shape[1], xy[1]+psf_window+1)
+    inside = (slice(y0-xy[0]+psf_window, y1-xy[0]+psf_window),
+              slice(x0-xy[1]+psf_window, x1-xy[1]+psf_window))
+
+    psf_scaled = psf * np.nanmedian(image[y0:y1, x0:x1] / psf[inside])
     psf_scaled[idx_masked] = np.nan # Apply masking
     
-    image[xy[0]-psf_window:xy[0]+psf_window+1,
-          xy[1]-psf_window:xy[1]+psf_window+1] -= psf_scaled
+    image[y0:y1, x0:x1] -= psf_scaled[inside]
     
     return image
\ No newline at end of file
-- 
2.43.0


From 931578fe823841b6190d9d4e0c2468867b3549b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 47/89] fix: end the source search when the highest SNR equals
 the threshold

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 7b559f5..2842d14 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -480,7 +480,7 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     sn_source, xy_source = [], []
        
     # Iteratively detect sources above the SNR threshold
-    while np.nanmax(image_snmap) >= nsigma_threshold:
+    while np.nanmax(image_snmap) > nsigma_threshold:
 
         sn = np.nanmax(image_snmap)
         xy = np.unravel_index(np.nanargmax(image_snmap), image_snmap.shape)
-- 
2.43.0


From 81d200d4c9846886c0f5b68f5a0c20743739958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 48/89] fix: rotate the flags together with the data in northup

---
 corgidrp/l3_to_l4.py | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 6f7ec86..9d6e0a6 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -10,8 +10,6 @@ from corgidrp import star_center
 import corgidrp
 from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
-from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
-from scipy.ndimage import shift
 import warnings
 import numpy as np
 import pyklip.rdi
@@ -727,27 +725,12 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
         #############
 
         ## HDU DQ ##
-        # all DQ pixels must have integers, use scipy.ndimage.rotate with order=0 instead of klip.rotate (rotating the other way)
-        dq_data = processed_data.dq
-        if xcen != xlen/2 or ycen != ylen/2:
-                # padding, shifting (rot center to image center), rotating, re-shift (image center to rot center), and cropping
-                # calculate shift values
-                xshift = xcen-xlen/2; yshift = ycen-ylen/2
-
-                # pad and shift
-                pad_x = int(np.ceil(abs(xshift))); pad_y = int(np.ceil(abs(yshift)))
-                dq_data_padded = np.pad(dq_data,pad_width=((pad_y, pad_y), (pad_x, pad_x)),mode='constant',constant_values=0)
-                dq_data_padded_shifted = shift(dq_data_padded,(-yshift,-xshift),order=0,mode='constant',cval=0)
-
-                # define slices for cropping
-                crop_x = slice(pad_x,pad_x+xlen); crop_y = slice(pad_y,pad_y+ylen)
-
-                # rotate (invserse direction to pyklip.rotate), re-shift, and crop
-                dq_derot = shift(rotate_scipy(dq_data_padded_shifted, -roll_angle, order=0, mode='constant', reshape=False, cval=0),\
-                 (yshift,xshift),order=0,mode='constant',cval=0)[crop_y,crop_x]
-        else:
-                # simply rotate 
-                dq_derot = rotate_scipy(dq_data, -roll_angle, order=0, mode='constant', reshape=False, cval=0)
+        # all DQ pixels must have integers, take the value of the nearest pixel. Flags are rotated about the same
+        # center as the data: this maps each (y, x) of the derotated frame to its place in the original one
+        roll_rad = np.radians(roll_angle)
+        rot_matrix = np.array([[np.cos(roll_rad), -np.sin(roll_rad)], [np.sin(roll_rad), np.cos(roll_rad)]])
+        rot_offset = np.array([ycen, xcen]) - rot_matrix @ np.array([ycen, xcen])
+        dq_derot = scipy.ndimage.affine_transform(processed_data.dq, rot_matrix, offset=rot_offset, order=0, mode='grid-constant', cval=0)
 
         new_all_dq.append(dq_derot)
         ############
-- 
2.43.0


From a25301e7ea35c3ef9aeab92c582895ac237b6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 49/89] fix: keep the star location and the WCS reference pixel
 with the rotated image in northup

---
 corgidrp/l3_to_l4.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 9d6e0a6..20015f9 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -716,6 +716,17 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
             sci_hd['CD1_2'] = astr_hdr.wcs.cd[0,1]
             sci_hd['CD2_1'] = astr_hdr.wcs.cd[1,0]
             sci_hd['CD2_2'] = astr_hdr.wcs.cd[1,1]
+
+        # the star and the WCS reference pixel move with the image
+        roll_rad = np.radians(roll_angle)
+        moving_keys = [('STARLOCX', 'STARLOCY')]
+        if use_wcs:
+            moving_keys.append(('CRPIX1', 'CRPIX2'))
+        for xkey, ykey in moving_keys:
+            if xkey in sci_hd and ykey in sci_hd:
+                dx, dy = sci_hd[xkey] - xcen, sci_hd[ykey] - ycen
+                sci_hd[xkey] = xcen + dx*np.cos(roll_rad) - dy*np.sin(roll_rad)
+                sci_hd[ykey] = ycen + dx*np.sin(roll_rad) + dy*np.cos(roll_rad)
         #############
 
         ## HDU ERR ##
-- 
2.43.0


From 4d794e8e4923320a3e24247ac5216994c3932ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 50/89] fix: correct the distortion of images that are not
 square

---
 corgidrp/l3_to_l4.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 20015f9..956481b 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -38,14 +38,10 @@ def distortion_correction(input_dataset, astrom_calibration):
     for undistorted_data in undistorted_dataset:
 
         im_data = undistorted_data.data
-        imgsizeX, imgsizeY = im_data.shape
-
-        # set image size to the largest axis if not square imagea
-        if (imgsizeX >= imgsizeY): imgsize = imgsizeX
-        else: imgsize = imgsizeY
+        imgsizeY, imgsizeX = im_data.shape
 
         yorig, xorig = np.indices(im_data.shape)
-        y0, x0 = imgsize//2, imgsize//2
+        y0, x0 = imgsizeY//2, imgsizeX//2
         yorig -= y0
         xorig -= x0
 
@@ -75,7 +71,7 @@ def distortion_correction(input_dataset, astrom_calibration):
         distmapY = y_corr - yorig
 
         # apply the distortion grid to the image indeces and map the image
-        gridx, gridy = np.meshgrid(np.arange(imgsize), np.arange(imgsize))
+        gridx, gridy = np.meshgrid(np.arange(imgsizeX), np.arange(imgsizeY))
         gridx = gridx - distmapX
         gridy = gridy - distmapY
 
-- 
2.43.0


From d3d335a8330f23be344e3df6a9eebf59ff52fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 51/89] fix: move errors and flags with the data in the
 distortion correction

---
 corgidrp/l3_to_l4.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 956481b..adfd9dc 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -33,6 +33,8 @@ def distortion_correction(input_dataset, astrom_calibration):
     distortion_order = int(astrom_calibration.distortion_coeffs[-1])
 
     undistorted_ims = []
+    undistorted_errs = []
+    undistorted_dqs = []
 
     # apply the distortion correction to each image in the dataset
     for undistorted_data in undistorted_dataset:
@@ -79,9 +81,14 @@ def distortion_correction(input_dataset, astrom_calibration):
 
         undistorted_ims.append(undistorted_image)
 
+        # errors and flags move with the data (flags are integers: take the nearest pixel)
+        undistorted_errs.append(np.array([scipy.ndimage.map_coordinates(err_layer, [gridy, gridx], order=1) for err_layer in undistorted_data.err]))
+        undistorted_dqs.append(scipy.ndimage.map_coordinates(undistorted_data.dq, [gridy, gridx], order=0))
+
     history_msg = 'Distortion correction completed'
 
-    undistorted_dataset.update_after_processing_step(history_msg, new_all_data=np.array(undistorted_ims))
+    undistorted_dataset.update_after_processing_step(history_msg, new_all_data=np.array(undistorted_ims),
+                                                     new_all_err=np.array(undistorted_errs), new_all_dq=np.array(undistorted_dqs))
 
     return undistorted_dataset
 
-- 
2.43.0


From ac9b1a89ac09380c4ce02b3b42b342e84758df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 52/89] fix: pad the on-sky flat field to 1024 pixels by
 default

---
 corgidrp/flat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 7cfeb5b..f675cdb 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -206,7 +206,8 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
         im_size = dataset[0].data.shape[0]
 
     if n_pad is None:
-        n_pad = 1024 - im_size
+        # pixels to add on each side
+        n_pad = (1024 - im_size)//2
         if n_pad < 0:
             n_pad = 0 
 
-- 
2.43.0


From d0a4c2898dd3f3c3dd20cd0619d1caead9dcfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 53/89] fix: give the error of the on-sky flat field the shape
 of an error map

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index f675cdb..23045df 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -257,6 +257,6 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
     raster_com=combine_flatfield_rasters(resi_images,planet=planet,band=band,cent=cent, im_size=im_size, rad_mask=rad_mask,planet_rad=planet_rad,n_pix=n_pix, n_pad=n_pad)
     onskyflat=raster_com[0]
     onsky_flatfield = data.FlatField(onskyflat, pri_hdr=prihdr, ext_hdr=exthdr, input_dataset=dataset)
-    onsky_flatfield.err=raster_com[1]
+    onsky_flatfield.err=raster_com[1].reshape((1,)+raster_com[1].shape) # Get it into the right dimension
     
     return(onsky_flatfield)
-- 
2.43.0


From 0fb61ba32342e7ff42f6ee34f5f1d4f7cf2e33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 54/89] fix: use the second set of repeated exposures for the
 drift in calibrate_nonlin

---
 corgidrp/calibrate_nonlin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..0de658e 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -614,8 +614,9 @@ def calibrate_nonlin(dataset_nl,
                     mean_signal.append(np.nanmean(frame_mean))
                     repeat1_mean_signal = np.nanmean(frame_mean)
                     
+                    frame_mean = []
                     second_half = len(selected_files)
-                    for i in range(first_half + 1, second_half):
+                    for i in range(first_half, second_half):
                        
                         frame_1 = selected_files[i]
                         frame_1 = frame_1.astype(np.float64)
-- 
2.43.0


From 48c94b481ba94dc2d09819b880005012faa8baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 55/89] fix: evaluate the illumination drift at the times of
 the frames in calibrate_nonlin

---
 corgidrp/calibrate_nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 0de658e..6678d53 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -674,7 +674,7 @@ def calibrate_nonlin(dataset_nl,
         illum_inter = repeat1_mean_signal - illum_slope * first_half_mean_time
         
         # Adjust observations based on calculated slope and intercept
-        illum_obs = (group_mean_time - group_mean_time[0]) * illum_slope + illum_inter
+        illum_obs = np.array(group_mean_time) * illum_slope + illum_inter
         
         # Correct the illumination observations
         illum_corr = illum_obs / illum_obs[0]
-- 
2.43.0


From 5cc9d49f12d55ed035404d65df919289235afe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 56/89] fix: record one measured EM gain per set of frames in
 calibrate_nonlin

---
 corgidrp/calibrate_nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 6678d53..97ecc5f 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -907,7 +907,7 @@ def nonlin_dataset_2_stack(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
             else:
                 raise Exception('OBSNAME can only be MNFRAME or NONLIN in non-linearity')
         
-- 
2.43.0


From 577cd9fbdd8b78ec75929a054707ccaca8a43b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 57/89] fix: leave the headers of the input frames alone in
 calibrate_kgain

---
 corgidrp/calibrate_kgain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..d9371d5 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
-- 
2.43.0


From 1b9bb11348cbdd9f204e2260a5239dd90a4ec844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 58/89] fix: leave the headers of the input frames alone in
 calibrate_nonlin

---
 corgidrp/calibrate_nonlin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 97ecc5f..7dd4955 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -823,8 +823,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
-- 
2.43.0


From 7446b91bf972ddc52ed73b40b1c29d79cdf1ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 59/89] fix: leave the headers of the input frames alone in the
 trap calibration

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index adca7b3..0aa60bf 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -3289,8 +3289,8 @@ def create_TrapCalibration_from_trap_dict(trap_dict,input_dataset):
         trap_cal_array[i,9] = dict_entry['tau at input T']
 
     #Great the header from the first file
-    first_file_pri_hdr = input_dataset[0].pri_hdr
-    first_file_ext_hdr = input_dataset[0].ext_hdr
+    first_file_pri_hdr = input_dataset[0].pri_hdr.copy()
+    first_file_ext_hdr = input_dataset[0].ext_hdr.copy()
 
     trapcal = TrapCalibration(trap_cal_array,pri_hdr = first_file_pri_hdr, 
                     ext_hdr = first_file_ext_hdr, 
-- 
2.43.0


From 0da83f59d1fdc6f9ad4674184752c8566f997581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 60/89] fix: find the orientation of the image for any north
 angle in match_sources

---
 corgidrp/astrom.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..480ab1d 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -496,14 +496,23 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     best_l1, best_l2, best_l3 = field_side_lengths[best_ind]
     initial_platescale = np.mean(np.array([best_l1 / l1, best_l2 / l2, best_l3 / l3]))  # [deg/mas]
 
-    # find pseudo north angle from difference in triangle rotations from the target value
-    # using found target pixel
-  
-    # rot_image = np.array([angle_between(((xmid-1) //2, (ymid-1) //2), (s['x'], s['y'])) for s in [source1, source2, source3]])
-    rot_image = np.array([angle_between((targetx, targety), (s['x'], s['y'])) for s in [source1, source2, source3]])
-    rot_field = np.array([target_skycoord.position_angle(t).deg for t in skycoords[[best_sky_ind]]])
-
-    initial_northangle = np.abs(np.mean(rot_field - rot_image))
+    # find pseudo north angle from the rotation between the sides of the two triangles
+    # pair up the vertices of the triangles by the length of the side opposite to them
+    image_triangle = [source1, source2, source3]
+    sky_triangle = [skycoords[j] for j in best_sky_ind]
+    opposite_sides = [(1, 2), (2, 0), (0, 1)]
+    image_order = np.argsort([np.hypot(image_triangle[j]['x'] - image_triangle[k]['x'], image_triangle[j]['y'] - image_triangle[k]['y']) for j, k in opposite_sides])
+    sky_order = np.argsort([sky_triangle[j].separation(sky_triangle[k]).mas for j, k in opposite_sides])
+
+    rot_image = np.empty(3)
+    rot_field = np.empty(3)
+    for i, (j, k) in enumerate(opposite_sides):
+        v1, v2 = image_triangle[image_order[j]], image_triangle[image_order[k]]
+        rot_image[i] = angle_between((v1['x'], v1['y']), (v2['x'], v2['y']))
+        rot_field[i] = sky_triangle[sky_order[j]].position_angle(sky_triangle[sky_order[k]]).deg
+
+    rotations = np.radians(rot_field - rot_image)
+    initial_northangle = np.degrees(np.arctan2(np.mean(np.sin(rotations)), np.mean(np.cos(rotations))))
 
     # make a new image header with the pseudo platescale and north angle to find matchings
     # allow for some error window and assign the closest star to each source
-- 
2.43.0


From f2415321c332a2942d0c1272ea113172f2d09b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 61/89] fix: measure the north angle over the full circle and
 without the pointing error

---
 corgidrp/astrom.py | 69 ++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 480ab1d..87b25de 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -679,7 +679,7 @@ def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_o
 def compute_platescale_and_northangle(image, source_info, center_coord, center_radius=0.9):
     """
     Used to find the platescale and north angle of the image. Calculates the platescale for each pair of stars in the image
-    and returns the averged platescale. Calculates the north angle for pairs of stars with the center target
+    and returns the averged platescale. Calculates the north angle for each pair of stars
     and returns the averged north angle.
     
     Args:
@@ -692,7 +692,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
 
     Returns:
         platescale (float): Platescale [mas/pixel]
-        north_angle (float): Angle between image north and true north [deg]
+        north_angle (float): Angle between image north and true north [deg], between -180 and 180
         
     """
 
@@ -706,11 +706,8 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         guesses = source_info
         skycoords = SkyCoord(ra = guesses['RA'], dec= guesses['DEC'], unit='deg', frame='icrs')
 
-    # translate the center_coord param into a skycoord
     if type(center_coord) != tuple:
         raise TypeError('center_coord must be a tuple coordinate (RA,DEC)')
-    else:
-        center_coord = SkyCoord(ra = center_coord[0], dec= center_coord[1], unit='deg', frame='icrs')
 
     # use only center quadrant
     imageshape = np.shape(image)
@@ -757,7 +754,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     platescale = np.mean(platescales)
 
     # North angle calculation
-    # find the true centerings of the sources in the image from the guesses and save into a table
+    # find the true centerings of the sources in the image from the guesses
     xs = np.empty(len(sub_guesses))
     ys = np.empty(len(sub_guesses))
     for i, (gx, gy) in enumerate(zip(sub_guesses['x'], sub_guesses['y'])):
@@ -765,47 +762,22 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         xs[i] = x
         ys[i] = y
 
-    sources = astropy.table.Table()
-    sources['x'] = xs
-    sources['y'] = ys
-
-    # find the sky position angles between the center star and all others
-    pa_sky = np.empty(len(sub_skycoords))
-    for i, star in enumerate(sub_skycoords):
-        pa = center_coord.position_angle(star).deg
-        pa_sky[i] = pa
-
-    # find the pixel position angles
-    pa_pixel = np.empty(len(sub_guesses))
-    for i, (x, y) in enumerate(zip(xs, ys)):
-        pa = angle_between(((np.shape(image)[0]-1)//2, (np.shape(image)[1]-1)//2), (x,y))
-        pa_pixel[i] = pa
-
-    # find the difference between the measured and true positon angles
-    offset = np.empty(len(sub_guesses))
-    # locate a potential comparison with self
-    if len(np.where((sub_skycoords.ra.value == center_coord.ra.value) & (sub_skycoords.dec.value == center_coord.dec.value))[0]) > 0:
-        same_ind = np.where((sub_skycoords.ra.value == center_coord.ra.value) & (sub_skycoords.dec.value == center_coord.dec.value))[0][0]
-    else:
-        same_ind = None
-
-    for i, (sky, pix) in enumerate(zip(pa_sky, pa_pixel)):
-        if i != same_ind:
-            numerator = np.sin(np.radians(sky - pix))
-            denominator = np.cos(np.radians(sky - pix))
-            north_offset = np.degrees(np.arctan(numerator / denominator))
-            # if sky > pix:
-            #     north_offset = sky - pix
-            # else:
-            #     north_offset = sky - pix + 360 
-            offset[i] = north_offset
-
-    # get rid of the comparison with self if it exists
-    if same_ind != None:
-        offset = np.delete(offset, same_ind)
-
-    # use the median to avoid bias
-    north_angle = np.mean(offset)
+    # find the difference between the sky and pixel position angles for all combinations
+    # pairs of stars are compared, because the pointing may be off the target coordinate
+    offsets = np.empty(len(combo_list))
+    for i,c in enumerate(combo_list):
+        pa_sky = sub_skycoords[c[0]].position_angle(sub_skycoords[c[1]]).rad
+        pa_pixel = np.radians(angle_between((xs[c[0]], ys[c[0]]), (xs[c[1]], ys[c[1]])))
+        offsets[i] = pa_sky - pa_pixel
+
+    # average the directions, giving widely separated pairs their larger weight
+    weights = pixseps**2
+    mean_offset = np.arctan2(np.sum(weights * np.sin(offsets)), np.sum(weights * np.cos(offsets)))
+
+    # use the median around this direction to avoid bias
+    deviations = offsets - mean_offset
+    north_angle = mean_offset + np.median(np.arctan2(np.sin(deviations), np.cos(deviations)))
+    north_angle = np.degrees(np.arctan2(np.sin(north_angle), np.cos(north_angle)))
     
     return platescale, north_angle
 
@@ -1139,7 +1111,8 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     avg_dec = np.mean([astro.avg_offset[1] for astro in astroms])
     avg_platescale_x = np.mean([astro.platescale[0] for astro in astroms])
     avg_platescale_y = np.mean([astro.platescale[1] for astro in astroms])
-    avg_northangle = np.mean([astro.northangle for astro in astroms])
+    northangles = np.radians([astro.northangle for astro in astroms])
+    avg_northangle = np.degrees(np.arctan2(np.mean(np.sin(northangles)), np.mean(np.cos(northangles))))
 
     # compute the distortion map coeffs
     if find_distortion:
-- 
2.43.0


From 03bad35d971e9789ce914fd7385e3db4eef411bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 62/89] fix: rotate the boresight offset onto the sky

---
 corgidrp/astrom.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 87b25de..0f836d4 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -796,8 +796,8 @@ def compute_boresight(image, source_info, target_coordinate, cal_properties):
             (float): North angle
 
     Returns:
-        image_center_RA (float): RA coordinate of the center pixel
-        image_center_DEC (float): Dec coordinate of the center pixel
+        boresight_ra (float): RA of the target minus RA of the center pixel [deg]
+        boresight_dec (float): Dec of the target minus Dec of the center pixel [deg]
     
     """
     if type(image) != np.ndarray:
@@ -858,13 +858,10 @@ def compute_boresight(image, source_info, target_coordinate, cal_properties):
     # average all offsets in x,y directions [pix]
     boresight_x, boresight_y = np.mean(boresights[:,0]), np.mean(boresights[:,1])
 
-    # convert back to corrected RA, DEC of target
-    # image_center_RA = target_coordinate[0] - ((boresight_x * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-    # image_center_DEC = target_coordinate[1] - ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-
     # report the offsets instead of the new RA/DEC
-    boresight_ra = ((boresight_x * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-    boresight_dec = ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
+    # rotate the average offset onto the sky, in the sense that the image center is at the target coordinate minus the offset
+    boresight_ra, boresight_dec = cdmatrix @ np.array([boresight_x, boresight_y])
+    boresight_ra /= np.cos(np.radians(target_coordinate[1]))
 
     return boresight_ra, boresight_dec
 
-- 
2.43.0


From 1024d984ef56a10e1b2d4cc775538da991b61dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 63/89] fix: leave the input frames alone in
 boresight_calibration

---
 corgidrp/astrom.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 0f836d4..e044954 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1129,7 +1129,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     astromcal_data = np.concatenate((np.array([corr_pos_ra, corr_pos_dec, avg_platescale_x, avg_platescale_y, avg_northangle, avg_ra, avg_dec]), np.array(distortion_coeffs), np.array([order])), axis=0)
 
     astroms_dataset = corgidrp.data.Dataset(astroms)
-    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr, ext_hdr=input_dataset[0].ext_hdr, input_dataset=astroms_dataset)
+    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy(), input_dataset=astroms_dataset)
     # add the corrected RA/DEC for each frame to the ext_hdr
     for i, corr in enumerate(corrected_positions_boresight):
         name = 'F'+str(i)+'POS'
@@ -1139,8 +1139,6 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     history_msg = "Boresight calibration completed"
     astrom_cal_dataset = corgidrp.data.Dataset([avg_cal])
     astrom_cal_dataset.update_after_processing_step(history_msg)
-    ## history message should be added to the input dataset(?)
-    input_dataset.update_after_processing_step(history_msg)
 
     return avg_cal
 
-- 
2.43.0


From b80138e55b45e0fff50b98b0a48c802a3b39aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 64/89] fix: find the sources of images that are not square

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index e044954..b44721d 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -396,7 +396,7 @@ def find_source_locations(image_data, threshold=10, fwhm=7, mask_rad=1):
     # pad the image to fit stars along the edge
 
     pad = 25
-    full_frame = np.zeros([image_shape[1]+(pad*2), image_shape[0]+(pad*2)])
+    full_frame = np.zeros([image_shape[0]+(pad*2), image_shape[1]+(pad*2)])
     full_frame[pad:-pad, pad:-pad] = image_data
     fit_gauss_image = np.copy(full_frame)
 
-- 
2.43.0


From 7c94545ef1c8090ee14f63eeb9b5597a85110707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 65/89] fix: use the headers and the name of their own frames
 for the combined frames in boresight_calibration

---
 corgidrp/astrom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index b44721d..298e1c1 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1055,10 +1055,11 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[-1].filename
             else:
                 sub_array = data_array[count - frames_to_combine: count]
-                file_name = input_dataset[count].filename
+                file_name = input_dataset[count - 1].filename
 
             comb = np.mean(sub_array, axis=0)
-            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr, ext_hdr=input_dataset[0].ext_hdr)
+            first = input_dataset[count - frames_to_combine]
+            im = corgidrp.data.Image(comb, pri_hdr=first.pri_hdr.copy(), ext_hdr=first.ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
         
@@ -1114,9 +1115,9 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     # compute the distortion map coeffs
     if find_distortion:
         # use the found matches for distortion
-        first_stars, offsets, true_offsets, errs = format_distortion_inputs(input_dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
+        first_stars, offsets, true_offsets, errs = format_distortion_inputs(dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
         mean_xy_platescale = np.mean([avg_platescale_x, avg_platescale_y])
-        distortion_coeffs, order = compute_distortion(input_dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
+        distortion_coeffs, order = compute_distortion(dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
     else:
         # set default coeffs to produce zero distortion
         fitparams = (fitorder + 1)**2
-- 
2.43.0


From c6a9975cf11c3763263052dd24d5c0949672eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 66/89] fix: use the given field matches in
 boresight_calibration

---
 corgidrp/astrom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 298e1c1..c4c9663 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1086,8 +1086,11 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
         target_coord_tables.append(target_coord_tab)
    
         # compute the calibration properties
-        found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
-        matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
+        if field_matches is not None:
+            matched_sources = matched_sources_multiframe[i]
+        else:
+            found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
+            matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
         # if len(hold_matches) < 1:
         hold_matches.append(matched_sources)
 
-- 
2.43.0


From 34e6ce848f157bb73742055d2bac7a7da699bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 67/89] fix: fit the distortion around the center of the image,
 whatever its size

---
 corgidrp/astrom.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index c4c9663..ccec3be 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -580,7 +580,7 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
 
     return matched_image_to_field
 
-def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_offset, sky_offset, meas_errs):
+def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_offset, sky_offset, meas_errs, center=(511., 511.)):
     '''
     Cost function used to fit the legendre polynomials for distortion mapping.
 
@@ -593,6 +593,7 @@ def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_o
         meas_offset (np.array): A (2 x N) array of (x, y) pixel offset from the first star position for N star pairs
         sky_offset (np.array): A (2 x N) array of (sep, pa) true sky offsets in [mas] and [deg] from the first star position for N pairs 
         meas_errs (np.array): A (2 x N) array of (x, y) pixel errors in measured offsets from the first star position for N pairs
+        center (tuple): The (x, y) pixel position of the center of the detector, which the legendre polynomials are defined around (default: (511, 511))
 
     Returns:
         residuals (list): List of residuals between true and measured star positions
@@ -616,8 +617,8 @@ def fit_distortion_solution(params, fitorder, platescale, rotangle, pos1, meas_o
     binary_offsets = np.copy(meas_offset).T
     star1_pos = np.copy(pos1).T
     # center to center of detector
-    star1_pos[:,0] -= 511.        # because leg coeffs are defined around (0,0)
-    star1_pos[:,1] -= 511.        # make a new param in the function to pass in detector shape?
+    star1_pos[:,0] -= center[0]        # because leg coeffs are defined around (0,0)
+    star1_pos[:,1] -= center[1]
 
     # derive star2 position
     star2_pos = star1_pos + binary_offsets
@@ -959,8 +960,8 @@ def compute_distortion(input_dataset, pos1, meas_offset, sky_offset, meas_errs,
     ## SET FITTING PARAMS
     # assume all images in dataset have the same shape
     input_image = input_dataset[0].data
-    x0 = np.shape(input_image)[1] // 2
-    y0 = np.shape(input_image)[0] // 2
+    x0 = (np.shape(input_image)[1] - 1) // 2
+    y0 = (np.shape(input_image)[0] - 1) // 2
     
     # define fitting params            
     fitparams = (fitorder + 1)**2
@@ -974,7 +975,7 @@ def compute_distortion(input_dataset, pos1, meas_offset, sky_offset, meas_errs,
     (distortion_coeffs, _) = optimize.leastsq(fit_distortion_solution, initial_guess, 
                                               args=(fitorder, platescale, 
                                                 northangle, pos1, meas_offset, 
-                                                sky_offset, meas_errs))
+                                                sky_offset, meas_errs, (x0, y0)))
 
     return (distortion_coeffs, fitorder)
   
-- 
2.43.0


From 420571712f7957ca11859216db6b15f4f631dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 68/89] fix: fit the distortion to the matched positions of the
 stars

---
 corgidrp/astrom.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index ccec3be..db7afdf 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -873,7 +873,7 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
         input_dataset (corgidrp.data.dataset): corgidrp dataset object with images to compute the distortion from
         source_matches (list of astropy.table.Table() objects): List of length N for N frames in the input dataset. Tables must columns 'x','y','RA','DEC' as pixel locations and corresponding sky positons
         ref_star_pos (list of astropy.table.Table() objects): List of length N for N frames. Tables must have column names 'x', 'y', 'RA', 'DEC' for the position of the reference position to compute pairs with
-        position_error (NoneType or int): If int, this is the uniform error value assumed for the offset between pairs of stars in both x and y
+        position_error (NoneType or int): If int, this is the uniform error value assumed for the offset between pairs of stars in both x and y, if None it is 1 pixel
                         Should be changed later to accept non-uniform errors
         
     Returns:
@@ -890,8 +890,6 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
 
     ## Loop over every frame in the dataset
     for frame_ind in range(len(input_dataset)):
-        input_image = input_dataset[frame_ind].data
-
         # create all combinations of the target star with all others
         combo_list = range(len(source_matches[frame_ind]))
         skycoords = SkyCoord(ra= source_matches[frame_ind]['RA'], dec= source_matches[frame_ind]['DEC'], unit='deg', frame='icrs')
@@ -902,10 +900,8 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
             star1 = ref_star_pos[frame_ind]
             star2 = source_matches[frame_ind][pair_ind]
     
-            x_guess = star2['x'] - star1['x']
-            y_guess = star2['y'] - star1['y']
-        
-            (dx, dy), (xfit_err, yfit_err, _) = measure_offset(input_image, star2['x'], star2['y'], x_guess, y_guess, guessflux=10000)
+            dx = star2['x'] - star1['x']
+            dy = star2['y'] - star1['y']
     
             # get the true sky offset [mas]
             true1 = target_coord
@@ -922,9 +918,10 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
             seps = np.append(seps, true_sep)
             pas = np.append(pas, true_pa)
     
+            # without a given error, all offsets get the same weight
             if type(position_error) == type(None):
-                xerrs = np.append(xerrs, xfit_err)
-                yerrs = np.append(yerrs, yfit_err)
+                xerrs = np.append(xerrs, 1.)
+                yerrs = np.append(yerrs, 1.)
             else:
                 xerrs = np.append(xerrs, position_error)
                 yerrs = np.append(yerrs, position_error)
-- 
2.43.0


From a8256ce59144274bbb18e665f9d10e01e28f9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 69/89] fix: center the default circular mask on images that
 are not square

---
 corgidrp/astrom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index db7afdf..7282b0f 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1150,7 +1150,7 @@ def create_circular_mask(shape_yx, center=None, r=None):
 
     Args:
         shape_yx (list-like of int): 
-        center (list of float, optional): Center of mask. Defaults to the 
+        center (list of float, optional): Center (x, y) of mask. Defaults to the 
             center of the array.
         r (float, optional): radius of mask. Defaults to the minimum distance 
             from the center to the edge of the array.
@@ -1160,9 +1160,9 @@ def create_circular_mask(shape_yx, center=None, r=None):
     """
     shape_yx = np.array(shape_yx)
     if center is None: # use the middle of the image
-        center = (shape_yx-1) / 2
+        center = (shape_yx[::-1]-1) / 2
     if r is None: # use the smallest distance between the center and image walls
-        r = min(center[0], center[1], shape_yx[0]-center[0], shape_yx[1]-center[1])
+        r = min(center[0], center[1], shape_yx[1]-center[0], shape_yx[0]-center[1])
 
     Y, X = np.ogrid[:shape_yx[0], :shape_yx[1]]
     dist_from_center = np.sqrt((X - center[0])**2 + (Y-center[1])**2)
-- 
2.43.0


From bec416c5fa44aaa8e2a3ab2a0d47015a74e934bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 70/89] fix: start the fits of the star positions at the peaks
 of the stars

---
 corgidrp/astrom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 7282b0f..dbca9b2 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -401,7 +401,7 @@ def find_source_locations(image_data, threshold=10, fwhm=7, mask_rad=1):
     fit_gauss_image = np.copy(full_frame)
 
     for i, (gx, gy) in enumerate(zip(xs[~np.isnan(xs)], ys[~np.isnan(ys)])):
-        pf, fw, x, y = fakes.gaussfit2d(frame= fit_gauss_image, xguess= gx+pad, yguess=gy+pad)
+        pf, fw, x, y = fakes.gaussfit2d(frame= fit_gauss_image, xguess= gx+pad, yguess=gy+pad, guesspeak=image_data[int(gy), int(gx)])
         fit_xs[i] = x - pad
         fit_ys[i] = y - pad
 
@@ -450,7 +450,7 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     target = image.pri_hdr['RA'], image.pri_hdr['DEC']
     
     ymid, xmid = image.data.shape   # fit gaussian to find target x,y location (assuming near center)
-    pf, fw, targetx, targety = fakes.gaussfit2d(frame= image.data, xguess= (xmid-1)//2, yguess= (ymid-1)//2)
+    pf, fw, targetx, targety = fakes.gaussfit2d(frame= image.data, xguess= (xmid-1)//2, yguess= (ymid-1)//2, guesspeak=image.data[(ymid-1)//2, (xmid-1)//2])
 
     target_skycoord = SkyCoord(ra= target[0], dec= target[1], unit='deg')
     subfield = field[((field['RA'] >= target[0] - rad) & (field['RA'] <= target[0] + rad) & (field['DEC'] >= target[1] - rad) & (field['DEC'] <= target[1] + rad))]
@@ -759,7 +759,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     xs = np.empty(len(sub_guesses))
     ys = np.empty(len(sub_guesses))
     for i, (gx, gy) in enumerate(zip(sub_guesses['x'], sub_guesses['y'])):
-        pf, fw, x, y = fakes.gaussfit2d(frame= image, xguess= gx, yguess=gy)
+        pf, fw, x, y = fakes.gaussfit2d(frame= image, xguess= gx, yguess=gy, guesspeak=image[int(np.rint(gy)), int(np.rint(gx))])
         xs[i] = x
         ys[i] = y
 
@@ -850,7 +850,7 @@ def compute_boresight(image, source_info, target_coordinate, cal_properties):
     boresights = np.zeros((len(quad_guesses), 2))
     searchrad = 5
     for i, (xg, yg) in enumerate(zip(quad_guesses['x'], quad_guesses['y'])):
-        p, f, xi_center, yi_center = fakes.gaussfit2d(frame= image, xguess= xg, yguess= yg, searchrad=searchrad)
+        p, f, xi_center, yi_center = fakes.gaussfit2d(frame= image, xguess= xg, yguess= yg, searchrad=searchrad, guesspeak=image[int(np.rint(yg)), int(np.rint(xg))])
         x_off = xi_center - x_predict[i]
         y_off = yi_center - y_predict[i]
         boresights[i,:] = [x_off, y_off]
-- 
2.43.0


From 8d4aa842f8d743b21a5d064c6f1d3189976cd598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 71/89] fix: let the fit of the offset between two stars move
 from its initial guess

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index dbca9b2..7db0fbf 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -103,7 +103,7 @@ def shift_psf(frame, dx, dy, flux, fitsize=10, stampsize=10):
     xstamp += stampsize//2 + dx
     ystamp += stampsize//2 + dy
     
-    return ndi.map_coordinates(frame * flux, [ystamp, xstamp], mode='constant', cval=0.0).ravel()
+    return ndi.map_coordinates(frame * flux, [ystamp, xstamp], mode='nearest').ravel()
     
 def measure_offset(frame, xstar_guess, ystar_guess, xoffset_guess, yoffset_guess, guessflux=1, rad=5, stampsize=10):
     """
-- 
2.43.0


From 7b69a8afbc2f19b3e138bae744f45c5506ecead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 72/89] fix: leave the default satellite spot parameters alone
 when some are replaced

---
 corgidrp/star_center.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index fbae097..9e91a8e 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from scipy.optimize import minimize
 
@@ -166,6 +167,9 @@ def update_parameters(params, new_values):
         >>> update_parameters(params, new_values)
         KeyError: "Subkey 'w' is not a valid parameter under key 'b'."
     """
+    # leave the original values alone
+    params = copy.deepcopy(params)
+
     for key, subdict in new_values.items():
         if key not in params:
             raise KeyError(f"Key '{key}' is not a valid parameter.")
-- 
2.43.0


From 6fea5e5456fd5871c9ae31fdfcc8617488a37180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 73/89] fix: search for the satellite spots at the given angle

---
 corgidrp/star_center.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index 9e91a8e..4d911d6 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -997,8 +997,11 @@ def star_center_from_satellite_spots(
     # Subtract reference image from satellite spot image to highlight satellite spots
     img_spots = img_sat_spot - img_ref
 
-    # Grab the relevant tuning parameters
-    tuningParamDict = satellite_spot_parameters
+    # Grab the relevant tuning parameters, and search for the spots at their rotated locations
+    tuningParamDict = {}
+    for key in ('offset', 'separation'):
+        tuningParamDict[key] = dict(satellite_spot_parameters[key])
+        tuningParamDict[key]["probeRotVecDeg"] = [theta_deg + thetaOffsetGuess for theta_deg in satellite_spot_parameters[key]["probeRotVecDeg"]]
 
     # estimate star location:
     # calc_star_location_from_spots should return (xOffsetEst, yOffsetEst)
@@ -1017,7 +1020,7 @@ def star_center_from_satellite_spots(
     # calculate locations of spot pairs
     list_spots_xy = []
     for theta_deg in probeRotVecDeg:
-        theta = (theta_deg + thetaOffsetGuess) * np.pi / 180.0
+        theta = theta_deg * np.pi / 180.0
         # One spot
         list_spots_xy.append([
             spotRadiusEst * np.cos(theta) + xOffsetEst,
-- 
2.43.0


From 21d7723959deb5c6b79b9ab21fc19d4c43788d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 74/89] fix: keep the frames of find_star connected to the data
 cube when none are dropped

---
 corgidrp/l3_to_l4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index adfd9dc..1db937e 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -226,8 +226,9 @@ def find_star(input_dataset,
 
     observing_mode = observing_mode[0]
 
-    sci_dataset = data.Dataset(sci_frames)
-    sat_spot_dataset = data.Dataset(sat_spot_frames)
+    # copy the frames, which otherwise would no longer belong to the dataset
+    sci_dataset = data.Dataset([frame.copy() for frame in sci_frames])
+    sat_spot_dataset = data.Dataset([frame.copy() for frame in sat_spot_frames])
 
     # Compute median images
     img_ref = np.median(sci_dataset.all_data, axis=0)
-- 
2.43.0


From b744b9f61e3782f44b20b47e76c7396b9dbfaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 75/89] fix: look for K-gain series among consecutive sets of
 equally many frames

---
 corgidrp/sorting.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index e3fea75..6e3247a 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -139,22 +139,20 @@ def sort_pupilimg_frames(
         idx_id_last  = np.sum(count_cons[0:idx_count+2]).astype(int)
         diff_id = np.diff(np.array(frame_id_list)[idx_id_sort[idx_id_first:idx_id_last]])
         diff_exp = np.diff(exptime_cons)
-        # Both subsets must have all Ids consecutive because they are in
-        # time order
-        if (count_cons[idx_count+1] == count_cons[idx_count] and
-            np.all(diff_id == 1) and diff_exp[idx_count] > 0):
+        # Both subsets must have the same number of frames and all Ids
+        # consecutive because they are in time order
+        same_series = (count_cons[idx_count+1] == count_cons[idx_count] and
+            np.all(diff_id == 1))
+        if same_series and diff_exp[idx_count] > 0:
             exptime_cons2 += [exptime_cons[idx_count+1]]
             idx_cons2 += [idx_count+1]
+            continue
         # Last exposure time must be repeated and only once
-        elif (diff_exp[idx_count] < 0  and
-            exptime_cons[idx_count+1] in exptime_cons[0:idx_count+1] and
-            len(exptime_cons2) == len(set(exptime_cons2))):
+        elif same_series and exptime_cons[idx_count+1] in exptime_cons2:
             kgain_subset += [idx_cons2[0], idx_count+1]
-            idx_cons2 = [idx_count+1]
-            exptime_cons2 = [exptime_cons]
-        else:
-        # It is not a subset for kgain
-           continue
+        # A new series starts with the next set of frames
+        idx_cons2 = [idx_count+1]
+        exptime_cons2 = [exptime_cons[idx_count+1]]
     # Choose the largest subset
     kgain_subset = np.array(kgain_subset)
     idx_kgain = np.argmax(kgain_subset[1::2] - kgain_subset[0::2])
-- 
2.43.0


From 5d835f1e5c004b4c2b00821cf2ac47fb818de673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 76/89] fix: choose the injected PSF at its place on the
 detector, also in cropped frames

---
 corgidrp/klip_fm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 9a77ad8..8df1e29 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -67,9 +67,10 @@ def inject_psf(frame_in, ct_calibration, amp,
     rel_pa = pa_deg - frame_roll
     dx,dy = seppa2dxdy(sep_pix,rel_pa)
 
+    # Core throughput locations refer to the full science array, frames may be cropped
     psf_model = get_closest_psf(ct_calibration,
-                                frame.ext_hdr['STARLOCX'],
-                                frame.ext_hdr['STARLOCY'],
+                                frame.ext_hdr['STARLOCX'] + frame.ext_hdr.get('DETPIX0X', 0.),
+                                frame.ext_hdr['STARLOCY'] + frame.ext_hdr.get('DETPIX0Y', 0.),
                                 dx,dy).copy() 
 
     # Scale counts
-- 
2.43.0


From 8ed68f67fac4d1f3b6f17fe43bccf671ccff1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 77/89] fix: keep KLIP throughputs with their separations

---
 corgidrp/klip_fm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 8df1e29..f21df1c 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -502,7 +502,7 @@ def meas_klip_thrupt(sci_dataset_in,ref_dataset_in, # pre-psf-subtracted dataset
         mean_outfwhms = []
         # TODO: If no measurements available for a given sep
         # show warning and add np.nan 
-        for sep in np.unique(seps_arr):
+        for sep in seps:
             this_sep_thrupts = np.where(seps_arr==sep,this_klmode_thrupts,np.nan)
             mean_thrupt = np.nanmedian(this_sep_thrupts)
             mean_thrupts.append(mean_thrupt)
-- 
2.43.0


From 992549733bd72dfe92ccd0077f8327f0a7a72eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 78/89] fix: give PSF-subtracted data integer DQ flags

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 1db937e..4dad6d8 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -549,7 +549,7 @@ def do_psf_subtraction(input_dataset,
 
     # TODO: Handle errors correctly
     err = np.zeros([1,*pyklip_data.shape])
-    dq = np.zeros_like(pyklip_data) # This will get filled out later
+    dq = np.zeros(pyklip_data.shape, dtype=np.uint16) # This will get filled out later
 
     # Collapse sci_dataset headers
     pri_hdr = sci_dataset[0].pri_hdr.copy()
-- 
2.43.0


From 13ed70e45dac7bd00445a23fe4a2f2e94db4e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 79/89] fix: measure the 1D core throughput around the star's
 place on the detector

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 4dad6d8..56934ed 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -635,7 +635,8 @@ def do_psf_subtraction(input_dataset,
         else:
             seps = np.array([5.,10.,15.,20.,25.,30.,35.])
 
-        ct_1d = get_1d_ct(ct_calibration,dataset_out[0],seps)
+        # the star was recentered by pyKLIP, only the science frames have its place on the detector
+        ct_1d = get_1d_ct(ct_calibration,sci_dataset[0],seps)
 
         ct_hdr = fits.Header()
         # Core throughput values on EXCAM wrt pixel (0,0) (not a "CT map", which is
-- 
2.43.0


From 739cbc27ce3db0a653f8badf9658974aa3a6ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 80/89] fix: derotate the sky coordinates of PSF-subtracted
 images with their pixels

---
 corgidrp/l3_to_l4.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 56934ed..80ca630 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -568,6 +568,17 @@ def do_psf_subtraction(input_dataset,
     ext_hdr['STARLOCX'] = pyklip_hdr['PSFCENTX']
     ext_hdr['STARLOCY'] = pyklip_hdr['PSFCENTY']
 
+    # The sky coordinates follow the image: pyKLIP put the reference pixel on the star and derotated the frames
+    if 'CD1_1' in ext_hdr:
+        sci_hdr = sci_dataset[0].ext_hdr
+        star_sky = WCS(sci_hdr).all_pix2world([[sci_hdr['STARLOCX'], sci_hdr['STARLOCY']]], 0)[0]
+        ext_hdr['CRVAL1'], ext_hdr['CRVAL2'] = star_sky
+        roll_rad = np.radians(pri_hdr['ROLL'])
+        derotation = np.array([[np.cos(roll_rad), np.sin(roll_rad)], [-np.sin(roll_rad), np.cos(roll_rad)]])
+        cd = np.array([[sci_hdr['CD1_1'], sci_hdr['CD1_2']], [sci_hdr['CD2_1'], sci_hdr['CD2_2']]]) @ derotation
+        ext_hdr['CD1_1'], ext_hdr['CD1_2'] = cd[0]
+        ext_hdr['CD2_1'], ext_hdr['CD2_2'] = cd[1]
+
     if "HISTORY" in sci_dataset[0].ext_hdr.keys():
         history_str = str(sci_dataset[0].ext_hdr['HISTORY'])
         ext_hdr['HISTORY'] = ''.join(history_str.split('\n'))
-- 
2.43.0


From e7f24ff9ff0b35a49e872e38e85bc86f0189e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 81/89] fix: compute the flux ratio noise for throughput
 separations in any order

---
 corgidrp/l4_to_tda.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 2842d14..ee9e25d 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -225,12 +225,9 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
             requested_separations = klip_seps
         if np.any(requested_separations < min_sep) or np.any(requested_separations > max_sep):
             warnings.warn('Not all requested_separations are within the range of the separations used for the KLIP and core throughputs.  Extrapolation will be used.')
-        ct_spacings = ct_seps - np.roll(ct_seps, 1)
-        # ignore the meaningless first entry (b/c of looping around with np.roll)
-        min_ct_spacing = np.min(ct_spacings[1:])
-        klip_spacings = klip_seps - np.roll(klip_seps, 1)
-        # ignore the meaningless first entry (b/c of looping around with np.roll)
-        min_klip_spacing = np.min(klip_spacings[1:])
+        # the separations may come in any order
+        min_ct_spacing = np.min(np.diff(np.sort(ct_seps)))
+        min_klip_spacing = np.min(np.diff(np.sort(klip_seps)))
         min_spacing = np.min([min_ct_spacing, min_klip_spacing])
         if halfwidth is None:
             halfwidth = min_spacing/2
-- 
2.43.0


From c8bc63fdd05b102a2ff78954ea5492e530704a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 82/89] fix: start the fit of the unocculted star at its place
 for the flux ratio noise

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index ee9e25d..4070890 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -278,7 +278,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         median_col = closest_indices[1][highest_density_index]
         fwhm_guess = 2*np.sqrt((median_row-guess_row)**2 + (median_col-guess_col)**2)
 
-        psf_phot = fit_2dgaussian(data, xypos=pos, fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
+        psf_phot = fit_2dgaussian(data, xypos=(guess_col, guess_row), fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
                                 mask=mask, error=None)
         star_xs = psf_phot.results['x_fit']
         star_ys = psf_phot.results['y_fit']
-- 
2.43.0


From 8a20563e41637f0714f3772de52a49e3ef457e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 83/89] fix: take the unocculted star's location as the floats
 it is documented to be, inside the image

---
 corgidrp/l4_to_tda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 4070890..c49cfeb 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -244,7 +244,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
             pos = (peak_row[0], peak_col[0])
         else:
             pos = (unocculted_star_loc[0][i], unocculted_star_loc[1][i])
-        if pos[0] > star_fr.data.shape[0] or pos[1] > star_fr.data.shape[1]:
+        if not (0 <= pos[0] < star_fr.data.shape[0] and 0 <= pos[1] < star_fr.data.shape[1]):
             raise ValueError('The guess centroid pixel location for the unocculted star is outside the image bounds.')
         # fit_shape inupt below must have odd numbers:
         if np.mod(star_fr.data.shape[0], 2) == 0:
@@ -260,7 +260,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         mask = star_fr.dq.astype(bool)[:row_shape, :col_shape]
         guess_row, guess_col = pos
         # Get the value at the max_row and max_col position
-        half_value = data[guess_row, guess_col] / 2
+        half_value = star_fr.data[int(guess_row), int(guess_col)] / 2
         # Calculate the absolute difference from half_value for all pixels
         abs_diff = np.abs(data - half_value)
         # Get the indices of the 20 smallest differences
-- 
2.43.0


From 67f79ca6ea444edcc81816eaaf3e7976dd855bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 84/89] fix: analyse trap-pumped schemes of different numbers
 of frames

---
 corgidrp/pump_trap_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 0aa60bf..3e19fd2 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -2319,7 +2319,8 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
         #Sort the things so that Scheme 1 is first
         sch_order = np.argsort(sch_list)
         sch_list = np.array(sch_list)[sch_order]
-        scheme_datasets = np.array(scheme_datasets)[sch_order]
+        # the schemes may have different numbers of frames
+        scheme_datasets = [scheme_datasets[j] for j in sch_order]
         scheme_num_pumps = np.array(scheme_num_pumps)[sch_order]
 
         #Make a check to make sure that one of the schemes is Scheme 1
@@ -2343,7 +2344,7 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
             #Grab the number of pumps associated with this scheme. 
             num_pumps = scheme_num_pumps[(sch_list == curr_sch)][0]
             
-            for frame in scheme_datasets[(sch_list == curr_sch),:][0]:
+            for frame in scheme_datasets[int(np.flatnonzero(sch_list == curr_sch)[0])]:
 
                 #Get the data and the phase time - convert from us to seconds
                 phase_time = float(frame.ext_hdr[time_head])/10**6
-- 
2.43.0


From dac5165423208c411cb20fa11d54093532ca1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 85/89] fix: count every repeated phase time of a trap-pumped
 dipole

---
 corgidrp/pump_trap_calibration.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 3e19fd2..62e4baf 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -473,18 +473,13 @@ def trap_id(cor_img_stack, ill_corr_min, ill_corr_max, timings, thresh_factor,
     dipoles_above_count = (Dipole_above > 1).astype(float)
     dipoles_below_count = (Dipole_below > 1).astype(float)
 
-    for t in range(len(timings)):
-        #count how many frames there are for a given phase time
-        # timings and dipoles_*_count have same length
-        # divide by number of counts for each non-unique phase time
-        pt_count = list(timings).count(list(timings)[t])
-        dipoles_above_count[t] = dipoles_above_count[t]/pt_count
-        dipoles_below_count[t] = dipoles_below_count[t]/pt_count
-
-    # if at least one of the phase times with multiple frames has a dipole
-    # in a given pixel, then ceil will count that phase time as a '1' in sum
-    ALL_DIPOLES_sum_above = np.ceil(np.sum(dipoles_above_count, axis = 0))
-    ALL_DIPOLES_sum_below = np.ceil(np.sum(dipoles_below_count, axis = 0))
+    # if at least one of the frames of a phase time has a dipole in a given
+    # pixel, that phase time counts as a '1' in the sum
+    unique_timings = np.unique(timings)
+    ALL_DIPOLES_sum_above = np.sum([dipoles_above_count[timings == t].max(axis=0)
+        for t in unique_timings], axis = 0)
+    ALL_DIPOLES_sum_below = np.sum([dipoles_below_count[timings == t].max(axis=0)
+        for t in unique_timings], axis = 0)
 
     # there should be dipoles present in the locations for enough phase times
     dipoles_above_thresh = (ALL_DIPOLES_sum_above >= length_limit).astype(int)
-- 
2.43.0


From 0112778082f22c1e531b28d34255e46e34ee1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 86/89] fix: pass the number of pumps to the fits with
 time-dependent capture

---
 corgidrp/pump_trap_calibration.py | 81 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 62e4baf..d5bbc17 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -17,6 +17,7 @@ https://doi.org/10.1117/1.JATIS.7.1.016003
     - output is now a corgi.drp.TrapCalibration object
 """
 import warnings
+from functools import partial
 import numpy as np
 
 from corgidrp.detector import *
@@ -736,10 +737,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             # attempt all possible probability functions
             try:
-                popt1l, pcov1l = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt1u, pcov1u = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt1l, pcov1l = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt1u, pcov1u = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -760,10 +761,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt1 = popt1u; pcov1 = pcov1u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -800,10 +801,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt11l, pcov11l = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt11u, pcov11u = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt11l, pcov11l = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt11u, pcov11u = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -826,10 +827,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt11 = popt11u; pcov11 = pcov11u
 
         try:
-            popt12l, pcov12l = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt12u, pcov12u = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt12l, pcov12l = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt12u, pcov12u = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -852,10 +853,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt12 = popt12u; pcov12 = pcov12u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -969,10 +970,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             #attempt both probability functions
             try:
-                popt3l, pcov3l = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt3u, pcov3u = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt3l, pcov3l = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt3u, pcov3u = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -993,10 +994,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt3 = popt3u; pcov3 = pcov3u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -1033,10 +1034,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt33l, pcov33l = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt33u, pcov33u = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt33l, pcov33l = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt33u, pcov33u = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1059,10 +1060,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt33 = popt33u; pcov33 = pcov33u
 
         try:
-            popt23l, pcov23l = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt23u, pcov23u = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt23l, pcov23l = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt23u, pcov23u = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1085,10 +1086,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt23 = popt23u; pcov23 = pcov23u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
-- 
2.43.0


From 5a2fd9f720bbb059440283833142a51704dd4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 87/89] fix: read the calibration database without losing
 digits of times and exposures

---
 corgidrp/caldb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index f8e4426..c686bd5 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -85,7 +85,7 @@ class CalDB:
         """
         Load/update db from filepath
         """
-        self._db = pd.read_csv(self.filepath, dtype=column_dtypes)
+        self._db = pd.read_csv(self.filepath, dtype=column_dtypes, float_precision="round_trip")
 
     def save(self):
         """
-- 
2.43.0


From 64999b349fad6b783aca9b616a776b4609681882 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 88/89] fix: derotate every error layer, not only the first

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 80ca630..d666b21 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -747,7 +747,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # derotate every error layer
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From 98cb1f2ac36c5e68d95f3db2d92d4e63e0de6b5a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:39:13 +0000
Subject: [PATCH 89/89] fix: record the unit of the errors when dividing by the
 exposure time

---
 corgidrp/l2b_to_l3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index a0731a0..26c3c25 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -101,6 +101,7 @@ def divide_by_exptime(input_dataset):
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
+        data.frames[i].err_hdr.set('BUNIT', 'photoelectrons/s')
     
     history_msg = 'divided by the exposure time'
     data.update_after_processing_step(history_msg, new_all_data = all_data_new, new_all_err = all_err_new)
-- 
2.43.0

