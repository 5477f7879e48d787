From fdb997b741507eb75d43e256916a8be4bff08788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 01/41] fix: stitch_image_multiple passes norm to the weight
 argument, so norm=False was ignored

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..e6b8553 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -262,7 +262,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0


From b3293f4aa4f785b3e2a17a5b8e1803fcaab68495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 02/41] fix: unwarp_sinogram_chunk crops too few rows of the
 raw data (last rows of a chunk wrong)

---
 algotom/prep/correction.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..06a1d97 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -266,26 +266,16 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
     if stop_index == -1:
         stop_index = height
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    yd_min = np.int16(np.floor(np.amin(yd_mat)))
+    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, yd_min:yd_max, :], xd_mat, yd_mat) for i in
          list_idx])
-- 
2.43.0


From 665f6bc9a421157fd90fd36db47067eaed5d61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 03/41] fix: get_statistical_information_dataset denoises each
 slice twice

---
 algotom/post/postprocessing.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..5ca468b 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,23 +267,17 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
-- 
2.43.0


From 3c6352e54e378a825f77e4b1b66e057e055abb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 04/41] fix: get_statistical_information_dataset returns the
 mean and the median from each other's column

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 5ca468b..b0c4795 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -282,7 +282,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From 4583e5e0edde86d4ee05ef5847f040b57f253260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 05/41] fix: get_statistical_information_dataset fails on a
 single image (step of zero)

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index b0c4795..6d48044 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
-- 
2.43.0


From aeab633245c47e381e57b781ebb8ca63954a2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 06/41] fix: rescale overflows for signed integer input

---
 algotom/post/postprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 6d48044..2b3b9f7 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -348,6 +348,7 @@ def rescale(mat, nbit=16, minmax=None):
         gmin, gmax = np.min(mat), np.max(mat)
     else:
         (gmin, gmax) = minmax
+    gmin, gmax = float(gmin), float(gmax)
     mat = np.clip(mat, gmin, gmax)
     mat = (mat - gmin) / (gmax - gmin)
     if nbit == 8:
-- 
2.43.0


From c537337794fc851fa0b8a342a1f2b0cb1bc4b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 07/41] fix: reslice_dataset fails on a single image or a
 single row (chunk of zero)

---
 algotom/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 2b3b9f7..979fb4e 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -598,7 +598,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -841,7 +841,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
-- 
2.43.0


From 840431b158b7034609f5a9669b8286e846fdd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 08/41] fix: rescale_dataset with overwrite=True writes to
 another hdf file

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 979fb4e..af83f6f 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -553,7 +553,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=overwrite)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From 59224066975f9918924dfc35b1e25be0433329fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 09/41] fix: reslice_dataset ignores the crop of the first axis
 for hdf input

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index af83f6f..7848fa3 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -708,7 +708,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -720,7 +720,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -744,7 +744,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -756,7 +756,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From d25bf3eb47e52eae0d219093d77abf2d637b24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 10/41] fix: reslice_dataset deletes a folder of the user named
 like the output hdf file

---
 algotom/post/postprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 7848fa3..b1108bf 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -944,7 +944,9 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     if os.path.isdir(folder_tmp):
         shutil.rmtree(folder_tmp)
         if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
+            folder_base = os.path.splitext(output)[0]
+            if not os.listdir(folder_base):
+                os.rmdir(folder_base)
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From 3d36ed74d3384eeeea1a8f1dc394c07b0d42ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 11/41] fix: output files of images with index above 99999
 overwrite earlier ones

---
 algotom/io/loadersaver.py      |  2 +-
 algotom/post/postprocessing.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..811bcec 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1274,7 +1274,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [(list_path + "/img_" + str(i).zfill(5) + ".tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index b1108bf..2232324 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -489,8 +489,8 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             elif out_type == "hdf":
                 data_dsp[num] = mat_dsp.astype(res_type)
             else:
-                out_name = "0000" + str(num)
-                losa.save_image(output + "/img_" + out_name[-5:] + ".tif",
+                out_name = str(num).zfill(5)
+                losa.save_image(output + "/img_" + out_name + ".tif",
                                 mat_dsp.astype(res_type))
             num += 1
     if out_type is None:
@@ -579,8 +579,8 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         elif out_type == "hdf":
             data_res[i - d1] = mat
         else:
-            out_name = "0000" + str(i)
-            losa.save_image(output + "/img_" + out_name[-5:] + ".tif", mat)
+            out_name = str(i).zfill(5)
+            losa.save_image(output + "/img_" + out_name + ".tif", mat)
     if out_type is None:
         data_res = np.asarray(data_res)
     return data_res
@@ -923,8 +923,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                         sys.stdout.write(msg)
                         sys.stdout.flush()
                 mat_chunk = data[:, i: i + chunk, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    i + j))[-5:] + ".tif" for j in range(chunk)]
+                out_files = [output + "/img_" + str(
+                    i + j).zfill(5) + ".tif" for j in range(chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
@@ -935,8 +935,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
             if last_chunk != 0:
                 idx = height1 - last_chunk
                 mat_chunk = data[:, idx: height1, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    idx + j))[-5:] + ".tif" for j in range(last_chunk)]
+                out_files = [output + "/img_" + str(
+                    idx + j).zfill(5) + ".tif" for j in range(last_chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
-- 
2.43.0


From e18dcfbd14136dd8126eb322ad00a00395d9b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 12/41] fix: stitch_image applies the sub-pixel part of the
 overlap twice

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e6b8553..0401dc1 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -107,7 +107,7 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From df3b5a62857d0810645e972fd919aa874b5158ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 13/41] fix: join_image applies the sub-pixel part of the gap
 in the wrong direction

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 0401dc1..823765c 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -174,7 +174,7 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     joint_int = int(np.round(joint_width + 1.0e-3))
-    sub_pixel = joint_width - joint_int
+    sub_pixel = 0.5 * (joint_int - joint_width)
     side = int(side)
     if sub_pixel != 0.0:
         if side == 1:
-- 
2.43.0


From f818200f20f6bf213194cf1af97a9f33883a9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 14/41] fix: extend_sinogram moves the rotation axis away from
 the returned centre for a sub-pixel overlap

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 823765c..4084bc3 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -434,7 +434,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
             overlap = 2 * (ncol - cor) - 1
             side = 1
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if side == 1:
         if sub_pixel != 0.0:
             sino_360 = shift(sino_360, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From cc4015251dfa251ff303aefd6640c63a54315ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 15/41] fix: locate_slice_chunk weighs a middle tile with the
 overlap of the wrong neighbour

---
 algotom/util/utility.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..a68a1a5 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1284,12 +1284,7 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap1:
                             fact = dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = dis1 / (ver_overlap2 - 1)
                         if pos < ver_overlap2:
                             fact = pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
@@ -1309,17 +1304,12 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                             fact = 1.0 * dis1 / (ver_overlap - 1)
                     else:
                         ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = 1.0 * dis1 / (ver_overlap1 - 1)
                         if pos < ver_overlap1:
                             fact = 1.0 * pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap2:
                             fact = 1.0 * dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = 1.0 * pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
-- 
2.43.0


From 858eba05c7c234d31540d55ba4db521114c3722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 16/41] fix: reconstruction with apply_log writes into the
 caller's sinogram at values <= 0

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..305818c 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -432,7 +432,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -633,7 +633,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -863,7 +863,7 @@ def dfi_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -962,7 +962,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -1137,7 +1137,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if filter_name is None:
         filter_name = "ram-lak"
@@ -1320,7 +1320,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
         apply_log = False
     if not cuda.is_available():
-- 
2.43.0


From 6ecbf05ef89d7908293d6664b806f22134f76a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 17/41] fix: vertical reconstruction with apply_log writes into
 the caller's projections at values <= 0

---
 algotom/rec/vertrec.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..a5a36e5 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,7 +606,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -647,7 +648,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -877,7 +879,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -922,7 +925,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1152,7 +1156,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1197,7 +1202,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1350,7 +1356,8 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0,
+                                       np.float32(1.0), projections)
                 projections = -np.log(projections)
 
     if masking:
@@ -1498,7 +1505,8 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0,
+                                       np.float32(1.0), projections)
                 projections = -np.log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
-- 
2.43.0


From 0ce0978f520cd57494c9c2a0fcfd9bcff10c34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 18/41] fix: remove_blob and remove_blob_1d write into the
 caller's mask

---
 algotom/prep/removal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..60ecbef 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,6 +971,7 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
@@ -999,6 +1000,7 @@ def remove_blob(mat, mask):
         2D array.
     """
     mat = np.copy(mat)
+    mask = np.copy(mask)
     if mat.shape != mask.shape:
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
-- 
2.43.0


From 31fd02c80f9f46aa5dba849a10ce00dfef6939e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 19/41] fix: remove_blob_1d fails or extrapolates when the mask
 touches the edges

---
 algotom/prep/removal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 60ecbef..060000b 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -972,11 +972,11 @@ def remove_blob_1d(sino_1d, mask_1d):
     """
     sino_1d = np.copy(sino_1d)
     mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
-- 
2.43.0


From b3d4ced516a8265e9d994878f3590732bb42353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 20/41] fix: find_overlap is one pixel too large when the
 search window is limited by the image width

---
 algotom/prep/calculation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..4d5c3a3 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -591,14 +591,14 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = ncol1 - overlap_position + win_width // 2
+        overlap = ncol1 - overlap_position + offset
     elif side == 0:
         (list_metric, offset) = search_overlap(mat1, mat2, win_width, side,
                                                denoise, norm, use_overlap,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = overlap_position + win_width // 2
+        overlap = overlap_position + offset
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
                                                  norm, denoise, use_overlap,
@@ -613,11 +613,11 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         if curvature1 > curvature2:
             side = 1
             overlap_position = overlap_position1
-            overlap = ncol1 - overlap_position + win_width // 2
+            overlap = ncol1 - overlap_position + offset1
         else:
             side = 0
             overlap_position = overlap_position2
-            overlap = overlap_position + win_width // 2
+            overlap = overlap_position + offset2
     return overlap, side, overlap_position
 
 
-- 
2.43.0


From ac67cadffc73fc5b599cbedb5f464b467b449be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 21/41] fix: find_center_projection returns a centre half a
 pixel too small

---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 4d5c3a3..0dfb7e1 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -895,9 +895,9 @@ def find_center_projection(mat1, mat2, flip=True, win_width=None,
                                       denoise=denoise, norm=norm,
                                       use_overlap=use_overlap, ncore=ncore)
     if side == 0:
-        cor = overlap / 2.0 - 1.0
+        cor = overlap / 2.0 - 0.5
     else:
-        cor = ncol - overlap / 2.0 - 1.0
+        cor = ncol - overlap / 2.0 - 0.5
     return cor
 
 
-- 
2.43.0


From bb4284b909a4e89f2eceff3f31523c11f33cab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 22/41] fix: back_projection_cpu loses contributions when run
 on several threads (data race)

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 305818c..3f2c888 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,12 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From 5c50456ef6d747077c62b7e07cdbc1418d03b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 23/41] fix: fbp_reconstruction of an integer stack with
 ncore=1 truncates the filtered sinograms

---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 3f2c888..1fbc631 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -459,7 +459,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From 1a8f2604749c34e02c182a1eddf4f431e6394e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 24/41] fix: bpf_reconstruction of a single sinogram ignores
 filter_name when it replaces the given ramp window

---
 algotom/rec/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 1fbc631..bc6cc9a 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -655,8 +655,8 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = back_projection_cpu(np.float32(sinogram),
                                         np.float32(angles), np.float32(center),
                                         edge_pad=True)
-        recon = apply_circular_ramp_filter(recon, ramp_win, pad=pad,
-                                           pad_mode=pad_mode)
+        recon = apply_circular_ramp_filter(recon, ramp_win, filter_name, pad,
+                                           pad_mode)
         if ratio is not None:
             recon = recon * mask
     else:
-- 
2.43.0


From 4a2c81ea44a39c1501339b1251e2942977ed1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 25/41] fix: make_2d_butterworth_window wraps the first row
 around when v is larger than half of the height

---
 algotom/util/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index a68a1a5..efa82a8 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -440,7 +440,7 @@ def make_2d_butterworth_window(width, height, u, v, n):
     ycenter = np.int16(np.ceil(height / 2.0) - 1)
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
-    row1 = ycenter - np.int16(v)
+    row1 = max(0, ycenter - np.int16(v))
     row2 = ycenter + np.int16(v) + 1
     window_2d = np.ones((height, width), dtype=np.float32)
     window_2d[row1:row2] = window
-- 
2.43.0


From a05513f0425af6f9e568ed04c88476e9bf2a353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 26/41] fix: flat/dark-field with three rows is taken for a
 stack, a stack is refused

---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 811bcec..ef81a20 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -880,7 +880,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if np.ndim(flat_field) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -889,7 +889,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if np.ndim(dark_field) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From 2621d8cf28c5984cbc04d5a5c027abe3d1a5e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 27/41] fix: get_tif_stack returns another image for an index
 below minus the number of images

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index ef81a20..c2ed73c 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1036,7 +1036,7 @@ def get_tif_stack(file_base, idx=None, crop=(0, 0, 0, 0), flat_field=None,
     if idx is not None:
         if idx < 0:
             idx = num_file + idx
-        if idx > (num_file - 1):
+        if idx > (num_file - 1) or idx < 0:
             raise ValueError("Requested index: {0} is out of "
                              "the range: {1}".format(idx, num_file - 1))
     if num_use is None:
-- 
2.43.0


From ac43af7fa9c5b3b22bfcc430179effb595470b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 28/41] fix: get_reference_sample_stacks_dls fails on a single
 projection, flat or dark image

---
 algotom/io/loadersaver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index c2ed73c..53bea34 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -834,19 +834,17 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                                          "".format(num_img))
             list_tmp = np.where(int_keys == 0.0)[0]
             if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+                list_idx = np.sort(np.int32(list_tmp))
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
             list_num_proj.append(len(list_tmp))
             list_tmp = np.where(int_keys == 1.0)[0]
             if len(list_tmp) != 0:
-                list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_ref_idx.append(np.sort(np.int32(list_tmp)))
             list_tmp = np.where(int_keys == 2.0)[0]
             if len(list_tmp) != 0:
-                list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_dark_idx.append(np.sort(np.int32(list_tmp)))
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
-- 
2.43.0


From 866d3db3af6638ff3c5eb1cf07be9552d8125f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 29/41] fix: get_reference_sample_stacks_dls averages
 projections into the flat or dark when these are at both ends

---
 algotom/io/loadersaver.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 53bea34..6b08384 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -692,10 +692,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
@@ -703,10 +702,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
         if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right],
+                axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
-- 
2.43.0


From 1cc49b18089a206c1604c202649a50087c0e02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 30/41] fix: extract_tif_from_hdf extracts all images for the
 index -1

---
 algotom/io/converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..ae9c2f6 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -117,6 +117,8 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
     if isinstance(index, tuple):
         start, stop, step = index
     else:
+        if index < 0:
+            index = data.shape[axis] + index
         start, stop, step = index, index + 1, 1
     cr_top, cr_bottom, cr_left, cr_right = crop
     if axis == 1:
-- 
2.43.0


From 6397dc39d6d46726ddcdcb349e1a78da0b1ccc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 31/41] fix: HdfEmulatorFromTif fails on an empty slice

---
 algotom/io/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index ae9c2f6..63246c1 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -188,11 +188,16 @@ class HdfEmulatorFromTif:
             return losa.load_image(self.files[index])
         elif isinstance(index, slice):
             indices = range(*index.indices(len(self.files)))
+            if len(indices) == 0:
+                return np.zeros((0,) + self.shape[1:], dtype=self.dtype)
             return np.stack(Parallel(n_jobs=self.n_jobs)(
                 delayed(losa.load_image)(self.files[i]) for i in indices))
         elif isinstance(index, tuple):
             z, y, x = index
             if isinstance(z, slice):
+                if len(range(*z.indices(self.shape[0]))) == 0:
+                    return np.zeros((0,) + self.shape[1:],
+                                    dtype=self.dtype)[:, y, x]
                 images = Parallel(n_jobs=self.n_jobs)(
                     delayed(losa.load_image)(self.files[i]) for i in
                     range(*z.indices(self.shape[0])))
-- 
2.43.0


From 688ef035469744725cb4eb12ae6e1634b684de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 32/41] fix: make_folder_name returns the name of an existing
 file

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 6b08384..bd847e1 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -319,7 +319,7 @@ def make_folder_name(folder_path, name_prefix="Output", zero_prefix=5):
     num_folder_new = num_folder_exist + 1
     name_tmp = f"{num_folder_new:0{zero_prefix}}"
     scan_name = scan_name_prefix + name_tmp
-    while (folder_path / scan_name).is_dir():
+    while (folder_path / scan_name).exists():
         num_folder_new += 1
         name_tmp = f"{num_folder_new:0{zero_prefix}}"
         scan_name = scan_name_prefix + name_tmp
-- 
2.43.0


From 0689caa1a2d0e63259f292ee93830d5878ee4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 33/41] fix: extract_tif_from_hdf extracts all images for an
 index far below zero

---
 algotom/io/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 63246c1..9e849d6 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -118,7 +118,7 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
         start, stop, step = index
     else:
         if index < 0:
-            index = data.shape[axis] + index
+            index = max(data.shape[axis] + index, 0)
         start, stop, step = index, index + 1, 1
     cr_top, cr_bottom, cr_left, cr_right = crop
     if axis == 1:
-- 
2.43.0


From 53102ac0b840cfe05951eaed6d1f6165deae25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 34/41] fix: names of more than 100000 saved images do not sort
 in the order of the images

---
 algotom/io/converter.py        | 6 +++---
 algotom/io/loadersaver.py      | 3 ++-
 algotom/post/postprocessing.py | 9 +++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 9e849d6..2ab7286 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -127,7 +127,7 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
         start = np.clip(start, 0, stop - 1)
         for i in range(start, stop, step):
             mat = data[cr_top:depth - cr_bottom, i, cr_left:width - cr_right]
-            out_name = f"{i:05}"
+            out_name = str(i).zfill(max(5, len(str(stop - 1))))
             losa.save_image(f"{output_path}/{prefix}_{out_name}.tif", mat)
     elif axis == 2:
         if stop < 1 or stop > width:
@@ -135,7 +135,7 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
         start = np.clip(start, 0, stop - 1)
         for i in range(start, stop, step):
             mat = data[cr_top:depth - cr_bottom, cr_left:height - cr_right, i]
-            out_name = f"{i:05}"
+            out_name = str(i).zfill(max(5, len(str(stop - 1))))
             losa.save_image(f"{output_path}/{prefix}_{out_name}.tif", mat)
     else:
         if stop < 1 or stop > depth:
@@ -143,7 +143,7 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
         start = np.clip(start, 0, stop - 1)
         for i in range(start, stop, step):
             mat = data[i, cr_top:height - cr_bottom, cr_left:width - cr_right]
-            out_name = f"{i:05}"
+            out_name = str(i).zfill(max(5, len(str(stop - 1))))
             losa.save_image(f"{output_path}/{prefix}_{out_name}.tif", mat)
     return output_path
 
diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index bd847e1..2ef5bcc 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1270,7 +1270,8 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + str(i).zfill(5) + ".tif")
+        zero_prefix = max(5, len(str(start_idx + num_file - 1)))
+        list_path = [(list_path + "/img_" + str(i).zfill(zero_prefix) + ".tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 2232324..88450b2 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -489,7 +489,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             elif out_type == "hdf":
                 data_dsp[num] = mat_dsp.astype(res_type)
             else:
-                out_name = str(num).zfill(5)
+                out_name = str(num).zfill(max(5, len(str(depth_dsp - 1))))
                 losa.save_image(output + "/img_" + out_name + ".tif",
                                 mat_dsp.astype(res_type))
             num += 1
@@ -579,7 +579,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         elif out_type == "hdf":
             data_res[i - d1] = mat
         else:
-            out_name = str(i).zfill(5)
+            out_name = str(i).zfill(max(5, len(str(d2 - 1))))
             losa.save_image(output + "/img_" + out_name + ".tif", mat)
     if out_type is None:
         data_res = np.asarray(data_res)
@@ -911,6 +911,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 data_slice[height1 - last_chunk: height1] = mat_tmp
         else:
             list_file, len_msg = None, None
+            zero_prefix = max(5, len(str(height1 - 1)))
             for i in np.arange(0, height1 - last_chunk, chunk):
                 if show_progress:
                     t1 = timeit.default_timer()
@@ -924,7 +925,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                         sys.stdout.flush()
                 mat_chunk = data[:, i: i + chunk, :]
                 out_files = [output + "/img_" + str(
-                    i + j).zfill(5) + ".tif" for j in range(chunk)]
+                    i + j).zfill(zero_prefix) + ".tif" for j in range(chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
@@ -936,7 +937,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 idx = height1 - last_chunk
                 mat_chunk = data[:, idx: height1, :]
                 out_files = [output + "/img_" + str(
-                    idx + j).zfill(5) + ".tif" for j in range(last_chunk)]
+                    idx + j).zfill(zero_prefix) + ".tif" for j in range(last_chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
-- 
2.43.0


From 76f5e4f13ca2ba6502bfb62b209fbe9b26f90dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:04 +0000
Subject: [PATCH 35/41] fix: find_center_vertical_slice truncates the metrics
 for integer start, stop and step

---
 algotom/rec/vertrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a5a36e5..c426a91 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -1341,7 +1341,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if ramp_filter is None:
         ramp_filter = "after"
     list_center = np.arange(start, stop + step, step)
-    list_metric = np.zeros_like(list_center)
+    list_metric = np.zeros(len(list_center))
     num_metric = len(list_metric)
     (num_proj, height, width) = projections.shape
     if angles is None:
-- 
2.43.0


From fb550dde1828b34e9793fa1c2e301a057d9ee5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 36/41] fix: local shifts fail for a chunk size smaller than
 the rows can be split into

---
 algotom/util/correlation.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..da7128b 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,7 +1064,8 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -1345,7 +1346,8 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input
@@ -1631,7 +1633,8 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -2026,7 +2029,8 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_2d_input_gpu
@@ -2221,7 +2225,8 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_gpu
@@ -2451,7 +2456,8 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_cpu_gpu
@@ -3351,7 +3357,8 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
     for pos in list_index:
-- 
2.43.0


From 64de38f6592ebff6bbf0075a7fa64003fe2a9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 37/41] fix: transmission and dark-field signals compare
 windows shifted in the wrong direction

---
 algotom/prep/phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..0069fc1 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -728,8 +728,8 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
             for j in range(start, stop_col):
                 i1 = i + int(np.round(y_shifts[i, j]))
                 j1 = j + int(np.round(x_shifts[i, j]))
-                mat1 = ref_stack[i - radi:i + radi1, j - radi:j + radi1]
-                mat2 = sam_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat1 = ref_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat2 = sam_stack[i - radi:i + radi1, j - radi:j + radi1]
                 (val1, val2) = f_alias(mat1, mat2)
                 i2, j2 = i - start, j - start
                 trans[i2, j2], dark[i2, j2] = val1, val2
@@ -742,9 +742,9 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
                 list1 = []
                 list2 = []
                 for k in range(num_image):
-                    mat1 = ref_stack[k, i - radi:i + radi1, j - radi:j + radi1]
-                    mat2 = sam_stack[k, i1 - radi:i1 + radi1,
+                    mat1 = ref_stack[k, i1 - radi:i1 + radi1,
                                      j1 - radi:j1 + radi1]
+                    mat2 = sam_stack[k, i - radi:i + radi1, j - radi:j + radi1]
                     (val1, val2) = f_alias(mat1, mat2)
                     list1.append(val1)
                     list2.append(val2)
-- 
2.43.0


From 31b85404633864c031a17b57740be98840fb0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:02 +0000
Subject: [PATCH 38/41] fix: the margin of the transmission and dark-field
 signals is too small for fractional shifts

---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 0069fc1..875f6d6 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -793,7 +793,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.ceil(max(np.max(np.abs(x_shifts)),
+                                 np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From 3ed192b84ba411684944be6a01b018e4abdb5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:59 +0000
Subject: [PATCH 39/41] fix: select_dot_based_size counts and keeps pixels of
 other dots inside the bounding box of a dot

---
 algotom/util/calibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index 8708c7a..6550062 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -285,11 +285,12 @@ def select_dot_based_size(mat, dot_size, ratio=0.01):
     max_size = np.clip(np.int32(dot_size + ratio * dot_size), 1, None)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, dot in enumerate(list_dots):
+        # A bounding box can include parts of other dots.
+        mat_dot = np.where(mat_label[dot] == i + 1, mat[dot], 0)
+        if check_dot_size(mat_dot, min_size, max_size):
+            mat1[dot] += mat_dot
     return mat1
 
 
-- 
2.43.0


From f188a186745d8127b8b0ca59c5f0194026ebb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 40/41] fix: apply_wavelet_reconstruction keeps the given
 decomposition untouched

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index efa82a8..3950eda 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -529,6 +529,7 @@ def apply_wavelet_reconstruction(data, wavelet_name, ignore_level=None):
     if ignore_level is not None:
         level = len(data[1:])
         if level >= ignore_level > 0:
+            data = list(data)
             data[-ignore_level] = tuple(
                 [np.zeros_like(v) for v in data[-ignore_level]])
     return pywt.waverec2(data, wavelet_name)
-- 
2.43.0


From 945b972033a39590f18d0516bcbc96644e024b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:17 +0000
Subject: [PATCH 41/41] fix: select_zinger counts and keeps pixels of other
 zingers inside the bounding box of a zinger

---
 algotom/prep/removal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 060000b..275a669 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -856,12 +856,12 @@ def select_zinger(mat, max_size):
     array_like
         2D binary array.
     """
-    list_zin = ndi.find_objects(ndi.label(mat)[0])
-    zin_sel = [zin for zin in list_zin
-               if check_zinger_size(mat[zin], max_size)]
+    mat_label = ndi.label(mat)[0]
     mat_out = np.zeros_like(mat)
-    for _, j in enumerate(zin_sel):
-        mat_out[j] = mat[j]
+    for i, zin in enumerate(ndi.find_objects(mat_label), start=1):
+        zinger = mat_label[zin] == i
+        if check_zinger_size(zinger, max_size):
+            mat_out[zin][zinger] = mat[zin][zinger]
     return mat_out
 
 
-- 
2.43.0

