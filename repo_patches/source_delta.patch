From 1a3244fc02dd997148a66049f3bfe4f3df34eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 001/129] fix: DM: report the number of bytes of a skipped
 string

An array of strings that is skipped moves on by size_bytes per string; with 0
every following tag is read from the wrong position.
---
 rsciio/digitalmicrograph/_api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..4a29b76 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -305,13 +305,12 @@ class DigitalMicrographReader(object):
         If it's a tag name, each char is 1-Byte;
         if it's a tag data, each char is 2-Bytes Unicode,
         """
-        size_bytes = 0
         if skip is True:
             offset = self.f.tell()
             self.f.seek(length, 1)
             return {
                 "size": length,
-                "size_bytes": size_bytes,
+                "size_bytes": length,
                 "offset": offset,
                 "endian": self.endian,
             }
-- 
2.43.0


From 1915385c499d29bb7869dd23ceed4248a224c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 002/129] fix: DM: read arrays of arrays

The element type of the inner arrays was passed as the type of the outer array,
so only one inner element per array was read.
---
 rsciio/digitalmicrograph/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 4a29b76..3f5c096 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -178,12 +178,12 @@ class DigitalMicrographReader(object):
                             )
                         elif enc_eltype == 20:  # Array of arrays
                             _logger.debug("Reading array of arrays")
-                            el_length, enc_eltype = self.parse_array_definition()
+                            el_length, el_eltype = self.parse_array_definition()
                             size = self.read_l_or_q(self.f, "big")
                             data = self.read_array(
                                 size=size,
                                 enc_eltype=enc_eltype,
-                                extra={"size": el_length},
+                                extra={"size": el_length, "enc_eltype": el_eltype},
                                 skip=skip,
                             )
 
-- 
2.43.0


From b2e34cfe78d66869d9c29f5ee851bafeb8b4bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 003/129] fix: memmap_distributed: chunks of any size with
 arbitrary positions

Squeezing the block of frame indices dropped the chunk dimensions of size one:
wrong data or an error for chunks with a single frame along a dimension, and
for navigation dimensions of size one.
---
 rsciio/utils/_distributed.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index d08c1df..01a1b07 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -161,19 +161,18 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
     numpy.ndarray
         Array of the data from the memory mapped file sliced using the provided slice.
     """
-    slices_ = np.squeeze(slices)[()]
     data = np.memmap(file, dtypes, shape=shape, **kwargs)
     if key is not None:
         data = data[key]
     if positions:
-        # We have arbitrary positions.
-        if -1 in slices_:  # -1 means empty frame we will return 0.
-            result = data[slices_]
-            result[slices_ == -1] = 0
-            return result
-        else:
-            return data[slices_]
+        # We have arbitrary positions: one index for each frame of the chunk,
+        # the last two (signal) dimensions are dummies of size one.
+        indices = np.asarray(slices)[..., 0, 0]
+        result = data[indices]
+        result[indices == -1] = 0  # -1 means empty frame we will return 0.
+        return result
     else:
+        slices_ = np.squeeze(slices)[()]
         if slices_.ndim == 1:
             # Special case data with single axis
             slices_ = slice(*tuple(slices_))
-- 
2.43.0


From bacd2794441a0f5d18358a72d352619440c56fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 004/129] fix: memmap_distributed: arbitrary positions with a
 sub-array dtype

The shape of the memory map was built from the navigation shape when the signal
dimensions come from the dtype.
---
 rsciio/utils/_distributed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index 01a1b07..7314704 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -263,7 +263,9 @@ def memmap_distributed(
         )
         drop_axes = None
         use_positions = True
-        shape = (len(positions),) + shape[-2:]  # update the shape to be linear
+        # update the shape to be linear
+        nav_dim = num_dim - 2
+        shape = (len(positions),) + shape[nav_dim:]
     else:
         # Separates slices into appropriately sized chunks.
         chunked_slices, data_chunks = get_chunk_slice(
-- 
2.43.0


From 4ff3386210627097e4f31f86af260a6092b7b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 005/129] fix: numpy: lazy loading of Fortran ordered arrays

The header's fortran_order was ignored, the elements came back permuted.
---
 rsciio/numpy/_api.py   |  5 ++++-
 rsciio/utils/_tools.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..275b5da 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -29,6 +29,7 @@ from rsciio._docstrings import (
 )
 from rsciio.utils import file
 from rsciio.utils._array import is_dask_array
+from rsciio.utils._tools import _inspect_npy_bytes
 
 
 def inspect_npy_file(filename):
@@ -116,12 +117,14 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     dask.array<array, shape=(1000, 1000, 500, 500), dtype=float64, chunksize=(100, 100, 250, 250)>
     """
     if lazy:
-        offset, shape, dtype = inspect_npy_file(filename)
+        with open(filename, "rb") as f:
+            offset, shape, dtype, order = _inspect_npy_bytes(f)
         data = file.memmap_distributed(
             filename,
             offset=offset,
             shape=shape,
             dtype=np.dtype(dtype),
+            order=order,
             chunks=chunks,
             **kwargs,
         )
diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index fe7343f..b7bbc36 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -158,6 +158,14 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     >>> with open('example.npy', 'rb') as f:
     ...     offset, shape, dtype = inspect_npy_bytes(f)
     """
+    return _inspect_npy_bytes(file_)[:3]
+
+
+def _inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str, str]:
+    """
+    As :func:`inspect_npy_bytes`, with the memory layout order ("C" or "F") of
+    the array as additional item.
+    """
 
     # Read magic string and version
     _ = file_.read(6)
@@ -186,5 +194,6 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     shape = header_dict["shape"]
     dtype = header_dict["descr"]
     offset = header_offset + header_len
+    order = "F" if header_dict["fortran_order"] else "C"
 
-    return offset, shape, dtype
+    return offset, shape, dtype, order
-- 
2.43.0


From 561da97f5f6f536eafce78884508132eb60e341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 006/129] fix: pantarhei: lazy loading of compressed files

The compressed bytes were memory mapped as if they were the array; files saved
with the writer of this library are compressed.
---
 rsciio/pantarhei/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..dbf64e2 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -101,7 +101,12 @@ def file_reader(
         )
         meta_data = {}
 
-    if lazy:
+    if lazy and prz_file.zip.getinfo("data.npy").compress_type != zipfile.ZIP_STORED:
+        # compressed data can't be memory mapped
+        import dask.array as da
+
+        data = da.from_array(prz_file["data"], chunks=chunks)
+    elif lazy:
         # Extract offset, shape, and dtype from the data.npy within the .prz archive
         with zipfile.ZipFile(filename, "r") as zf:
             # Get info about the 'data.npy' file within the archive
-- 
2.43.0


From e95a0aff2f32b9b692cee555095195df3ad9a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 007/129] fix: pantarhei: lazy loading of Fortran ordered
 arrays

---
 rsciio/pantarhei/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index dbf64e2..3c277d1 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -37,7 +37,8 @@ from rsciio._docstrings import (
 )
 from rsciio.pantarhei._restricted_unpickling import read_pickled_array
 from rsciio.utils._dictionary import DTBox
-from rsciio.utils.file import inspect_npy_bytes, memmap_distributed
+from rsciio.utils._tools import _inspect_npy_bytes
+from rsciio.utils.file import memmap_distributed
 
 _logger = logging.getLogger(__name__)
 
@@ -113,7 +114,7 @@ def file_reader(
             data_info = zf.getinfo("data.npy")
             # Open the data.npy file within the archive
             with zf.open("data.npy") as f:
-                offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
+                offset_in_npy, shape, dtype_str, order = _inspect_npy_bytes(f)
 
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
@@ -132,6 +133,7 @@ def file_reader(
             offset=offset,
             shape=shape,
             dtype=np.dtype(dtype_str),
+            order=order,
             chunks=chunks,
             **kwargs,
         )
-- 
2.43.0


From 646971a62fc16716b53e93fc1931da4d982201a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 008/129] fix: pantarhei: read data with a dimension of size
 one and no content type

---
 rsciio/pantarhei/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 3c277d1..cde77a3 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -239,8 +239,8 @@ def import_pr(data, meta_data, filename=None):
 
     trivial_indices = [
         i
-        for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        for i, content in enumerate(content_type_np_order)
+        if data.shape[i] == 1 and content is not None and "Index" in content
     ]
 
     content_type_np_order = [
-- 
2.43.0


From e02712a4870bae8ecdabd50f95607d89c59af6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 009/129] fix: JEOL: images that are not square

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..9f77a17 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -807,7 +807,7 @@ def _readcube(
     else:
         hypermap = np.zeros((n_frames, height, width, channel_number), dtype=SI_dtype)
 
-    em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)
+    em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)
 
     max_value = np.iinfo(SI_dtype).max
 
@@ -1184,7 +1184,7 @@ def _readframe_lazy(
                 break
             previous_y = value
             y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
             em_image[y, x] += value
-- 
2.43.0


From 216dece434dd5a63d124e9688f8d0389a0ece416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 010/129] fix: JEOL: lazy reading of several frames and of
 downsampled images

---
 rsciio/jeol/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 9f77a17..2871088 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1166,12 +1166,13 @@ def _readframe_lazy(
     data = []
     previous_x = 0
     previous_y = 0
+    x = 0
+    y = 0
     MAX_VAL = 4096
     count = 0
     valid = False
     has_em_image = False
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
@@ -1193,13 +1194,16 @@ def _readframe_lazy(
             z = value // rebin_energy + dz
             if 0 <= z and z < channel_number:
                 data.append([y, x, z])
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+        count += 1
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
         # (sometimes no x-ray events occur in a last few pixels.)
         # So, only the y value is checked
+        #
+        # > is need when downsampling is specified
         valid = True
     return count, data, has_em_image, valid, previous_y // height_norm
 
-- 
2.43.0


From b53b5a2042f75c14f5d6249b397cbd10d53a7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 011/129] fix: JEOL: number of frames and shape of the electron
 image

---
 rsciio/jeol/_api.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 2871088..b77a929 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -929,7 +929,7 @@ def _readcube(
                 hypermap[:target_frame_num, :height, :width],
                 em_image[:target_frame_num, :height, :width],
                 has_em_image,
-                frame_num,
+                target_frame_num,
                 frame_start_index,
                 valid,
                 max_shift,
@@ -974,7 +974,9 @@ def _readcube(
         data_shape = [frame_count, height, width, channel_number]
         ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
     if sum_frames:
-        em_image = em_image[0]
+        em_image = em_image[0, :height, :width]
+    else:
+        em_image = em_image[:frame_count, :height, :width]
 
     import dask.array as da
 
@@ -982,7 +984,7 @@ def _readcube(
         da.from_array(ar_s, asarray=False),
         em_image,
         has_em_image,
-        sweep,
+        frame_count,
         frame_start_index,
         valid,
         max_shift,
@@ -1106,7 +1108,7 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
-    _1,
+    countup,
     _2,
     em_image,
     width,
@@ -1129,7 +1131,7 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
-    _1 : dummy parameter, not used
+    countup : 1 for summing up the SEM/STEM image, -1 to cancel selected frame
     _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
@@ -1188,7 +1190,7 @@ def _readframe_lazy(
             if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
-- 
2.43.0


From bbcde84bcb6daf4a0ca07460e93f861a38d6fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 012/129] fix: JEOL: do not change the frame shifts passed by
 the user

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index b77a929..3cb8aa1 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -819,7 +819,7 @@ def _readcube(
     min_shift[2] = 0
     max_shift[2] = 0
     sxyz = min_shift - max_shift
-    frame_shifts -= max_shift
+    frame_shifts = frame_shifts - max_shift
     width += sxyz[1]
     height += sxyz[0]
     valid = None
-- 
2.43.0


From b1cac54879f4b8afbbc6ce3f7d36890f4472bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 013/129] fix: JEOL: lazy reading of frames without X-ray
 events

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 3cb8aa1..bd36ec4 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -939,7 +939,7 @@ def _readcube(
     # for lazy loading
     from rsciio.utils._fei_stream_readers import DenseSliceCOO
 
-    length = np.sum([len(d) for d in data_list])
+    length = sum(len(d) for d in data_list)
     # length = number of data points
 
     # v : [[frame_no, y, x, energy_channel, 1], ....]
@@ -948,7 +948,7 @@ def _readcube(
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=int).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
-- 
2.43.0


From e42886f91d11e15ecfa08e79f30dc4f043b6f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 014/129] fix: JEOL: offset of the axes of shifted frames

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index bd36ec4..004c3d6 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -540,7 +540,7 @@ def _read_pts(
                 {
                     "name": "y",
                     "size": height,
-                    "offset": origin[1],
+                    "offset": origin[0] * yscale,
                     "scale": yscale,
                     "units": units,
                     "navigate": False,
@@ -548,7 +548,7 @@ def _read_pts(
                 {
                     "name": "x",
                     "size": width,
-                    "offset": origin[0],
+                    "offset": origin[1] * xscale,
                     "scale": xscale,
                     "units": units,
                     "navigate": False,
-- 
2.43.0


From b5cc42aac89a9207082d5894537cd9798f3deb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 015/129] fix: JEOL: signal axes of the electron image

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 004c3d6..add85e8 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -555,7 +555,7 @@ def _read_pts(
                 },
             ]
         )
-        axes = axes_em.copy()
+        axes = [ax.copy() for ax in axes_em]
         for ax in axes:
             ax["navigate"] = True
         axes.append(
-- 
2.43.0


From c82afefda9a5ae5f42da2c8ee3b355d3169fd9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 016/129] fix: JEOL: frame shifts of more frames than are read

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index add85e8..0cf8381 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -481,7 +481,7 @@ def _read_pts(
             frame_shifts = np.zeros((max_frame, 3), dtype=np.int16)
 
         if len(frame_shifts[0]) == 2:  # fill z with 0
-            fr = np.zeros((max_frame, 3), dtype=np.int16)
+            fr = np.zeros((len(frame_shifts), 3), dtype=np.int16)
             fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)
             frame_shifts = fr
 
-- 
2.43.0


From fa6333f7bc2a83c4261537f612a367204b954e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 017/129] fix: JEOL: overflow of downsampled electron images

---
 rsciio/jeol/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 0cf8381..d68d56a 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -789,14 +789,13 @@ def _readcube(
     """
 
     # In case of sum_frames, spectrum image and SEM/STEM image are summing up to the same frame number.
+    # The pixels of a downsampled SEM/STEM image are summed as well.
     # To avoid overflow on integration of SEM/STEM image, data type of np.uint32 is selected
-    # for 16 frames and over. (range of image intensity in each frame is 0-4095 (0-0xfff))
-    EM_dtype = np.uint16
+    # (range of image intensity in each frame is 0-4095 (0-0xfff))
+    EM_dtype = np.uint32
     frame_step = 1
     if sum_frames:
         frame_step = 0
-        if sweep >= 16:
-            EM_dtype = np.uint32
         n_frames = 1
     else:
         n_frames = sweep + 1
-- 
2.43.0


From 0daa0067358a798293bc1fb4619b48b537ef5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 018/129] fix: hspy/zspy: order of lists of more than ten
 elements

The elements of lists that can't be converted to an array are stored with
their index as name and were sorted alphabetically when reading.
---
 rsciio/_hierarchical.py | 46 ++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..6dc77c2 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -157,6 +157,12 @@ def get_signal_chunks(shape, dtype, signal_axes=None, target_size=1e6):
         return tuple(int(x) for x in chunks)
 
 
+def _sorted_values(dictionary):
+    # The keys are the indices of the values (possibly with a common prefix):
+    # sort numerically, "10" comes after "2"
+    return [dictionary[key] for key in sorted(dictionary, key=lambda k: (len(k), k))]
+
+
 class HierarchicalReader:
     """A generic Reader class for reading data from hierarchical file types."""
 
@@ -380,17 +386,12 @@ class HierarchicalReader:
                 break
         if len(axes) != len(exp["data"].shape):  # broke from the previous loop
             try:
-                axes = [
-                    i
-                    for k, i in sorted(
-                        iter(
-                            self._group2dict(
-                                group["_list_" + str(len(exp["data"].shape)) + "_axes"],
-                                lazy=lazy,
-                            ).items()
-                        )
+                axes = _sorted_values(
+                    self._group2dict(
+                        group["_list_" + str(len(exp["data"].shape)) + "_axes"],
+                        lazy=lazy,
                     )
-                ]
+                )
             except KeyError:
                 raise IOError(not_valid_format)
         exp["axes"] = axes
@@ -634,27 +635,16 @@ class HierarchicalReader:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
                 elif key.startswith("_hspy_AxesManager_"):
-                    dictionary[key] = [
-                        i
-                        for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
-                        )
-                    ]
+                    dictionary[key] = _sorted_values(
+                        self._group2dict(group[key], lazy=lazy)
+                    )
                 elif key.startswith("_list_"):
-                    dictionary[key[7 + key[6:].find("_") :]] = [
-                        i
-                        for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
-                        )
-                    ]
+                    dictionary[key[7 + key[6:].find("_") :]] = _sorted_values(
+                        self._group2dict(group[key], lazy=lazy)
+                    )
                 elif key.startswith("_tuple_"):
                     dictionary[key[8 + key[7:].find("_") :]] = tuple(
-                        [
-                            i
-                            for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
-                            )
-                        ]
+                        _sorted_values(self._group2dict(group[key], lazy=lazy))
                     )
                 else:
                     dictionary[key] = {}
-- 
2.43.0


From 0153b58a6ac85c2e69cfeb250b367bcea7ff35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 019/129] fix: hspy: saving binary strings that are not valid
 UTF-8

---
 rsciio/_hierarchical.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 6dc77c2..c6fe81b 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -879,12 +879,15 @@ class HierarchicalWriter:
 
             elif isinstance(value, bytes):
                 try:
-                    # binary string if has any null characters (otherwise not
-                    # supported by hdf5)
-                    value.index(b"\x00")
+                    text = value.decode()
+                except UnicodeDecodeError:
+                    text = None
+                # binary string if has any null characters (otherwise not
+                # supported by hdf5) or if it isn't text
+                if text is None or "\x00" in text:
                     group.attrs["_bs_" + key] = np.void(value)
-                except ValueError:
-                    group.attrs[key] = value.decode()
+                else:
+                    group.attrs[key] = text
 
             elif isinstance(value, str):
                 group.attrs[key] = value
-- 
2.43.0


From 277139cc64daa9b2c741c7c54d19965344632675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 020/129] fix: hspy/zspy: arrays of non-ASCII strings

---
 rsciio/_hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index c6fe81b..c6ef96a 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -621,7 +621,7 @@ class HierarchicalReader:
                     elif data_.dtype.char == "S":
                         data_ = np.array(data_)
                         try:
-                            data_ = data_.astype("U")
+                            data_ = np.char.decode(data_, "utf-8")
                         except UnicodeDecodeError:
                             # There are some strings that must stay in binary,
                             # for example dill pickles. This will obviously also
@@ -748,7 +748,10 @@ class HierarchicalWriter:
                 )
         if np.issubdtype(data.dtype, np.dtype("U")):
             # Saving numpy unicode type is not supported in h5py
-            data = data.astype(np.dtype("S"))
+            if is_dask_array(data):
+                data = data.astype(np.dtype("S"))
+            else:
+                data = np.char.encode(data, "utf-8")
 
         if data.dtype != np.dtype("O"):
             got_data = False
-- 
2.43.0


From 86acfe9301ee00175309074486fefb1667176df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 021/129] fix: image: colour images mistaken for grayscale

The comparison of the channels left out the first one, so that an image with
equal green and blue channels (a red image, say) was read as grayscale, and
images one pixel high or wide or with several frames were compared along the
wrong dimension.
---
 rsciio/image/_api.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..3ca129e 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -268,16 +268,18 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
 def _read_data(filename, **kwds):
-    dc = np.squeeze(iio.imread(filename))
-    if len(dc.shape) > 2:
+    dc = iio.imread(filename)
+    if dc.ndim > 2 and dc.shape[-1] in (3, 4):
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
-            dc = dc[:, :, 0]
+        if (dc[..., 0] == dc[..., 1]).all() and (dc[..., 1] == dc[..., 2]).all():
+            dc = np.squeeze(dc[..., 0])
         else:
             # HyperSpy uses struct arrays to store RGB data
             from rsciio.utils import rgb
 
             dc = rgb.regular_array2rgbx(dc)
+    else:
+        dc = np.squeeze(dc)
 
     return dc
-- 
2.43.0


From c7995a1699a90cd5b1cc321d413a1b3ba466d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 022/129] fix: image: lazy reading failed

The shape and dtype were taken from the delayed object, not from the image.
---
 rsciio/image/_api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 3ca129e..a67a6c8 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -234,6 +234,7 @@ def file_reader(filename, lazy=False, **kwds):
 
     %s
     """
+    dc = _read_data(filename, **kwds)
     if lazy:
         # load the image fully to check the dtype and shape, should be cheap.
         # Then store this info for later re-loading when required
@@ -241,9 +242,7 @@ def file_reader(filename, lazy=False, **kwds):
         from dask.array import from_delayed
 
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
-    else:
-        dc = _read_data(filename, **kwds)
+        dc = from_delayed(val, shape=dc.shape, dtype=dc.dtype)
 
     om = {}
 
-- 
2.43.0


From 1f8806a22c1a17058b64febba6ea1a4a6edc8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 023/129] fix: serial dates before 1899-12-30 were off by one
 day

The fraction of the day is counted from midnight also for negative serial
dates, so that the number of days has to be rounded down.
---
 rsciio/utils/_date_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index b2aa1fb..67f15a5 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -18,6 +18,7 @@
 
 import datetime
 import logging
+import math
 
 import numpy as np
 from dateutil import parser, tz
@@ -64,7 +65,7 @@ def serial_date_to_datetime(serial):
     # Excel date&time format
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     secs = (serial % 1.0) * 86400
-    delta = datetime.timedelta(int(serial), secs)
+    delta = datetime.timedelta(math.floor(serial), secs)
     return origin + delta
 
 
-- 
2.43.0


From 3db648ba655fccea8e7b11df97e040af86f6ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 024/129] fix: fractions of a second were lost in serial dates

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 67f15a5..4c4f453 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -57,7 +57,7 @@ def datetime_to_serial_date(dt):
         dt = dt.replace(tzinfo=tz.tzutc())
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     delta = dt - origin
-    return float(delta.days) + (float(delta.seconds) / 86400.0)
+    return float(delta.days) + (delta.seconds + delta.microseconds / 1e6) / 86400.0
 
 
 def serial_date_to_datetime(serial):
-- 
2.43.0


From 83fa2043b3114106875ee68502078c05cb3565ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 025/129] fix: a date without time could not be given as
 numpy.datetime64

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 4c4f453..50931ef 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -111,7 +111,7 @@ def get_date_time_from_metadata(metadata, formatting="ISO"):
         res = dt
     # numpy.datetime64 doesn't support time zone
     elif formatting == "datetime64":
-        res = np.datetime64(f"{date}T{time}")
+        res = np.datetime64(f"{date}T{time}" if time else date)
 
     return res
 
-- 
2.43.0


From f097e1443d560eb7f13b793b68db08677eaad101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 026/129] fix: incremental_filename returned the name of an
 existing directory

Formats such as zspy are directories, which would be overwritten.
---
 rsciio/utils/path.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/utils/path.py b/rsciio/utils/path.py
index 752dc3d..7e220ac 100644
--- a/rsciio/utils/path.py
+++ b/rsciio/utils/path.py
@@ -78,9 +78,10 @@ def incremental_filename(filename, i=1):
     """
     filename = Path(filename)
 
-    if filename.is_file():
+    # some formats (zspy, for example) are directories
+    if filename.exists():
         new_filename = append2pathname(filename, f"-{i}")
-        if new_filename.is_file():
+        if new_filename.exists():
             return incremental_filename(filename, i + 1)
         else:
             return new_filename
-- 
2.43.0


From 7db8f7792f89a60de933abbb1ad17cee4ac51735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 027/129] fix: image: keep the two dimensions of an image one
 pixel high or wide

Only the other dimensions of length one, a frame for example, are taken away
from a colour or grayscale image.
---
 rsciio/image/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index a67a6c8..0718c51 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -272,13 +272,12 @@ def _read_data(filename, **kwds):
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
         if (dc[..., 0] == dc[..., 1]).all() and (dc[..., 1] == dc[..., 2]).all():
-            dc = np.squeeze(dc[..., 0])
+            dc = dc[..., 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
             from rsciio.utils import rgb
 
             dc = rgb.regular_array2rgbx(dc)
-    else:
-        dc = np.squeeze(dc)
 
-    return dc
+    # keep the two dimensions of the image, even when it is one pixel high or wide
+    return np.squeeze(dc, tuple(i for i in range(dc.ndim - 2) if dc.shape[i] == 1))
-- 
2.43.0


From 6ce84c8f7ed1b59ba8c1d4c770a27401bba2ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 028/129] fix: ripple: signals with a single channel or image
 could not be read back

The writer stores them with depth 1 and the actual record-by, which the reader
refused although nothing is ambiguous about it.
---
 rsciio/ripple/_api.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..c2b6414 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -174,12 +174,6 @@ def parse_ripple(fp):
 
             rpl_info[line[0]] = line[1]
 
-    if rpl_info["depth"] == 1 and rpl_info["record-by"] != "dont-care":
-        err = '"depth" and "record-by" keys mismatch.\n'
-        err += '"depth" cannot be "1" if "record-by" is "dont-care" '
-        err += "and vice versa."
-        err += "Check %s" % fp.name
-        raise IOError(err)
     if rpl_info["data-type"] == "float" and int(rpl_info["data-length"]) < 4:
         err = '"data-length" for float "data-type" must be "4" or "8".\n'
         err += "Check %s" % fp.name
-- 
2.43.0


From cff4e606cd4d283acacab23b3aff23309ba2d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 029/129] fix: ripple: a single value could not be read

---
 rsciio/ripple/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index c2b6414..0278257 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -249,12 +249,12 @@ def read_raw(rpl_info, filename, chunks="auto"):
     data = file.memmap_distributed(
         filename,
         offset=offset,
-        shape=shape,
+        shape=shape or (1,),
         dtype=data_type,
         chunks=chunks,
     )
 
-    return data
+    return data.reshape(shape)
 
 
 @distributed_keyword_deprecation
-- 
2.43.0


From 316497cae8aa7fa3ef7ca833d62f10a10fc304a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 030/129] fix: ripple: an image one pixel wide was read as
 navigation

With a single dimension left, it is a signal, whether this is the width or the
height.
---
 rsciio/ripple/_api.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 0278257..d546b42 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -309,16 +309,9 @@ def file_reader(
     if rpl_info["record-by"] == "vector":
         _logger.info("Loading as Signal1D")
         navigate = [True, True, False]
-    elif rpl_info["record-by"] == "image":
-        _logger.info("Loading as Signal2D")
-        navigate = [True, False, False]
     else:
-        if len(data.shape) == 1:
-            _logger.info("Loading as Signal1D")
-            navigate = [True, True, False]
-        else:
-            _logger.info("Loading as Signal2D")
-            navigate = [True, False, False]
+        _logger.info("Loading as Signal2D" if data.ndim > 1 else "Loading as Signal1D")
+        navigate = [True, False, False]
 
     if rpl_info["record-by"] == "vector":
         idepth, iheight, iwidth = 2, 0, 1
-- 
2.43.0


From 47be764a5ebec59d68d4b17bcc1050267841ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 031/129] fix: ripple: missing units were read back as the text
 "None"

The reader takes "<undefined>" for missing units.
---
 rsciio/ripple/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index d546b42..0927e73 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -575,8 +575,11 @@ def file_writer(filename, signal, encoding="latin-1"):
         if eval(key) > 1:
             keys_dictionary[f"{key}-scale"] = eval(f"{key}_axis['scale']")
             keys_dictionary[f"{key}-origin"] = eval(f"{key}_axis['offset']")
-            keys_dictionary[f"{key}-units"] = eval(f"{key}_axis['units']")
-            keys_dictionary[f"{key}-name"] = eval(f"{key}_axis['name']")
+            units = eval(f"{key}_axis['units']")
+            keys_dictionary[f"{key}-units"] = "<undefined>" if units is None else units
+            name = eval(f"{key}_axis['name']")
+            if name is not None:
+                keys_dictionary[f"{key}-name"] = name
     if signal_type == "EELS":
         mp = md.get("Acquisition_instrument.TEM")
         if mp is not None:
-- 
2.43.0


From b33ab5fbab09bd32c584ca31c32f57f40a36a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 032/129] fix: ripple: EDS signals without the metadata of the
 instrument could not be saved

---
 rsciio/ripple/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 0927e73..2573ff5 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -590,10 +590,8 @@ def file_writer(filename, signal, encoding="latin-1"):
             if "Detector.EELS.collection_angle" in mp:
                 keys_dictionary["collection-angle"] = mp.Detector.EELS.collection_angle
     if "EDS" in signal_type:
-        if signal_type == "EDS_SEM":
-            mp = md.Acquisition_instrument.SEM
-        elif signal_type == "EDS_TEM":
-            mp = md.Acquisition_instrument.TEM
+        microscope = "SEM" if signal_type == "EDS_SEM" else "TEM"
+        mp = md.get(f"Acquisition_instrument.{microscope}") or {}
         if "beam_energy" in mp:
             keys_dictionary["beam-energy"] = mp.beam_energy
         if "Detector.EDS.elevation_angle" in mp:
-- 
2.43.0


From e6d42cec5de998dcb85eed3383823af3b21ed9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 033/129] fix: ripple: the metadata of an SEM was read back as
 that of a TEM

---
 rsciio/ripple/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 2573ff5..b1b04a3 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -434,6 +434,9 @@ def file_reader(
             "Acquisition_instrument.TEM.Detector.EDS.live_time", rpl_info["live-time"]
         )
 
+    if rpl_info["signal"] == "EDS_SEM" and "Acquisition_instrument" in mp:
+        mp.Acquisition_instrument.SEM = mp.Acquisition_instrument.pop("TEM")
+
     units = [None if unit == "<undefined>" else unit for unit in units]
 
     axes = []
-- 
2.43.0


From 47d750d9a6b2526ba610746a85e8f4d8d8fe4ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 034/129] fix: msa: values containing a colon and a blank were
 lost

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..29f7aec 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -188,7 +188,7 @@ def parse_msa_string(string, filename=None):
         if data_section is False:
             if line[0] == "#":
                 try:
-                    key, value = line.split(": ")
+                    key, value = line.split(": ", 1)
                     value = value.rstrip()
                 except ValueError:
                     key = line
-- 
2.43.0


From a8ab08b3b47d84d6e395a1d1eb2e784065f20d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 035/129] fix: msa: the data was saved with a limited number of
 digits

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 29f7aec..23bda8a 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -542,11 +542,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 axis_dict["size"]
             )
             for x, y in zip(axis, signal["data"]):
-                f.write("%g%s%g" % (x, separator, y))
+                f.write("%r%s%r" % (float(x), separator, float(y)))
                 f.write("\u000d\u000a")
         elif format == "Y":
             for y in signal["data"]:
-                f.write("%f%s" % (y, separator))
+                f.write("%r%s" % (float(y), separator))
                 f.write("\u000d\u000a")
         else:
             raise ValueError("format must be one of: None, 'XY' or 'Y'")
-- 
2.43.0


From d0f340d35640101ee7c71edf33515d0a68862660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 036/129] fix: msa: saving changed the original metadata of the
 signal

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 23bda8a..05410e3 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -420,7 +420,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
-- 
2.43.0


From 25c51fd5f623111f6337948b81b15557921d8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 037/129] fix: msa: saving a SEM signal changed how files were
 read and saved afterwards

---
 rsciio/msa/_api.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 05410e3..e3522ab 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -337,6 +337,11 @@ def parse_msa_string(string, filename=None):
             else:
                 signal_type += "_SEM"
 
+    if signal_type == "EDS_SEM" and "Acquisition_instrument.TEM" in mapped:
+        mapped.set_item(
+            "Acquisition_instrument.SEM", mapped.Acquisition_instrument.pop("TEM")
+        )
+
     mapped.set_item("Signal.signal_type", signal_type)
     if "YUNITS" in parameters.keys():
         yunits = f"({parameters['YUNITS']})"
@@ -507,11 +512,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             loc_kwds[key] = value
 
     for key, dic in keywords.items():
-        if dic["mapped_to"] is not None:
+        mapped_to = dic["mapped_to"]
+        if mapped_to is not None:
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = md[mapped_to]
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From 72ae2fc0ad13cdd6eeb7119607140faf5b3de34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 038/129] fix: msa: the time was not saved, nor a changed date

---
 rsciio/msa/_api.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index e3522ab..5e9ecd7 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -434,15 +434,18 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     else:
         if format is None:
             format = "Y"
-        if "General.date" in md:
-            date = dt.strptime(md.General.date, "%Y-%m-%d")
-            date_str = date.strftime("%d-%m-%Y")
-            day, month, year = date_str.split("-")
-            month = US_MONTHS_D2A[month]
-            loc_kwds["DATE"] = "-".join((day, month, year))
-        if "General.item" in md:
-            time = dt.strptime(md.General.time, "%H:%M:%S")
-            loc_kwds["TIME"] = time.strftime("%H:%M")
+    if md.get("General.date"):
+        date = dt.strptime(md.General.date, "%Y-%m-%d")
+        date_str = date.strftime("%d-%m-%Y")
+        day, month, year = date_str.split("-")
+        month = US_MONTHS_D2A[month]
+        loc_kwds["DATE"] = "-".join((day, month, year))
+    if md.get("General.time"):
+        try:
+            time = dt.strptime(md.General.time[:8], "%H:%M:%S")
+            loc_kwds["TIME"] = time.strftime("%H:%M:%S" if time.second else "%H:%M")
+        except ValueError as e:
+            _logger.warning(f"The time information could not be saved: {e}")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
         loc_kwds["SIGNALTYPE"] = "EDS"
     elif md.Signal.signal_type in ["EELS"]:
-- 
2.43.0


From 277bf53f8f21f5ed82b48d6c8ad49eca6fa35012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 039/129] fix: msa: a missing axis name or units was read back
 as the text "None"

---
 rsciio/msa/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5e9ecd7..64cb93e 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -511,6 +511,8 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
 
     # Update the loc_kwds with the information retrieved from the signal class
     for key, value in keys_from_signal.items():
+        if value is None:
+            value = ""
         if key not in loc_kwds or value != "":
             loc_kwds[key] = value
 
-- 
2.43.0


From 81794deae53a147378295c98698da58b267719ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 040/129] fix: msa: blanks at the end of a line of a long title
 or comment were lost

---
 rsciio/msa/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 64cb93e..2089ab1 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -540,8 +540,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 and len(value) > 0
             ):
                 # Split the value into multiple lines if it is too long, and write each line with the same keyword
-                for i in range(0, len(value), 64):
-                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[i : i + 64]))
+                while value:
+                    # Blanks at the end of a line are lost when reading
+                    line = value[:64].rstrip() or value[:64]
+                    f.write("#%-12s: %s\u000d\u000a" % (keyword, line))
+                    value = value[len(line) :]
             else:
                 f.write("#%-12s: %s\u000d\u000a" % (keyword, value))
 
-- 
2.43.0


From 0daf4f91c579e83918a49c5090d6db6648e78942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 041/129] fix: msa: values with units in the keyword were saved
 twice

---
 rsciio/msa/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 2089ab1..27fde40 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -522,6 +522,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             if "SEM" in md.Signal.signal_type:
                 mapped_to = mapped_to.replace("TEM", "SEM")
             if mapped_to in md:
+                # The units can be part of the keyword, as in "BEAMKV   -kV"
+                for loc_key in loc_kwds:
+                    if loc_key.split("-")[0].strip() == key:
+                        key = loc_key
+                        break
                 loc_kwds[key] = md[mapped_to]
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
-- 
2.43.0


From 2c2a2e07bad305b23f1345b3b6bc3a86505d8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 042/129] fix: blockfile: axes of line scans and single
 patterns were mixed up

---
 rsciio/blockfile/_api.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..c549e06 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -258,6 +258,8 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
     _logger.debug("File header: " + str(header))
     navigation_shape = (int(header["NY"]), int(header["NX"]))
     signal_shape = (int(header["DP_SZ"]),) * 2
+    # Navigation dimensions of length one are left out
+    single = tuple(i for i, size in enumerate(navigation_shape) if size == 1)
     if header["SDP"]:
         SDP = 100.0 / header["SDP"]
     else:
@@ -286,7 +288,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         f.seek(offset2)
         data = np.fromfile(f, dtype=frame_dtype)["data"]
         try:
-            data = data.reshape(navigation_shape + signal_shape).squeeze()
+            data = data.reshape(navigation_shape + signal_shape).squeeze(single)
         except ValueError:
             warnings.warn(
                 "Blockfile header dimensions larger than file size! "
@@ -295,7 +297,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             # Data is stored DP by DP:
             pw = [(0, np.prod(navigation_shape) - data.shape[0]), (0, 0)]
             data = np.pad(data, pw, mode="constant")
-            data = data.reshape(navigation_shape + signal_shape).squeeze()
+            data = data.reshape(navigation_shape + signal_shape).squeeze(single)
     else:
         frame_dtype = np.dtype(
             [
@@ -310,7 +312,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             shape=navigation_shape,
             dtype=frame_dtype,
             key="data",
-        )
+        ).squeeze(single)
 
     units = ["nm", "nm", "cm", "cm"]
     names = ["y", "x", "dy", "dx"]
@@ -328,18 +330,18 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         "Signal": {"signal_type": "diffraction"},
     }
     # Create the axis objects for each axis
-    dim = data.ndim
+    dims = [i for i in range(4) if i not in single]
     axes = [
         {
-            "size": data.shape[i],
-            "index_in_array": i,
+            "size": data.shape[index],
+            "index_in_array": index,
             "name": names[i],
             "scale": scales[i],
             "offset": 0.0,
             "units": units[i],
             "navigate": navigate[i],
         }
-        for i in range(dim)
+        for index, i in enumerate(dims)
     ]
 
     dictionary = {
-- 
2.43.0


From ab5107fafc19250c0a11c91f5d718b2ba8599dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 043/129] fix: blockfile: the header was always written as
 little-endian

---
 rsciio/blockfile/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index c549e06..4946ad4 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -88,8 +88,8 @@ def get_header_dtype_list(endianness="<"):
             ("Camera_length", end + "u4"),  # [10 * mm]
             ("Acquisition_time", end + "f8"),  # [Serial date]
         ]
-        + [("Centering_N%d" % i, "f8") for i in range(8)]
-        + [("Distortion_N%02d" % i, "f8") for i in range(14)]
+        + [("Centering_N%d" % i, end + "f8") for i in range(8)]
+        + [("Distortion_N%02d" % i, end + "f8") for i in range(14)]
     )
 
     return dtype_list
@@ -97,7 +97,7 @@ def get_header_dtype_list(endianness="<"):
 
 def get_default_header(endianness="<"):
     """Returns a header pre-populated with default values."""
-    dt = np.dtype(get_header_dtype_list())
+    dt = np.dtype(get_header_dtype_list(endianness))
     header = np.zeros((1,), dtype=dt)
     header["ID"][0] = "IMGBLO".encode()
     header["MAGIC"][0] = magics[0]
-- 
2.43.0


From 3694df99f55203a6cc87f4eab75e9d6ffea96e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 044/129] fix: blockfile: saving changed the calibration of the
 signal

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 4946ad4..6f3e71b 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,7 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    axes = [dict(axis) for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0


From 9ead3237395a09d32db021ca6a075fc6fbeb6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 045/129] fix: blockfile: the scale of the patterns was not
 rounded to the nearest value

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 6f3e71b..fe5ebbd 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -191,7 +191,7 @@ def get_header_from_signal(signal, endianness="<"):
     if DP_SZ[0] != DP_SZ[1]:
         raise ValueError("Blockfiles require signal shape to be square!")
     DP_SZ = DP_SZ[0]
-    SDP = 100.0 / sig_axes[1]["scale"]
+    SDP = np.clip(np.rint(100.0 / sig_axes[1]["scale"]), 0, 65535)
 
     offset2 = NX * NY + header["Data_offset_1"][0]
     # Based on inspected files, the DPs are stored at 16-bit boundary...
-- 
2.43.0


From 8fc2451ef98720508e9c7b5f3c7bbd1623fbc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 046/129] fix: blockfile: notes were saved in another encoding
 than they are read in

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index fe5ebbd..b8e1bfb 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -440,7 +440,7 @@ def file_writer(
         # Write header note field:
         if len(note) > int(header["Data_offset_1"][0]) - f.tell():
             note = note[: int(header["Data_offset_1"][0]) - f.tell() - len(note)]
-        f.write(note.encode())
+        f.write(note.encode("latin1", errors="replace"))
         # Zero pad until next data block
         zero_pad = int(header["Data_offset_1"][0]) - f.tell()
         np.zeros((zero_pad,), np.byte).tofile(f)
-- 
2.43.0


From b2f203e39aacbfc1197984600d5687c9a85c4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 047/129] fix: blockfile: the navigator options did not work
 for line scans and single patterns

---
 rsciio/blockfile/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index b8e1bfb..b6be494 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -446,7 +446,7 @@ def file_writer(
         np.zeros((zero_pad,), np.byte).tofile(f)
         # Write virtual bright field
         if navigator is None:
-            navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
+            navigator = np.zeros(signal["data"].shape[:-2])
         elif isinstance(navigator, str) and (navigator == "navigator"):
             if smetadata.get("_HyperSpy._sig_navigator", False):
                 navigator = smetadata["_HyperSpy._sig_navigator.data"]
@@ -455,7 +455,7 @@ def file_writer(
         elif hasattr(navigator, "shape"):
             # Is numpy array-like
             # check that the shape is ok
-            if navigator.shape != signal["data"].shape[:2]:
+            if navigator.shape != signal["data"].shape[:-2]:
                 raise ValueError(
                     "Size of the provided `navigator` does not match the "
                     "navigation dimensions of the dataset."
-- 
2.43.0


From 23c3860a170fb317d25b61e545cf213a6eae2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 048/129] fix: blockfile: files with more frames than the
 header says could not be read

---
 rsciio/blockfile/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index b6be494..bb1a70e 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -286,7 +286,8 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             ]
         )
         f.seek(offset2)
-        data = np.fromfile(f, dtype=frame_dtype)["data"]
+        count = int(np.prod(navigation_shape))
+        data = np.fromfile(f, dtype=frame_dtype, count=count)["data"]
         try:
             data = data.reshape(navigation_shape + signal_shape).squeeze(single)
         except ValueError:
@@ -295,7 +296,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
                 "Will attempt to load by zero padding incomplete frames."
             )
             # Data is stored DP by DP:
-            pw = [(0, np.prod(navigation_shape) - data.shape[0]), (0, 0)]
+            pw = [(0, count - data.shape[0]), (0, 0)]
             data = np.pad(data, pw, mode="constant")
             data = data.reshape(navigation_shape + signal_shape).squeeze(single)
     else:
-- 
2.43.0


From fa31a85e9cbb13975a33b5d4e7e399174cfd718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 049/129] fix: DM: the energy axis of EDS signals was not named

---
 rsciio/digitalmicrograph/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 3f5c096..44f6744 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -503,7 +503,7 @@ class ImageObject(object):
         if self.signal_type == "EELS":
             if "eV" in self.units:
                 names[indices.pop(self.units.index("eV"))] = "Energy loss"
-        elif self.signal_type in ("EDS", "EDX"):
+        elif self.signal_type == "EDS_TEM":
             if "keV" in self.units:
                 names[indices.pop(self.units.index("keV"))] = "Energy"
         elif self.signal_type == "CL":
-- 
2.43.0


From cb2b7cc78adec1d245880a545313a63bfa38bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 050/129] fix: DM: images of big-endian files were read as
 little-endian

---
 rsciio/digitalmicrograph/_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 44f6744..6f8c474 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -628,6 +628,10 @@ class ImageObject(object):
         if isinstance(self.imdict.ImageData.Data, np.ndarray):
             return self.imdict.ImageData.Data
 
+        # The values are stored in the byte order of the file
+        endian = self.imdict.ImageData.Data.get("endian", "little")
+        dtype = np.dtype(self.dtype).newbyteorder(endian)
+
         if lazy:
             shape = list(self.shape)
             if self.imdict.ImageData.DataType in (8, 23):
@@ -643,7 +647,7 @@ class ImageObject(object):
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
                 shape=tuple(shape),
-                dtype=np.dtype(self.dtype),
+                dtype=dtype,
                 chunks=chunks,
                 order=self.order,
             )
@@ -656,7 +660,7 @@ class ImageObject(object):
             count = self.imdict.ImageData.Data.size
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 count = int(count / 2)
-            data = np.fromfile(self.file, dtype=self.dtype, count=count)
+            data = np.fromfile(self.file, dtype=dtype, count=count)
             if need_to_close:
                 self.file.close()
 
-- 
2.43.0


From df3afb35a761fea2b505b2d210c4a4dbd4921266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 051/129] fix: DM: old packed complex images could not be read
 lazily

---
 rsciio/digitalmicrograph/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 6f8c474..739e7f3 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -643,6 +643,8 @@ class ImageObject(object):
                 )
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 shape[-1] = int(shape[-1] / 2 + 1)
+            elif self.imdict.ImageData.DataType == 5:  # Old packed complex
+                shape = [self.imdict.ImageData.Data.size]
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
-- 
2.43.0


From da94e5c764cf6c88da7887723752808166a9c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 052/129] fix: MRC: the data of big-endian files were read as
 little-endian

---
 rsciio/mrc/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..f316f56 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -594,7 +594,7 @@ def file_reader(
         filename,
         offset=f.tell(),
         shape=shape[::-1],
-        dtype=get_data_type(std_header["MODE"]),
+        dtype=get_data_type(std_header["MODE"]).newbyteorder(endianness),
         positions=positions,
         chunks=chunks,
     )
-- 
2.43.0


From ae953b60628191d8635d49b69452d08ada29822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 053/129] fix: MRC: axes of files with singleton dimensions got
 the calibration of others

---
 rsciio/mrc/_api.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index f316f56..8c49c2c 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -666,34 +666,36 @@ def file_reader(
         units = [None, "nm", "nm"]
         names = ["z", "y", "x"]
         navigate = [True, False, False]
-        nav_axis_to_add = 0
         if navigation_shape is not None:
-            nav_axis_to_add = len(navigation_shape) - 1
-            for i in range(nav_axis_to_add):
+            for i in range(len(navigation_shape) - 1):
                 units.insert(0, None)
                 names.insert(0, "")
                 navigate.insert(0, True)
                 scales.insert(0, 1)
                 offsets.insert(0, 0)
 
-        # create the axis objects for each axis
-        dim = len(data.shape)
+        # create the axis objects for each axis, the singleton dimensions
+        # having been removed
+        dims = [i for i, s in enumerate(shape[::-1]) if s != 1]
         axes = [
             {
                 "size": data.shape[i],
                 "index_in_array": i,
-                "name": names[i + nav_axis_to_add + 3 - dim],
-                "scale": scales[i + nav_axis_to_add + 3 - dim],
-                "offset": offsets[i + nav_axis_to_add + 3 - dim],
-                "units": units[i + nav_axis_to_add + 3 - dim],
-                "navigate": navigate[i + nav_axis_to_add + 3 - dim],
+                "name": names[dim],
+                "scale": scales[dim],
+                "offset": offsets[dim],
+                "units": units[dim],
+                "navigate": navigate[dim],
             }
-            for i in range(dim)
+            for i, dim in enumerate(dims)
         ]
     else:
         axes = metadata_axes
-        for ax, s in zip(axes, shape[::-1]):
+        if len(axes) == len(shape):
+            axes = [ax for ax, s in zip(axes, shape[::-1]) if s != 1]
+        for i, (ax, s) in enumerate(zip(axes, data.shape)):
             ax["size"] = s  # Update the size of the axes
+            ax["index_in_array"] = i
 
     dictionary = {
         "data": data,
-- 
2.43.0


From eba92420a2d1f85aedf79e6248b4df9d348487ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 054/129] fix: MRC: pixel sizes of Direct Electron info files
 were ignored

---
 rsciio/mrc/_api.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 8c49c2c..e375e9a 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -347,10 +347,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     ):  # nav-shape is not None for pos files
         axes_scales = np.array(
             [
-                float(
-                    original_metadata.get("Scan - Time (seconds)", 1)
-                    + original_metadata.get("Scan - Repeat Delay (seconds)", 1)
-                ),
+                float(original_metadata.get("Scan - Time (seconds)", 1))
+                + float(original_metadata.get("Scan - Repeat Delay (seconds)", 0)),
                 float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
                 float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
                 1,  # Signal Axes below
@@ -358,7 +356,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                 float(original_metadata.get("Diffraction Pixel Size X", 1)),
             ]
         )
-        axes_scales[axes_scales != -1] = 1
+        axes_scales[axes_scales == -1] = 1  # -1 means not calibrated
         axes_units = ["sec", "nm", "nm", "times", "nm^-1", "nm^-1"]
         axes_names = ["time", "y", "x", "repeats", "ky", "kx"]
         if original_metadata.get("Scan - ROI Enable", "Disable") == "Enable":
@@ -398,8 +396,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Diffraction Pixel Size Y", 1),
-                    original_metadata.get("Diffraction Pixel Size X", 1),
+                    float(original_metadata.get("Diffraction Pixel Size Y", 1)),
+                    float(original_metadata.get("Diffraction Pixel Size X", 1)),
                 ]
             )
             axes_units = ["sec", "nm^-1", "nm^-1"]
@@ -408,8 +406,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Specimen Pixel Size Y (nanometers)", 1),
-                    original_metadata.get("Specimen Pixel Size X (nanometers)", 1),
+                    float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
+                    float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
                 ]
             )
             axes_units = ["sec", "nm", "nm"]
-- 
2.43.0


From 8c557b2f71be426b4022cd3161d3bdae09f49a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 055/129] fix: MRC: virtual and external images of DE movies
 could get each other's names

---
 rsciio/mrc/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index e375e9a..ec93018 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -117,7 +117,8 @@ def find_related_de_files(movie_filename: str):
         return out
 
     # Collect all candidate .mrc files sharing the same timestamp and acquisitionNumber
-    all_mrc = glob.glob(os.path.join(dir_name, f"{prefix}*.mrc"))
+    # (sorted, for the names to be in the same order as the files)
+    all_mrc = sorted(glob.glob(os.path.join(dir_name, f"{prefix}*.mrc")))
 
     # Virtual images via regex (supports '<digits>' and 'virt<digits>')
     virtual_images = []
-- 
2.43.0


From 6879e2c5d24a5c3ccabacc0bf5dc71e5c34752f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 056/129] fix: MRC: files of DE movies in directories with
 brackets in their names were not found

---
 rsciio/mrc/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index ec93018..34ba191 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -93,6 +93,7 @@ def find_related_de_files(movie_filename: str):
             "scan_csv": None,
         }
     prefix = f"{ts}_{acq}_"
+    pattern = os.path.join(glob.escape(dir_name), prefix)
 
     # Utilities
     def _first_or_none(paths):
@@ -118,7 +119,7 @@ def find_related_de_files(movie_filename: str):
 
     # Collect all candidate .mrc files sharing the same timestamp and acquisitionNumber
     # (sorted, for the names to be in the same order as the files)
-    all_mrc = sorted(glob.glob(os.path.join(dir_name, f"{prefix}*.mrc")))
+    all_mrc = sorted(glob.glob(f"{pattern}*.mrc"))
 
     # Virtual images via regex (supports '<digits>' and 'virt<digits>')
     virtual_images = []
@@ -150,14 +151,14 @@ def find_related_de_files(movie_filename: str):
     external_image_names = _dedupe(external_image_names)
     # Info file
     info_file = _first_or_none(
-        glob.glob(os.path.join(dir_name, f"{prefix}info.txt"))
-        + glob.glob(os.path.join(dir_name, f"{prefix}*_info.txt"))
+        glob.glob(f"{pattern}info.txt")
+        + glob.glob(f"{pattern}*_info.txt")
     )
 
     # Scan coordinates CSV
     scan_csv = _first_or_none(
-        glob.glob(os.path.join(dir_name, f"{prefix}scan_coordinates.csv"))
-        + glob.glob(os.path.join(dir_name, f"{prefix}*_scan_coordinates.csv"))
+        glob.glob(f"{pattern}scan_coordinates.csv")
+        + glob.glob(f"{pattern}*_scan_coordinates.csv")
     )
 
     return {
-- 
2.43.0


From 430ce97412cba13fb64cb41b058e4799e2393c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 057/129] fix: MRC: custom scans of one line or one point could
 not be read, repeats had the names of other axes

---
 rsciio/mrc/_api.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 34ba191..41d8fb5 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -309,7 +309,9 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     if scanning and not raster:
         if scan_pos_file is None:
             raise ValueError("Scan position file is required for non-raster scans.")
-        positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int)[:, ::-1]
+        positions = np.loadtxt(
+            scan_pos_file, delimiter=",", dtype=int, ndmin=2
+        )[:, ::-1]
         nav_shape = (positions[:, 0].max() + 1, positions[:, 1].max() + 1)
         unique_pos, inverse, counts = np.unique(
             positions, axis=0, return_counts=True, return_inverse=True
@@ -367,7 +369,11 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         else:
             sizex = int(original_metadata.get("Scan - Size X", 1))
             sizey = int(original_metadata.get("Scan - Size Y", 1))
-        if nav_shape is not None and len(nav_shape) == 3:
+        repeats = 1
+        if positions is not None and len(nav_shape) == 3:
+            repeats, sizey, sizex = nav_shape
+            time = 1
+        elif nav_shape is not None and len(nav_shape) == 3:
             time = nav_shape[0]
             sizey = nav_shape[1]
             sizex = nav_shape[2]
@@ -384,8 +390,12 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         sizekx = int(original_metadata.get("Image Size X (pixels)", -1))
         sizeky = int(original_metadata.get("Image Size Y (pixels)", -1))
         navigate = [True, True, True, True, False, False]
-        axes_shapes = [time, sizey, sizex, 1, sizeky, sizekx]
-        nav_shape = tuple([shape for shape in [time, sizex, sizey, 1] if shape != 1])
+        axes_shapes = [time, sizey, sizex, repeats, sizeky, sizekx]
+        if positions is not None:
+            # One dimension for each column of the positions
+            nav_shape = (repeats, sizex, sizey)[-positions.shape[1] :]
+        else:
+            nav_shape = tuple([shape for shape in [time, sizex, sizey] if shape != 1])
     else:
         navigate = [True, False, False]
 
-- 
2.43.0


From 8ff40a8234fec55df5f7bf0ff8ded4ba096e9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 058/129] fix: MIB: max_index=-1 left out the last frame

---
 rsciio/quantumdetector/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..86199ee 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -418,8 +418,8 @@ def parse_exposures(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     # exposure time are in ns
     return [
@@ -467,8 +467,8 @@ def parse_timestamps(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     return [header.decode().split(",")[-4] for header in headers[:max_index]]
 
-- 
2.43.0


From 8dfdd6d189386025c813423e3328fe8da80b6f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 059/129] fix: MIB: buffers of quad detectors could not be
 read, and first_frame was ignored for buffers

---
 rsciio/quantumdetector/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 86199ee..0e8d0af 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -162,8 +162,11 @@ class MIBProperties:
         # test if quad and read full quad header
         if head[2] == "00768":
             # read quad data
-            with open(self.path, "rb") as f:
-                head = f.read(768).decode().split(",")
+            if self.buffer:
+                head = path[:768].decode().split(",")
+            else:
+                with open(self.path, "rb") as f:
+                    head = f.read(768).decode().split(",")
             self.head_size = 768
             self.assembly_size = "quad"
 
@@ -330,7 +333,8 @@ def load_mib_data(
             path,
             dtype=merlin_frame_dtype,
             count=mib_prop.xy,
-            offset=mib_prop.offset,
+            # take into account first_frame
+            offset=mib_prop.offset + merlin_frame_dtype.itemsize * first_frame,
         ).reshape(navigation_shape)
         headers = buffer["header"]
         data = buffer["data"]
-- 
2.43.0


From 5adc667668f82c31803246a417935d9600b91ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 060/129] fix: MIB: interrupted acquisitions ignored
 last_frame, and failed without a complete line

---
 rsciio/quantumdetector/_api.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 0e8d0af..993d7ba 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -275,11 +275,9 @@ def load_mib_data(
             # Set the corrected number of lines
             # To keep the implementation simple only load completed line
             # Reshape only when the slice from zeros
-            if first_frame == 0 and len(navigation_shape) > 1:
-                navigation_shape = (
-                    navigation_shape[0],
-                    frame_number_in_file // navigation_shape[0],
-                )[::-1]
+            lines = number_of_frames_to_load // navigation_shape[0]
+            if first_frame == 0 and len(navigation_shape) > 1 and lines > 0:
+                navigation_shape = (lines, navigation_shape[0])
             else:
                 navigation_shape = (number_of_frames_to_load,)
         elif number_of_frames_to_load < frame_number:
-- 
2.43.0


From 08894e8978096e0f0844dd1a140056982e2b499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 061/129] fix: MIB: pathlib paths were refused, and hdr files
 in directories with '.mib' in their names not found

---
 rsciio/quantumdetector/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 993d7ba..25f69a0 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -122,6 +122,8 @@ class MIBProperties:
         %s
         """
 
+        if isinstance(path, os.PathLike):
+            path = os.fspath(path)
         # read the first header from the start of the file or buffer
         if isinstance(path, str):
             try:
@@ -532,7 +534,7 @@ def file_reader(
     """
     mib_prop = MIBProperties()
     mib_prop.parse_file(filename)
-    hdr_filename = str(filename).replace(".mib", ".hdr")
+    hdr_filename = os.path.splitext(filename)[0] + ".hdr"
 
     original_metadata = {"mib_properties": vars(mib_prop)}
 
-- 
2.43.0


From 439d0b9dd726874c67174549b7f532c87c240d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 062/129] fix: MIB: hdr files with no frames per trigger could
 not be read

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 25f69a0..0f302ea 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -575,7 +575,7 @@ def file_reader(
                 if len(indices) > 0 and len(indices[0]) > 0:
                     frame_per_trigger = indices[0][0] + 1
 
-        if frames_number == 0:
+        if frames_number == 0 or frame_per_trigger == 0:
             # Some hdf files have the "Frames per Trigger (Number)": 0
             # in this case, we don't reshape
             # Possibly for "continuous and indefinite" acquisition
-- 
2.43.0


From 09cb1e74c6e31f62fa77c096236574a0ab51e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 063/129] fix: Semper: scales, offsets and units were those of
 other axes

---
 rsciio/semper/_api.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..0aef403 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
@@ -518,10 +518,11 @@ class SemperFormat(object):
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-        for i in range(len(data.shape)):
-            scales[i] = signal["axes"][i]["scale"]
-            offsets[i] = signal["axes"][i]["offset"]
-            units[i] = signal["axes"][i]["units"]
+        # x, y, z: from the columns (last axis) to the layers
+        for i, axis in enumerate(signal["axes"][::-1]):
+            scales[i] = axis["scale"]
+            offsets[i] = axis["offset"]
+            units[i] = axis["units"]
         # Make sure data is 3D!
         data = data[tuple(None for _ in range(3 - len(data.shape)))]
         signal_dimension = len(
@@ -574,9 +575,18 @@ class SemperFormat(object):
         """
         data = self.data.squeeze()  # Reduce unneeded dimensions!
         axes = []
-        for name, scale, offset, units, size in zip(
-            ("x", "y", "z"), self.scales, self.offsets, self.units, data.shape
-        ):
+        # x, y, z: from the columns (last axis) to the layers
+        for name, scale, offset, units, size in list(
+            zip(
+                ("x", "y", "z"),
+                self.scales,
+                self.offsets,
+                self.units,
+                self.data.shape[::-1],
+            )
+        )[::-1]:
+            if size == 1:
+                continue
             axes.append(
                 {
                     "_type": "UniformDataAxis",
-- 
2.43.0


From 82536b1dd929cd077345eba6a4eb03b4f9e14944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 064/129] fix: Semper: signals without title, or with long or
 non-ASCII texts, could not be saved or read

---
 rsciio/semper/_api.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 0aef403..22fb155 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -278,7 +278,7 @@ class SemperFormat(object):
         pack = partial(pack_to_intbytes, "<f")  # Packing function for 4 byte floats!
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
-        title = self.title
+        title = self.title if self.title is not None else ""
         # Create label:
         label = np.zeros((1,), dtype=self.LABEL_DTYPES)
         # Fill label:
@@ -307,8 +307,9 @@ class SemperFormat(object):
         date_ints[0] -= 1900  # Modify year integer!
         label["DATE"] = date_ints
         range_string = "{:.4g},{:.4g}".format(self.data.min(), self.data.max())
+        range_string = text_to_intchars(range_string, 27)
         label["NCRANG"] = len(range_string)
-        label["RANGE"][:, : len(range_string)] = [ord(c) for c in range_string]
+        label["RANGE"][:, : len(range_string)] = range_string
         label["IPLTYP"] = self.metadata.get("IPLTYP", 248)  # seems standard
         label["REALCO"] = 1  # Real coordinates are used!
         label["NBLOCK"] = 4  # Always 4 64b blocks!
@@ -321,14 +322,18 @@ class SemperFormat(object):
         label["Y0V2"] = pack(self.offsets[1])  # Y0
         label["DXV1"] = pack(self.scales[0])  # DX
         label["X0V0"] = pack(self.offsets[0])  # X0
+        title = text_to_intchars(title, 144)
         label["NTITLE"] = len(title)
-        label["TITLE"][:, : len(title)] = [ord(s) for s in title]
+        label["TITLE"][:, : len(title)] = title
         xunit = self.units[0] if self.units[0] is not None else ""
-        label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
+        xunit = text_to_intchars(xunit, 4)
+        label["XUNIT"][:, : len(xunit)] = xunit
         yunit = self.units[1] if self.units[1] is not None else ""
-        label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
+        yunit = text_to_intchars(yunit, 4)
+        label["YUNIT"][:, : len(yunit)] = yunit
         zunit = self.units[2] if self.units[2] is not None else ""
-        label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
+        zunit = text_to_intchars(zunit, 4)
+        label["ZUNIT"][:, : len(zunit)] = zunit
         return label
 
     @classmethod
@@ -447,6 +452,8 @@ class SemperFormat(object):
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
         title = self.title if self.title is not None else ""
+        # the length has three digits in the header, cut at a whole character
+        title = title.encode()[:999].decode(errors="ignore").encode()
         with open(filename, "wb") as f:
             if not skip_header:
                 # Create header:
@@ -470,7 +477,7 @@ class SemperFormat(object):
                     f.write(
                         struct.pack("<i", len(title))
                     )  # record length, 4 byte format!
-                    f.write(title.encode())
+                    f.write(title)
                     f.write(
                         struct.pack("<i", len(title))
                     )  # record length, 4 byte format!
@@ -666,6 +673,11 @@ def pack_to_intbytes(fmt, value):
     return [int(c) for c in struct.pack(fmt, value)]
 
 
+def text_to_intchars(text, size):
+    """The codes of the characters of `text`, at most `size` of them."""
+    return [ord(c) if ord(c) < 2**15 else ord("?") for c in text[:size]]
+
+
 def _read_data(fobj, fname, position, data_format, shape):
     if fobj.closed:
         fobj = open(fname, "rb")
-- 
2.43.0


From 5dbf73087a28bfd766c56941b416cc1c5d8dc8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 065/129] fix: Semper: data were written in their own element
 type and byte order, odd rows of bytes without padding

---
 rsciio/semper/_api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 22fb155..75f992a 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -342,6 +342,7 @@ class SemperFormat(object):
             iform = 0  # byte
         elif np.issubdtype(data.dtype, np.int16):
             iform = 1  # int16
+            data = data.astype(np.int16)
         elif np.issubdtype(data.dtype, np.floating) and data.dtype.itemsize <= 4:
             data = data.astype(np.float32)
             iform = 2  # float (4 byte or less)
@@ -350,6 +351,7 @@ class SemperFormat(object):
             iform = 3  # complex (8 byte or less)
         elif np.issubdtype(data.dtype, np.int32):
             iform = 4  # int32
+            data = data.astype(np.int32)
         else:
             supported_formats = [np.dtype(i).name for i in cls.IFORM_DICT.values()]
             msg = "The SEMPER file format does not support {} data type. ".format(
@@ -490,9 +492,11 @@ class SemperFormat(object):
             # Write picture data:
             for k in range(nlay):
                 for j in range(nrow):
-                    row = self.data[k, j, :]
+                    row = data[k, j, :]
                     # Record length = bytes per entry * ncol:
                     record_length = np.dtype(self.IFORM_DICT[iform]).itemsize * ncol
+                    padding = record_length % 2
+                    record_length += padding
                     f.write(
                         struct.pack("<i", record_length)
                     )  # record length, 4 byte format!
@@ -501,8 +505,7 @@ class SemperFormat(object):
                     # which is only a problem for writing single byte data
                     # (IFORM = 0, np.byte). If ncol is odd, an empty byte (0)
                     # is added:
-                    if self.data.dtype == np.byte and ncol % 2 != 0:
-                        np.zeros(1, dtype=np.byte).tobytes()
+                    f.write(b"\0" * padding)
                     # record length, 4 byte format!
                     f.write(struct.pack("<i", record_length))
 
@@ -521,7 +524,7 @@ class SemperFormat(object):
         None
 
         """
-        data = signal["data"]
+        data = np.asanyarray(signal["data"])
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-- 
2.43.0


From 9d82d9c330c32a6c2a30efe8bab88d4645659e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 066/129] fix: Semper: signals with a time zone in their time
 could not be saved

---
 rsciio/semper/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 75f992a..6037893 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -73,6 +73,7 @@
 # 101-256  title (ic chars)
 
 import logging
+import re
 import struct
 import warnings
 from collections import OrderedDict
@@ -549,7 +550,9 @@ class SemperFormat(object):
         title = smetadata.General.to_dict().get("title", None)
         metadata = OrderedDict()
         if "date" in smetadata.General.keys() and "time" in smetadata.General.keys():
-            dt = "%s %s" % (smetadata.General.date, smetadata.General.time)
+            # the label has no place for time zone and fractions of seconds
+            time = re.split("[.Z+-]", smetadata.General.time)[0]
+            dt = "%s %s" % (smetadata.General.date, time)
         else:
             dt = "%s" % datetime.now()
 
-- 
2.43.0


From 6ddaaab282c02af0cbb627ca2d870e5f371431e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 067/129] fix: TVIPS: the pixel size was that of the first
 navigation axis

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..86c127b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -113,7 +113,7 @@ def _get_main_header_from_signal(signal, version=2, frame_header_extra_bytes=0):
     # original pixel scale
     mode = _guess_image_mode(signal)
     axes = signal["axes"]
-    scale = axes[0]["scale"]
+    scale = axes[-2]["scale"]
     offsetx = axes[-1]["offset"]
     offsety = axes[-2]["offset"]
     unit = axes[-2]["units"]
-- 
2.43.0


From be904c7313c58ebd01767f49e6abf3cf4cb33eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 068/129] fix: TVIPS: single frames could not be saved or read

---
 rsciio/tvips/_api.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 86c127b..0cb1c52 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
@@ -545,7 +545,7 @@ def file_writer(
     metadata = DTBox(signal["metadata"], box_dots=True)
     signal_dim = len([axis for axis in axes if not axis["navigate"]])
     nav_shape = [axis["size"] for axis in axes if axis["navigate"]]
-    num_frames = np.prod(nav_shape) if nav_shape else 0
+    num_frames = int(np.prod(nav_shape, dtype=int))
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
     fnb, ext = os.path.splitext(filename)
@@ -575,7 +575,8 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
-    if num_frames:
+    time_increment = 1
+    if nav_shape:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
         try:
@@ -583,7 +584,7 @@ def file_writer(
 
             time_increment = (nav_increment * _UREG(nav_units)).to("ms").magnitude
         except (AttributeError, pint.UndefinedUnitError, pint.DimensionalityError):
-            time_increment = 1
+            pass
     # imaging or diffraction
     if mode is None:
         mode = _guess_image_mode(signal)
@@ -595,12 +596,11 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
+    frames_to_save = num_frames
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From 687c51f5472fc9cec6c005f04b81edf2bfb47976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 069/129] fix: TVIPS: big-endian data were read back with their
 bytes swapped

---
 rsciio/tvips/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 0cb1c52..1e7fb1b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -166,7 +166,9 @@ def _get_frame_record_dtype_from_signal(signal, extra_bytes=0):
         fhdtype.append(("extra", bytes, extra_bytes))
     dimx = signal["axes"][-1]["size"]
     dimy = signal["axes"][-2]["size"]
-    fhdtype.append(("data", signal["data"].dtype, (dimy, dimx)))
+    # the file is little-endian
+    data_dtype = signal["data"].dtype.newbyteorder("<")
+    fhdtype.append(("data", data_dtype, (dimy, dimx)))
     dt = np.dtype(fhdtype)
     return dt
 
-- 
2.43.0


From f53c77ed254f8f5c4af74a50a950e0c55f2db774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 070/129] fix: TVIPS: tilts of the stage were not saved

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 1e7fb1b..067ba0d 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -594,8 +594,8 @@ def file_writer(
     stagex = metadata.get("Acquisition_instrument.TEM.Stage.x", 0)
     stagey = metadata.get("Acquisition_instrument.TEM.Stage.y", 0)
     stagez = metadata.get("Acquisition_instrument.TEM.Stage.z", 0)
-    stagea = metadata.get("Acquisition_instrument.TEM.tilt_alpha", 0)
-    stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
+    stagea = metadata.get("Acquisition_instrument.TEM.Stage.tilt_alpha", 0)
+    stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
     frames_to_save = num_frames
-- 
2.43.0


From 7bededddd8ca1fc195b03795e57a3a3181e647e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 071/129] fix: TVIPS: axes of scans along one line were those
 of other dimensions

---
 rsciio/tvips/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 067ba0d..83563f4 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -404,13 +404,13 @@ def file_reader(
         with dask.config.set(**{"array.slicing.split_large_chunks": True}):
             data_stack = data_stack[indices.ravel()]
         data_stack = data_stack.reshape(*indices.shape, dimy, dimx)
-        units = (indices.ndim - 2) * [""] + ["nm", "nm", DPU, DPU]
-        names = (indices.ndim - 2) * [""] + ["y", "x", "dy", "dx"]
-        # no scale information stored in the scan!
-        scales = (indices.ndim - 2) * [1] + [1, 1, SDP, SDP]
-        offsets = (indices.ndim - 2) * [0] + [0, 0, offsety, offsetx]
         # Create the axis objects for each axis
         dim = data_stack.ndim
+        units = ((dim - 4) * [""] + ["nm", "nm", DPU, DPU])[-dim:]
+        names = ((dim - 4) * [""] + ["y", "x", "dy", "dx"])[-dim:]
+        # no scale information stored in the scan!
+        scales = ((dim - 4) * [1] + [1, 1, SDP, SDP])[-dim:]
+        offsets = ((dim - 4) * [0] + [0, 0, offsety, offsetx])[-dim:]
         axes = [
             {
                 "size": data_stack.shape[i],
-- 
2.43.0


From 12ef2387000a0522d8e23c6bb7434de964bd54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 072/129] fix: TVIPS: fractions of a second of the start time
 were lost in some frames

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 83563f4..79c819c 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -635,8 +635,8 @@ def file_writer(
         file_memmap["fcurrent"] = fcurrent
         rotator = np.arange(current_frame, current_frame + frames_saved)
         milliseconds = rotator * time_increment
-        timestamps = (timestamp + milliseconds / 1000).astype(int)
-        milliseconds = milliseconds % 1000
+        milliseconds = np.round(timestamp * 1000 + milliseconds).astype(np.int64)
+        timestamps, milliseconds = np.divmod(milliseconds, 1000)
         file_memmap["timestamp"] = timestamps
         file_memmap["ms"] = milliseconds
         file_memmap["rotidx"] = rotator + 1
-- 
2.43.0


From 5c7cb1bd8f00d5f4fabaec1f38d7ed7708b9e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 073/129] fix: TVIPS: the time of acquisition, given as UTC,
 was that of the local time zone

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 79c819c..f7d42b2 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -445,7 +445,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From 2a610846ddafa5929a71393386f6f29cb8ac3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 074/129] fix: TVIPS: data types that cannot be read back were
 saved as if they were unsigned integers

---
 rsciio/tvips/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index f7d42b2..a97735c 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -550,6 +550,11 @@ def file_writer(
     num_frames = int(np.prod(nav_shape, dtype=int))
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
+    if signal["data"].dtype.kind != "u":
+        raise ValueError(
+            "Only unsigned integers are supported for writing to TVIPS file, not "
+            f"{signal['data'].dtype}."
+        )
     fnb, ext = os.path.splitext(filename)
     if fnb.endswith("_000"):
         fnb = fnb[:-4]
-- 
2.43.0


From 26959f8b74d4e57173ab4cdb43718db2aa9b8354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 075/129] fix: EMD NCEM: empty units were read back as "[]"

---
 rsciio/emd/_emd_ncem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..aa5cd92 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -533,7 +533,7 @@ class EMD_NCEM:
                 name = ""
             dim.attrs["name"] = name
             units = axis["units"]
-            if units is None:
+            if not units:
                 units = ""
             else:
                 units = "[{}]".format("_".join(list(units)))
-- 
2.43.0


From 9771b7193552d8e30c580c50bb9d3cdfdff96779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 076/129] fix: EMD NCEM: titles with "_depth", "CBED" or none
 were changed, or changed the signal type

---
 rsciio/emd/_emd_ncem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index aa5cd92..4bdc968 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -372,14 +372,18 @@ class EMD_NCEM:
 
     def _parse_metadata(self, group_basename, title=""):
         filename = self.file if isinstance(self.file, str) else self.file.filename
+        if self._is_prismatic_file:
+            title = title.replace("_depth", "")
+        elif title == "__unnamed__":
+            title = ""
         md = {
             "General": {
-                "title": title.replace("_depth", ""),
+                "title": title,
                 "original_filename": os.path.split(filename)[1],
             },
             "Signal": {"signal_type": ""},
         }
-        if "CBED" in group_basename:
+        if self._is_prismatic_file and "CBED" in group_basename:
             md["Signal"]["signal_type"] = "electron_diffraction"
         return md
 
-- 
2.43.0


From 04ae66ef02870dc9d842692c26e2fc377de0530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 077/129] fix: EMD NCEM: the chunks were chosen along the wrong
 axes

---
 rsciio/emd/_emd_ncem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 4bdc968..3b56838 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -510,8 +510,11 @@ class EMD_NCEM:
                 # For lazy dataset, by default, we use the current dask chunking
                 chunks = tuple([c[0] for c in data.chunks])
             else:
+                # The order of the axes is reversed since the data is transposed
                 signal_axes = [
-                    i for i, axis in enumerate(signal["axes"]) if not axis["navigate"]
+                    data.ndim - 1 - i
+                    for i, axis in enumerate(signal["axes"])
+                    if not axis["navigate"]
                 ]
                 chunks = get_signal_chunks(data.shape, data.dtype, signal_axes)
         # when chunks=True, we leave it to h5py `guess_chunk`
-- 
2.43.0


From cd683dfd881665756f26720cd250acf67ce42274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 078/129] fix: EMD NCEM: the scale of axes with one element was
 not a number

---
 rsciio/emd/_emd_ncem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 3b56838..c220e7d 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -449,7 +449,9 @@ class EMD_NCEM:
         Estimate, offset, scale from a 1D array
         """
         if axis_data.ndim > 0 and np.issubdtype(axis_data.dtype, np.number):
-            offset, scale = float(axis_data[0]), float(np.diff(axis_data).mean())
+            offset = float(axis_data[0])
+            # the scale of a single element is unknown
+            scale = float(np.diff(axis_data).mean()) if axis_data.size > 1 else 1
         else:
             # This is a string, return default values
             # When non-uniform axis is supported we should be able to parse
-- 
2.43.0


From 870b69e41836dcd1c3c55793c22be058a193f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 079/129] fix: EMD NCEM: signals with original metadata that
 hdf5 attributes cannot hold could not be saved, the file was left open

---
 rsciio/emd/_emd_ncem.py | 57 ++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index c220e7d..89a0774 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -478,25 +478,37 @@ class EMD_NCEM:
             emd_file = h5py.File(file, "w")
         else:
             emd_file = file
-        # Write version:
-        ver_maj, ver_min = EMD_VERSION.split(".")
-        emd_file.attrs["version_major"] = ver_maj
-        emd_file.attrs["version_minor"] = ver_min
+        try:
+            # Write version:
+            ver_maj, ver_min = EMD_VERSION.split(".")
+            emd_file.attrs["version_major"] = ver_maj
+            emd_file.attrs["version_minor"] = ver_min
+
+            # Write attribute from the original_metadata
+            om = DTBox(signal["original_metadata"], box_dots=True)
+            for group_name in ["microscope", "sample", "user", "comments"]:
+                group = emd_file.require_group(group_name)
+                d = om.get(group_name, None)
+                if isinstance(d, dict):
+                    self._write_attributes(group, d)
+
+            # Write signals:
+            signal_group = emd_file.require_group("signals")
+            signal_group.attrs["emd_group_type"] = 1
+            self._write_signal_to_group(signal_group, signal, **kwargs)
+        finally:
+            emd_file.close()
 
-        # Write attribute from the original_metadata
-        om = DTBox(signal["original_metadata"], box_dots=True)
-        for group_name in ["microscope", "sample", "user", "comments"]:
-            group = emd_file.require_group(group_name)
-            d = om.get(group_name, None)
-            if d is not None:
-                for key, value in d.items():
-                    group.attrs[key] = value
-
-        # Write signals:
-        signal_group = emd_file.require_group("signals")
-        signal_group.attrs["emd_group_type"] = 1
-        self._write_signal_to_group(signal_group, signal, **kwargs)
-        emd_file.close()
+    @staticmethod
+    def _write_attributes(group, attributes):
+        for key, value in attributes.items():
+            try:  # If something h5py can't handle is saved in the metadata...
+                group.attrs[key] = value
+            except Exception:  # ...let the user know what could not be added!
+                _logger.warning(
+                    "The following information couldn't be "
+                    f"written in the file: {key}: {value}"
+                )
 
     def _write_signal_to_group(self, signal_group, signal, chunks=None, **kwargs):
         # Save data:
@@ -549,14 +561,7 @@ class EMD_NCEM:
             dim.attrs["units"] = units
         # Write metadata:
         dataset.attrs["emd_group_type"] = 1
-        for key, value in signal["metadata"]["Signal"].items():
-            try:  # If something h5py can't handle is saved in the metadata...
-                dataset.attrs[key] = value
-            except Exception:  # ...let the user know what could not be added!
-                _logger.warning(
-                    "The following information couldn't be "
-                    f"written in the file: {key}: {value}"
-                )
+        self._write_attributes(dataset, signal["metadata"]["Signal"])
 
 
 def read_emd_version(group):
-- 
2.43.0


From 1a0b4f3950a871dd3bace8448d87331766fb421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 080/129] fix: EMD NCEM: datasets whose group has a name
 contained in the path of another were stacked

---
 rsciio/emd/_emd_ncem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 89a0774..4e7cadd 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -101,12 +101,19 @@ class EMD_NCEM:
                 # 1. add them to 'group_paths'
                 # 2. remove them from 'dataset_path'
                 group_basename = group_paths[0]
-                if self._is_prismatic_file and "ppotential" not in path:
+                numbered = self._is_prismatic_file and "ppotential" not in path
+                if numbered:
                     # In prismatic file, the group name have '0000' except
                     # for 'ppotential'
                     group_basename = group_basename[:-4]
                 for _path in dataset_path[:]:
-                    if path != _path and group_basename in _path:
+                    # only the same dataset of groups, whose names differ by
+                    # their number, belongs to the stack
+                    if (
+                        numbered
+                        and os.path.dirname(_path)[:-4] == group_basename
+                        and os.path.basename(_path) == dataset_name
+                    ):
                         group_paths.append(os.path.dirname(_path))
                         dataset_path.remove(_path)
                 title = os.path.basename(group_basename)
-- 
2.43.0


From a7b49077a05a8820000a0c1b49485f8cda69061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 081/129] fix: EMD NCEM: stacks of data with one-element axes
 were read with the axes of other dimensions

---
 rsciio/emd/_emd_ncem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 4e7cadd..bbb1933 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -242,7 +242,6 @@ class EMD_NCEM:
             raise IOError("Dataset can't be found.")
 
         if len(dataset_list) > 1:
-            # Squeeze the data only when
             if self.lazy:
                 import dask.array as da
 
@@ -252,12 +251,11 @@ class EMD_NCEM:
                 if transpose_required:
                     data_list = [da.transpose(d) for d in data_list]
                 data = da.stack(data_list)
-                data = da.squeeze(data)
             else:
                 data_list = [self._read_dataset(d)[0] for d in dataset_list]
                 if transpose_required:
                     data_list = [np.transpose(d) for d in data_list]
-                data = np.stack(data_list).squeeze()
+                data = np.stack(data_list)
         else:
             d = dataset_list[0]
             if self.lazy:
-- 
2.43.0


From af7d05efdfc878aebcf575152486e3d2b3d1c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 082/129] fix: Bruker: the table of files in a container was
 cut when its chunks had room left

---
 rsciio/bruker/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..2eb4f83 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -332,9 +332,9 @@ class SFS_reader:
         """
         with open(self.filename, "rb") as fn:
             # check if file tree do not exceed one chunk:
-            n_file_tree_chunks = ceil(
-                (self.n_tree_items * 0x200) / (self.chunksize - 0x20)
-            )
+            # items do not continue in the next chunk
+            tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
+            n_file_tree_chunks = ceil(self.n_tree_items / tree_items_in_chunk)
             if n_file_tree_chunks == 1:
                 # file tree do not exceed one chunk in bcf:
                 fn.seek(self.chunksize * self.tree_address + 0x138)
@@ -342,7 +342,6 @@ class SFS_reader:
             else:
                 temp_str = io.BytesIO()
                 tree_address = self.tree_address
-                tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
                 for i in range(n_file_tree_chunks):
                     # jump to tree/list address:
                     fn.seek(self.chunksize * tree_address + 0x118)
-- 
2.43.0


From decd4ac6917743271f71a57d6be42e0ecbbd69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 083/129] fix: Bruker: files listed before their directory were
 lost

---
 rsciio/bruker/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 2eb4f83..fa05ae8 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -394,7 +394,8 @@ class SFS_reader:
                     dir_pointer[j] = {}
                     dir_pointer = dir_pointer[j]
             if temp_item_list[i].is_dir:
-                dir_pointer[temp_item_list[i].name] = {}
+                # the items in it can come before the directory
+                dir_pointer.setdefault(temp_item_list[i].name, {})
             else:
                 dir_pointer[temp_item_list[i].name] = temp_item_list[i]
         # return dict tree:
-- 
2.43.0


From 1588157d546cd7c01f20d04b48f99348e8fdfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 084/129] fix: TIA: offsets of axes were left in meters when
 the scale was converted to nm

---
 rsciio/tia/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..04d6b1e 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -640,9 +640,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         if axis["units"] == "meters":
             axis["units"] = "nm"
             axis["scale"] *= 10**9
+            axis["offset"] *= 10**9
         elif axis["units"] == "1/meters":
             axis["units"] = "1 / nm"
             axis["scale"] /= 10**9
+            axis["offset"] /= 10**9
 
     # Remove Nones from array_shape caused by squeezing size 1 dimensions
     array_shape = [dim for dim in array_shape if dim is not None]
-- 
2.43.0


From 8c78e0e4ae23f7c0b96c8a2053c3ea640a08beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 085/129] fix: TIA: the calibration element of navigation and
 energy axes was ignored

---
 rsciio/tia/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 04d6b1e..f0c3316 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -558,7 +558,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                     name = None
                 axes.append(
                     {
-                        "offset": header["Dim-%i_CalibrationOffset" % idim][0],
+                        # The calibration offset is the value at the
+                        # calibration element
+                        "offset": header["Dim-%i_CalibrationOffset" % idim][0]
+                        - header["Dim-%i_CalibrationElement" % idim][0]
+                        * header["Dim-%i_CalibrationDelta" % idim][0],
                         "scale": header["Dim-%i_CalibrationDelta" % idim][0],
                         "units": units,
                         "size": header["Dim-%i_DimensionSize" % idim][0],
@@ -587,7 +591,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
     if record_by == "spectrum":
         axes.append(
             {
-                "offset": data["CalibrationOffset"][0],
+                "offset": data["CalibrationOffset"][0]
+                - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
                 "index_in_array": header["NumberDimensions"][0],
-- 
2.43.0


From 2b085e3a221f41f053d831da1be5ce8893895bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 086/129] fix: TIA: maps of images with a single row could not
 be read

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index f0c3316..897ce25 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -545,7 +545,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
             idim = 1 + i if order == "C" else ndim - i
             if (
                 record_by == "spectrum"
-                or header["Dim-%i_DimensionSize" % (i + 1)][0] != 1
+                or header["Dim-%i_DimensionSize" % (idim)][0] != 1
             ):
                 units = (
                     header["Dim-%i_Units" % (idim)][0].decode("utf-8")
-- 
2.43.0


From 98b695171fae6ff569ddeec3b6004386653f0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 087/129] fix: TIA: index of the energy axis of a single
 spectrum of an interrupted series

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 897ce25..3b58025 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -595,7 +595,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                 - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
-                "index_in_array": header["NumberDimensions"][0],
+                "index_in_array": len(axes),
                 "navigate": False,
             }
         )
-- 
2.43.0


From 617aa4fe77600ce4574fd9a7b2d84e8aabef6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 088/129] fix: TIA: ser files with numbers above 9 or brackets
 in their path were not found

---
 rsciio/tia/_api.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 3b58025..353287a 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -22,7 +22,7 @@ import struct
 import warnings
 import xml.etree.ElementTree as ET
 from collections import OrderedDict
-from glob import glob
+from glob import escape, glob
 
 import numpy as np
 from dateutil import parser
@@ -257,7 +257,13 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
             with open(filename + "-object-%s.xml" % i, "w") as f:
                 f.write(obj)
 
-    ser_files = sorted(glob(filename + "_[0-9].ser"))
+    # the number can have more than one digit
+    ser_files = [
+        f
+        for f in glob(escape(filename) + "_[0-9]*.ser")
+        if f[len(filename) + 1 : -4].isdigit()
+    ]
+    ser_files.sort(key=lambda f: int(f[len(filename) + 1 : -4]))
     sers = []
     for f in ser_files:
         _logger.info("Opening %s", f)
-- 
2.43.0


From b4803b2d8675e9bebd2761018ed662faec91c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 089/129] fix: TIA: the values of TrueImageHeaderInfo were lost

---
 rsciio/tia/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 353287a..7e371e1 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -223,8 +223,8 @@ def parse_TrueImageHeaderInfo(et, dictree):
     dictree.add_node(et.tag)
     dictree = dictree[et.tag]
     et = ET.fromstring(et.text)
-    for data in et.findall(b"Data"):
-        dictree[data.find(b"Index").text] = float(data.find(b"Value").text)
+    for data in et.findall("Data"):
+        dictree[data.find("Index").text] = float(data.find("Value").text)
 
 
 def emixml2dtb(et, dictree):
-- 
2.43.0


From c4238206ffe5482d7bf416d268f430f9261bc5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 090/129] fix: TIA: date and units of all ser files were those
 of the first object of the emi file

---
 rsciio/tia/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 7e371e1..3ff5868 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -267,12 +267,17 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
     sers = []
     for f in ser_files:
         _logger.info("Opening %s", f)
+        index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
         try:
-            sers.extend(ser_reader(f, objects, lazy, only_valid_data))
+            # the metadata of this file
+            sers.extend(
+                ser_reader(
+                    f, objects[index : index + 1] or None, lazy, only_valid_data
+                )
+            )
         except IOError:  # Probably a single spectrum that we don't support
             continue
 
-        index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
         op = DTBox(sers[-1]["original_metadata"], box_dots=True)
 
         # defend against condition where more ser files are present than object
-- 
2.43.0


From 8c7d2768cfb987142f3dd590212b08616c1442d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 091/129] fix: Bruker: bunches of 8-byte values of packed
 spectra were read at the wrong places

---
 rsciio/bruker/unbcf_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 6292b36..b320914 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -257,7 +257,7 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
-                        val32 = read_32(&src[offset + i*2])
+                        val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
                 length = <int>(head.channels * head.size // 2)
             offset += length
-- 
2.43.0


From 78ea7422ec79ff748e8c5996589d3dcf5703c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 092/129] fix: Bruker: spectra of maps longer than a block were
 read beyond the memory of the block

---
 rsciio/bruker/unbcf_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index b320914..e08852f 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -121,7 +121,7 @@ cdef class DataStream:
         making sure the array have the required length
         counting from the offset, increase the internal offset
         by given length"""
-        if (self.offset + length) > self.size:
+        while (self.offset + length) > self.size:
             self.load_next_block()
         self.offset += length
         return &self.buffer2[self.offset-length]
-- 
2.43.0


From b53a46bab35048cd969a0952a3549d13f40a7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 093/129] fix: Bruker: pure Python parser failed on maps of
 pulses whose last channel is empty

---
 rsciio/bruker/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index fa05ae8..24af88f 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1160,7 +1160,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
             if flag == 0:
                 data1 = buffer1[offset : offset + data_size2]
                 arr16 = np.frombuffer(data1, dtype=np.uint16)
-                pixel = np.bincount(arr16, minlength=chan1 - 1)
+                pixel = np.bincount(arr16, minlength=chan1)
                 offset += data_size2
             elif flag == 1:  # and (chan1 != chan2)
                 # Unpack packed 12-bit data to 16-bit uints:
@@ -1181,7 +1181,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ).copy()
                 exp16[0::2] >>= 4  # Shift every second short by 4
                 exp16 &= np.uint16(0x0FFF)  # Mask all shorts to 12bit
-                pixel = np.bincount(exp16, minlength=chan1 - 1)
+                pixel = np.bincount(exp16, minlength=chan1)
                 offset += data_size2
             else:  # flag > 1
                 # Unpack instructively packed data to pixel channels:
-- 
2.43.0


From 728281d83efbd121adb3166c6ec2505316ac0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 094/129] fix: Bruker: pure Python parser asked for a block
 behind the last one

---
 rsciio/bruker/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 24af88f..c4459a5 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1115,14 +1115,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
     offset = 0x1A0
     size = size_chnk
     for line_cnt in range(height):
-        if (offset + 4) >= size:
+        if (offset + 4) > size:
             size = size_chnk + size - offset
             buffer1 = buffer1[offset:] + next(iter_data)
             offset = 0
         line_head = strct_unp("<i", buffer1[offset : offset + 4])[0]
         offset += 4
         for dummy1 in range(line_head):
-            if (offset + 22) >= size:
+            if (offset + 22) > size:
                 size = size_chnk + size - offset
                 buffer1 = buffer1[offset:] + next(iter_data)
                 offset = 0
@@ -1153,7 +1153,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) >= size:
+            if (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1228,7 +1228,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) >= size:
+                    if (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
-- 
2.43.0


From 68c2994a74bd2228dc23fd2f121d48a81672c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 095/129] fix: Bruker: pure Python parser cut spectra of maps
 longer than a block

---
 rsciio/bruker/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index c4459a5..63a1087 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1153,7 +1153,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) > size:
+            while (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1228,7 +1228,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) > size:
+                    while (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
-- 
2.43.0


From 73fd8a4c51c9d7570780f12d30802a104f54bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 096/129] fix: Bruker: scale of the width of maps was that of
 their height

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 63a1087..7a8fbe1 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1470,7 +1470,7 @@ For more information, check the 'Installing RosettaSciIO' section in the documen
                         "name": "width",
                         "size": hypermap.shape[1],
                         "offset": 0,
-                        "scale": obj_bcf.header.y_res * downsample,
+                        "scale": obj_bcf.header.x_res * downsample,
                         "units": obj_bcf.header.units,
                         "navigate": True,
                     },
-- 
2.43.0


From d78389ff4470fbba88d5bd07613cae8b18c8f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 097/129] fix: Bruker: maps of files with more than ten were
 taken for others

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 7a8fbe1..d165559 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -906,7 +906,7 @@ class BCF_reader(SFS_reader):
         # while looking for file names containing the hypercube data:
         for i in self.vfs["EDSDatabase"].keys():
             if "SpectrumData" in i:
-                self.available_indexes.append(int(i[-1]))
+                self.available_indexes.append(int(i.split("SpectrumData")[-1]))
         self.def_index = min(self.available_indexes)
         header_bytes = header_file.get_as_BytesIO_string().getvalue()
         sanitized_bytes = sanitize_msxml_float(header_bytes)
-- 
2.43.0


From 9d849d3bbc8c36e3ac6a610c13b0e8acfb87a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 098/129] fix: TIFF: width and height of the pixels of FEI,
 TVIPS and Olympus images were swapped

---
 rsciio/tiff/_api.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..c0674d2 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -468,8 +468,9 @@ def _axes_fei(tiff, op, shape, names):
     except KeyError:
         del op["FEI_SFEG"]
     try:
-        scales["x"] = float(op["fei_metadata"]["Scan"]["PixelWidth"])
-        scales["y"] = float(op["fei_metadata"]["Scan"]["PixelHeight"])
+        # "x" is the height and "y" the width, see `_order_axes_by_name`
+        scales["y"] = float(op["fei_metadata"]["Scan"]["PixelWidth"])
+        scales["x"] = float(op["fei_metadata"]["Scan"]["PixelHeight"])
         units.update({"x": "m", "y": "m"})
     except KeyError:
         _logger.debug(
@@ -477,10 +478,10 @@ def _axes_fei(tiff, op, shape, names):
             "from 'IRBeam' metadata"
         )
         try:
-            scales["x"] = float(op["fei_metadata"]["IRBeam"]["HFW"]) / float(
+            scales["y"] = float(op["fei_metadata"]["IRBeam"]["HFW"]) / float(
                 op["fei_metadata"]["Image"]["ResolutionX"]
             )
-            scales["y"] = float(op["fei_metadata"]["IRBeam"]["VFW"]) / float(
+            scales["x"] = float(op["fei_metadata"]["IRBeam"]["VFW"]) / float(
                 op["fei_metadata"]["Image"]["ResolutionY"]
             )
             units.update({"x": "m", "y": "m"})
@@ -536,8 +537,9 @@ def _axes_tvips(tiff, op, shape, names):
 
     if "PixelSizeX" in op["TVIPS"] and "PixelSizeY" in op["TVIPS"]:
         _logger.debug("getting TVIPS scale from PixelSizeX")
-        scales["x"] = op["TVIPS"]["PixelSizeX"]
-        scales["y"] = op["TVIPS"]["PixelSizeY"]
+        # "x" is the height and "y" the width, see `_order_axes_by_name`
+        scales["y"] = op["TVIPS"]["PixelSizeX"]
+        scales["x"] = op["TVIPS"]["PixelSizeY"]
         units.update({"x": "nm", "y": "nm"})
     else:
         _logger.debug("getting TVIPS scale from XYResolution")
@@ -566,8 +568,9 @@ def _axes_olympus_sis(page, tiff, op, shape, names):
         except Exception:
             pass
     op["Olympus_SIS_metadata"] = sis_metadata
-    scales["x"] = round(float(sis_metadata["pixelsizex"]), 15)
-    scales["y"] = round(float(sis_metadata["pixelsizey"]), 15)
+    # "x" is the height and "y" the width, see `_order_axes_by_name`
+    scales["y"] = round(float(sis_metadata["pixelsizex"]), 15)
+    scales["x"] = round(float(sis_metadata["pixelsizey"]), 15)
     units.update({"x": "m", "y": "m"})
 
     scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
-- 
2.43.0


From 374bcdbaf7385622916f5abfd08ab67a1500d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 099/129] fix: TIFF: units and scales of saved images were
 replaced by the rounded ones for ImageJ

---
 rsciio/tiff/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index c0674d2..64cfaa2 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -916,12 +916,13 @@ def _parse_scale_unit(
     else:
         scales, offsets, units = _axes_defaults()
         # Axes descriptors can be additionally parsed from digital micrograph or imagej-style files
+        if _is_imagej(tiff):
+            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
+        # the last one, because these are more precise and have a unit per axis
         if _is_digital_micrograph(op):
             scales, offsets, units = _add_axes_digital_micrograph(
                 op, scales, offsets, units
             )
-        if _is_imagej(tiff):
-            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
 
         scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
 
-- 
2.43.0


From cd309308470894789a38abce3c798086f9059e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 100/129] fix: TIFF: signals with small, large or negative
 scales could not be saved

---
 rsciio/tiff/_api.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 64cfaa2..44c12cd 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -939,7 +939,7 @@ def _get_scales_from_x_y_resolution(op, factor=1.0):
     return scales
 
 
-def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
+def _get_tags_dict(signal, extratags=[]):
     """
     Get the tags to export the scale and the unit to be used in Digital
     Micrograph and ImageJ.
@@ -948,7 +948,7 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     nav_dim = len([ax for ax in axes if ax["navigate"]])
     scales, units, offsets = _get_scale_unit(axes, encoding=None)
     _logger.debug("{0}".format(units))
-    tags_dict = _get_imagej_kwargs(scales, units, nav_dim, factor=factor)
+    tags_dict = _get_imagej_kwargs(scales, units, nav_dim)
     scales, units, offsets = _get_scale_unit(axes, encoding="latin-1")
 
     tags_dict["extratags"].extend(
@@ -958,11 +958,8 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     return tags_dict
 
 
-def _get_imagej_kwargs(scales, units, nav_dim, factor=int(1e8)):
-    resolution = (
-        (factor, int(scales[-1] * factor)),
-        (factor, int(scales[-2] * factor)),
-    )
+def _get_imagej_kwargs(scales, units, nav_dim):
+    resolution = (_get_resolution(scales[-1]), _get_resolution(scales[-2]))
     if nav_dim == 1:  # For stacks
         spacing = f"{scales[0]}"
     else:
@@ -973,6 +970,12 @@ def _get_imagej_kwargs(scales, units, nav_dim, factor=int(1e8)):
     return {"resolution": resolution, "extratags": extratag}
 
 
+def _get_resolution(scale):
+    """Pixels per unit, within what two numbers of 32 bits can represent."""
+    limit = 2**32 - 1
+    return min(max(1 / abs(scale), 1 / limit), float(limit)) if scale else 1.0
+
+
 def _get_dm_kwargs_extratag(signal, scales, units, offsets, nav_dim):
     extratags = [
         (65003, "s", 3, units[-1], False),  # x unit
-- 
2.43.0


From 75d743b552d2cab8112ed67c87307e9586a9f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:13 +0000
Subject: [PATCH 101/129] fix: TIFF: the current date was saved for signals
 with a date without time

---
 rsciio/tiff/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 44c12cd..f8e5cb4 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -125,6 +125,9 @@ def file_writer(filename, signal, export_scale=True, extratags=None, **kwds):
 
     if "General" in metadata.keys() and metadata["General"].get("date"):
         dt = get_date_time_from_metadata(signal["metadata"], formatting="datetime")
+        if not isinstance(dt, datetime):
+            # a date without time, for which tifffile would save the current time
+            dt = datetime(dt.year, dt.month, dt.day)
         kwds["datetime"] = dt
 
     imwrite(filename, data, software="hyperspy", photometric=photometric, **kwds)
-- 
2.43.0


From 9158970c0c758f90fa88c1fc1912e084e21ab1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 102/129] fix: TIFF: signals whose units or quantity are not
 ASCII could not be saved

---
 rsciio/tiff/_api.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index f8e5cb4..89df72b 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -995,7 +995,7 @@ def _get_dm_kwargs_extratag(signal, scales, units, offsets, nav_dim):
     #                 (65026, 'i', 1, 1, False)] # don't know
     md = DTBox(signal["metadata"], box_dots=True)
     if "Signal.quantity" in md:
-        intensity_units = md["Signal"].get("quantity", "")
+        intensity_units = _encode(md["Signal"].get("quantity", ""))
         extratags.extend(
             [
                 (65022, "s", 3, intensity_units, False),
@@ -1055,10 +1055,17 @@ def _get_scale_unit(axes, encoding=None):
         if unit is None:
             units[i] = ""
         if encoding is not None:
-            units[i] = units[i].encode(encoding)
+            units[i] = _encode(units[i], encoding)
     return scales, units, offsets
 
 
+def _encode(text, encoding="latin-1"):
+    try:
+        return text.encode(encoding)
+    except UnicodeEncodeError:
+        return text.encode("utf-8")
+
+
 def _imagej_description(version="1.11a", **kwargs):
     """Return a string that will be used by ImageJ to read the unit when
     appropriate arguments are provided."""
@@ -1072,6 +1079,8 @@ def _imagej_description(version="1.11a", **kwargs):
             value = "micron"
         if value == "Å":
             value = "angstrom"
+        # the description is 7-bit ASCII
+        value = value.encode("ascii", "backslashreplace").decode("ascii")
         append.append(f"{key.lower()}={value}")
 
     return "\n".join(result + append + [""])
-- 
2.43.0


From 2ca6039defae976512915aa740ae2cc81db463c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 103/129] fix: TIFF: units of ImageJ images other than microns
 were dropped

---
 rsciio/tiff/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 89df72b..de91319 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -823,8 +823,10 @@ def _add_axes_imagej(tiff, op, scales, offsets, units):
         _logger.debug("Reading ImageJ tif metadata")
         # ImageJ write the unit in the image description
         if "unit" in imagej_metadata:
-            if imagej_metadata["unit"] == "micron":
-                units.update({"x": "µm", "y": "µm"})
+            # ASCII: other characters are escaped
+            unit = str(imagej_metadata["unit"]).replace(r"\u00B5", "µ")
+            unit = {"micron": "µm", "angstrom": "Å"}.get(unit, unit)
+            units.update({"x": unit, "y": unit})
             scales["x"], scales["y"] = _get_scales_from_x_y_resolution(op)
         if "spacing" in imagej_metadata:
             scales["z"] = imagej_metadata["spacing"]
-- 
2.43.0


From 47d0a92cb365f656da3cbaa1c2ba72479fabec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 104/129] fix: TIFF: dates without seconds were dropped in
 files with a description

---
 rsciio/tiff/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index de91319..0af9e7c 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -345,7 +345,7 @@ def _read_tiff(
             dt = datetime.strptime(op["DateTime"], "%Y:%m:%d %H:%M:%S")
         except Exception:
             try:
-                if "ImageDescription" in op:
+                if isinstance(op.get("ImageDescription"), dict):
                     # JEOL SightX.
                     _dt = op["ImageDescription"]["DateTime"]
                     md["General"]["date"] = _dt[0:10]
-- 
2.43.0


From 4e5a2eb41b949c3f6cdd1e38f89246b0882a868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 105/129] fix: digitalsurf: scale single and half precision
 data in double precision

The scaling to 32 bits integers was computed with the precision of the data:
with single precision, the maximum of the data overflowed and was read back as
its minimum, with half precision, all values were lost.
---
 rsciio/digitalsurf/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..434a9c6 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -989,6 +989,8 @@ class DigitalSurfHandler(object):
         """Normalize float data on a 32 bits int scale. Inherently lossy
         but that's how things are with mountainsmap files."""
 
+        # Double precision is required to represent all 32 bits integers
+        data = data.astype(np.float64)
         Zoffset_f = np.nanmin(data)
         Zmax_f = np.nanmax(data)
         is_nan = np.any(np.isnan(data))
-- 
2.43.0


From 6c883b1f03053028b499b1582ffb26deb71d3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 106/129] fix: digitalsurf: save constant floating point data

The scale of constant data was zero, the division by which gave NaN.
---
 rsciio/digitalsurf/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 434a9c6..dd53787 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1003,6 +1003,9 @@ class DigitalSurfHandler(object):
             Zmax = 2**32 + Zmin - 1
 
         Zscale = (Zmax_f - Zoffset_f) / (Zmax - Zmin)
+        if Zscale == 0:
+            # All values are the same, any other scale represents them
+            Zscale = 1.0
         data_int = (data - Zoffset_f) / Zscale + Zmin
 
         if is_special and is_nan:
-- 
2.43.0


From b6e4fc5550e64f067935697f70775458d4b119b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 107/129] fix: digitalsurf: scale surfaces whose scale and
 offset are integers

The stored integers were returned without scaling when the scale and the offset
were any integers, for example for surfaces of zeros and for surfaces whose
values are large.
---
 rsciio/digitalsurf/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index dd53787..d769e6c 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2168,7 +2168,10 @@ class DigitalSurfHandler(object):
                 "_23_Z_Spacing"
             ) / self._get_work_dict_key_value("_35_Z_Unit_Ratio")
             offset = self._get_work_dict_key_value("_55_Z_Offset")
-            if float(scale).is_integer() and float(offset).is_integer():
+            Zmin = self._get_work_dict_key_value("_16_Zmin")
+            # Scaling the points changes nothing. The offset is stored in single
+            # precision
+            if scale == 1 and offset == np.float32(Zmin):
                 return True
             else:
                 return False
-- 
2.43.0


From 41f71631d92afb95cfa1a33fceb6a53d6aac62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 108/129] fix: digitalsurf: save colours above 32767 of series
 of RGB images

16 bits colours were converted to signed 16 bits integers, which wraps values
above 32767.
---
 rsciio/digitalsurf/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index d769e6c..4e3b697 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -851,9 +851,9 @@ class DigitalSurfHandler(object):
         self.objtype_split = []
         for d in tmp_data_split:
             self.data_split += [
-                d["R"].astype(np.int16).copy(),
-                d["G"].astype(np.int16).copy(),
-                d["B"].astype(np.int16).copy(),
+                d["R"].astype(np.int32),
+                d["G"].astype(np.int32),
+                d["B"].astype(np.int32),
             ]
             # self.objtype_split += [12,10,10]
         self.objtype_split = [12, 10, 10] * self.Taxis["size"]
-- 
2.43.0


From 92db17597e183bd49a139a2b6bce8be67b53fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 109/129] fix: digitalsurf: write the private zone as bytes

The representation of the bytes (b'...'), cut to their number, was written
instead of the bytes.
---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 4e3b697..7f08cdf 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2147,11 +2147,11 @@ class DigitalSurfHandler(object):
 
     def _unpack_private(self, file, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        return self._get_str(file, privatesize, encoding)
+        return self._get_bytes(file, privatesize)
 
     def _pack_private(self, file, val, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        self._set_str(file, val, privatesize)
+        self._set_bytes(file, val, privatesize)
 
     def _is_data_int(
         self,
-- 
2.43.0


From e30c29548d30d7d7a955aacdd48bde0ce44f2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 110/129] fix: digitalsurf: header of each object and channel

In files with several objects of several channels, the headers of other objects
were given.
---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 7f08cdf..eb31d60 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1707,12 +1707,12 @@ class DigitalSurfHandler(object):
             # Iteration over the Number of Data channels
             for j in range(max(self._N_data_channels, 1)):
                 # Creating a dictionary key for each object
-                k = (i + 1) * (j + 1)
+                k = i * max(self._N_data_channels, 1) + j
                 key = "Object_{:d}_Channel_{:d}".format(i, j)
                 original_metadata_dict.update({key: {}})
 
                 # We load one full object header
-                a = self._list_sur_file_content[k - 1]
+                a = self._list_sur_file_content[k]
 
                 # Save it as original metadata dictionary
                 headerdict = {
-- 
2.43.0


From 69e6c768603686f0dd188ef23e481bde58718545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 111/129] fix: digitalsurf: quantities of several words without
 units

The last word of the quantity was saved as its units.
---
 rsciio/digitalsurf/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index eb31d60..cc55a16 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1025,12 +1025,13 @@ class DigitalSurfHandler(object):
         quantitystr: str = metadata.get("Signal", {}).get("quantity", "")
         quantitystr = quantitystr.strip()
         quantity = quantitystr.split(" ")
-        if len(quantity) > 1:
+        # The units are between brackets
+        if len(quantity) > 1 and quantity[-1].startswith("("):
             Zunit = quantity.pop()
             Zunit = Zunit.strip("()")
             Zname = " ".join(quantity)
-        elif len(quantity) == 1:
-            Zname = quantity.pop()
+        else:
+            Zname = quantitystr
             Zunit = ""
 
         return Zname, Zunit
-- 
2.43.0


From ff04eb2371018a302e3de6c3f19903180f07f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 112/129] fix: digitalsurf: dimensions of spectra of a single
 channel

The dimension of the channel was removed from the data, not its axis.
---
 rsciio/digitalsurf/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index cc55a16..3c48259 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1420,9 +1420,11 @@ class DigitalSurfHandler(object):
         self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
 
         # We reshape the data in the correct format.
-        # Edit: the data is now squeezed for unneeded dimensions
+        # Single spectra have no navigation dimension
         data_shape = (hypdic["_19_Number_of_Lines"], hypdic["_18_Number_of_Points"])
-        data_array = np.squeeze(hypdic["_62_points"].reshape(data_shape, order="C"))
+        data_array = hypdic["_62_points"].reshape(data_shape, order="C")
+        if hypdic["_19_Number_of_Lines"] == 1:
+            data_array = data_array[0]
 
         self.signal_dict["data"] = data_array
 
-- 
2.43.0


From 9df59b201656f4cadde37f42bd8845c99a01a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:35 +0000
Subject: [PATCH 113/129] fix: digitalsurf: non-measured points of surfaces of
 integers

Integers have no NaN: surfaces with non-measured points are floating point.
---
 rsciio/digitalsurf/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 3c48259..e0e0463 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2285,7 +2285,7 @@ class DigitalSurfHandler(object):
         offset = self._get_work_dict_key_value("_55_Z_Offset")
 
         # Packing data into ints or float, with or without scaling.
-        if self._is_data_int():
+        if self._is_data_int() and not np.any(nm):
             pass  # Case left here for future modification
         elif self._is_data_scaleint():
             _points = (_points.astype(float) - Zmin) * scale + offset
-- 
2.43.0


From 8e217bbfbf0bcfdc405eadb0ab5a1061efbe7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 114/129] fix: EDAX: byte order of spectrum images that are not
 lazy

The counts of big endian files were read as little endian, unless lazy.
---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From 198487a759c3420003e5a2df63b3f8a32e1d0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 115/129] fix: EDAX: line scans of a single point or channel

The dimension of size 1 was removed, and reading failed.
---
 rsciio/edax/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index fd95b43..5b2c54f 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -910,7 +910,7 @@ def si_reader(
     nav_units = "µm"
 
     if linescan:
-        data = data.squeeze()[:nSpectra, :]
+        data = data.reshape((ny * nx, nz))[:nSpectra, :]
         if csv_fname is None:
             csv_basename = os.path.splitext(filename)[0] + ".csv"
             csv_path = os.path.dirname(filename)
@@ -940,7 +940,8 @@ def si_reader(
                     spatial_axis.append(float(row["Distance (nm)"]))
                     nav_units = "nm"
                 spatial_axis_offset = spatial_axis[0]
-                spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
+                if len(spatial_axis) > 1:
+                    spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
 
             original_metadata["csv_header"] = csv_header
 
-- 
2.43.0


From d4d0670a217968d7ebe371949aeaedb24420fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 116/129] fix: EDAX: calibration of line scans in folders with
 a relative path

The folder was added twice, and the csv file was not found.
---
 rsciio/edax/_api.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 5b2c54f..35b99f1 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -912,9 +912,7 @@ def si_reader(
     if linescan:
         data = data.reshape((ny * nx, nz))[:nSpectra, :]
         if csv_fname is None:
-            csv_basename = os.path.splitext(filename)[0] + ".csv"
-            csv_path = os.path.dirname(filename)
-            csv_fname = os.path.join(csv_path, csv_basename)
+            csv_fname = os.path.splitext(filename)[0] + ".csv"
 
         read_csv = os.path.isfile(csv_fname)
         csv_header = OrderedDict()
-- 
2.43.0


From d39e96c8e1f7016b545e3bf1dced662f8a1d5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 117/129] fix: digitalsurf: dimension of the axis of a single
 spectrum

The axis was said to be that of the second dimension of 1D data.
---
 rsciio/digitalsurf/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index e0e0463..63f0988 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1417,7 +1417,8 @@ class DigitalSurfHandler(object):
             self.signal_dict["axes"].append(self._build_Yax(hypdic, ind=0, nav=True))
 
         # Add the signal axis_src to the signal dict
-        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
+        ind = len(self.signal_dict["axes"])
+        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=ind, nav=False))
 
         # We reshape the data in the correct format.
         # Single spectra have no navigation dimension
-- 
2.43.0


From 15034560924576e08e3c8e9b91cf1f4f26394238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 118/129] fix: nexus: keep the general metadata of saved
 signals

---
 rsciio/nexus/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..67a1db3 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -615,7 +615,9 @@ def file_reader(
                                     oma["original_metadata"][k]["axes"] = hyper_ax
                         if "hyperspy_metadata" in oma:
                             hyper_metadata = oma["hyperspy_metadata"]
-                            hyper_metadata.update(dictionary["metadata"])
+                            # keep the other entries, such as date and time
+                            general = hyper_metadata.setdefault("General", {})
+                            general.update(dictionary["metadata"]["General"])
                             dictionary["metadata"] = hyper_metadata
         else:
             dictionary["original_metadata"] = {}
-- 
2.43.0


From afc4fa04debb3115205eaa2c8b165eec8ea2d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 119/129] fix: nexus: scale and offset of axes with decreasing
 positions

---
 rsciio/nexus/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 67a1db3..ec8eddb 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -252,8 +252,10 @@ def _get_nav_list(data, dataentry):
                                     "size": data.shape[ind_in_array],
                                     "index_in_array": ind_in_array,
                                     "name": ax,
-                                    "scale": abs(dataentry[ax][1] - dataentry[ax][0]),
-                                    "offset": min(dataentry[ax][0], dataentry[ax][-1]),
+                                    # unsigned positions may decrease too
+                                    "scale": float(dataentry[ax][1])
+                                    - float(dataentry[ax][0]),
+                                    "offset": dataentry[ax][0],
                                     "units": units,
                                     "navigate": navigation,
                                 }
-- 
2.43.0


From 16945eae5229ec9c36b7779423ae04b6a1871465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 120/129] fix: nexus: save texts with characters outside ASCII
 in lists and axis names

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index ec8eddb..27dbf71 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -128,7 +128,7 @@ def _parse_to_file(value):
     if isinstance(totest, (list, tuple)):
         totest = np.array(value)
     if isinstance(totest, np.ndarray) and totest.dtype.char == "U":
-        toreturn = np.array(totest).astype("S")
+        toreturn = np.char.encode(totest, "utf-8")
     elif isinstance(totest, np.ndarray) or is_dask_array(totest):
         toreturn = totest
     if isinstance(totest, str):
-- 
2.43.0


From 0cbbb419abc41f65a4fd4eeadaca4ff0d8fbdeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 121/129] fix: nexus: save numpy scalars and complex numbers of
 the metadata

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 27dbf71..23b91f3 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1053,7 +1053,7 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
             else:
                 data = _parse_to_file(value)
                 overwrite_dataset(group, data, key, chunks=None, **kwds)
-        elif isinstance(value, (int, float, str, bytes)):
+        elif isinstance(value, (int, float, complex, str, bytes, np.generic)):
             group.create_dataset(key, data=_parse_to_file(value))
         else:
             if value is not None and key not in group:
-- 
2.43.0


From 46b2847bd19c1cdef09e9a3e71de190d1ef23df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 122/129] fix: nexus: keep the order of signals in files with
 more than nine of them

---
 rsciio/nexus/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 23b91f3..bce8685 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1201,7 +1201,8 @@ def file_writer(
     if not isinstance(signal, list):
         signal = [signal]
 
-    with h5py.File(filename, mode="w") as f:
+    # with "entry10" behind "entry9"
+    with h5py.File(filename, mode="w", track_order=True) as f:
         f.attrs["file_format"] = "nexus"
         f.attrs["file_writer"] = "hyperspy_nexus_v3"
 
-- 
2.43.0


From 79d843638e0b2867ea0d5429005337eeb7c19a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 123/129] fix: nexus: default signal of files with one entry

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index bce8685..d0f3d2e 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -547,7 +547,7 @@ def file_reader(
                 rootlist = list(original_metadata.keys())
                 rootlist.remove("attrs")
                 if rootlist and len(rootlist) == 1:
-                    nxentry == rootlist[0]
+                    nxentry = rootlist[0]
             if nxentry:
                 if "default" in original_metadata[nxentry]["attrs"]:
                     nxdata = original_metadata[nxentry]["attrs"]["default"]
-- 
2.43.0


From badf25a1c1ecfadfa28e818d5dfa5613c7d902b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 124/129] fix: nexus: positions and units of non-uniform axes

---
 rsciio/nexus/_api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index d0f3d2e..8069f94 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -268,9 +268,16 @@ def _get_nav_list(data, dataentry):
                                     "name": ax,
                                     "scale": 1,
                                     "offset": 0,
+                                    "units": units,
                                     "navigate": navigation,
                                 }
                             )
+                            positions = np.asarray(dataentry[ax])
+                            steps = np.diff(positions.astype(float))
+                            if positions.shape == (data.shape[ind_in_array],) and (
+                                np.all(steps > 0) or np.all(steps < 0)
+                            ):
+                                nav_list[-1]["axis"] = positions
                     else:
                         nav_list.append(
                             {
-- 
2.43.0


From 49fa0d045b6dc3daa038770b9941f4059dfede92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 125/129] fix: nexus: small steps of non-uniform axes

---
 rsciio/nexus/_api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 8069f94..3ab2591 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -666,9 +666,16 @@ def _is_linear_axis(data):
        True or False
 
     """
+    data = np.asarray(data)
+    # the steps may differ by the rounding of the positions
+    if np.issubdtype(data.dtype, np.floating):
+        atol = 8 * np.finfo(data.dtype).eps * np.max(np.abs(data))
+    else:
+        data = data.astype(float)
+        atol = 0
     steps = np.diff(data)
     est_steps = np.array([steps[0]] * len(steps))
-    return np.allclose(est_steps, steps, rtol=1.0e-5)
+    return np.allclose(est_steps, steps, rtol=1.0e-5, atol=atol)
 
 
 def _is_numeric_data(data):
-- 
2.43.0


From f6dad0b50f2483b5cc7ad469e34dc20cd4df3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:55 +0000
Subject: [PATCH 126/129] fix: nexus: order of signals selected by path or key

---
 rsciio/nexus/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 3ab2591..3ad3150 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -843,8 +843,9 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             [j for j in nx_datasets if any(s in j for s in search_keys)]
         )
 
-    matched_nexus = list(matched_nexus)
-    matched_hdf = list(matched_hdf)
+    # in the order of the file
+    matched_nexus = [j for j in nx_datasets if j in matched_nexus]
+    matched_hdf = [j for j in hdf_datasets if j in matched_hdf]
 
     return matched_nexus, matched_hdf
 
-- 
2.43.0


From 8e015a4bd61a0ab30ee5e51f5eba89f901754174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 127/129] fix: mrcz: read stacks with a dimension of length one

mrcz squeezes the array that it returns, and the reader then looked up the
sizes of three dimensions: reading failed with an IndexError.
---
 rsciio/mrcz/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..a61a0fb 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -109,6 +109,9 @@ def file_reader(filename, lazy=False, mmap_mode="c", endianness="<", **kwds):
     data, mrcz_header = _mrcz.readMRC(
         filename, endian=mrcz_endian, useMemmap=lazy, pixelunits="nm", **kwds
     )
+    if not isinstance(data, list) and data.ndim < 3:
+        # mrcz removes the dimensions of length one
+        data = data.reshape(tuple(int(n) for n in mrcz_header["dimensions"]))
 
     # Create the axis objects for each axis
     names = ["y", "x", "z"]
-- 
2.43.0


From e4ae495f17f0dac0af6ada94a4a3d2d612b7aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 128/129] fix: mrcz: save images

Saving an image, which the specification of the format lists as supported,
failed with an IndexError since three axes were expected.
---
 rsciio/mrcz/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index a61a0fb..fbc3790 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -54,7 +54,6 @@ _POP_FROM_HEADER = [
 ]
 # Hyperspy uses an unusual mixed Fortran- and C-ordering scheme
 _READ_ORDER = [1, 2, 0]
-_WRITE_ORDER = [0, 1, 2]
 
 
 # API changes in mrcz 0.5
@@ -216,7 +215,10 @@ def file_writer(
 
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
-    pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER]
+    pixelsize = [axis["scale"] for axis in signal["axes"]]
+    if len(pixelsize) == 2:
+        # A single image is a stack of one image
+        pixelsize.insert(0, 1.0)
 
     # Strip out voltage from meta-data
     voltage = md.get("Acquisition_instrument.TEM.beam_energy")
-- 
2.43.0


From c09e21bcd3883340cb7d7535807174f56fbfd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 129/129] fix: mrcz: save the pixel size in nm whatever the
 units of the axes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only the units of the last axis were considered, and, of these, µm and Å
were taken for nm.
---
 rsciio/mrcz/_api.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index fbc3790..f0e73a3 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -52,6 +52,19 @@ _POP_FROM_HEADER = [
     "pixelunits",
     "voltage",
 ]
+# The pixel size is saved in nm
+_NM = {
+    "pm": 1e-3,
+    "A": 0.1,
+    "Å": 0.1,
+    "\u212b": 0.1,
+    "nm": 1.0,
+    "um": 1e3,
+    "µm": 1e3,
+    "\u03bcm": 1e3,
+    "mm": 1e6,
+    "m": 1e9,
+}
 # Hyperspy uses an unusual mixed Fortran- and C-ordering scheme
 _READ_ORDER = [1, 2, 0]
 
@@ -213,9 +226,9 @@ def file_writer(
 
     md = DTBox(signal["metadata"], box_dots=True)
 
-    # Get pixelsize and pixelunits from the axes
-    pixelunits = signal["axes"][-1]["units"]
-    pixelsize = [axis["scale"] for axis in signal["axes"]]
+    # Get pixelsize in nm from the axes
+    pixelunits = "nm"
+    pixelsize = [axis["scale"] * _NM.get(axis["units"], 1.0) for axis in signal["axes"]]
     if len(pixelsize) == 2:
         # A single image is a stack of one image
         pixelsize.insert(0, 1.0)
-- 
2.43.0

