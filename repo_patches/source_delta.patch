From 380e7ec382ef5e8586e16a015a0dedf1498160e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:00 +0000
Subject: [PATCH 01/49] fix: notice pool workers that exit with status 0 while
 jobs are pending

---
 source/tomopy/util/mproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..afc8402 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -302,7 +302,7 @@ def distribute_jobs(arr,
                 res = p.map_async(_arg_parser, map_args)
                 try:
                     while not res.ready():
-                        if any(proc.exitcode for proc in proclist):
+                        if any(proc.exitcode is not None for proc in proclist):
                             p.terminate()
                             raise RuntimeError(
                                 "Child process terminated before finishing")
-- 
2.43.0


From d57c80ff813b96eeb916ce40d07a8b1e5ccc0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:00 +0000
Subject: [PATCH 02/49] fix: run jobs queued for the host also when jobs run
 serially

---
 source/tomopy/util/mproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index afc8402..aee7356 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -319,12 +319,13 @@ def distribute_jobs(arr,
         except:
             p.terminate()
             raise
-
-        clear_queue(queue, shared_arrays, shared_out)
     else:
         for m in map_args:
             _arg_parser(m)
 
+    # run the jobs that asked to be run on the host
+    clear_queue(queue, shared_arrays, shared_out)
+
     # NOTE: will only copy if out wasn't sharedmem
     out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
     clear_shared()
-- 
2.43.0


From e1f3b8176a44a35bdffa4612dd52a1452aa7e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:00 +0000
Subject: [PATCH 03/49] fix: replace np.int, which numpy has removed, in
 get_worker_ncore_slices

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index aee7356..b32242b 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From 02d4f50fdf4a5cfa33e1cd2b9ddb9abb8b4157e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:00 +0000
Subject: [PATCH 04/49] fix: pass each distributed array to the jobs with its
 own dtype

---
 source/tomopy/util/mproc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index b32242b..ffaf007 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -254,12 +254,14 @@ def distribute_jobs(arr,
     # prepare global sharedmem arrays
     shared_arrays = []
     shared_shape = []
+    shared_types = []
     shared_out = None
     shared_out_shape = None
     for arr in arrs:
         arr_shared = as_sharedmem(arr)
         shared_arrays.append(get_shared_mem(arr_shared))
         shared_shape.append(arr.shape)
+        shared_types.append(arr.dtype)
         if out is not None and np.may_share_memory(arr, out) and \
                 arr.shape == out.shape and arr.dtype == out.dtype:
             # assume these are the same array
@@ -288,13 +290,13 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    init_shared(shared_arrays, shared_out, shared_types, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, shared_types,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -375,7 +377,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 74df362fc65429fe1aa4566e5ecdf160e14d60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 05/49] fix: keep the state of distributed jobs per thread and
 drop it after errors

---
 source/tomopy/util/mproc.py | 73 +++++++++++++------------------------
 1 file changed, 26 insertions(+), 47 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index ffaf007..e5e53f8 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -53,7 +53,8 @@ Module for multiprocessing tasks.
 import numpy as np
 import multiprocessing as mp
 import math
-from contextlib import closing
+import threading
+from contextlib import closing, contextmanager
 from .dtype import as_sharedmem, to_numpy_array, get_shared_mem
 import logging
 import numexpr as ne
@@ -66,14 +67,8 @@ __copyright__ = "Copyright (c) 2015, UChicago Argonne, LLC."
 __docformat__ = 'restructuredtext en'
 __all__ = ['distribute_jobs']
 
-# global shared variables
-SHARED_ARRAYS = None
-SHARED_OUT = None
-SHARED_QUEUE = None
-INTYPE = None
-INSHAPE = None
-OUTTYPE = None
-OUTSHAPE = None
+# shared variables of the jobs that this thread runs
+SHARED = threading.local()
 ON_HOST = False
 DEBUG = False
 
@@ -198,6 +193,18 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
     return ncore, slcs
 
 
+@contextmanager
+def restore_shared():
+    """Bring the shared variables back to what they were, also after errors."""
+    outer = vars(SHARED).copy()
+    try:
+        yield
+    finally:
+        vars(SHARED).clear()
+        vars(SHARED).update(outer)
+
+
+@restore_shared()
 def distribute_jobs(arr,
                     func,
                     axis,
@@ -330,63 +337,35 @@ def distribute_jobs(arr,
 
     # NOTE: will only copy if out wasn't sharedmem
     out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
-    clear_shared()
     return out
 
 
 def init_shared(
         shared_arrays, shared_out, intype, inshape,
         outtype, outshape, queue=None, on_host=False):
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
     global ON_HOST
-    global INTYPE
-    global OUTTYPE
-    global INSHAPE
-    global OUTSHAPE
-    SHARED_ARRAYS = shared_arrays
-    SHARED_OUT = shared_out
-    SHARED_QUEUE = queue
+    SHARED.arrays = shared_arrays
+    SHARED.out = shared_out
+    SHARED.queue = queue
     ON_HOST = on_host
-    INTYPE = intype
-    OUTTYPE = outtype
-    INSHAPE = inshape
-    OUTSHAPE = outshape
-
-
-def clear_shared():
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global INTYPE
-    global OUTTYPE
-    SHARED_ARRAYS = None
-    SHARED_OUT = None
-    SHARED_QUEUE = None
-    INTYPE = None
-    OUTTYPE = None
+    SHARED.intype = intype
+    SHARED.inshape = inshape
+    SHARED.outtype = outtype
+    SHARED.outshape = outshape
 
 
 def _arg_parser(params):
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global INTYPE
-    global OUTTYPE
-    global INSHAPE
-    global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, SHARED.intype[idx], SHARED.inshape[idx]), slc, axis) for idx, a in enumerate(SHARED.arrays))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
 
         if result is not None and isinstance(result, np.ndarray):
-            outslice = slice_axis(to_numpy_array(SHARED_OUT, OUTTYPE, OUTSHAPE), slc, axis)
+            outslice = slice_axis(to_numpy_array(SHARED.out, SHARED.outtype, SHARED.outshape), slc, axis)
             outslice[:] = result[:]
     except RunOnHostException:
-        SHARED_QUEUE.put(params)
+        SHARED.queue.put(params)
 
 # apply slice to specific axis on ndarray
 
-- 
2.43.0


From 14b8df93fdb4fefb59799c5e70c5b29d9d0230d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 06/49] fix: call the Sobel filter of scipy with a tuple index

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..8215441 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -499,7 +499,7 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)])
     return out
 
 
-- 
2.43.0


From 5e1c9851b522ccaaff95d38451046c9e1c961b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 07/49] fix: index with a tuple in remove_outlier1d

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8215441..6235285 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -657,9 +657,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From d6267d53b1b147461b6144579944a2665f4efad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 08/49] fix: choose the 3D median kernel by the dtype of the
 array it gets

---
 source/tomopy/misc/corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 6235285..3e6e42b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,8 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+        input_type = arr.dtype
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From 21e0e128eb4d703b19162f0f0f84a639a31811cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 09/49] fix: report errors of the threads that filter images

---
 source/tomopy/misc/corr.py | 39 ++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 3e6e42b..08bf012 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,20 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.gaussian_filter,
                 arr[tuple(slc)],
                 sigma,
                 order=order,
                 output=out[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -190,16 +193,19 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=(size, size),
                 output=out[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -497,11 +503,15 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)])
+            futures.append(
+                e.submit(scipy.ndimage.sobel, arr[tuple(slc)], output=out[tuple(slc)]))
+    for future in futures:
+        future.result()
     return out
 
 
@@ -593,16 +603,19 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
-            )
+            ))
+    for future in futures:
+        future.result()
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -653,17 +666,20 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
                 mode="mirror",
-            )
+            ))
+    for future in futures:
+        future.result()
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -844,10 +860,13 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    for future in futures:
+        future.result()
     return out
 
 
-- 
2.43.0


From 7eea1f278ac01984ccb3aafd0f752c9e5e288e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 10/49] fix: filter the given data, not the old content of out,
 in remove_ring

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 08bf012..51bb7c1 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -826,6 +826,8 @@ def remove_ring(
         out = rec.copy()
     else:
         out = dtype.as_float32(out)
+        if out is not rec:
+            out[:] = rec
 
     dz, dy, dx = rec.shape
 
-- 
2.43.0


From bcbb60658bdc752ffd003f3abf8b386b5808f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 11/49] fix: raise the error of the first failed slice group,
 not of any

---
 source/tomopy/recon/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..3ec01a8 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -452,8 +452,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
                              *args, **kwargs) for slc in use_slcs
                 ]
-            done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
-            for f in done:
+            cf.wait(futures, return_when=cf.ALL_COMPLETED)
+            for f in futures:
                 if f.exception() is not None:
                     raise f.exception()
 
-- 
2.43.0


From a0727095a7a08b0a1a9c086bf26f3944a090acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 12/49] fix: leave the table of allowed keywords as it is in
 recon

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 3ec01a8..426d26f 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -275,7 +275,8 @@ def recon(tomo,
 
         allowed_kwargs = copy.copy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
-            allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
+            allowed_kwargs[algorithm] = (allowed_kwargs[algorithm] +
+                                         allowed_accelerated_kwargs[algorithm])
 
         # Check whether we have an allowed method
         if algorithm not in allowed_kwargs:
-- 
2.43.0


From f31bc2c6080e185fbb51bbe14cf0f25d05880864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:35 +0000
Subject: [PATCH 13/49] fix: restore TOMOPY_PYTHON_THREADS after failed and
 concurrent reconstructions

---
 source/tomopy/recon/algorithm.py | 38 ++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 426d26f..a68bf3b 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -53,6 +53,8 @@ import copy
 import logging
 import warnings
 import os
+import threading
+from contextlib import contextmanager
 
 import numpy as np
 
@@ -390,6 +392,32 @@ def _run_accel_algorithm(idx, _func, tomo, center, recon, *_args, **_kwargs):
     return recon
 
 
+_pythreads_lock = threading.Lock()
+_pythreads_calls = 0
+_pythreads_user = None
+
+
+@contextmanager
+def _restore_pythreads():
+    """Restore the user's TOMOPY_PYTHON_THREADS after the last running call."""
+    global _pythreads_calls, _pythreads_user
+    with _pythreads_lock:
+        if _pythreads_calls == 0:
+            _pythreads_user = os.environ.get("TOMOPY_PYTHON_THREADS")
+        _pythreads_calls += 1
+    try:
+        yield
+    finally:
+        with _pythreads_lock:
+            _pythreads_calls -= 1
+            if _pythreads_calls == 0:
+                if _pythreads_user is not None:
+                    os.environ["TOMOPY_PYTHON_THREADS"] = _pythreads_user
+                else:
+                    os.environ.pop("TOMOPY_PYTHON_THREADS", None)
+
+
+@_restore_pythreads()
 def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
     ncore, slcs = mproc.get_ncore_slices(axis_size, ncore, nchunk)
@@ -412,7 +440,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
         ncore = int(nreal)
 
     # check if ncore is limited by env variable
-    pythreads = os.environ.get("TOMOPY_PYTHON_THREADS")
+    pythreads = _pythreads_user
     if pythreads is not None and ncore > int(pythreads):
         warnings.warn(
             "The environment variable 'TOMOPY_PYTHON_THREADS' is limiting "
@@ -458,14 +486,6 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                 if f.exception() is not None:
                     raise f.exception()
 
-
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
-
     return recon
 
 
-- 
2.43.0


From f8abcd83f25a2bb16a4f5a6d1d4d3874e064d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:35 +0000
Subject: [PATCH 14/49] fix: let several writers create the output folder

---
 source/tomopy/recon/rotation.py | 3 +--
 source/tomopy/util/misc.py      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..fad7d75 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -572,8 +572,7 @@ def write_center(
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-    if not os.path.exists(dpath):
-        os.makedirs(dpath)
+    os.makedirs(dpath, exist_ok=True)
     for m in range(len(center)):
         write_tiff(data=rec[m], fname=dpath, digit='{0:.2f}'.format(center[m]))
 
diff --git a/source/tomopy/util/misc.py b/source/tomopy/util/misc.py
index 9da424b..197442f 100644
--- a/source/tomopy/util/misc.py
+++ b/source/tomopy/util/misc.py
@@ -109,8 +109,7 @@ def write_tiff(data, fname='tmp/data', digit=None, ext='tiff'):
     fname = os.path.abspath(fname)
     # Create the directory if it doesn't exist.
     dname = os.path.dirname(os.path.abspath(fname))
-    if not os.path.exists(dname):
-        os.makedirs(dname)
+    os.makedirs(dname, exist_ok=True)
     # Save the file.
     tifffile.imsave(fname, data)
 
-- 
2.43.0


From c8076b6bd67d4ff7943d770692780d0beacaff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:14 +0000
Subject: [PATCH 15/49] fix: let one caller at a time set the numexpr thread
 count

---
 source/tomopy/util/mproc.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index e5e53f8..a450020 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -53,6 +53,7 @@ Module for multiprocessing tasks.
 import numpy as np
 import multiprocessing as mp
 import math
+import os
 import threading
 from contextlib import closing, contextmanager
 from .dtype import as_sharedmem, to_numpy_array, get_shared_mem
@@ -384,6 +385,16 @@ class RunOnHostException(Exception):
     pass
 
 
+def _new_numexpr_lock():
+    global _numexpr_lock
+    _numexpr_lock = threading.RLock()
+
+
+# the lock may be held by another thread when a process forks
+_new_numexpr_lock()
+os.register_at_fork(after_in_child=_new_numexpr_lock)
+
+
 class set_numexpr_threads(object):
 
     def __init__(self, nthreads):
@@ -394,7 +405,16 @@ class set_numexpr_threads(object):
             self.n = nthreads
 
     def __enter__(self):
-        self.oldn = ne.set_num_threads(self.n)
+        # the setting is shared by the whole process
+        _numexpr_lock.acquire()
+        try:
+            self.oldn = ne.set_num_threads(self.n)
+        except BaseException:
+            _numexpr_lock.release()
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback):
-        ne.set_num_threads(self.oldn)
+        try:
+            ne.set_num_threads(self.oldn)
+        finally:
+            _numexpr_lock.release()
-- 
2.43.0


From 3cd17b2b46539ad7ca229f4de673078a4b1023b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 16/49] fix: project every slice with its own rotation center

---
 source/libtomo/recon/project.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..16a0afa 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -54,6 +54,17 @@ project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, i
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // the rays are shared by consecutive slices with the same center only
+    int same = 1;
+    while(same < dy && center[same] == center[0])
+        same++;
+    if(same < dy)
+    {
+        project(obj + same * ox * oz, oy - same, ox, oz, data + same * dt * dx, dy - same,
+                dt, dx, center + same, theta);
+        dy = same;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -144,6 +155,17 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // the rays are shared by consecutive slices with the same center only
+    int same = 1;
+    while(same < dy && center[same] == center[0])
+        same++;
+    if(same < dy)
+    {
+        project2(objx + same * ox * oz, objy + same * ox * oz, oy - same, ox, oz,
+                 data + same * dt * dx, dy - same, dt, dx, center + same, theta);
+        dy = same;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
@@ -249,6 +271,18 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // the rays are shared by consecutive slices with the same center only
+    int same = 1;
+    while(same < dy && center[same] == center[0])
+        same++;
+    if(same < dy)
+    {
+        int step = (axis == 1) ? 1 : (axis == 2) ? oz : ox * oz;
+        project3(objx + same * step, objy + same * step, objz + same * step, oy, ox, oz,
+                 data + same * dt * dx, dy - same, dt, dx, center + same, theta, axis);
+        dy = same;
+    }
+
     float* gridx  = (float*) malloc((ox + 1) * sizeof(float));
     float* gridy  = (float*) malloc((oz + 1) * sizeof(float));
     float* coordx = (float*) malloc((oz + 1) * sizeof(float));
-- 
2.43.0


From 8023d4ca105bf4c3d5ed733a981e3042e4c7184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 17/49] fix: reconstruct every slice with its own rotation
 center in art

---
 source/libtomo/recon/art.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/libtomo/recon/art.c b/source/libtomo/recon/art.c
index 38de3c3..cbd2b64 100755
--- a/source/libtomo/recon/art.c
+++ b/source/libtomo/recon/art.c
@@ -52,6 +52,17 @@ art(const float* data, int dy, int dt, int dx, const float* center, const float*
     if(dy == 0 || dt == 0 || dx == 0)
         return;
 
+    // the rays are shared by consecutive slices with the same center only
+    int same = 1;
+    while(same < dy && center[same] == center[0])
+        same++;
+    if(same < dy)
+    {
+        art(data + same * dt * dx, dy - same, dt, dx, center + same, theta,
+            recon + same * ngridx * ngridy, ngridx, ngridy, num_iter);
+        dy = same;
+    }
+
     float* gridx   = (float*) malloc((ngridx + 1) * sizeof(float));
     float* gridy   = (float*) malloc((ngridy + 1) * sizeof(float));
     float* coordx  = (float*) malloc((ngridy + 1) * sizeof(float));
-- 
2.43.0


From d86275b997f5d87e00f476e567927f17cd718eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 18/49] fix: pair slices in gridrec only if they have the same
 rotation center

---
 source/libtomo/gridrec/gridrec.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..dd83b6d 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -309,8 +309,11 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     int         k, k2;
 
     // For each slice.
-    for(s = 0; s < dy; s += 2)
+    int paired;  // two slices with the same center are reconstructed together
+    for(s = 0; s < dy; s += paired ? 2 : 1)
     {
+        paired = (s + 1) < dy && center[s + 1] == center[s];
+
         // Set up table of combined filter-phase factors.
         set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
 
@@ -374,7 +377,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                 // Add data from both slices
                 float              second_sino = 0.0;
                 const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
+                if(__LIKELY(paired))
                 {
                     second_sino = data[index + delta_index];
                 }
@@ -526,7 +529,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                         const float corrn = corrn_u * winv[k + padx];
                         recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
                             corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
+                        if(__LIKELY(paired))
                         {
                             recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
                                 corrn * cimagf(H[iu][iv]);
-- 
2.43.0


From 0fddbeb20c223e8072afffc8477a9862d0544bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:25 +0000
Subject: [PATCH 19/49] fix: free every buffer of the reconstruction and
 projection kernels

---
 source/libtomo/gridrec/gridrec.c | 1 +
 source/libtomo/recon/grad.c      | 1 +
 source/libtomo/recon/project.c   | 4 ++++
 source/libtomo/recon/tikh.c      | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index dd83b6d..3c5f68c 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -557,6 +557,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..f1b9b9f 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -256,4 +256,5 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index 16a0afa..53f6d1e 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -260,6 +260,8 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
 
@@ -377,5 +379,7 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3cc751b 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -263,4 +263,5 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(recon0);
     free(grad0);
     free(grad);
+    free(lambda);
 }
-- 
2.43.0


From 921995189e8fa38b0880dada0eaa35fa4974014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:10 +0000
Subject: [PATCH 20/49] fix: define the correction factor of the last row and
 column in gridrec

---
 source/libtomo/gridrec/gridrec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 3c5f68c..740b214 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,8 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+    // the last row and column of a grid as large as the transform
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -248,7 +250,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
-- 
2.43.0


From ace0bd23a190d3ab6375905b01d9a240755a4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:23 +0000
Subject: [PATCH 21/49] fix: stay inside the volume when stripes of a small
 mask are merged

---
 source/libtomo/prep/stripes_detect3d.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..a0ed42b 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -420,6 +420,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             x_l = i + x;
             if(x_l < 0)
                 x_l = i - x;
+            if(x_l >= dimX)
+                continue;
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_l)] == true)
             {
                 mask_left = 1;
@@ -433,6 +435,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             x_r = i + x;
             if(x_r >= dimX)
                 x_r = i - x;
+            if(x_r < 0)
+                continue;
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_r)] == true)
             {
                 mask_right = 1;
@@ -454,6 +458,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
                 k_u = k + x;
                 if(k_u < 0)
                     k_u = k - x;
+                if(k_u >= dimZ)
+                    continue;
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -467,6 +473,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
                 k_d = k + x;
                 if(k_d >= dimZ)
                     k_d = k - x;
+                if(k_d < 0)
+                    continue;
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From 86735e2aa766a8a61adcd0b1cb0969957f969115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:04 +0000
Subject: [PATCH 22/49] fix: give each slice its own regularization data in
 tikh

---
 source/tomopy/recon/algorithm.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index a68bf3b..8dec02c 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -331,6 +331,10 @@ def recon(tomo,
                             empty=True)
     else:
         recon = _init_recon(recon_shape, init_recon, sharedmem=False)
+    if algorithm == 'tikh':
+        # one regularization image for every slice
+        kwargs['reg_data'] = np.require(
+            np.broadcast_to(kwargs['reg_data'], recon_shape), requirements="C")
     return _dist_recon(tomo, center_arr, recon, _get_func(algorithm), args,
                        kwargs, ncore, nchunk)
 
@@ -417,6 +421,12 @@ def _restore_pythreads():
                     os.environ.pop("TOMOPY_PYTHON_THREADS", None)
 
 
+def _slice_kwargs(algorithm, kwargs, slc):
+    if algorithm is extern.c_tikh:
+        return dict(kwargs, reg_data=kwargs['reg_data'][slc])
+    return kwargs
+
+
 @_restore_pythreads()
 def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
@@ -456,7 +466,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **_slice_kwargs(algorithm, kwargs, slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -479,7 +490,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **_slice_kwargs(algorithm, kwargs, slc))
+                    for slc in use_slcs
                 ]
             cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in futures:
@@ -503,7 +515,7 @@ def _get_algorithm_kwargs(shape):
         'filter_par': np.array([0.5, 8], dtype='float32'),
         'num_iter': dtype.as_int32(1),
         'reg_par': np.ones(10, dtype='float32'),
-        'reg_data': np.zeros([dy, dx, dx], dtype='float32'),
+        'reg_data': np.zeros(1, dtype='float32'),
         'num_block': dtype.as_int32(1),
         'ind_block': np.arange(0, dt, dtype=np.int32),
         'options': {},
-- 
2.43.0


From cfe04c36dd1bd2dd4049ca6b57ae13b411e90174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 23/49] fix: report errors of the threads that drive ASTRA on
 several GPUs

---
 source/tomopy/recon/wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..e961db0 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -154,10 +154,14 @@ def astra(tomo, center, recon, theta, **kwargs):
         ngpu = len(gpu_list)
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
+        futures = []
         with cf.ThreadPoolExecutor(ngpu) as e:
             for gpu, slc in zip(gpu_list, slcs):
-                e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
-                            theta, vol_geom, niter, proj_type, gpu, opts)
+                futures.append(
+                    e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
+                             theta, vol_geom, niter, proj_type, gpu, opts))
+        for future in futures:
+            future.result()
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From 70dc62e1de0f9d41b9fddc6c080b6441e40e432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 24/49] fix: track the busy GPUs of each lprec call and release
 them after errors

---
 source/tomopy/recon/wrappers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index e961db0..d4f2edd 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -432,35 +432,35 @@ def lprec(tomo, center, recon, theta, **kwargs):
         lp.initcmem(lpmethod != 'fbp', gpu)
 
     lock = threading.Lock()
-    global BUSYGPUS
-    BUSYGPUS = np.zeros(ngpus)
+    busygpus = np.zeros(ngpus)
     # run reconstruciton on many gpus
     with cf.ThreadPoolExecutor(ngpus) as e:
         shift = 0
-        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock), ids_list):
+        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus), ids_list):
             recon[np.arange(0, reconi.shape[0])+shift] = reconi
             shift += reconi.shape[0]
 
     return recon
 
 
-def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids):
+def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus, ids):
     """
     Reconstruction Nssimgpu slices simultaneously on 1 GPU
     """
 
-    global BUSYGPUS
     lock.acquire()  # will block if lock is already held
     for k in range(len(gpu_list)):
-        if BUSYGPUS[k] == 0:
-            BUSYGPUS[k] = 1
+        if busygpus[k] == 0:
+            busygpus[k] = 1
             gpu_id = k
             break
     lock.release()
     gpu = gpu_list[gpu_id]
 
     # reconstruct
-    recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
-    BUSYGPUS[gpu_id] = 0
+    try:
+        recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
+    finally:
+        busygpus[gpu_id] = 0
 
     return recon[ids]
-- 
2.43.0


From 6dcd4c07586fecf7f7d68725372875bcb86cde6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 25/49] fix: leave the caller's options as they are in the
 ASTRA wrapper

---
 source/tomopy/recon/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index d4f2edd..cd63daf 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -130,7 +130,7 @@ def astra(tomo, center, recon, theta, **kwargs):
     nslices = tomo.shape[0]
     num_gridx = kwargs['num_gridx']
     num_gridy = kwargs['num_gridy']
-    opts = kwargs['options']
+    opts = dict(kwargs['options'])
 
     # Check options
     for o in needed_options['astra']:
-- 
2.43.0


From 502e0b3e83abeef5a979fedb3ebe1ccfe0963e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 26/49] fix: stop after the last candidate kernel in
 detector_drift_adjust_aps_1id

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..65ce070 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -819,7 +819,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
                  if not cnr_found]
         # NOTE:
         #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
+        if counter >= len(kernels):
             # we are giving up here...
             for idx, n_img in enumerate(nlist):
                 proj_cnrs[n_img, :, :] = slit_cnr_ref
-- 
2.43.0


From 677a2bc522a9230018f76b30c170e2232e21a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:14 +0000
Subject: [PATCH 27/49] fix: copy views of shared memory, which workers would
 misread

---
 source/tomopy/util/dtype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..abfd77f 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -167,7 +167,9 @@ def as_c_size_t(arr):
 
 def as_sharedmem(arr, copy=False):
     # first check to see if it already a shared array
-    if not copy and is_sharedmem(arr):
+    # (a view is not: workers get the whole block of shared memory)
+    if not copy and is_sharedmem(arr) and is_contiguous(arr) and \
+            arr.nbytes == ctypes.sizeof(get_shared_mem(arr)):
         return arr
     # get ctype from numpy array
     temp_arr = np.empty((1), dtype=arr.dtype)
-- 
2.43.0


From fd598eb00815d6eab3a3b97b5d8178976b1de44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 28/49] fix: notice dead pool workers that the pool has already
 replaced

---
 source/tomopy/util/mproc.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index a450020..a176674 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -307,21 +307,20 @@ def distribute_jobs(arr,
                              initargs=(shared_arrays, shared_out, shared_types,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
-            if p._pool:
-                proclist = p._pool[:]
-                res = p.map_async(_arg_parser, map_args)
-                try:
-                    while not res.ready():
-                        if any(proc.exitcode is not None for proc in proclist):
-                            p.terminate()
-                            raise RuntimeError(
-                                "Child process terminated before finishing")
-                        res.wait(timeout=1)
-                except KeyboardInterrupt:
-                    p.terminate()
-                    raise
-            else:
-                res = p.map_async(_arg_parser, map_args)
+            proclist = p._pool[:]
+            res = p.map_async(_arg_parser, map_args)
+            try:
+                while not res.ready():
+                    # the pool replaces workers that it finds dead
+                    if p._pool != proclist or any(
+                            proc.exitcode is not None for proc in proclist):
+                        p.terminate()
+                        raise RuntimeError(
+                            "Child process terminated before finishing")
+                    res.wait(timeout=1)
+            except KeyboardInterrupt:
+                p.terminate()
+                raise
         try:
             p.close()
             res.get()
-- 
2.43.0


From 6df36eb83287708825a342882cefe4be4362c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:32 +0000
Subject: [PATCH 29/49] fix: hand contiguous angles, centers and objects to the
 C functions

---
 source/tomopy/recon/algorithm.py |  3 ++-
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 19 ++++++++++---------
 source/tomopy/util/dtype.py      |  2 +-
 4 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 8dec02c..6bf6e23 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -502,7 +502,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    # the C functions do not know strides
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..e5555b4 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -68,7 +68,7 @@ __all__ = ['vector', 'vector2', 'vector3']
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -87,8 +87,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.ascontiguousarray(theta1, dtype=np.float32)
+    theta2 = np.ascontiguousarray(theta2, dtype=np.float32)
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -111,9 +111,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.ascontiguousarray(theta1, dtype=np.float32)
+    theta2 = np.ascontiguousarray(theta2, dtype=np.float32)
+    theta3 = np.ascontiguousarray(theta3, dtype=np.float32)
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..09f268d 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -299,7 +299,7 @@ def project(
         3D tomographic data.
     """
     obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -367,9 +367,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(objx, dtype=np.float32)
+    objy = np.ascontiguousarray(objy, dtype=np.float32)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -433,10 +433,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(objx, dtype=np.float32)
+    objy = np.ascontiguousarray(objy, dtype=np.float32)
+    objz = np.ascontiguousarray(objz, dtype=np.float32)
+    theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -472,7 +472,8 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    # the C functions do not know strides
+    return np.ascontiguousarray(center, dtype=np.float32)
 
 
 def fan_to_para(tomo, dist, geom):
diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index abfd77f..d5a8d78 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -144,7 +144,7 @@ def as_c_long(arr):
     return ctypes.c_long(arr)
 
 def as_c_int_p(arr):
-    arr = arr.astype(np.intc, copy=False)
+    arr = np.ascontiguousarray(arr, dtype=np.intc)
     c_int_p = ctypes.POINTER(ctypes.c_int)
     return arr.ctypes.data_as(c_int_p)
 
-- 
2.43.0


From 4c680a98013f3656d3e345ab4bee33038372b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:34 +0000
Subject: [PATCH 30/49] fix: use one worker by default on single-core machines

---
 source/tomopy/misc/corr.py      | 2 +-
 source/tomopy/prep/alignment.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 51bb7c1..7e92c0a 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -955,7 +955,7 @@ def enhance_projs_aps_1id(imgstack, median_ks=5, ncore=None):
     ndarray
         3D enhanced image stacks.
     """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+    ncore = max(1, mproc.mp.cpu_count() - 1) if ncore is None else ncore
 
     # need to use multiprocessing to speed up the process
     tmp = []
diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 65ce070..d6e8eac 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -785,7 +785,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
     np.ndarray
         transformation matrices used to adjust each image
     """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+    ncore = max(1, mproc.mp.cpu_count() - 1) if ncore is None else ncore
 
     def quick_diff(x): return np.amax(np.absolute(x))
 
-- 
2.43.0


From d969f593bb8e397c5c5b9903fadf3493a70eed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:52 +0000
Subject: [PATCH 31/49] fix: do not read beyond the polar image in remove_ring

---
 source/libtomo/misc/remove_ring.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..d14e2c6 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -285,12 +285,10 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
-                }
-                else
-                {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
                 }
+                // as below, there is nothing beyond the image
+                median_array[n + kernel_rad] =
+                    (adjusted_col < width) ? image[0][adjusted_row][adjusted_col] : 0.0;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
-- 
2.43.0


From ac5d01b74ac7296489d3cf80d46de6033952da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:50 +0000
Subject: [PATCH 32/49] fix: leave the initial guess of the caller as it is in
 recon

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 6bf6e23..fec4ec2 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -367,7 +367,8 @@ def _init_recon(shape, init_recon, val=1e-6, sharedmem=True, empty=False):
             else:
                 recon = np.zeros(shape, dtype=np.float32)
     else:
-        recon = np.require(init_recon, dtype=np.float32, requirements="AC")
+        # the algorithms update this array in place, so leave the given one alone
+        recon = np.array(init_recon, dtype=np.float32, order="C")
         if sharedmem:
             recon = dtype.as_sharedmem(recon)
     return recon
-- 
2.43.0


From b3736d1fd4c779d3b42b24bed234b468fa8ee446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 33/49] fix: leave the projections of the caller as they are in
 scale

---
 source/tomopy/prep/alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index d6e8eac..7d97190 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -475,8 +475,7 @@ def scale(prj):
         Scaled 3D stack of projection images.
     """
     scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
+    return prj / scl, scl
 
 
 def blur_edges(prj, low=0, high=0.8):
-- 
2.43.0


From 4bb5f33763e212045efa78b59fba995d68993257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 34/49] fix: add simulated noise to a copy of the projections

---
 source/tomopy/sim/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 09f268d..6150350 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -125,7 +125,7 @@ def add_gaussian(tomo, mean=0, std=None):
     ndarray
         3D tomographic data after Gaussian noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = dtype.as_ndarray(tomo).copy()
     if std is None:
         std = tomo.max() * 0.05
     dx, dy, dz = tomo.shape
@@ -199,7 +199,7 @@ def add_salt_pepper(tomo, prob=0.01, val=None):
     ndarray
         3D tomographic data after salt and pepper noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = dtype.as_ndarray(tomo).copy()
     dx, dy, dz = tomo.shape
     ind = np.random.rand(dx, dy, dz) < prob
     if val is None:
-- 
2.43.0


From 73b2c9133ce1c8e85e469294d0ecd81b805b144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 35/49] fix: let normalize_nf average the darks by their median

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From 813d3385a73d1affb0010d95595356424b11d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:14 +0000
Subject: [PATCH 36/49] fix: accept negative axes in distribute_jobs

---
 source/tomopy/util/mproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index a176674..49b4c7e 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -371,6 +371,8 @@ def _arg_parser(params):
 
 
 def slice_axis(arr, slc, axis):
+    if axis < 0:
+        axis += arr.ndim
     return arr[tuple(slice(None) if i != axis else slc for i in range(arr.ndim))]
 
 
-- 
2.43.0


From a65271827c459e3b63435c3c6c71b5e000f35742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:14 +0000
Subject: [PATCH 37/49] fix: return what jobs do in place to an array that is
 also the output

---
 source/tomopy/util/mproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 49b4c7e..420d4a5 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -284,7 +284,8 @@ def distribute_jobs(arr,
     else:
         shared_out_shape = out.shape
         shared_out_type = out.dtype
-        shared_out = as_sharedmem(out)
+        if shared_out is None:
+            shared_out = as_sharedmem(out)
 
     # Set up queue
     man = mp.Manager()
-- 
2.43.0


From 1aba8a4e68d351d6fc27a6adc77d59a029af6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 38/49] fix: end ufo_fbp and ufo_dfi with the error of their
 thread instead of waiting for ever

---
 source/tomopy/recon/wrappers.py | 70 ++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index cd63daf..9634852 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -223,26 +223,50 @@ def _process_data(input_task, output_task, sinograms, slices):
     import ufo.numpy as unp
     num_sinograms, num_projections, width = sinograms.shape
 
-    for i in range(num_sinograms):
-        if i == 0:
-            data = unp.empty_like(sinograms[i, :, :])
-        else:
-            data = input_task.get_input_buffer()
+    try:
+        for i in range(num_sinograms):
+            if i == 0:
+                data = unp.empty_like(sinograms[i, :, :])
+            else:
+                data = input_task.get_input_buffer()
+
+            # Set host array pointer and use that as first input
+            data.set_host_array(
+                sinograms[i, :, :].__array_interface__['data'][0], False)
+            input_task.release_input_buffer(data)
+
+            # Get last output and copy result back into NumPy buffer
+            data = output_task.get_output_buffer()
+            try:
+                array = unp.asarray(data)
+                frm = int(array.shape[0] / 2 - width / 2)
+                to = int(array.shape[0] / 2 + width / 2)
+                slices[i, :, :] = array[frm:to, frm:to]
+            finally:
+                output_task.release_output_buffer(data)
+    finally:
+        # the scheduler waits for input until it is told to stop
+        input_task.stop()
 
-        # Set host array pointer and use that as first input
-        data.set_host_array(
-            sinograms[i, :, :].__array_interface__['data'][0], False)
-        input_task.release_input_buffer(data)
 
-        # Get last output and copy result back into NumPy buffer
-        data = output_task.get_output_buffer()
-        array = unp.asarray(data)
-        frm = int(array.shape[0] / 2 - width / 2)
-        to = int(array.shape[0] / 2 + width / 2)
-        slices[i, :, :] = array[frm:to, frm:to]
-        output_task.release_output_buffer(data)
+def _run_graph(sched, graph, *args):
+    """
+    Run a task graph while a thread feeds it, and raise what the thread raised.
+    """
+    errors = []
 
-    input_task.stop()
+    def process():
+        try:
+            _process_data(*args)
+        except BaseException as e:
+            errors.append(e)
+
+    thread = threading.Thread(target=process)
+    thread.start()
+    sched.run(graph)
+    thread.join()
+    if errors:
+        raise errors[0]
 
 
 def ufo_fbp(tomo, center, recon, theta, **kwargs):
@@ -278,11 +302,7 @@ def ufo_fbp(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, backproject)
     g.connect_nodes(backproject, output_task)
 
-    args = (input_task, output_task, tomo, recon)
-    thread = threading.Thread(target=_process_data, args=args)
-    thread.start()
-    sched.run(g)
-    thread.join()
+    _run_graph(sched, g, input_task, output_task, tomo, recon)
 
     logger.info("UFO+FBP run time: {}s".format(sched.props.time))
 
@@ -324,11 +344,7 @@ def ufo_dfi(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, swap_backward)
     g.connect_nodes(swap_backward, output_task)
 
-    args = (input_task, output_task, tomo, recon)
-    thread = threading.Thread(target=_process_data, args=args)
-    thread.start()
-    sched.run(g)
-    thread.join()
+    _run_graph(sched, g, input_task, output_task, tomo, recon)
 
     logger.info("UFO+DFI run time: {}s".format(sched.props.time))
 
-- 
2.43.0


From 9deaaba6f67fbba610bc74955c23b4a985ddcf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:35 +0000
Subject: [PATCH 39/49] fix: pass filter parameters and regularization data to
 the C functions in C order

---
 source/tomopy/recon/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index fec4ec2..9008184 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -300,7 +300,9 @@ def recon(tomo,
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
                     if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                        # in the layout that the C functions expect
+                        kwargs[key] = np.array(value, dtype='float32',
+                                               order='C')
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
-- 
2.43.0


From 03f3c268f672b80a18d478737d287e58bfc821fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 40/49] fix: stay inside volumes that are smaller than the
 stencil in stripes_detect3d

---
 source/libtomo/prep/stripes_detect3d.c | 33 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index a0ed42b..17ca683 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,15 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* an index mirrored at one boundary of a small volume can pass the other boundary */
+static long
+inside(long index, long dim)
+{
+    if(index < 0)
+        return 0;
+    return (index >= dim) ? dim - 1 : index;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -88,7 +97,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     i1 = i + step_size;
                     if(i1 >= dimX)
-                        i1 = i - step_size;
+                        i1 = inside(i - step_size, dimX);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
@@ -97,7 +106,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     j1 = j + step_size;
                     if(j1 >= dimY)
-                        j1 = j - step_size;
+                        j1 = inside(j - step_size, dimY);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
@@ -106,7 +115,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     k1 = k + step_size;
                     if(k1 >= dimZ)
-                        k1 = k - step_size;
+                        k1 = inside(k - step_size, dimZ);
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -144,12 +153,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = inside(j - j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
             k1 = k + k_m;
             if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+                k1 = inside(k - k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -162,12 +171,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = inside(j - j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
             i1 = i + i_m;
             if(i1 >= dimX)
-                i1 = i - i_m;
+                i1 = inside(i - i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -180,12 +189,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = inside(j - j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
             i1 = i + i_m;
             if(i1 < 0)
-                i1 = i - i_m;
+                i1 = inside(i - i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -277,15 +286,15 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
     k2 = k + 1;
 
     if(i1 < 0)
-        i1 = i2;
+        i1 = inside(i2, dimX);
     if(i2 >= dimX)
         i2 = i1;
     if(j1 < 0)
-        j1 = j2;
+        j1 = inside(j2, dimY);
     if(j2 >= dimY)
         j2 = j1;
     if(k1 < 0)
-        k1 = k2;
+        k1 = inside(k2, dimZ);
     if(k2 >= dimZ)
         k2 = k1;
 
-- 
2.43.0


From 9bcb6e95a101c356d530c22dfc6dc922c332e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 41/49] fix: write only to the given array in remove_ring, also
 if it is not contiguous

---
 source/tomopy/misc/corr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 7e92c0a..413f85c 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -828,6 +828,8 @@ def remove_ring(
         out = dtype.as_float32(out)
         if out is not rec:
             out[:] = rec
+    # the C function does not know strides
+    work = np.ascontiguousarray(out)
 
     dz, dy, dx = rec.shape
 
@@ -866,9 +868,11 @@ def remove_ring(
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+            futures.append(e.submit(extern.c_remove_ring, work[slc], *args))
     for future in futures:
         future.result()
+    if work is not out:
+        out[...] = work
     return out
 
 
-- 
2.43.0


From 44985f42bfd8754c071ab3db7205eeeb7f3d19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 42/49] fix: make the transforms of gridrec as large as the
 reconstruction grid

---
 source/libtomo/gridrec/gridrec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 740b214..95b7636 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -224,8 +224,8 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                               0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
                               -0.1295941E-05, 0.3817796E-07 };
 
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
+    // Compute pdim = next power of 2 >= dx (and >= the reconstruction grid)
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
         ;
 
     const int pdim2 = pdim >> 1;
-- 
2.43.0


From c3a1e066cbaaf84c32b0d8abc86eaaf16c380a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 43/49] fix: refuse initial reconstructions, block orders and
 parameters that do not fit in recon

---
 source/tomopy/recon/algorithm.py | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 9008184..f6ac996 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -333,6 +333,8 @@ def recon(tomo,
                             empty=True)
     else:
         recon = _init_recon(recon_shape, init_recon, sharedmem=False)
+    if isinstance(algorithm, str):
+        _check_algorithm_args(algorithm, tomo.shape, recon, recon_shape, kwargs)
     if algorithm == 'tikh':
         # one regularization image for every slice
         kwargs['reg_data'] = np.require(
@@ -376,6 +378,38 @@ def _init_recon(shape, init_recon, val=1e-6, sharedmem=True, empty=False):
     return recon
 
 
+def _check_algorithm_args(algorithm, shape, recon, recon_shape, kwargs):
+    """Refuse arrays that are smaller than what the C functions access."""
+    dy, dt, dx = shape
+    if min(kwargs['num_gridx'], kwargs['num_gridy']) < 1:
+        raise ValueError('The reconstruction grid must not be empty.')
+    if recon.shape != recon_shape:
+        raise ValueError('The initial reconstruction must have the shape %s.' %
+                         (tuple(int(n) for n in recon_shape), ))
+    if 'num_block' in kwargs:
+        ind_block = np.asarray(kwargs['ind_block'])
+        if kwargs['num_block'] < 1:
+            raise ValueError('There must be at least one block.')
+        if ind_block.size != dt or not np.all((ind_block >= 0) & (ind_block < dt)):
+            raise ValueError('ind_block must order all the projections.')
+    npar = {'reg_par': 1, 'filter_par': 0}
+    if algorithm in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
+        npar['reg_par'] = 2
+    if 'filter_name' in kwargs:
+        filter_name = str(kwargs['filter_name'])
+        if filter_name == 'butterworth':
+            npar['filter_par'] = 2
+        elif filter_name in ('custom', 'custom2d'):
+            # half the size of the padded projections
+            half = 8
+            while 2 * half < max(dx, kwargs['num_gridx'], kwargs['num_gridy']):
+                half *= 2
+            npar['filter_par'] = half * (dt if filter_name == 'custom2d' else 1)
+    for key, size in npar.items():
+        if key in kwargs and np.size(kwargs[key]) < size:
+            raise ValueError('%s must have at least %d elements.' % (key, size))
+
+
 def _get_func(algorithm):
     """Return the c function for the given algorithm.
 
-- 
2.43.0


From 4b6414dba638baf2338f4ee254888574890e59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 44/49] fix: refuse angles, centers and data that do not fit in
 vector, vector2 and vector3

---
 source/tomopy/recon/vector.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index e5555b4..401dce4 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,6 +66,16 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_args(cube, tomo, theta, center):
+    """Refuse arrays that are smaller than what the C functions access."""
+    if tomo.shape[1] != theta.size:
+        raise ValueError('There must be one angle for every projection.')
+    if tomo.shape[0] != len(center):
+        raise ValueError('There must be one center for every slice.')
+    if cube and tomo.shape[0] != tomo.shape[2]:
+        raise ValueError('There must be as many slices as detector columns.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.ascontiguousarray(theta, dtype=np.float32)
@@ -78,6 +88,7 @@ def vector(tomo, theta, center=None, num_iter=1):
     recon2 = np.zeros(recon_shape, dtype=np.float32)
 
     center_arr = get_center(tomo.shape, center)
+    _check_args(False, tomo, theta, center_arr)
 
     extern.c_vector(tomo, center_arr, recon1, recon2, theta, 
         num_gridx=tomo.shape[2], num_gridy=tomo.shape[2], num_iter=num_iter)
@@ -101,6 +112,10 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
 
     center_arr1 = get_center(tomo1.shape, center1)
     center_arr2 = get_center(tomo2.shape, center2)
+    _check_args(True, tomo1, theta1, center_arr1)
+    _check_args(True, tomo2, theta2, center_arr2)
+    if tomo1.shape != tomo2.shape:
+        raise ValueError('The data must have the same shape.')
 
     extern.c_vector2(tomo1, tomo2, center_arr1, center_arr2, recon1, recon2, recon3, theta1, theta2, 
         num_gridx=tomo1.shape[2], num_gridy=tomo1.shape[2], num_iter=num_iter, axis1=axis1, axis2=axis2)
@@ -128,6 +143,11 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     center_arr1 = get_center(tomo1.shape, center1)
     center_arr2 = get_center(tomo2.shape, center2)
     center_arr3 = get_center(tomo3.shape, center3)
+    _check_args(True, tomo1, theta1, center_arr1)
+    _check_args(True, tomo2, theta2, center_arr2)
+    _check_args(True, tomo3, theta3, center_arr3)
+    if tomo1.shape != tomo2.shape or tomo1.shape != tomo3.shape:
+        raise ValueError('The data must have the same shape.')
 
     extern.c_vector3(tomo1, tomo2, tomo3, center_arr1, center_arr2, center_arr3, recon1, recon2, recon3, theta1, theta2, theta3,  
         num_gridx=tomo1.shape[2], num_gridy=tomo1.shape[2], num_iter=num_iter, axis1=axis1, axis2=axis2, axis3=axis3)
-- 
2.43.0


From c77c7e128ec5d87e0ca71578e65cd8d070f77ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 45/49] fix: refuse centers and components that do not fit in
 project, project2 and project3

---
 source/tomopy/sim/project.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 6150350..e721793 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -312,7 +312,7 @@ def project(
     shape = dy, dt, dx
     tomo = dtype.empty_shared_array(shape)
     tomo[:] = 0.0
-    center = get_center(shape, center)
+    center = _get_centers(shape, center)
 
     tomo = mproc.distribute_jobs(
         (obj, center, tomo),
@@ -369,6 +369,8 @@ def project2(
     """
     objx = np.ascontiguousarray(objx, dtype=np.float32)
     objy = np.ascontiguousarray(objy, dtype=np.float32)
+    if objy.shape != objx.shape:
+        raise ValueError('The components must have the same shape.')
     theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
@@ -382,7 +384,7 @@ def project2(
     shape = dy, dt, dx
     tomo = dtype.empty_shared_array(shape)
     tomo[:] = 0.0
-    center = get_center(shape, center)
+    center = _get_centers(shape, center)
 
     extern.c_project2(objx, objy, center, tomo, theta)
 
@@ -436,6 +438,10 @@ def project3(
     objx = np.ascontiguousarray(objx, dtype=np.float32)
     objy = np.ascontiguousarray(objy, dtype=np.float32)
     objz = np.ascontiguousarray(objz, dtype=np.float32)
+    if objy.shape != objx.shape or objz.shape != objx.shape:
+        raise ValueError('The components must have the same shape.')
+    if axis != 0 and len(set(objx.shape)) != 1:
+        raise ValueError('The object must be a cube unless axis is 0.')
     theta = np.ascontiguousarray(theta, dtype=np.float32)
 
     # Estimate data dimensions.
@@ -450,7 +456,7 @@ def project3(
     # print (shape)
     tomo = dtype.empty_shared_array(shape)
     tomo[:] = 0.0
-    center = get_center(shape, center)
+    center = _get_centers(shape, center)
 
     extern.c_project3(objx, objy, objz, center, tomo, theta, axis)
 
@@ -476,6 +482,13 @@ def get_center(shape, center):
     return np.ascontiguousarray(center, dtype=np.float32)
 
 
+def _get_centers(shape, center):
+    center = get_center(shape, center)
+    if len(center) != shape[0]:
+        raise ValueError('There must be one center for every slice.')
+    return center
+
+
 def fan_to_para(tomo, dist, geom):
     """
     Convert fan-beam data to parallel-beam data.
-- 
2.43.0


From c1c0cc4e07f6d92442d49f9057dc6c17e132ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 46/49] fix: leave the OpenMP settings of the caller as they
 were

---
 source/libtomo/misc/inpainter.c        |  8 ++++++++
 source/libtomo/misc/median_filt3d.c    | 12 ++++++++++++
 source/libtomo/prep/stripes_detect3d.c | 12 ++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..65a3b40 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -546,6 +546,10 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
     size_t iterations_mask_complete;
     size_t totalvoxels;
 
+    // The settings of the user, restored below
+    const int user_dynamic = omp_get_dynamic();
+    const int user_threads = omp_get_max_threads();
+
     // Explicitly disable dynamic teams
     omp_set_dynamic(0);
     // Use a number of threads for all consecutive parallel regions
@@ -626,6 +630,8 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
         free(Updated);
         free(M_upd);
         free(Gauss_weights);
+        omp_set_dynamic(user_dynamic);
+        omp_set_num_threads(user_threads);
         return 0;
     }
     /* The maximum number of required iterations to do the completion of the whole
@@ -876,5 +882,7 @@ Inpainter_morph_main(float* Input, bool* Mask, float* Output, int iterations,
     free(Gauss_weights);
     free(Updated);
     free(M_upd);
+    omp_set_dynamic(user_dynamic);
+    omp_set_num_threads(user_threads);
     return 0;
 }
diff --git a/source/libtomo/misc/median_filt3d.c b/source/libtomo/misc/median_filt3d.c
index 4ef4d2e..6b304a4 100644
--- a/source/libtomo/misc/median_filt3d.c
+++ b/source/libtomo/misc/median_filt3d.c
@@ -294,6 +294,10 @@ medianfilter_main_float(float* Input, float* Output, int radius, float mu_thresh
     totalvoxels = (size_t)(dimX) * (size_t)(dimY) * (size_t)(dimZ);
     diameter = (2 * radius + 1); /* diameter of the filter's kernel */
 
+    // The settings of the user, restored below
+    const int user_dynamic = omp_get_dynamic();
+    const int user_threads = omp_get_max_threads();
+
     /* dealing here with a custom given number of cpu threads */
     if(ncores > 0)
     {
@@ -336,6 +340,8 @@ medianfilter_main_float(float* Input, float* Output, int radius, float mu_thresh
             }
         }
     }
+    omp_set_dynamic(user_dynamic);
+    omp_set_num_threads(user_threads);
     return 0;
 }
 
@@ -355,6 +361,10 @@ medianfilter_main_uint16(unsigned short* Input, unsigned short* Output, int radi
     totalvoxels = (size_t)(dimX) * (size_t)(dimY) * (size_t)(dimZ);
     diameter = (2 * radius + 1); /* diameter of the filter's kernel */
 
+    // The settings of the user, restored below
+    const int user_dynamic = omp_get_dynamic();
+    const int user_threads = omp_get_max_threads();
+
     /* dealing here with a custom given number of cpu threads */
     if(ncores > 0)
     {
@@ -397,5 +407,7 @@ medianfilter_main_uint16(unsigned short* Input, unsigned short* Output, int radi
             }
         }
     }
+    omp_set_dynamic(user_dynamic);
+    omp_set_num_threads(user_threads);
     return 0;
 }
diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 17ca683..9a3f49d 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -521,6 +521,10 @@ stripesdetect3d_main_float(float* Input, float* Output, int window_halflength_ve
                "'stripesdetect3d_main_float' failed");
     }
 
+    // The settings of the user, restored below
+    const int user_dynamic = omp_get_dynamic();
+    const int user_threads = omp_get_max_threads();
+
     /* dealing here with a custom given number of cpu threads */
     if(ncores > 0)
     {
@@ -586,6 +590,8 @@ stripesdetect3d_main_float(float* Input, float* Output, int window_halflength_ve
     }
 
     free(temp3d_arr);
+    omp_set_dynamic(user_dynamic);
+    omp_set_num_threads(user_threads);
     return 0;
 }
 
@@ -614,6 +620,10 @@ stripesmask3d_main_float(float* Input, bool* Output, float threshold_val,
             "Memory allocation of the 'mask' array in 'stripesmask3d_main_float' failed");
     }
 
+    // The settings of the user, restored below
+    const int user_dynamic = omp_get_dynamic();
+    const int user_threads = omp_get_max_threads();
+
     /* dealing here with a custom given number of cpu threads */
     if(ncores > 0)
     {
@@ -736,5 +746,7 @@ stripesmask3d_main_float(float* Input, bool* Output, float threshold_val,
     }
 
     free(mask);
+    omp_set_dynamic(user_dynamic);
+    omp_set_num_threads(user_threads);
     return 0;
 }
-- 
2.43.0


From 1acfaee5696eaf3d6b37a289c5eca4a9b45081f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 47/49] fix: refuse a center of rotation outside of the images
 in remove_ring

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 413f85c..c02a22d 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -837,6 +837,8 @@ def remove_ring(
         center_x = (dx - 1.0) / 2.0
     if center_y is None:
         center_y = (dy - 1.0) / 2.0
+    if not (0 <= center_x <= dx - 1 and 0 <= center_y <= dy - 1):
+        raise ValueError("The center of rotation should be inside the images")
 
     if int_mode.lower() == "wrap":
         int_mode = 0
-- 
2.43.0


From 6db30a9e846472b7287e142f0e7627a9d4ff3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:09 +0000
Subject: [PATCH 48/49] fix: refuse a mask or a window that does not fit in
 inpainter_morph

---
 source/tomopy/misc/corr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index c02a22d..e91595a 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1099,6 +1099,10 @@ def inpainter_morph(
         raise ValueError(
             "Please make sure that the mask provided is boolean where true values define the missing data regions!"
         )
+    if mask.shape != arr.shape:
+        raise ValueError("The mask should be of the same size as the data")
+    if size < 1:
+        raise ValueError("The size of the searching window should be positive")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From 95cd2de67ae6830aae19b9ef6baea43a9138590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 49/49] fix: refuse boundaries that are wider than the
 projections in normalize_bg

---
 source/tomopy/prep/normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..4b7f901 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,8 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if air > tomo.shape[-1]:
+        raise ValueError('air must not exceed the width of the projections.')
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0

