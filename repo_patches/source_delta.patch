From fd77fd43ddeb771d3d6be6cb35f9b5a73197bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 01/55] fix: take_snapshot() and trajectories_in_frame() fail
 on any particle

np.int64_ does not exist, and the frame offset of a trajectory whose time
column is floating-point (all the text formats) is not a valid index.
---
 flowtracks/trajectory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..d4ac6d1 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -264,7 +264,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -301,12 +301,12 @@ def take_snapshot(trajects, frame, schema):
         for k, v in schema.items())
 
     copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From ab84167cb9142d76f39d75cfecd45827e76a9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 02/55] fix: saving to HDF5 fails, scalar columns declared as
 (name, type, 1)

NumPy reads that as a one-element array column, into which the scalar
trajid, time and per-particle values do not broadcast.
---
 flowtracks/io.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..8f4ee74 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -679,6 +679,13 @@ def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
     for k, v in kwds.items():
         np.save(os.path.join(output_dir, k), v)
     
+def column_descr(name, col_type, length):
+    """
+    Describe a table column for use in a dtype. Length-1 columns are scalar:
+    recent NumPy takes an explicit length of 1 to mean a 1-element array.
+    """
+    return (name, col_type) if length == 1 else (name, col_type, length)
+
 def save_particles_table(filename, trajects, trim=None):
     """
     Save trajectory data as a table of particles, with added columns for time
@@ -706,7 +713,7 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
+            fields = [('trajid', int)] + [column_descr(field, *desc) \
                 for field, desc in traj.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -755,7 +762,7 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
+            fields = [('time', int)] + [column_descr(field, *desc) \
                 for field, desc in frame.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -788,7 +795,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-- 
2.43.0


From a217464ce9d85994f319cfe0618933a3b582c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 03/55] fix: analysis() fails on the shape of its own trajid
 and time columns

---
 flowtracks/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..1036eb2 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,7 +114,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
-- 
2.43.0


From 8501fd81d17f6d285934eb437b09d6f246b57c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 04/55] fix: xuap files cannot be read

They have 15 columns, of which the format uses 14, and their links are
written as floating-point numbers; loadtxt accepts neither.
---
 flowtracks/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 8f4ee74..cb371fe 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -41,8 +41,14 @@ class FramesIterator(object):
             numbering.
         """
         self._frmix = 0
+        
+        # The files may have more columns than the format uses, and links
+        # may be written as floating-point numbers (both happen in xuap).
+        num_cols = sum(int(np.prod(fmt[name].shape)) for name in fmt.names)
+        to_int = dict((col, lambda s: int(float(s))) for col in (0, 1))
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip,
+                usecols=range(num_cols), converters=to_int))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
-- 
2.43.0


From 9f8b24291da546876b70df7f9a0b2c9e762d1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 05/55] fix: take_snapshot() fails, looking for trajid among
 the copied properties

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index d4ac6d1..37bda16 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -300,7 +300,7 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
+    copy_keys = list(kwds.keys())
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-- 
2.43.0


From 8fccedc7857a3f7d7dcb445718e1f87b6b01d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 06/55] fix: trajectories_acc() result depends on the order of
 the directory listing

It stopped at the first listed file past the range, losing whatever came
after it in the listing, and left out the last frame of the (inclusive)
range. A file with one row could not be read.
---
 flowtracks/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index cb371fe..1df923c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -231,16 +231,20 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
     
+    # Process frames in order, the directory listing has an arbitrary one.
+    frame_files = []
     for fname in os.listdir(dirname):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
-        
+        if last is not None and frame > last: continue
+        frame_files.append((frame, fname))
+    
+    for frame, fname in sorted(frame_files):
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From 5f445d346ae52e7aef619b669d88be29c4328454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:06 +0000
Subject: [PATCH 07/55] fix: files whose names only begin like a data file's
 are read as data

A backup (ptv_is.10001~) or a similarly named file beside the data made
its frame be read twice.
---
 flowtracks/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 1df923c..f44f8f3 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -51,7 +51,8 @@ class FramesIterator(object):
                 usecols=range(num_cols), converters=to_int))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = re.compile(
+            re.escape(basename).replace('%d', r'(\d+)', 1) + r'\Z')
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
@@ -229,7 +230,8 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = re.compile(
+            re.escape(basename).replace('%d', r'(\d+)', 1) + r'\Z')
     
     # Process frames in order, the directory listing has an arbitrary one.
     frame_files = []
-- 
2.43.0


From ef4f26abb3e15bc7a48a76b49d7265bf04f393e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:06 +0000
Subject: [PATCH 08/55] fix: trajectories() cannot return an iterator on Python
 3

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index f44f8f3..dfe1f56 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -526,7 +526,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From d07282adf7eebcbdd92f6a34ff8dda76fe691b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 09/55] fix: trajectories() leaves out the last frame of the
 range in HDF5 files

Its range is inclusive in all other formats and by documentation. It also
returned empty trajectories for those completely out of the range.
---
 flowtracks/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index dfe1f56..2efef15 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -514,8 +514,10 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
-        it = scene.iter_trajectories()
+        # Here the range is inclusive, in Scene it is not. Also leave out 
+        # trajectories that are completely out of range.
+        scene = Scene(fname, (first, None if last is None else last + 1))
+        it = (t for t in scene.iter_trajectories() if len(t) > 0)
         if iter_allowed:
             traj = it
         else:
-- 
2.43.0


From 710af7d5338db50c885d9c1430aa58ec99a33322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 10/55] fix: single-file ptv_is reader loses data around frames
 of 0 or 1 particles

A frame without particles was taken for the end of the file, and a frame
with one particle for a detection failure.
---
 flowtracks/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2efef15..caf43af 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -101,7 +101,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
@@ -117,12 +118,15 @@ class SingleFileIterator(object):
         
         # Make the stringio object to be used by read_frame
         lines = []
+        at_end = True
         for line in self._f:
             if re.match(r'^\s*$', line):
+                at_end = False
                 break
             lines.append(line)
         
-        if len(lines) == 0:
+        # A frame with no particles also has no lines.
+        if len(lines) == 0 and at_end:
             raise StopIteration # EOF
         
         str_tbl = StringIO("".join(lines))
-- 
2.43.0


From c64600d3e4513385535d867f7c69171a99cfff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 11/55] fix: particles following a missing ptv_is file join
 unrelated trajectories

Their links refer to rows of the missing frame, but were used on the last
frame before it. Start new trajectories after the gap.
---
 flowtracks/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index caf43af..7fad94a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -339,6 +339,7 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
             trajects[trid] = frame[frame[:,-1] == trid]
     
     frame_buffer_start = 0
+    prev_num = frame_num
     
     # Main loop, sequentially read each frame and process:
     for fix, frm in enumerate(frm_iter):
@@ -355,7 +356,12 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         cont = table['prev'] - count_base > -1
         traj = np.empty(table['prev'].shape)
         
-        has_history = (len(frames) > 0) and (frames[-1] is not None)
+        # Links only refer to the directly preceding frame.
+        has_history = (len(frames) > 0) and (frames[-1] is not None) and \
+            (frame_num == prev_num + 1)
+        prev_num = frame_num
+        if not has_history:
+            cont[:] = False
         if has_history:
             prev_ix = table['prev'][cont] - count_base
             traj[cont] = frames[-1][:,-1][prev_ix]
-- 
2.43.0


From c99332aba14f6860dcda7144c8d4314d9c221c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 12/55] fix: single-frame trajectories are lost if they are in
 the first frame

In any other frame they are returned when traj_min_len allows.
---
 flowtracks/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 7fad94a..58f95a2 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -337,6 +337,11 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
         for trid in ending_trids:
             trajects[trid] = frame[frame[:,-1] == trid]
+            if traj_min_len <= 1:
+                traj = trajects[trid]
+                yield Trajectory(traj[:,:3], traj[:,3:6], traj[:,6],
+                    int(trid), accel=np.zeros((1, 3)))
+            del trajects[trid]
     
     frame_buffer_start = 0
     prev_num = frame_num
-- 
2.43.0


From 24387a3dd8b8ba8b86e94f751c952ecb8c0b4f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 13/55] fix: an interrupted save leaves a partial HDF5 file
 that reads as a complete one

And the file that was there before is lost. If the data given to save fails
(e.g. an analyser raises an exception), the output file also stayed open.
Write to a temporary file and rename it when done.
---
 flowtracks/analysis.py   | 16 +++++++++++-----
 flowtracks/hdf_output.py | 40 ++++++++++++++++++++++++++++++++++++++++
 flowtracks/io.py         | 23 +++++++++++++++--------
 3 files changed, 66 insertions(+), 13 deletions(-)
 create mode 100644 flowtracks/hdf_output.py

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 1036eb2..2ad24ce 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -13,7 +13,9 @@ which ties in the :mod:`flowtracks.interpolation` module for analysing the
 fluid velocity around a particle from its surrounding tracers.
 """
 
-import numpy as np, tables
+import numpy as np
+
+from .hdf_output import hdf_output
 
 def companion_indices(trids, companions):
     """
@@ -113,13 +115,19 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     frame_range - if -1 no adjustment is necessary, otherwise see 
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
+    with hdf_output(analysis_file, title="Analysis results.") as outfile:
+        write_analysis(outfile, scene, conf_file, analysers, frame_range)
+
+def write_analysis(outfile, scene, conf_file, analysers, frame_range=-1):
+    """
+    Does the work of :func:`analysis`, on an open PyTables file.
+    """
     # Structure the output file:
     descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
     
-    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
     table = outfile.create_table('/', 'analysis', descr)
     table.attrs['config'] = conf_file
     table.attrs['trajects'] = scene.get_particles_path()
@@ -139,8 +147,6 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         
         table.append(arr)
     
-    # Wrap up and close.
+    # Wrap up.
     table.cols.trajid.create_index()
     table.cols.time.create_index()
-    outfile.flush()
-    outfile.close()
diff --git a/flowtracks/hdf_output.py b/flowtracks/hdf_output.py
new file mode 100644
index 0000000..e1e6a76
--- /dev/null
+++ b/flowtracks/hdf_output.py
@@ -0,0 +1,40 @@
+# -*- coding: utf-8 -*-
+"""
+Creation of the HDF5 files in which other modules save their results.
+"""
+import os, itertools as itr
+from contextlib import contextmanager
+
+import tables
+
+_serial = itr.count()
+
+@contextmanager
+def hdf_output(filename, **kwds):
+    """
+    A context manager for writing a PyTables HDF5 file, which only takes the 
+    place of an existing file by the same name when it is complete. If writing
+    it is interrupted, the existing file remains as it was.
+    
+    Arguments:
+    filename - path to the file to create.
+    kwds - other arguments for PyTables' ``open_file()``.
+    
+    Yields:
+    the PyTables file object to write to.
+    """
+    # Same directory, so that it can be renamed.
+    temp = "%s.%d-%d.tmp" % (filename, os.getpid(), next(_serial))
+    
+    try:
+        outfile = tables.open_file(temp, mode='w', **kwds)
+        try:
+            yield outfile
+            outfile.flush()
+        finally:
+            outfile.close()
+        os.replace(temp, filename)
+    except:
+        if os.path.exists(temp):
+            os.remove(temp)
+        raise
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 58f95a2..e680636 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -24,6 +24,7 @@ from scipy import io
 import tables
 
 from .scene import Scene
+from .hdf_output import hdf_output
 from .particle import Particle
 from .trajectory import Trajectory, mark_unique_rows, \
     Frame, take_snapshot, trajectories_in_frame
@@ -728,10 +729,16 @@ def save_particles_table(filename, trajects, trim=None):
     trim - if None, remove this many time points from each end of each 
         trajectory before saving.
     """
+    with hdf_output(filename) as outfile:
+        write_particles_table(outfile, trajects, trim)
+
+def write_particles_table(outfile, trajects, trim=None):
+    """
+    Does the work of :func:`save_particles_table`, on an open PyTables file.
+    """
     table = None
     trim_len = 0 if trim is None else trim * 2
     
-    outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
@@ -763,9 +770,6 @@ def save_particles_table(filename, trajects, trim=None):
     table.cols.trajid.create_index()
     table.cols.time.create_index()
     bounds_tab.cols.trajid.create_index()
-    
-    outfile.flush()
-    outfile.close()
 
 def save_frames_hdf(filename, frames):
     """
@@ -778,8 +782,14 @@ def save_frames_hdf(filename, frames):
         is recommended so that ``infer_format()`` knows what to do with it.
     frames - an iterable sequence of ParticleSnapshot objects to save.
     """
+    with hdf_output(filename) as outfile:
+        write_frames_hdf(outfile, frames)
+
+def write_frames_hdf(outfile, frames):
+    """
+    Does the work of :func:`save_frames_hdf`, on an open PyTables file.
+    """
     table = None
-    outfile = tables.open_file(filename, mode='w')
     min_pos = np.full(3, np.inf)
     max_pos = np.full(3, -np.inf)
     
@@ -828,9 +838,6 @@ def save_frames_hdf(filename, frames):
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-    
-    outfile.flush()
-    outfile.close()
 
 def trajectories_table(fname, first=None, last=None):
     """
-- 
2.43.0


From ecb6ae1ee063ab47556f6941b97ad5504e86aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 14/55] fix: save_particles_table() fails when asked to trim 0
 time points

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e680636..451b32c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -758,7 +758,7 @@ def write_particles_table(outfile, trajects, trim=None):
         arr['trajid'] = traj.trajid()
         
         for k, v in traj.as_dict().items():
-            if trim is None:
+            if trim_len == 0:
                 arr[k] = v
             else:
                 arr[k] = v[trim:-trim]
-- 
2.43.0


From 9e47e09df35db04a839db8b9fb5d42903739c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 15/55] fix: Scene.collect() with a selection fails if no frame
 range is set

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..e6855f3 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [] if self._frame_limit == '' else [self._frame_limit]
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From b7ce2a56283ccc559ac2d6a0eceefaea96e74c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 16/55] fix: bounds of a selection are rounded to 6 digits

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index e6855f3..0769704 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From f2fd072a4760b08c3d698d7ff181d4a7148a1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 17/55] fix: AnalysedScene.collect() fails on Python 3, and
 with particle conditions

---
 flowtracks/an_scene.py | 4 ++--
 flowtracks/scene.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..8f288fa 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 0769704..81fad7a 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 72ecc5148fa849b0390bfea7f7d3b459c7b3ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 18/55] fix: analysis joins the wrong time points of
 trajectories with holes

Or fails to fit them, and likewise if the analysis was not made on exactly
the frame range of its configuration.
---
 flowtracks/an_scene.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 8f288fa..d314bba 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,18 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Take only time points present in both. The analysis does not have the
+        # last point of the trajectory, nor those before a hole in it, and may
+        # cover another range of frames.
+        arr = arr[np.isin(arr['time'], traj.time())]
+        analysed = np.isin(traj.time(), arr['time'])
+        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0


From e818f8cde0e1dd62022fdd85b2ca7868d692278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 19/55] fix: DualScene keeps the frame range of an iteration
 that was not exhausted

Breaking out of it, or an exception inside it, left both scenes in the
temporary range.
---
 flowtracks/scene.py | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 81fad7a..2e10047 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -17,6 +17,7 @@ Main design goals:
 
 import itertools as it, tables, numpy as np
 from configparser import ConfigParser
+from contextlib import contextmanager
 
 from .trajectory import Trajectory, ParticleSnapshot
 from .particle import Particle
@@ -402,6 +403,24 @@ class DualScene(object):
         """
         return self._rng
     
+    @contextmanager
+    def _acting_range(self, frame_range):
+        """
+        Private. Changes the frame range of both scenes, and restores it when
+        the iteration ends for any reason.
+        """
+        if frame_range == -1:
+            yield
+            return
+        
+        try:
+            self._particles.set_frame_range(frame_range)
+            self._tracers.set_frame_range(frame_range)
+            yield
+        finally:
+            self._particles.set_frame_range(self._rng)
+            self._tracers.set_frame_range(self._rng)
+    
     def iter_frames(self, frame_range=-1):
         """
         Iterates over a scene represented by two HDF files (one for inertial 
@@ -419,21 +438,18 @@ class DualScene(object):
         Yields:
         the Frame object for each frame in turn.
         """
-        if frame_range != -1:
-            self._particles.set_frame_range(frame_range)
-            self._tracers.set_frame_range(frame_range)
+        with self._acting_range(frame_range):
+            for frame in self._coordinated_frames():
+                yield frame
     
+    def _coordinated_frames(self):
+        # Private. Does the iteration for the similarly named public method.
         for particles, tracers in zip(
             self._particles.iter_frames(), self._tracers.iter_frames()):
             frame = Frame()
             frame.tracers = tracers
             frame.particles = particles
             yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -451,10 +467,12 @@ class DualScene(object):
         Yields:
         two Frame objects, representing the consecutive selective frames.
         """
-        if frame_range != -1:
-            self._particles.set_frame_range(frame_range)
-            self._tracers.set_frame_range(frame_range)
+        with self._acting_range(frame_range):
+            for frame in self._coordinated_segments():
+                yield frame
     
+    def _coordinated_segments(self):
+        # Private. Does the iteration for the similarly named public method.
         for part_frames, tracer_frames in zip(
             self._particles.iter_segments(), self._tracers.iter_segments()):
             frame = Frame()
@@ -466,11 +484,6 @@ class DualScene(object):
             next_frame.particles = part_frames[1]
             
             yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From d384261861e2da6b2885d06d875ca736db692ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 20/55] fix: Sequence cannot be iterated on Python 3

Nor twice after the tracers were cached, and an abandoned subrange iteration
affected the following one. Make each iteration independent.
---
 flowtracks/sequence.py | 80 ++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 45 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..3917073 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,23 +160,7 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
-        self._frame = self._act_rng[0]
-        
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
-        
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        
-        self.__tschem = self.__ttraj[0].schema()
-        
-        return self
+        return self._iter_segments(*self._rng)
     
     def iter_subrange(self, first, last):
         """
@@ -190,35 +174,41 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
+        return self._iter_segments(first, last)
     
-    def next(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
-            raise StopIteration
-        
-        frame = Frame()
-        tracer_ixs = trajectories_in_frame(self.__ttraj, self._frame, 
-            self.__tstarts, self.__tends, segs=True)
-        tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
-        frame.tracers = take_snapshot(tracer_trjs, self._frame, self.__tschem)
-        
-        part_ixs = trajectories_in_frame(self.__ptraj, self._frame,
-            self.__pstarts, self.__pends, segs=True)
-        part_trjs = [self.__ptraj[t] for t in part_ixs]
-        frame.particles = take_snapshot(part_trjs, self._frame, self.__schema)
-
-        self._frame += 1
-        
-        next_frame = Frame()
-        next_frame.tracers = take_snapshot(tracer_trjs, self._frame,
-            self.__tschem)
-        next_frame.particles = take_snapshot(part_trjs, self._frame,
-            self.__schema)
-        self._next_frame = next_frame
-        
-        return frame, next_frame
+    def _iter_segments(self, first, last):
+        """
+        Private. The actual iteration. Each one is independent of others, and
+        of changing the selectors while iterating.
+        """
+        # Make sure the trajectory caches are populated.
+        ptraj = self.particle_trajectories()
+        pstarts, pends = self.__pstarts, self.__pends
+        ttraj = self.tracer_trajectories()
+        tstarts, tends = self.__tstarts, self.__tends
+        
+        schema = ptraj[0].schema()
+        tschem = ttraj[0].schema()
+        
+        for frame_num in range(int(first), int(last)):
+            tracer_ixs = trajectories_in_frame(ttraj, frame_num, 
+                tstarts, tends, segs=True)
+            tracer_trjs = [ttraj[t] for t in tracer_ixs]
+            part_ixs = trajectories_in_frame(ptraj, frame_num,
+                pstarts, pends, segs=True)
+            part_trjs = [ptraj[t] for t in part_ixs]
+            
+            frame = Frame()
+            frame.tracers = take_snapshot(tracer_trjs, frame_num, tschem)
+            frame.particles = take_snapshot(part_trjs, frame_num, schema)
+            
+            next_frame = Frame()
+            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,
+                tschem)
+            next_frame.particles = take_snapshot(part_trjs, frame_num + 1,
+                schema)
+            
+            yield frame, next_frame
     
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
-- 
2.43.0


From c91711a809bff48faed324ca2abcc202f8177fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 21/55] fix: interpolation uses what was cached for another
 scene

Data that was replaced by set_data_on_current_field(), weights of field
positions that were replaced, and neighbours of points that were trimmed.
Missing neighbours were represented by uninitialized memory.
---
 flowtracks/interpolation.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..3a0f05d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -273,10 +273,10 @@ class GeneralInterpolant(object):
         """
         # Keep the original data, for B.C purposes mostly.
         self.__tracers = np.atleast_2d(positions)
+        self._drop_neighbours_cache()
         if len(self.__tracers) == 0:
             return
         self.__field_tree = cKDTree(positions)
-        self._drop_neighbours_cache()
     
     def field_positions(self):
         return self.__tracers
@@ -320,6 +320,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
@@ -331,9 +332,17 @@ class GeneralInterpolant(object):
         """
         keep = ~which
         self.__interp_pts = self.__interp_pts[keep]
-        if self.__dists is not None:
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
+        if self._has_neighbours_cache():
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        self.__matched_data = None
+    
+    def _has_neighbours_cache(self):
+        return self.__dists is not None
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
@@ -375,7 +384,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -391,6 +400,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+        
         return self.__rel_pos
     
     def current_dists(self):
@@ -413,8 +425,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -663,6 +675,12 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        """
+        Adds to the base class the calculation of weights.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
@@ -675,7 +693,8 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if self._has_neighbours_cache():
+            self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
         """
@@ -730,7 +749,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From 207ae4b10f44906b3e43267fd3bcfae2a34d3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 22/55] fix: interpolating a recorded scene with rbf or corrfun
 uses wrong tracers

Indices of neighbours were used as a mask. Also, the companions of particles
were used as if they were the companions of tracers.
---
 flowtracks/interpolation.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 3a0f05d..cc0752e 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -99,6 +99,10 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
     vel_avg - an (m,3) array with the interpolated velocity at each 
         interpolation point, [units of ``data``].
     """
+    # The same correlation may apply to all components.
+    if corrs_hist.ndim < 2:
+        corrs_hist = corrs_hist[:, None]
+    
     weights = np.zeros(dists.shape + (data.shape[-1],))
     weights[use_parts] = corrs_hist[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
@@ -392,8 +396,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -475,12 +478,20 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # The methods below take a selection over all data points.
+        has_data = act_neighbs < self.__tracers.shape[0]
+        use_parts = np.zeros(
+            (act_neighbs.shape[0], self.__tracers.shape[0]), dtype=bool)
+        use_parts[np.nonzero(has_data)[0], act_neighbs[has_data]] = True
+        dists = np.linalg.norm(
+            self.__tracers[None, ...] - self.__interp_pts[:, None, :], axis=2)
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
@@ -524,7 +535,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From 82b2e7c80ff6512c0ab30ea9afd6d327d1d2338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 23/55] fix: saved configuration of interpolants and sequences
 cannot be read back

If the interpolant has no radius or is of the corrfun method, or the sequence
has the default minimal trajectory length.
---
 flowtracks/interpolation.py | 12 +++++++++---
 flowtracks/sequence.py      |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index cc0752e..12cf1be 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -618,9 +618,12 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        if self.radius() is not None:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
+        else:
+            cfg.remove_option('Interpolant', 'radius')
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -824,6 +827,9 @@ def read_interpolant(conf_fname):
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        if parser.get('Interpolant', 'method') == 'corrfun':
+            kwds['param'] = parser.get('Interpolant', 'param') # file name
+        else:
+            kwds['param'] = parser.getfloat('Interpolant', 'param')
     
     return interpolant(parser.get('Interpolant', 'method'), **kwds)
diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 3917073..b0e869d 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -290,7 +290,7 @@ class Sequence(object):
         cfg.set("Scene", "first frame", str(self._rng[0]))
         cfg.set("Scene", "last frame", str(self._rng[1] - 1))
         cfg.set("Scene", "apply smoothing", "yes" if self._smooth else "no")
-        cfg.set("Scene", "trajectory minimal length", str(self._minlen))
+        cfg.set("Scene", "trajectory minimal length", str(int(self._minlen)))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
         cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-- 
2.43.0


From ed3aa5ff73cf09186798f726fa5bead5bb1586d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 24/55] fix: savitzky_golay() fails, np.mat was removed from
 NumPy

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..00a74cf 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,8 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 5227c599da0f95da8c7b3c644ac2316887f0ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 25/55] fix: collect_particles() leaves out particles of longer
 paths

It stopped at the first earlier file in which no path reaches the frame,
although paths from still earlier files may. Files of one row also failed.
---
 flowtracks/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 451b32c..37ecc7a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -163,7 +163,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -174,11 +175,10 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
-        selected.append(in_frame)
+        # Even if no path beginning here is long enough to reach ``frame``, 
+        # earlier ones may be.
+        if in_frame.shape[-2] > 0:
+            selected.append(in_frame)
         cur_frame -= 1
     
     if path_seg is True:
-- 
2.43.0


From 6fd6b6a38fbccde3fd0cfa414f10f98feae040a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 26/55] fix: single-frame trajectories in Matlab files have no
 time array

squeeze() of a one-row column is a scalar, which fails in any later use.
---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 37ecc7a..c1d6b25 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -214,7 +214,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = traj['t'].reshape(-1) # also if it has only one row.
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From fef69b379c21b8557280afdb0d47a6d6941f144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 27/55] fix: an interrupted save_trajectories() leaves files
 that read as complete

---
 flowtracks/hdf_output.py | 38 ++++++++++++++++++++++++++------------
 flowtracks/io.py         |  9 ++++++---
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/flowtracks/hdf_output.py b/flowtracks/hdf_output.py
index e1e6a76..3e5b89b 100644
--- a/flowtracks/hdf_output.py
+++ b/flowtracks/hdf_output.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 """
-Creation of the HDF5 files in which other modules save their results.
+Creation of the files in which other modules save their results.
 """
 import os, itertools as itr
 from contextlib import contextmanager
@@ -10,31 +10,45 @@ import tables
 _serial = itr.count()
 
 @contextmanager
-def hdf_output(filename, **kwds):
+def complete_file(filename):
     """
-    A context manager for writing a PyTables HDF5 file, which only takes the 
-    place of an existing file by the same name when it is complete. If writing
-    it is interrupted, the existing file remains as it was.
+    A context manager for writing a file, which only takes the place of an 
+    existing file by the same name when it is complete. If writing it is 
+    interrupted, the existing file remains as it was.
     
     Arguments:
     filename - path to the file to create.
-    kwds - other arguments for PyTables' ``open_file()``.
     
     Yields:
-    the PyTables file object to write to.
+    path to the temporary file to create and write to in the meantime.
     """
     # Same directory, so that it can be renamed.
     temp = "%s.%d-%d.tmp" % (filename, os.getpid(), next(_serial))
     
     try:
+        yield temp
+        os.replace(temp, filename)
+    except:
+        if os.path.exists(temp):
+            os.remove(temp)
+        raise
+
+@contextmanager
+def hdf_output(filename, **kwds):
+    """
+    The same as :func:`complete_file`, for a PyTables HDF5 file.
+    
+    Arguments:
+    filename - path to the file to create.
+    kwds - other arguments for PyTables' ``open_file()``.
+    
+    Yields:
+    the PyTables file object to write to.
+    """
+    with complete_file(filename) as temp:
         outfile = tables.open_file(temp, mode='w', **kwds)
         try:
             yield outfile
             outfile.flush()
         finally:
             outfile.close()
-        os.replace(temp, filename)
-    except:
-        if os.path.exists(temp):
-            os.remove(temp)
-        raise
diff --git a/flowtracks/io.py b/flowtracks/io.py
index c1d6b25..a88946a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -24,7 +24,7 @@ from scipy import io
 import tables
 
 from .scene import Scene
-from .hdf_output import hdf_output
+from .hdf_output import hdf_output, complete_file
 from .particle import Particle
 from .trajectory import Trajectory, mark_unique_rows, \
     Frame, take_snapshot, trajectories_in_frame
@@ -702,8 +702,11 @@ def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
         for k, v in per_traject_adds.items():
             save_data[k] = v[traj.trajid()]
         
-        np.savez(os.path.join(output_dir, 'traj_%d' % traj.trajid()),
-            **save_data)
+        # An interrupted write may leave a readable file without some arrays.
+        with complete_file(os.path.join(output_dir, 
+            'traj_%d.npz' % traj.trajid())) as temp:
+            with open(temp, 'wb') as outfile:
+                np.savez(outfile, **save_data)
     
     # Save non-trajectory arrays:
     for k, v in kwds.items():
-- 
2.43.0


From 71d52360c332b63f2fb3c21ed295c128d89524f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 28/55] fix: Jacobian by finite differences uses the companion
 tracers

---
 flowtracks/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 12cf1be..19117d5 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -567,11 +567,11 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp)
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From e73bc0fb635627c2128217f77300777ab5901bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 29/55] fix: interpolation fails if both a companion and a
 coincident tracer are near

---
 flowtracks/interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 19117d5..5c8b722 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -364,14 +364,16 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
-        dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+        # The companion may be removed as well as a tracer in the same position.
+        num_extra = 1 if comp is None else 2
+        dists, active_neighbs = self.__field_tree.query(interp_pts, 
+            self._neighbs + num_extra, distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
+        keep &= np.cumsum(keep, axis=1) <= self._neighbs
         dists = dists[keep].reshape(-1, self._neighbs)
         active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
         
-- 
2.43.0


From a391b7da5d6def546618cc1bf51a24b8d323b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 30/55] fix: a scene without tracers uses the neighbours of an
 earlier scene

---
 flowtracks/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 5c8b722..711b725 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -364,6 +364,10 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        if len(self.__tracers) == 0: # the tree is of some earlier field.
+            missing = (interp_pts.shape[0], self._neighbs)
+            return np.full(missing, np.inf), np.zeros(missing, dtype=np.int64)
+        
         # The companion may be removed as well as a tracer in the same position.
         num_extra = 1 if comp is None else 2
         dists, active_neighbs = self.__field_tree.query(interp_pts, 
-- 
2.43.0


From 194198373415a119dfdab6bb3014f7fea944e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 31/55] fix: an interrupted interpolation leaves stale weights
 and half-made caches

---
 flowtracks/interpolation.py | 45 +++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 711b725..91eb3b2 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -390,19 +390,22 @@ class GeneralInterpolant(object):
         # Take one more neighbour because one will be removed, either for 
         # being in the same position as the interp points or being its 
         # companion (worst case, the extra farthest neighbour is removed).
-        self.__dists, self.__active_neighbs = self._select_neighbs(
+        dists, active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-        self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
+        has_data = active_neighbs < self.__tracers.shape[0]
         matched_pos = np.zeros(
-            self.__active_neighbs.shape + (self.__tracers.shape[1],))
-        matched_pos[self.__has_data] = \
-            self.__tracers[self.__active_neighbs[self.__has_data]]
-        self.__rel_pos = matched_pos - self.__interp_pts[:, None, :]
+            active_neighbs.shape + (self.__tracers.shape[1],))
+        matched_pos[has_data] = self.__tracers[active_neighbs[has_data]]
+        rel_pos = matched_pos - self.__interp_pts[:, None, :]
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
                 self.__tracers, self.__tracers, self._radius, self._neighbs)
+        
+        # Only now, so that nothing is half done if the user interrupts.
+        self.__dists, self.__active_neighbs, self.__has_data, self.__rel_pos =\
+            dists, active_neighbs, has_data, rel_pos
                 
     def current_relative_positions(self):
         """
@@ -434,10 +437,11 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.zeros(
+            matched_data = np.zeros(
                 self.__active_neighbs.shape + (self.__data.shape[1],))
-            self.__matched_data[self.__has_data] = \
+            matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
+            self.__matched_data = matched_data
         return self.__matched_data
         
     def interpolate(self, subset=None):
@@ -696,13 +700,21 @@ class InverseDistanceWeighter(GeneralInterpolant):
         
         self._forego_laziness()
     
-    def _forego_laziness(self):
+    def _drop_neighbours_cache(self):
         """
-        Adds to the base class the calculation of weights.
+        Adds to the base class the weights.
         """
-        GeneralInterpolant._forego_laziness(self)
-        self.__weights = self.weights(self.current_dists(), 
-            self.current_active_neighbs())
+        GeneralInterpolant._drop_neighbours_cache(self)
+        self.__weights = None
+    
+    def _current_weights(self):
+        """
+        Calculate or retrieve cache of weights for the current neighbours.
+        """
+        if self.__weights is None:
+            self.__weights = self.weights(self.current_dists(), 
+                self.current_active_neighbs())
+        return self.__weights
     
     def trim_points(self, which):
         """
@@ -713,8 +725,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        if self._has_neighbours_cache():
-            self.__weights = self.__weights[~which]
+        self.__weights = None
         
     def _apply_weights(self, weights, data):
         """
@@ -776,7 +787,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
         if act_neighbs is not self.current_active_neighbs():
             weights = self.weights(self.current_dists(), act_neighbs)
         else:
-            weights = self.__weights
+            weights = self._current_weights()
         return self._apply_weights(weights, matched_data)
     
     def eulerian_jacobian(self, local_interp=None, eps=None):
@@ -806,7 +817,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
         der_inv_dists[use_parts == self.field_positions().shape[0]] = 0.
         
         vel_diffs = (matched_data - local_interp[:,None,:]) # m x k x d
-        jac = self._par/self.__weights.sum(
+        jac = self._par/self._current_weights().sum(
                 axis=1, keepdims=True)[:,None,None, 0] \
             * np.sum(der_inv_dists[...,None,None]*rel_pos[:,:,None,:]*\
                    vel_diffs[...,None], axis=1)
-- 
2.43.0


From b29897936c5d41ec91cda96ccb63dde4ddf6e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 32/55] fix: sequences with more than one percent sign in a
 file name cannot be saved

Sequence.save_config() escaped only the first percent sign, and ConfigParser
refused the rest.
---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index b0e869d..8ca0f69 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -293,8 +293,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(int(self._minlen)))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From 56b961e1033170abf9aaa060ba5c28427ad8d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 33/55] fix: an interrupted read leaves a Sequence with half of
 its cache

The trajectories were remembered before the times that belong to them, so after
a failure between the two the sequence could not be iterated anymore.
---
 flowtracks/sequence.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 8ca0f69..2ce79ae 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -116,14 +116,16 @@ class Sequence(object):
         if (self.__ptraj is not None):
             return self.__ptraj
         
-        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], 
+        ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], 
             self._rng[1], self.frate, self._pfmt, self._minlen))
         
         # Also caches the starts and ends of trajectories, so that accessing
         # only the ones relevant to a specific frame is easier.
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ptraj]
+        start_end = [(tr.time()[0], tr.time()[-1]) for tr in ptraj]
         self.__pstarts, self.__pends =  map(np.array, zip(*start_end))
         
+        # Last, as its presence means that the cache is complete.
+        self.__ptraj = ptraj
         return self.__ptraj
     
     def tracer_trajectories(self):
@@ -139,15 +141,15 @@ class Sequence(object):
             self._rng[1], self.frate, self._trfmt, self._minlen))
         
         if self._smooth:
-            self.__ttraj = [tr.smoothed() for tr in ttraj]
-        else:
-            self.__ttraj = ttraj
+            ttraj = [tr.smoothed() for tr in ttraj]
         
         # Also caches the starts and ends of trajectories, so that accessing
         # only the ones relevant to a specific frame is easier.
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ttraj]
+        start_end = [(tr.time()[0], tr.time()[-1]) for tr in ttraj]
         self.__tstarts, self.__tends =  map(np.array, zip(*start_end))
-            
+        
+        # Last, as its presence means that the cache is complete.
+        self.__ttraj = ttraj
         return self.__ttraj
         
     def __iter__(self):
-- 
2.43.0


From 76eecdcdc7b8f3a867907a550b7cb7e80d83bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:11 +0000
Subject: [PATCH 34/55] fix: trajectories_table() leaves the file open if
 reading it fails

---
 flowtracks/io.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a88946a..92701e7 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -854,24 +854,23 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    outfile = tables.open_file(fname, mode='r')
-    table = outfile.get_node('/particles')
-    
     query_string = ('(trajid == trid)')
     if first is not None:
         query_string += " & (time >= %d)" % first
     if last is not None:
         query_string += " & (time <= %d)" % last
-                
+    
     trajects = []
-    for trid in np.unique(table.col('trajid')):
-        arr = table.read_where(query_string)
-        kwds = dict((field, arr[field]) for field in arr.dtype.fields \
-            if field != 'trajid')
-        kwds['trajid'] = trid
-        trajects.append(Trajectory(**kwds))
+    with tables.open_file(fname, mode='r') as outfile:
+        table = outfile.get_node('/particles')
+        
+        for trid in np.unique(table.col('trajid')):
+            arr = table.read_where(query_string)
+            kwds = dict((field, arr[field]) for field in arr.dtype.fields \
+                if field != 'trajid')
+            kwds['trajid'] = trid
+            trajects.append(Trajectory(**kwds))
     
-    outfile.close()
     return trajects
 
 def load_trajectories(res_dir, first=None, last=None):
-- 
2.43.0


From 7d0821960c250ead8bc673aec73bba5d46ff4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 35/55] fix: infinite bounds in selections raise NameError

---
 flowtracks/scene.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 2e10047..2985339 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -60,9 +60,15 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
-        (key, cop1, smin, lop, key, cop2, smax)
     
+    def compare(cop, bound):
+        # PyTables has no name for infinity, nor a place for it in the index 
+        # of an integer column.
+        if np.isinf(bound):
+            return "(%s * 1.0 %s %s1e999)" % (key, cop, '-' if bound < 0 else '')
+        return "(%s %s %.17g)" % (key, cop, bound)
+    
+    cond_string = "(%s %s %s)" % (compare(cop1, smin), lop, compare(cop2, smax))
     return cond_string
     
 class Scene(object):
-- 
2.43.0


From 8e79afb1a09eb8aa3331537920686516a8f1f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 36/55] fix: iterating over segments keeps tens of frames in
 memory

---
 flowtracks/scene.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 2985339..b83d588 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -15,7 +15,7 @@ Main design goals:
 
 """
 
-import itertools as it, tables, numpy as np
+import tables, numpy as np
 from configparser import ConfigParser
 from contextlib import contextmanager
 
@@ -28,12 +28,16 @@ class Frame(object):
 
 def pairwise(iterable):
     """
-    copied from itertools documentation, [1]
+    like the recipe in itertools documentation, [1], but without tee(), which 
+    keeps tens of items in memory after they were used.
     s -> (s0,s1), (s1,s2), (s2, s3), ...
     """
-    a, b = it.tee(iterable)
-    next(b, None)
-    return zip(a, b)
+    iterator = iter(iterable)
+    for prev in iterator:
+        break
+    for item in iterator:
+        yield prev, item
+        prev = item
 
 def gen_query_string(key, range_spec):
     """
-- 
2.43.0


From 6b66d6486067e94044f811b32edd40d07e1d7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 37/55] fix: Savitzky-Golay smoothing of order below 3 raises
 IndexError

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 00a74cf..822f05a 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -66,6 +66,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b)
+    # Derivatives above the polynomial's order vanish.
+    m = np.vstack((m, np.zeros((max(0, 3 - order), window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 21e1f73fb7ad132ba4572048a49f11c9a8bf58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 38/55] fix: collect() of an analysed scene joins wrong rows if
 the particles were saved again in another order

---
 flowtracks/an_scene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index d314bba..49f1abd 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -132,6 +132,11 @@ class AnalysedScene(object):
             if len(a_arr) > 0:
                 a_arr = a_arr[in_a]
             
+            # The same particles may be in a different order in each file.
+            p_sort = np.argsort(p_arr['trajid'])
+            a_sort = np.argsort(a_arr['trajid'])
+            a_arr = a_arr[a_sort[np.argsort(p_sort)]]
+            
             # For each dual frame, add the columns of specified keys to the list
             # of that key's results
             for k in keys:
-- 
2.43.0


From 8c61c6b7432efcdf8dd940672953cc726bed27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 39/55] fix: segments pair particles in different order if the
 order differs between frames

---
 flowtracks/scene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index b83d588..771860d 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -296,6 +296,11 @@ class Scene(object):
             if len(in_next_arr) > 0:
                 next_arr = next_arr[in_next_arr]
             
+            # The same particles may be in a different order in each frame.
+            order = np.argsort(arr['trajid'])
+            next_order = np.argsort(next_arr['trajid'])
+            next_arr = next_arr[next_order[np.argsort(order)]]
+            
             # format as ParticleSnapshot.
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'time')
-- 
2.43.0


From 9ab5a3041f21a16a1576eb77d80dc6f1cf7eb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 40/55] fix: smoothing smoothed trajectories again keeps their
 old vel_pp

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 822f05a..05e3ac9 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From f8523a007f52e61ac32b2ebf441b0169997309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 41/55] fix: smoothed trajectories share arrays with those they
 were made of

---
 flowtracks/smoothing.py  | 4 ++--
 flowtracks/trajectory.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 05e3ac9..fee6528 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -110,13 +110,13 @@ def savitzky_golay(trajs, fps, window_size, order):
         nextvel = np.vstack((np.zeros(3), newvel + newacc/fps + jerk/2./fps**2))[:-1]
         nextacc = np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]
         
-        newtraj = Trajectory(newpos, newvel, traj.time(), traj.trajid(),
+        newtraj = Trajectory(newpos, newvel, traj.time().copy(), traj.trajid(),
             accel=newacc, vel_pp=nextvel, acc_pp = nextacc)
         
         # Copy unsmoothed properties from old trajectory:
         for k, v in traj.as_dict().items():
             if k not in smoothed_keys:
-                newtraj.create_property(k, v)
+                newtraj.create_property(k, v.copy())
         
         new_trajs.append(newtraj)
     
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 37bda16..fa1b155 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -186,7 +186,7 @@ class Trajectory(ParticleSet):
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
         new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
         
-        return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
+        return Trajectory(new_pos, new_vel, self.time().copy(), self.trajid(),
             accel=new_accel)
 
 class ParticleSnapshot(ParticleSet):
-- 
2.43.0


From eb675bebbcd62aeb111a6f135050ac98dab3d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 42/55] fix: collect_particles() takes a file that cannot be
 examined for the end of the data

An error of the system in looking for the next file back (or the first) was
taken to mean that there is none, so that particles were silently missing.
---
 flowtracks/io.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 92701e7..60b6acf 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -138,6 +138,17 @@ class SingleFileIterator(object):
     def __def__(self):
         self._f.close()
     
+def frame_exists(fname):
+    """
+    Tell whether there is a file by this name. Unlike ``os.path.exists()``, 
+    not being able to find out is an error, not a missing file.
+    """
+    try:
+        os.stat(fname)
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+    return True
+
 def collect_particles(fname_tmpl, frame, path_seg=False):
     """
     Going backwards over trajAcc files [2], starting from a given frame,
@@ -162,7 +173,7 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     cur_frame = frame
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
-    while os.path.exists(fname_tmpl % cur_frame):
+    while frame_exists(fname_tmpl % cur_frame):
         table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
             ndmin=2)
         path_age = frame - cur_frame
-- 
2.43.0


From 84b17984e84917d7b3782599d27ce93c976e65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 43/55] fix: particles whose properties differ from those saved
 before were stored wrongly

A missing property was filled from uninitialised memory, values that do not fit
in the column were truncated or wrapped, one-component values were spread over
all components. Now it is an error.
---
 flowtracks/io.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 60b6acf..7a327b2 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -730,6 +730,28 @@ def column_descr(name, col_type, length):
     """
     return (name, col_type) if length == 1 else (name, col_type, length)
 
+def fill_columns(arr, **columns):
+    """
+    Set the columns of a table. The format of the table was determined by the
+    first set of particles saved in it, so here it is checked that it can hold
+    this one as well.
+    
+    Arguments:
+    arr - a structured array to fill.
+    columns - the values for each of its columns.
+    """
+    missing = set(arr.dtype.names) - set(columns)
+    if len(missing) > 0:
+        raise ValueError("Missing properties: " + ', '.join(sorted(missing)))
+    
+    for name, vals in columns.items():
+        if np.ndim(vals) > 0 and np.size(vals) != arr[name].size:
+            raise ValueError("Shape of %s differs from that in the table" % name)
+        arr[name] = vals
+        kept = (arr[name] == vals) | ((arr[name] != arr[name]) & (vals != vals))
+        if not np.all(kept):
+            raise ValueError("Values of %s do not fit in the table" % name)
+
 def save_particles_table(filename, trajects, trim=None):
     """
     Save trajectory data as a table of particles, with added columns for time
@@ -769,14 +791,10 @@ def write_particles_table(outfile, trajects, trim=None):
             table = outfile.create_table('/', 'particles', dtype)
 
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
-        arr['trajid'] = traj.trajid()
-        
-        for k, v in traj.as_dict().items():
-            if trim_len == 0:
-                arr[k] = v
-            else:
-                arr[k] = v[trim:-trim]
-        
+        columns = traj.as_dict()
+        if trim_len > 0:
+            columns = dict((k, v[trim:-trim]) for k, v in columns.items())
+        fill_columns(arr, trajid=traj.trajid(), **columns)
         table.append(arr)
         bounds_tab.append([
             (traj.trajid(), arr['time'][0], arr['time'][-1])])
@@ -824,10 +842,7 @@ def write_frames_hdf(outfile, frames):
         max_pos = np.max(np.vstack((max_pos, frame.pos())), axis=0)
         
         arr = np.empty(len(frame), dtype=dtype)
-        arr['time'] = frame.time()
-        
-        for k, v in frame.as_dict().items():
-            arr[k] = v
+        fill_columns(arr, time=frame.time(), **frame.as_dict())
         table.append(arr)
         
         # Keep track of trajectory starts/ends for the bounds table. 
-- 
2.43.0


From 9e02d6f4aacf4c3b2cdf4a18b90e74374ee66482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 44/55] fix: a snapshot kept the properties of all trajectories
 in the type of the first

Fractions were lost if that was an integer.
---
 flowtracks/trajectory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index fa1b155..660df32 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -295,9 +295,11 @@ def take_snapshot(trajects, frame, schema):
         kwds['time'] = frame
         return ParticleSnapshot(trajid=np.empty(0), **kwds)
 
+    # Not all trajectories necessarily keep a property in the same type.
+    types = dict((k, set(traj.__dict__['_' + k].dtype for traj in trajects)) \
+        for k in schema)
     kwds = dict((k, np.empty(
-        (len(trajects),) + v, 
-        dtype=trajects[0].__dict__['_' + k].dtype)) \
+        (len(trajects),) + v, dtype=np.result_type(*types[k]))) \
         for k, v in schema.items())
 
     copy_keys = list(kwds.keys())
-- 
2.43.0


From f2c1a785dd291f38ae5bffb56e5e6d4eee7f2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 45/55] fix: results missing from what an analyser returns were
 saved as uninitialised memory

---
 flowtracks/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 2ad24ce..906f74c 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -139,8 +139,11 @@ def write_analysis(outfile, scene, conf_file, analysers, frame_range=-1):
         arr['time'] = frame.particles.time()
         
         for analyser in analysers:
-            analysis = analyser.analyse(frame, next_frame)
+            analysis = list(analyser.analyse(frame, next_frame))
             this_descr = analyser.descr()
+            if len(analysis) != len(this_descr):
+                raise ValueError("Analyser returned %d results instead of %d" \
+                    % (len(analysis), len(this_descr)))
             
             for res, desc in zip(analysis, this_descr):
                 arr[desc[0]] = res
-- 
2.43.0


From 4ea01425b88f06d8c5013cc29350e96fd2b1ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 46/55] fix: particle_pairs() mixed up the pairs if not
 requested in the order of the trajectories The pairs found are in the order
 of primary_trajects, not of the request. Requesting a particle twice raised
 an error.

---
 flowtracks/pairs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..c7448d2 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -68,7 +68,12 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
-        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
+        
+        # Particles may be requested in any order, and more than once.
+        by_trid = np.argsort(prim_parts.trajid())
+        requested = by_trid[np.searchsorted(
+            prim_parts.trajid(by_trid), trajids[coord_locator])]
+        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs[requested])
         pair_time[coord_locator] = frame_num # later transformed.
     
     # Transform frame numbers back into time index in the output array.
-- 
2.43.0


From 9c3b1f268db34ccd61214129cd9c18798e7e0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 47/55] fix: particle_pairs() failed for trajectories read from
 text files Their frame numbers are floating-point numbers.

---
 flowtracks/pairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index c7448d2..1b57af3 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -82,6 +82,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
-- 
2.43.0


From 0c335062f692dc097693d48ee2a243ab71b04ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 48/55] fix: particle_pairs() failed where a property is not
 common to all trajectories, and with nothing to pair

---
 flowtracks/pairs.py      | 4 +++-
 flowtracks/trajectory.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 1b57af3..57b7c21 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -44,7 +44,9 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         frames[traj_coords] = traj.time(time_points[traj_coords])
 
     unique_frames = np.unique(frames)
-    schema = prim_traj[0].schema()
+    
+    # Other properties do not matter, and are not necessarily common to all.
+    schema = {'pos': (3,), 'velocity': (3,)}
     
     # For each frame, create snapshots and compare positions.
     for frame_num in unique_frames:
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 660df32..5ffc14b 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -256,7 +256,7 @@ def trajectories_in_frame(trajects, frame_num,
     """
     if start_times is None or end_times is None:
         start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
-        start_times, end_times = map(np.array, zip(*start_end))
+        start_times, end_times = np.array(start_end).reshape(-1, 2).T
     
     end_frm = (frame_num + 1) if segs else frame_num
     cands = (frame_num >= start_times) & (end_frm <= end_times)
-- 
2.43.0


From e44d5fa45f6d5951cb607a5177c18cb4ae5bc7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 49/55] fix: analyse_fhdf.py passed the interpolation parameter
 as the radius The third positional argument of interpolant() is the radius.
 So --param always failed, and corrfun could not be used.

---
 scripts/analyse_fhdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..be2134a 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,12 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    # For all methods but corrfun, it is a number.
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 98f4b3fa51b1a53c26634a81b5e2ebf28db740e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 50/55] fix: pdf_bins() left out the least or greatest values
 with logarithmic bins 10**log10(x) is not always x, so the outer bins did not
 always reach the extreme values.

---
 flowtracks/graphics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..358190f 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -36,6 +36,8 @@ def pdf_bins(data, num_bins, log_bins=False):
         data = data[data > 0] 
         minv = np.min(data)
         bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        # Rounding errors must not leave out the extreme values.
+        bins[0], bins[-1] = minv, data.max()
     else:
         bins = num_bins
     
-- 
2.43.0


From d58d76f75ebae69f5fb8cf01aa7c3ba3fb61811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 51/55] fix: plot_vectors() switched the grid off when drawing
 on a figure again Without arguments, grid() toggles.

---
 flowtracks/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 358190f..b60e218 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -122,7 +122,7 @@ def plot_vectors(vecs, indep, xlabel, fig=None, marker='-',
         pl.subplot(3,1,subplt + 1)
         pl.plot(indep, vecs[:,subplt], marker)
         pl.gca().get_xaxis().set_visible(False)
-        pl.grid()
+        pl.grid(True)
         pl.ylabel(labels[subplt])
         
         if yticks_format is not None:
-- 
2.43.0


From 521f26270ddaa62eb58be2ba59d0a03b875e3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 52/55] fix: collect_particles() and its variants failed or
 gave the wrong shape for a frame without particles

---
 flowtracks/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 7a327b2..af2f988 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -192,6 +192,9 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
             selected.append(in_frame)
         cur_frame -= 1
     
+    if len(selected) == 0 and cur_frame < frame:
+        return np.empty((2,0,7) if path_seg is True else (0,7))
+    
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
         return all_rows[:,mark_unique_rows(all_rows[0])]
@@ -608,7 +611,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
     Returns:
     a table with columns 0-2 for position, 3-5 for velocity, 6 for frame
     number and 7 for trajectory id. If path_seg is True, the table has two
-    layers (a 2,n,7 array), the first is the particles in the given frame,
+    layers (a 2,n,8 array), the first is the particles in the given frame,
     the second is their matches in the next time step.
     """
     selected = []
@@ -629,7 +632,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From faae03a22282c523f8493999e70242ba9a743464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 53/55] fix: files could not be read if a property is called t
 or trid The condition then compared that column instead of the variable.

---
 flowtracks/an_scene.py |  8 ++++----
 flowtracks/io.py       |  4 ++--
 flowtracks/scene.py    | 16 ++++++++--------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 49f1abd..83d4154 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -61,12 +61,12 @@ class AnalysedScene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _v_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(*self._scene.get_range()):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_v_t': t})
     
     def collect(self, keys, where=None):
         """
@@ -162,8 +162,8 @@ class AnalysedScene(object):
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
         # Fetch by foreign key from analysis:
-        query_string = '(trajid == trid)'
-        arr = self._table.read_where(query_string)
+        query_string = '(trajid == _v_trid)'
+        arr = self._table.read_where(query_string, {'_v_trid': trid})
         
         # Take only time points present in both. The analysis does not have the
         # last point of the trajectory, nor those before a hole in it, and may
diff --git a/flowtracks/io.py b/flowtracks/io.py
index af2f988..e4d809a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -883,7 +883,7 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    query_string = ('(trajid == trid)')
+    query_string = ('(trajid == _v_trid)')
     if first is not None:
         query_string += " & (time >= %d)" % first
     if last is not None:
@@ -894,7 +894,7 @@ def trajectories_table(fname, first=None, last=None):
         table = outfile.get_node('/particles')
         
         for trid in np.unique(table.col('trajid')):
-            arr = table.read_where(query_string)
+            arr = table.read_where(query_string, {'_v_trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 771860d..1ba6713 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -193,11 +193,11 @@ class Scene(object):
         """
         # I just repeat most of the code in iter_trajectories(). It is not the
         # pretties thing but trying to abstract these 5 lines would be uglier.
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _v_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'_v_trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
@@ -209,12 +209,12 @@ class Scene(object):
         trajectory in the file (in no particular order, but the same order 
         every time on the same PyTables version) and yields it.
         """
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _v_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
         for trid in self._trids:
-            arr = self._table.read_where(query_string)
+            arr = self._table.read_where(query_string, {'_v_trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
@@ -239,12 +239,12 @@ class Scene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _v_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_v_t': t})
     
     def frame_by_time(self, t):
         """
@@ -257,8 +257,8 @@ class Scene(object):
         Returns:
         a ParticleSnapshot object.
         """
-        query_string = '(time == t)'
-        arr = self._table.read_where(query_string)
+        query_string = '(time == _v_t)'
+        arr = self._table.read_where(query_string, {'_v_t': t})
         
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'time')
-- 
2.43.0


From 4e07a65f90578dfa353b6e8bab514ecc80f8c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 54/55] fix: a property called id or t replaced the id of a
 trajectory, the time of a snapshot They were kept in the same attribute.

---
 flowtracks/trajectory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 5ffc14b..f7ebdb1 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -144,12 +144,12 @@ class Trajectory(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._id = trajid
+        self.__id = trajid
         kwds['time'] = time
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def trajid(self):
-        return self._id    
+        return self.__id    
     
     def __getitem__(self, selector):
         """
@@ -161,7 +161,7 @@ class Trajectory(ParticleSet):
         """
         return np.hstack((self._pos[selector], self._velocity[selector],
             self._time[selector][...,None], 
-            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
+            np.ones(self._pos[selector].shape[:-1] + (1,))*self.__id))
             
     def smoothed(self, err_bound, order):
         """
@@ -209,12 +209,12 @@ class ParticleSnapshot(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._t = time
+        self.__t = time
         kwds['trajid'] = trajid
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def time(self):
-        return self._t
+        return self.__t
 
 
 def mark_unique_rows(all_rows):
-- 
2.43.0


From 1779496d9beecb90605cf65ee7fa4a367528d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 55/55] fix: selecting by an analysis result declared as a row
 of length 1 failed

Recent NumPy takes an explicit length of 1 to mean a 1-element array.
---
 flowtracks/analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 906f74c..40944ce 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -16,6 +16,7 @@ fluid velocity around a particle from its surrounding tracers.
 import numpy as np
 
 from .hdf_output import hdf_output
+from .io import column_descr
 
 def companion_indices(trids, companions):
     """
@@ -125,7 +126,8 @@ def write_analysis(outfile, scene, conf_file, analysers, frame_range=-1):
     # Structure the output file:
     descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
-        descr.extend(analyser.descr())
+        descr.extend(column_descr(*col) if len(col) > 2 else col \
+            for col in analyser.descr())
     descr = np.dtype(descr)
     
     table = outfile.create_table('/', 'analysis', descr)
@@ -146,6 +148,9 @@ def write_analysis(outfile, scene, conf_file, analysers, frame_range=-1):
                     % (len(analysis), len(this_descr)))
             
             for res, desc in zip(analysis, this_descr):
+                # Rows of length 1 are kept as scalars.
+                if arr[desc[0]].ndim == 1 and np.shape(res) == (length, 1):
+                    res = np.reshape(res, length)
                 arr[desc[0]] = res
         
         table.append(arr)
-- 
2.43.0

