From 2f5002aa0ca5963b07df076cc6b55210c00e2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/70] fix: interpret the initial simulation time as seconds
 when an end date is given

datetime.timedelta() takes days as its first argument, so a run continued at
a non-zero simulation time was refused, or stopped at the wrong time, when
simulation_initial_date and simulation_end_date were set.
---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..79a34df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1090,7 +1090,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From f04fa3404a07852c9bf7e9741860d51514773cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 02/70] fix: continue from state files that hold no time stamp

The metadata of such files has the key 'time' with value None, so the
simulation time was set to None instead of the time inferred from the
iteration count.
---
 thetis/solver.py   | 4 +++-
 thetis/solver2d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..5fe07ed 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1106,7 +1106,9 @@ class FlowSolver(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
         self.iteration = iteration
         self.simulation_time = t
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 79a34df..d2c65df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -896,7 +896,9 @@ class FlowSolver2d(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
-- 
2.43.0


From 260c4c4b4a205c61b13d2a2900fe492637a5415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 03/70] fix: keep the diagnostic records when a simulation is
 continued

A continued 2D run replaced the diagnostic files of the run it continues.
As in 3D, diagnostics are now appended when the run continues in the same
output directory. Appending to a file that does not exist yet creates it,
and an export index beyond the end of the file (diagnostics of a later
start time, or another output directory) adds a new entry instead of
aborting the run.
---
 thetis/callback.py | 15 +++++++--------
 thetis/solver.py   |  4 ++--
 thetis/solver2d.py |  8 ++++++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..02574b0 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,7 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        if comm.rank == 0 and (new_file or not os.path.isfile(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
@@ -139,16 +139,15 @@ class DiagnosticHDF5(object):
         :type variables: tuple of float
         :kwarg time: time stamp of entry
         :type time: float
-        :kwarg int index: If provided, defines the time index in the file
+        :kwarg int index: If provided, defines the time index in the file.
+            An index beyond the last entry adds a new entry.
         """
         if self.comm.rank == 0:
             with h5py.File(self.filename, 'a') as hdf5file:
-                if index is not None:
-                    nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
-                    ix = index
-                if index is None or expand_required:
+                ix = index
+                if index is None or index >= self._nentries(hdf5file):
+                    # new entry; the index may lie beyond the end of the file
+                    # if earlier exports were not recorded in this file
                     self._expand(hdf5file)
                     ix = self._nentries(hdf5file) - 1
                 if self.include_time:
diff --git a/thetis/solver.py b/thetis/solver.py
index 5fe07ed..a21f94a 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1283,8 +1283,8 @@ class FlowSolver(FrozenClass):
                                                  append_to_log=True)
             self.add_callback(c, eval_interval='export')
 
-        if self._simulation_continued:
-            # set all callbacks to append mode
+        if self._simulation_continued and not self.export_initial_state:
+            # continuing in the same directory: set all callbacks to append mode
             for m in self.callbacks:
                 for k in self.callbacks[m]:
                     self.callbacks[m][k].set_write_mode('append')
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index d2c65df..58a88ee 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -143,6 +143,7 @@ class FlowSolver2d(FrozenClass):
         if 'tracer_2d' in field_metadata:
             field_metadata.pop('tracer_2d')
         self.solve_tracer = False
+        self._simulation_continued = False
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
 
@@ -866,6 +867,7 @@ class FlowSolver2d(FrozenClass):
             self.initialize()
         if outputdir is None:
             outputdir = self.options.output_directory
+        self._simulation_continued = True
         # create new ExportManager with desired outputdir
         state_fields = ['uv_2d', 'elev_2d']
         hdf5_dir = os.path.join(outputdir, 'hdf5')
@@ -1086,6 +1088,12 @@ class FlowSolver2d(FrozenClass):
                                                  append_to_log=True)
             self.add_callback(c, eval_interval='export')
 
+        if self._simulation_continued and not self.export_initial_state:
+            # continuing in the same directory: set all callbacks to append mode
+            for m in self.callbacks:
+                for k in self.callbacks[m]:
+                    self.callbacks[m][k].set_write_mode('append')
+
         initial_simulation_time = self.simulation_time
         internal_iteration = 0
 
-- 
2.43.0


From c9d11fa6c317d3cf6f6c8a59193c41fca2bf6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 04/70] fix: keep the export times when a simulation is
 continued

The first export after a restart was scheduled one export interval after
the actual time of the loaded export. If the interval is not a multiple of
the time step this time is later than the nominal one, and all further
exports were delayed with respect to the uninterrupted run. In 3D, the next
export time was not consistent with the simulation time if only the export
number was reset, in which case every time step was exported.
---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index a21f94a..3f3b44a 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1127,7 +1127,7 @@ class FlowSolver(FrozenClass):
             offset = 0
         else:
             offset = 1
-        self.next_export_t += self.options.simulation_export_time
+        self.next_export_t = self.simulation_time + self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 58a88ee..353488b 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -144,6 +144,7 @@ class FlowSolver2d(FrozenClass):
             field_metadata.pop('tracer_2d')
         self.solve_tracer = False
         self._simulation_continued = False
+        self._export_delay = 0.0  # time from nominal to actual time of a loaded export
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
 
@@ -901,6 +902,10 @@ class FlowSolver2d(FrozenClass):
             t = metadata.get('time')
             if t is None:
                 t = iteration * self.dt
+            # if the export interval is not a multiple of the time step, the loaded
+            # export took place less than one time step after its nominal time
+            delay = t - i_stored*self.options.simulation_export_time
+            self._export_delay = delay if 0.0 < delay < self.dt else 0.0
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
@@ -1039,7 +1044,8 @@ class FlowSolver2d(FrozenClass):
 
         t_epsilon = 1.0e-5
         cputimestamp = time_mod.perf_counter()
-        next_export_t = self.simulation_time + self.options.simulation_export_time
+        next_export_t = self.simulation_time - self._export_delay + self.options.simulation_export_time
+        self._export_delay = 0.0
 
         dump_hdf5 = self.options.export_diagnostics and not self.options.no_exports
         if self.options.check_volume_conservation_2d:
-- 
2.43.0


From f1b4e8fedc2d080571ae1b4ed2276bfa0cc6b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 05/70] fix: do not count an extra time step when continuing
 due to round-off

---
 thetis/solver.py   | 3 ++-
 thetis/solver2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 3f3b44a..fbeaedb 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1103,7 +1103,8 @@ class FlowSolver(FrozenClass):
         self.i_export = i_export
         self.next_export_t = self.i_export*self.options.simulation_export_time
         if iteration is None:
-            iteration = int(numpy.ceil(self.next_export_t/self.dt))
+            # discard round-off errors in the number of time steps
+            iteration = int(numpy.ceil(round(self.next_export_t/self.dt, 6)))
         if t is None:
             # prefer metadata time if available
             t = metadata.get('time')
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 353488b..a45dfba 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -896,7 +896,8 @@ class FlowSolver2d(FrozenClass):
         self.i_export = i_export
         self.next_export_t = self.i_export*self.options.simulation_export_time
         if iteration is None:
-            iteration = int(numpy.ceil(self.next_export_t/self.dt))
+            # discard round-off errors in the number of time steps
+            iteration = int(numpy.ceil(round(self.next_export_t/self.dt, 6)))
         if t is None:
             # prefer metadata time if available
             t = metadata.get('time')
-- 
2.43.0


From 6e847df8765bbfdc031eb316ff6a74bf918d0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 06/70] fix: number the first VTK export as requested

---
 thetis/exporter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..0ad9fc0 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -91,6 +91,7 @@ class VTKExporter(ExporterBase):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
+        self.set_next_export_ix(next_export_ix)
         self.cast_operators = {}
 
     def set_next_export_ix(self, next_export_ix):
-- 
2.43.0


From 063fde940b27a0af93341ad42cf734fb0c42f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 07/70] fix: do not share export pre-processors between export
 managers

---
 thetis/exporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 0ad9fc0..65a0fbd 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -263,7 +263,7 @@ class ExportManager(object):
     def __init__(self, outputdir, fields_to_export, functions, field_metadata,
                  export_type='vtk', next_export_ix=0, verbose=False,
                  legacy_mode=False,
-                 preproc_funcs={},
+                 preproc_funcs=None,
                  include_time=False, initial_time=None):
         """
         :arg string outputdir: directory where files are stored
@@ -284,7 +284,7 @@ class ExportManager(object):
         self.functions.update(functions)
         self.field_metadata = field_metadata
         self.verbose = verbose
-        self.preproc_callbacks = preproc_funcs
+        self.preproc_callbacks = preproc_funcs if preproc_funcs is not None else {}
         self.include_time = include_time
         self.initial_time = initial_time
         # for each field create an exporter
-- 
2.43.0


From 3d4d4ad6532350036c84f25d3e54925fbd2b3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 08/70] fix: append the pvd suffix only where it is missing

---
 thetis/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 65a0fbd..a0bdd5d 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -87,7 +87,7 @@ class VTKExporter(ExporterBase):
         suffix = '.pvd'
         path = os.path.join(outputdir, filename)
         # append suffix if missing
-        if (len(filename) < len(suffix)+1 or filename[:len(suffix)] != suffix):
+        if (len(filename) < len(suffix)+1 or filename[-len(suffix):] != suffix):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
-- 
2.43.0


From 8fc2526b2d20038dcc0ed421d19dd226cc6a620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 09/70] fix: load state files of 3D fields on meshes read from
 a checkpoint

---
 thetis/exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index a0bdd5d..2b331c1 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -223,7 +223,9 @@ class HDF5Exporter(ExporterBase):
         else:
             with CheckpointFile(filename, 'r') as f:
                 mesh = function.function_space().mesh()
-                if not hasattr(mesh, 'sfXC'):
+                # extruded meshes are built on a 2D mesh that was read from checkpoint
+                base_mesh = mesh._base_mesh if mesh.extruded else mesh
+                if not hasattr(base_mesh, 'sfXC'):
                     raise IOError('When loading fields from hdf5 checkpoint files, you should also read the mesh from checkpoint. See the documentation for `read_mesh_from_checkpoint()`')
                 g = f.load_function(mesh, function.name())
                 function.assign(g)
-- 
2.43.0


From 09913822122b17ea9099b890c5be0aef0b16af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 10/70] fix: respect a zero start or end time of a diagnostic

---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 02574b0..0d9bd0c 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -201,8 +201,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = start_time if start_time is not None else -numpy.inf
+        self.end_time = end_time if end_time is not None else numpy.inf
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From 79d231ef9617dabb1d086635b240cb6676f72ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 11/70] fix: use the standard offset of pytz zones for daily
 files

---
 thetis/interpolation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 8c6b924..68420ab 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -703,7 +703,12 @@ class DailyFileTimeSearch(TimeSearch):
         for fn in all_files:
             d = self._parse_date(fn)
             timestamp = datetime.datetime(d['year'], d['month'], d['day'],
-                                          center_hour, tzinfo=center_timezone)
+                                          center_hour)
+            if hasattr(center_timezone, 'localize'):
+                # pytz zones must not be passed as tzinfo
+                timestamp = center_timezone.localize(timestamp)
+            else:
+                timestamp = timestamp.replace(tzinfo=center_timezone)
             dates.append(timestamp)
         sort_ix = numpy.argsort(dates)
         self.files = numpy.array(all_files)[sort_ix]
-- 
2.43.0


From 0414269f7dda581e2637b99e9ed674cd9089c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 12/70] fix: transform integer coordinate arrays without
 truncation

---
 thetis/coordsys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/coordsys.py b/thetis/coordsys.py
index 8729dad..9692c1b 100644
--- a/thetis/coordsys.py
+++ b/thetis/coordsys.py
@@ -46,8 +46,8 @@ def proj_transform(x, y, trans):
         assert x_is_array and y_is_array, 'both x and y must be numpy arrays'
         assert x.shape == y.shape, 'x and y must have same shape'
         # transform only non-nan entries as proj behavior can be erratic
-        a = numpy.full_like(x, numpy.nan)
-        b = numpy.full_like(y, numpy.nan)
+        a = numpy.full_like(x, numpy.nan, dtype=float)
+        b = numpy.full_like(y, numpy.nan, dtype=float)
         good_ix = numpy.logical_and(numpy.isfinite(x), numpy.isfinite(y))
         a[good_ix], b[good_ix] = trans.transform(x[good_ix], y[good_ix])
     else:
-- 
2.43.0


From 0c8f7549eb796588f6d5a0c8290dc409bda6fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 13/70] fix: interpolate at locations on the edges of source
 triangles

---
 thetis/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 68420ab..541ed6e 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -200,7 +200,8 @@ class GridInterpolator(object):
             self.vtx = vertices
             self.wts = numpy.hstack((bary, 1 - bary.sum(axis=1, keepdims=True)))
             self.outside = numpy.any(~numpy.isfinite(self.wts), axis=1)
-            self.outside += numpy.any(self.wts < 0, axis=1)
+            # NOTE weights may be slightly negative on triangle edges (round-off)
+            self.outside += simplex < 0
             self.outside = numpy.nonzero(self.outside)[0]
             self.fill_nearest *= len(self.outside) > 0
             if self.fill_nearest:
-- 
2.43.0


From 94a8393581cfdc9f58ff2f5feb57112c9e102fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 14/70] fix: read forcing files that have no masked values

---
 thetis/forcing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index fefce4c..3329a1d 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -312,7 +312,8 @@ class SpatialInterpolatorNCOMBase(interpolation.SpatialInterpolator):
         assert varkey is not None, 'Could not find variable in file'
         vals = ncfile[varkey][:]  # shape (nz, lat, lon) or (lat, lon)
         is3d = len(vals.shape) == 3
-        land_mask = numpy.all(vals.mask, axis=0) if is3d else vals.mask
+        mask = numpy.ma.getmaskarray(vals)  # also if no value is masked
+        land_mask = numpy.all(mask, axis=0) if is3d else mask
 
         # build 2d mask
         mask_good_values = ~land_mask
@@ -405,7 +406,7 @@ class SpatialInterpolatorNCOM3d(SpatialInterpolatorNCOMBase):
 
         # find 3d mask where data is not defined
         vals = vals[:, self.ind_lat, self.ind_lon]
-        self.good_mask_3d = ~vals.mask
+        self.good_mask_3d = ~numpy.ma.getmaskarray(vals)
 
         # construct vertical grid
         zm = self._get_forcing_grid('model_zm.nc', 'zm')
@@ -834,7 +835,7 @@ class GenericSpatialInterpolator2D(interpolation.SpatialInterpolator2d):
         for name, var in ncfile.variables.items():
             if len(var.shape) == 3:
                 v = var[0, ...]  # read first time index
-                self.valid_mask = ~v.mask
+                self.valid_mask = ~numpy.ma.getmaskarray(v)
                 break
         assert self.valid_mask is not None, 'could not determine mask'
         assert self.valid_mask.shape == lat.shape, 'mask has wrong shape {self.mask.shape} {lat.shape}'
-- 
2.43.0


From 5ec0ed3f632b5a58b166e88162528d7a857afc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 15/70] fix: read the time of WRF/NAM atmospheric data from the
 variable 'time'

---
 thetis/forcing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index 3329a1d..d945e0c 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -267,7 +267,7 @@ class ATMInterpolator(AtmosphericForcingInterpolator):
                          ncfile, init_date,
                          vect_rotator,
                          east_wind_var_name="uwind", north_wind_var_name="vwind",
-                         pressure_var_name="prmsl",
+                         pressure_var_name="prmsl", time_var_name="time",
                          temporal_interpolator=ATMNetCDFTime,
                          fill_mode=fill_mode, fill_value=fill_value,
                          verbose=verbose)
-- 
2.43.0


From 5fae3cb7cfb56a1ada58ad2f064d257716122f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 16/70] fix: number options hold the validated value, e.g. 2
 instead of 2.0 for an integer

---
 thetis/configuration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index f78b86e..fc163ed 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -77,7 +77,7 @@ class PositiveInteger(traitlets.Integer):
         return u'a positive integer'
 
     def validate(self, obj, proposal):
-        super(PositiveInteger, self).validate(obj, proposal)
+        proposal = super(PositiveInteger, self).validate(obj, proposal)
         assert proposal > 0, self.error(obj, proposal)
         return proposal
 
@@ -87,7 +87,7 @@ class PositiveFloat(traitlets.Float):
         return u'a positive float'
 
     def validate(self, obj, proposal):
-        super(PositiveFloat, self).validate(obj, proposal)
+        proposal = super(PositiveFloat, self).validate(obj, proposal)
         assert proposal > 0.0, self.error(obj, proposal)
         return proposal
 
@@ -97,7 +97,7 @@ class NonNegativeInteger(traitlets.Integer):
         return u'a non-negative integer'
 
     def validate(self, obj, proposal):
-        super(NonNegativeInteger, self).validate(obj, proposal)
+        proposal = super(NonNegativeInteger, self).validate(obj, proposal)
         assert proposal >= 0, self.error(obj, proposal)
         return proposal
 
@@ -107,7 +107,7 @@ class NonNegativeFloat(traitlets.Float):
         return u'a non-negative float'
 
     def validate(self, obj, proposal):
-        super(NonNegativeFloat, self).validate(obj, proposal)
+        proposal = super(NonNegativeFloat, self).validate(obj, proposal)
         assert proposal >= 0.0, self.error(obj, proposal)
         return proposal
 
@@ -122,7 +122,7 @@ class BoundedInteger(traitlets.Integer):
         return u'an integer between {:} and {:}'.format(self.minval, self.maxval)
 
     def validate(self, obj, proposal):
-        super(BoundedInteger, self).validate(obj, proposal)
+        proposal = super(BoundedInteger, self).validate(obj, proposal)
         assert proposal >= self.minval, self.error(obj, proposal)
         assert proposal <= self.maxval, self.error(obj, proposal)
         return proposal
@@ -138,7 +138,7 @@ class BoundedFloat(traitlets.Float):
         return u'a float between {:} and {:}'.format(self.minval, self.maxval)
 
     def validate(self, obj, proposal):
-        super(BoundedFloat, self).validate(obj, proposal)
+        proposal = super(BoundedFloat, self).validate(obj, proposal)
         assert proposal >= self.minval, self.error(obj, proposal)
         assert proposal <= self.maxval, self.error(obj, proposal)
         return proposal
-- 
2.43.0


From c6622ee35239ac50cb2273f90c63705fc98ef650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 17/70] fix: vector options no longer accept tensor expressions

---
 thetis/configuration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index fc163ed..5072cad 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -195,8 +195,7 @@ class FiredrakeVectorExpression(traitlets.TraitType):
     info_text = 'a vector UFL expression'
 
     def validate(self, obj, value):
-        if (isinstance(value, ufl.core.expr.Expr)
-                and not ufl.checks.is_ufl_scalar(value)):
+        if isinstance(value, ufl.core.expr.Expr) and len(value.ufl_shape) == 1:
             return value
         self.error(obj, value)
 
-- 
2.43.0


From 28ae2ae5a3fa47c54de173a2a8517125e92bfdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 18/70] fix: paired options given together with their type were
 reset by update() and the constructor, depending on the order

---
 thetis/configuration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index 5072cad..0a59f63 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -270,7 +270,8 @@ class OptionsBase:
         else:
             assert isinstance(options, traitlets.HasTraits), 'options must be a dict or HasTraits object'
             params_dict = options._trait_values
-        for key in params_dict:
+        # assigning a PairedEnum resets its paired options so it must be done first
+        for key in sorted(params_dict, key=lambda key: not isinstance(self.traits().get(key), PairedEnum)):
             self.__setattr__(key, params_dict[key])
 
     def __str__(self):
@@ -300,7 +301,9 @@ class FrozenHasTraits(OptionsBase, traitlets.HasTraits):
     _unfreezedepth = 0
 
     def __init__(self, *args, **kwargs):
+        options = {key: kwargs.pop(key) for key in self.trait_names() if key in kwargs}
         super(FrozenHasTraits, self).__init__(*args, **kwargs)
+        self.update(options)
         self._isfrozen = True
 
     def __setattr__(self, key, value):
@@ -320,7 +323,9 @@ class FrozenConfigurable(OptionsBase, Configurable):
     _isfrozen = False
 
     def __init__(self, *args, **kwargs):
+        options = {key: kwargs.pop(key) for key in self.trait_names(config=True) if key in kwargs}
         super(FrozenConfigurable, self).__init__(*args, **kwargs)
+        self.update(options)
         self._isfrozen = True
 
     def __setattr__(self, key, value):
-- 
2.43.0


From 5d92d04aedba5508ca8b4f138ca0980f16409279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 19/70] fix: nested default PETSc solver options were shared by
 all models

---
 thetis/configuration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index 0a59f63..bca7de9 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -1,6 +1,7 @@
 """
 Utility function and extensions to traitlets used for specifying Thetis options
 """
+import copy
 import textwrap
 import traitlets
 from textwrap import dedent
@@ -221,6 +222,10 @@ class PETScSolverParameters(traitlets.Dict):
     """PETSc solver options dictionary"""
     info_text = 'a PETSc solver options dictionary'
 
+    def make_dynamic_default(self):
+        # do not share nested dictionaries between instances
+        return copy.deepcopy(super().make_dynamic_default())
+
     def validate(self, obj, value):
         if isinstance(value, dict):
             return value
-- 
2.43.0


From 72a1db8be8ff687a6aebd82c2f8b0a3e678ea86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 20/70] fix: component options of the 3D time integrators were
 shared by all models

---
 thetis/options.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 3cf395a..58b371b 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -265,16 +265,16 @@ class ImplicitTracerTimeStepperOptions3d(TimeStepperOptions3d):
 class SSPRKTimeStepperOptions3d(TimeStepperOptions3d):
     """Options for 3d SSPRK coupled time integrator"""
     use_automatic_timestep = Bool(True, help='Set time step automatically based on local CFL conditions.').tag(config=True)
-    swe_options = SWETimeStepperOptions3d()
-    implicit_momentum_options = ImplicitMomentumTimeStepperOptions3d()
-    explicit_momentum_options = ExplicitMomentumTimeStepperOptions3d()
-    implicit_tracer_options = ImplicitTracerTimeStepperOptions3d()
-    explicit_tracer_options = ExplicitTracerTimeStepperOptions3d()
+    swe_options = Instance(SWETimeStepperOptions3d, args=()).tag(config=True)
+    implicit_momentum_options = Instance(ImplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_momentum_options = Instance(ExplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    implicit_tracer_options = Instance(ImplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_tracer_options = Instance(ExplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
 
 
 class LeapFrogTimeStepperOptions3d(SSPRKTimeStepperOptions3d):
     """Options for 3d LeapFrog coupled time integrator"""
-    swe_options = ImplicitSWETimeStepperOptions3d()
+    swe_options = Instance(ImplicitSWETimeStepperOptions3d, args=()).tag(config=True)
 
 
 class TurbulenceModelOptions(FrozenHasTraits):
-- 
2.43.0


From 69a28b539739aa35de1fe62add9b3b967ffe49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 21/70] fix: unfrozen left the object unfrozen if the method
 failed

---
 thetis/utility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..8567236 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -49,10 +49,11 @@ def unfrozen(method):
     def wrapper(self, *args, **kwargs):
         self._isfrozen = False
         self._unfreezedepth += 1
-        ret = method(self, *args, **kwargs)
-        self._unfreezedepth -= 1
-        self._isfrozen = self._unfreezedepth == 0
-        return ret
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._unfreezedepth -= 1
+            self._isfrozen = self._unfreezedepth == 0
 
     return wrapper
 
-- 
2.43.0


From 568693dca2ccfff23b4686fba96818bd9e269490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 22/70] fix: a tracer whose options are refused was added
 nevertheless

---
 thetis/options.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 58b371b..0eb9cba 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -973,17 +973,18 @@ class ModelOptions2d(CommonModelOptions):
         assert ' ' not in label, "Labels cannot contain spaces"
         assert ',' not in label, "Labels cannot contain commas"
         assert ' ' not in filename, "Filenames cannot contain spaces"
-        self.tracer[label] = TracerFieldOptions()
-        self.tracer[label].metadata = {
+        tracer = TracerFieldOptions()
+        tracer.metadata = {
             'name': name,
             'shortname': shortname or name,
             'unit': unit,
             'filename': filename,
         }
-        self.tracer[label].function = kwargs.get('function')
-        self.tracer[label].source = kwargs.get('source')
-        self.tracer[label].diffusivity = kwargs.get('diffusivity')
-        self.tracer[label].use_conservative_form = kwargs.get('use_conservative_form', False)
+        tracer.function = kwargs.get('function')
+        tracer.source = kwargs.get('source')
+        tracer.diffusivity = kwargs.get('diffusivity')
+        tracer.use_conservative_form = kwargs.get('use_conservative_form', False)
+        self.tracer[label] = tracer
         if not kwargs.get('mixed', False):
             self.tracer_fields[label] = self.tracer[label].function
 
-- 
2.43.0


From 7836d19329717096472adeef62b3f25234654936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 23/70] fix: add_tracer_system_2d failed if options were given
 for some tracers only and modified the caller's dictionaries

---
 thetis/options.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 0eb9cba..fc85271 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -1006,17 +1006,14 @@ class ModelOptions2d(CommonModelOptions):
         shortnames = shortnames or names
         units = units or ['-']*N
         assert len(names) == len(filenames) == len(shortnames) == len(units) == N
-        if kwargs == {}:
-            kwargs = {label: {} for label in labels}
         assert set(kwargs.keys()).issubset(set(labels))
-        for label in labels:
-            kwargs[label]['mixed'] = True
-        self.tracer_fields[','.join(labels)] = function
+        kwargs = {label: dict(kwargs.get(label, {}), mixed=True) for label in labels}
         if function is not None:
             for label, child in zip(labels, function.subfunctions):
                 kwargs[label]['function'] = child
         for label, name, filename, shortname, unit in zip(labels, names, filenames, shortnames, units):
             self.add_tracer_2d(label, name, filename, shortname=shortname, unit=unit, **kwargs[label])
+        self.tracer_fields[','.join(labels)] = function
 
     def set_timestepper_type(self, timestepper_type, **kwargs):
         """
-- 
2.43.0


From c0f26a446ba8c1cc415834ff42dd83a73eb827b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 24/70] fix: tracers were lost when options were loaded from
 another options object

---
 thetis/options.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thetis/options.py b/thetis/options.py
index fc85271..45ea4c6 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -948,6 +948,12 @@ class ModelOptions2d(CommonModelOptions):
         self.tracer_fields = OrderedDict()
         super().__init__(*args, **kwargs)
 
+    def update(self, options):
+        super().update(options)
+        if isinstance(options, ModelOptions2d):
+            self.tracer.update(options.tracer)
+            self.tracer_fields.update(options.tracer_fields)
+
     def add_tracer_2d(self, label, name, filename, shortname=None, unit='-', **kwargs):
         """
         Add a 2D tracer field to :attr:`tracer`.
-- 
2.43.0


From 8a8bc150703397b4684f672a7188f8b8305ae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 25/70] fix: default Constants of options were shared by all
 models

---
 thetis/configuration.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index bca7de9..c2e309a 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -145,7 +145,16 @@ class BoundedFloat(traitlets.Float):
         return proposal
 
 
-class FiredrakeConstantTraitlet(traitlets.TraitType):
+class FiredrakeTraitlet(traitlets.TraitType):
+    """Base class of traitlets whose value is a Firedrake object"""
+    def default(self, obj=None):
+        # do not share the default Constant between instances
+        if isinstance(self.default_value, Constant):
+            return Constant(self.default_value)
+        return super().default(obj)
+
+
+class FiredrakeConstantTraitlet(FiredrakeTraitlet):
     default_value = None
     info_text = 'a Firedrake Constant'
 
@@ -158,7 +167,7 @@ class FiredrakeConstantTraitlet(traitlets.TraitType):
         return 'Constant({:})'.format(float(self.default_value))
 
 
-class FiredrakeCoefficient(traitlets.TraitType):
+class FiredrakeCoefficient(FiredrakeTraitlet):
     default_value = None
     info_text = 'a Firedrake Constant or Function'
 
@@ -173,7 +182,7 @@ class FiredrakeCoefficient(traitlets.TraitType):
         return 'Function'
 
 
-class FiredrakeScalarExpression(traitlets.TraitType):
+class FiredrakeScalarExpression(FiredrakeTraitlet):
     default_value = None
     info_text = 'a scalar UFL expression'
 
@@ -191,7 +200,7 @@ class FiredrakeScalarExpression(traitlets.TraitType):
         return 'UFL scalar expression'
 
 
-class FiredrakeVectorExpression(traitlets.TraitType):
+class FiredrakeVectorExpression(FiredrakeTraitlet):
     default_value = None
     info_text = 'a vector UFL expression'
 
-- 
2.43.0


From 08d74f1ffeaf28fe960d5fb2c21e20b4ed90f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 26/70] fix: keep the existing log when appending to it is
 requested

---
 thetis/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/log.py b/thetis/log.py
index e4e06dc..76f8331 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -136,7 +136,7 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
     create_directory(output_directory)
     if comm.rank == 0:
         buffer_content = thetis_log_config.mem_buffer.getvalue()
-        with open(logfile, 'w') as f:
+        with open(logfile, 'a') as f:
             f.write(buffer_content)
     rm_buf_handlers()
     thetis_log_config.filename = logfile
-- 
2.43.0


From aa3f62b7a8e76953dc55464461f985d15efda1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 27/70] fix: early messages were written again to every later
 log file

---
 thetis/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thetis/log.py b/thetis/log.py
index 76f8331..25b5a88 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -138,6 +138,8 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
         buffer_content = thetis_log_config.mem_buffer.getvalue()
         with open(logfile, 'a') as f:
             f.write(buffer_content)
+    # the messages are now on disk and must not be copied to another log
+    thetis_log_config.mem_buffer = io.StringIO()
     rm_buf_handlers()
     thetis_log_config.filename = logfile
     assign_file_handler(logfile)
-- 
2.43.0


From 8ffea48b82fff7862316efc2958c559d951a9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 28/70] fix: messages were no longer logged after
 set_log_directory failed

---
 thetis/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/log.py b/thetis/log.py
index 25b5a88..cf06c6d 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -125,6 +125,7 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
     if thetis_log_config.filename == logfile:
         # no change
         return
+    create_directory(output_directory)
     different_file = thetis_log_config.filename is not None
     if different_file:
         old_file = str(thetis_log_config.filename)
@@ -133,7 +134,6 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
         # silently remove previous log
         if comm.rank == 0:
             os.remove(logfile)
-    create_directory(output_directory)
     if comm.rank == 0:
         buffer_content = thetis_log_config.mem_buffer.getvalue()
         with open(logfile, 'a') as f:
-- 
2.43.0


From d72cfb80e05c3f6a05ab72c0a6a7bff5f8961b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 29/70] fix: log handlers were skipped when they are removed,
 so that messages were lost or duplicated

---
 thetis/log.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thetis/log.py b/thetis/log.py
index cf06c6d..c158ca3 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -64,12 +64,13 @@ def set_thetis_loggers(comm=COMM_WORLD):
     for name, fmt in logger_format.items():
         logger = logging.getLogger(name)
         logger.propagate = False
-        for handler in logger.handlers:
-            if isinstance(handler, logging.StreamHandler):
+        for handler in logger.handlers[:]:
+            if isinstance(handler, logging.StreamHandler) and not isinstance(handler, logging.FileHandler):
                 logger.removeHandler(handler)
 
         add_stream_handler()
-        add_stream_handler(buffered=True)
+        if thetis_log_config.filename is None:
+            add_stream_handler(buffered=True)
 
 
 def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
@@ -100,7 +101,7 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
     def rm_handlers(cls=logging.FileHandler):
         for name in logger_format:
             logger = logging.getLogger(name)
-            for handler in logger.handlers:
+            for handler in logger.handlers[:]:
                 if isinstance(handler, cls):
                     logger.removeHandler(handler)
 
-- 
2.43.0


From b26fc98f8520625c1cc4e2b2a974b2918824a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 30/70] fix: the 3D model logged every message twice and
 overwrote the log of its set-up

---
 thetis/solver.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index fbeaedb..d0e679d 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -654,13 +654,6 @@ class FlowSolver(FrozenClass):
         if 'uv_3d' not in self.fields:
             self.create_fields()
 
-        if self.options.log_output and not self.options.no_exports:
-            logfile = os.path.join(create_directory(self.options.output_directory), 'log')
-            mode = "a" if self.keep_log else "w"
-            filehandler = logging.logging.FileHandler(logfile, mode=mode)
-            filehandler.setFormatter(logging.logging.Formatter('%(message)s'))
-            output_logger.addHandler(filehandler)
-
         self.depth = DepthExpression(self.fields.bathymetry_2d,
                                      use_nonlinear_equations=self.options.use_nonlinear_equations)
 
-- 
2.43.0


From fb32135039f8be93c17f60cb8049a77551c32be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 31/70] fix: DIRK schemes with leading zero coefficients lost
 the implicit part of the stage

In a non-mixed function space the stage expression is the Function of the old
solution itself as long as the coefficients are zero, and += changed that
Function instead of building an expression: ESDIRKMidpoint and IMEXMidpoint
evaluated the implicit stage explicitly.
---
 thetis/rungekutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 85f58c2..98c157b 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -497,7 +497,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     if j == 0:
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
-                        u += self.a[i][j]*self.dt_const*self.k[j]
+                        # NOTE not in-place: u is u_old itself if the coefficients so far are zero
+                        u = u + self.a[i][j]*self.dt_const*self.k[j]
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         else:
-- 
2.43.0


From 31fb86437e374963210b25ac5c232916045e3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 32/70] fix: explicit and IMEX Runge-Kutta schemes discarded
 changes of the solution between steps

---
 thetis/rungekutta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 98c157b..9e906cf 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -834,6 +834,9 @@ class ERKGeneric(RungeKuttaTimeIntegrator):
         will add to it.
         """
         if not additive:
+            if i_stage == 0:
+                # NOTE solution may have changed in coupled system
+                self.solution_old.assign(self.solution)
             self.solution.assign(self.solution_old)
         if self._nontrivial and i_stage > 0:
             self.solution += self.sol_expressions[i_stage]
-- 
2.43.0


From 52f91d5ad6def7c3b81f8c458b636c4b6d88a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 33/70] fix: PressureProjectionPicard ignored
 solver_parameters_pressure

---
 thetis/timeintegrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 8c5b14b..60406a1 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -329,6 +329,7 @@ class PressureProjectionPicard(TimeIntegrator):
         theta = options.implicitness_theta
         semi_implicit = options.use_semi_implicit_linearization
         solver_parameters = options.solver_parameters_pressure
+        self.solver_parameters = solver_parameters
         solver_parameters_mom = options.solver_parameters_momentum
         iterations = options.picard_iterations
 
-- 
2.43.0


From 11d3df63880a4e2d11b8b5af42810e72a5dd086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 34/70] fix: non-hydrostatic model could not be set up without
 update_free_surface

---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0


From 12b9e75073b7050748cc430fd900f5255cef2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 35/70] fix: tracers and sediment could not be combined in one
 2D model

---
 thetis/solver2d.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index a45dfba..34eb440 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -682,17 +682,11 @@ class FlowSolver2d(FrozenClass):
                 weakref.proxy(self), steppers[self.options.swe_timestepper_type],
                 steppers[self.options.nh_model_options.free_surface_timestepper_type]
             )
-        elif self.solve_tracer:
+        elif self.solve_tracer or self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
             self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
                 weakref.proxy(self), {
                     'shallow_water': steppers[self.options.swe_timestepper_type],
                     'tracer': steppers[self.options.tracer_timestepper_type],
-                },
-            )
-        elif self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
-            self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
-                weakref.proxy(self), {
-                    'shallow_water': steppers[self.options.swe_timestepper_type],
                     'sediment': steppers[self.options.sediment_model_options.sediment_timestepper_type],
                     'exner': steppers[self.options.sediment_model_options.exner_timestepper_type],
                 },
-- 
2.43.0


From e0d27241d9f21b65567e11e78738768663965c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 36/70] fix: 2D tracers with the limiter crashed when
 polynomial_degree is 0

---
 thetis/solver2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 34eb440..a943c16 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -535,7 +535,8 @@ class FlowSolver2d(FrozenClass):
 
         # Setup slope limiters
         if self.solve_tracer or sediment_options.solve_suspended_sediment:
-            if self.options.use_limiter_for_tracers and self.options.polynomial_degree > 0:
+            # NOTE tracers are piecewise linear whatever the polynomial degree of the flow
+            if self.options.use_limiter_for_tracers:
                 self.tracer_limiter = limiter.VertexBasedP1DGLimiter(self.function_spaces.Q_2d)
             else:
                 self.tracer_limiter = None
-- 
2.43.0


From c33a973caf8dba808d101411efc5ab448e2c2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 37/70] fix: bedload-only sediment models crashed with the
 default velocity correction option

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..f688dd5 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -413,5 +413,5 @@ class SedimentModel(object):
                 # slope effect angle correction due to gravity
                 self.stress.interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
-        if self.use_advective_velocity_correction:
+        if self.solve_suspended_sediment and self.use_advective_velocity_correction:
             self.correction_factor_model.update()
-- 
2.43.0


From e29a7fed4d93ae69a479d4cdf007fe81852a6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 38/70] fix: limiter raised TypeError instead of AssertionError
 for unsuitable function spaces

---
 thetis/limiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index f1cdd80..899dcf1 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -30,9 +30,9 @@ def assert_function_space(fs, family, degree):
         # extruded mesh
         A, B = ufl_elem.factor_elements
         assert A.family() in fam_list, \
-            'horizontal space must be one of {0:s}'.format(fam_list)
+            'horizontal space must be one of {0:}'.format(fam_list)
         assert B.family() in fam_list, \
-            'vertical space must be {0:s}'.format(fam_list)
+            'vertical space must be {0:}'.format(fam_list)
         assert A.degree() == degree, \
             'degree of horizontal space must be {0:d}'.format(degree)
         assert B.degree() == degree, \
@@ -40,7 +40,7 @@ def assert_function_space(fs, family, degree):
     else:
         # assume 2D mesh
         assert ufl_elem.family() in fam_list, \
-            'function space must be one of {0:s}'.format(fam_list)
+            'function space must be one of {0:}'.format(fam_list)
         assert ufl_elem.degree() == degree, \
             'degree of function space must be {0:d}'.format(degree)
 
-- 
2.43.0


From 8dc36364371943fcf8542e3089ca36a22fe1792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 39/70] fix: limiter failed on 2D meshes embedded in 3D space

---
 thetis/limiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index 899dcf1..19fba41 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -70,7 +70,7 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
         self.mesh = self.P0.mesh()
-        self.is_2d = self.mesh.geometric_dimension == 2
+        self.is_2d = self.mesh.topological_dimension == 2
         self.time_dependent_mesh = time_dependent_mesh
 
     def _construct_centroid_solver(self):
-- 
2.43.0


From 34ea6158faf311a57f3d574ec702765666897e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 40/70] fix: limiter used wrong nodes for vector valued fields

---
 thetis/limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index 19fba41..2dec7da 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -65,7 +65,8 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         assert_function_space(p1dg_space, ['Discontinuous Lagrange', 'DQ'], 1)
         self.is_vector = p1dg_space.value_size > 1
         if self.is_vector:
-            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), 'DG', 1)
+            # use the same nodes as in the vector space
+            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), p1dg_space.ufl_element().sub_elements[0])
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_scalar_space)
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
-- 
2.43.0


From c9492fff8faaa3f9cd81cc587660bd000940b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 41/70] fix: VerticalIntegrator applied the boundary value with
 the wrong sign

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 7a0137a..645771b 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -176,10 +176,10 @@ class VerticalIntegrator(object):
         self.ds_bottom = ds_bottom(degree=self.quad_degree)
 
         if bottom_to_top:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_bottom
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_bottom
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_surf
         else:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_surf
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_surf
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_bottom
 
         self.a = -inner(Dx(phi, 2), tri)*self.dx + mass_bnd_term
-- 
2.43.0


From 2111e2593b412a10ea9d63a4cc87f719d731b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 42/70] fix: baroclinic head ignored changes of the reference
 density

---
 thetis/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 8567236..da54223 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -488,7 +488,7 @@ def compute_baroclinic_head(solver):
         solver.density_solver.solve()
     with timed_stage('rho_integral'):
         solver.rho_integrator.solve()
-        solver.fields.baroc_head_3d *= -physical_constants['rho0_inv']
+        solver.fields.baroc_head_3d *= -1.0/float(physical_constants['rho0'])
     with timed_stage('int_pg_solve'):
         solver.int_pg_calculator.solve()
 
-- 
2.43.0


From 431639f5606fb6fc153cefdc0e59dfecdb093e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 43/70] fix: surface stress and atmospheric pressure ignored a
 replaced reference density

---
 thetis/momentum_eq.py     | 3 +--
 thetis/shallowwater_eq.py | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/thetis/momentum_eq.py b/thetis/momentum_eq.py
index 2bbd5d5..51113f8 100644
--- a/thetis/momentum_eq.py
+++ b/thetis/momentum_eq.py
@@ -76,7 +76,6 @@ __all__ = [
 ]
 
 g_grav = physical_constants['g_grav']
-rho_0 = physical_constants['rho0']
 
 
 class MomentumTerm(Term):
@@ -563,7 +562,7 @@ class SourceTerm(MomentumTerm):
             # wind stress
             if wind_stress is not None:
                 f -= (wind_stress[0]*self.test[0]
-                      + wind_stress[1]*self.test[1])/rho_0*self.ds_surf
+                      + wind_stress[1]*self.test[1])/physical_constants['rho0']*self.ds_surf
         if source is not None:
             f += - inner(source, self.test)*self.dx
         return -f
diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index cec728c..4f2edfe 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -200,7 +200,6 @@ __all__ = [
 ]
 
 g_grav = physical_constants['g_grav']
-rho_0 = physical_constants['rho0']
 
 
 class ShallowWaterTerm(Term):
@@ -645,7 +644,7 @@ class WindStressTerm(ShallowWaterMomentumTerm):
         total_h = self.depth.get_total_depth(eta_old)
         f = 0
         if wind_stress is not None:
-            f += dot(wind_stress, self.u_test)/total_h/rho_0*self.dx
+            f += dot(wind_stress, self.u_test)/total_h/physical_constants['rho0']*self.dx
         return f
 
 
@@ -659,7 +658,7 @@ class AtmosphericPressureTerm(ShallowWaterMomentumTerm):
         atmospheric_pressure = fields_old.get('atmospheric_pressure')
         f = 0
         if atmospheric_pressure is not None:
-            f += dot(grad(atmospheric_pressure), self.u_test)/rho_0*self.dx
+            f += dot(grad(atmospheric_pressure), self.u_test)/physical_constants['rho0']*self.dx
         return -f
 
 
-- 
2.43.0


From 6716264f4f67518a1f5895aa2c05beea788789e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 44/70] fix: turbine power and drag disagreed on the upwind
 velocity under a shear profile

---
 thetis/turbines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/turbines.py b/thetis/turbines.py
index dc96ddd..6e4b9b4 100644
--- a/thetis/turbines.py
+++ b/thetis/turbines.py
@@ -84,9 +84,9 @@ class TidalTurbine:
 
     def power(self, uv, depth):
         # ratio of discrete to upstream velocity (NOTE: should include support drag!)
-        alpha = self.velocity_correction(uv, depth)
-        A_T = pi * self.diameter**2 / 4  # power is based on true turbine diameter
         uv_eff = self.rotor_averaged_velocity(uv, depth)
+        alpha = self.velocity_correction(uv_eff, depth)
+        A_T = pi * self.diameter**2 / 4  # power is based on true turbine diameter
         uv3 = dot(uv_eff, uv_eff)**1.5 / alpha**3  # upwind cubed velocity
         C_P = self.power_coefficient(uv3**(1/3))
         # this assumes the velocity through the turbine does not change due to the support (is this correct?)
-- 
2.43.0


From 33a0df334b6a15874611e900a973707e77d484a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 45/70] fix: turbine callback integrated with the option, not
 the actual, time step

---
 thetis/turbines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thetis/turbines.py b/thetis/turbines.py
index 6e4b9b4..9494e9d 100644
--- a/thetis/turbines.py
+++ b/thetis/turbines.py
@@ -229,7 +229,6 @@ class TurbineFunctionalCallback(DiagnosticCallback):
         super().__init__(solver_obj, array_dim=nfarms, **kwargs)
 
         self.uv, eta = split(solver_obj.fields.solution_2d)
-        self.dt = solver_obj.options.timestep
         self.depth = solver_obj.fields.bathymetry_2d
 
         self.cost = [farm.number_of_turbines() for farm in self.farms]
@@ -246,13 +245,14 @@ class TurbineFunctionalCallback(DiagnosticCallback):
 
     def _evaluate_timestep(self):
         """Perform time integration and return current power and time-averaged power and profit."""
-        self.time_period = self.time_period + self.dt
+        dt = self.solver_obj.dt
+        self.time_period = self.time_period + dt
         current_power = []
         for i, farm in enumerate(self.farms):
             power = farm.power_output(self.uv, self.depth)
             current_power.append(power)
             self.instantaneous_power[i] = power
-            self.integrated_power[i] += power * self.dt
+            self.integrated_power[i] += power * dt
             self.average_power[i] = self.integrated_power[i] / self.time_period
             self.average_profit[i] = self.average_power[i] - self.break_even_wattage[i] * self.cost[i]
         return current_power, self.average_power, self.average_profit
-- 
2.43.0


From e335a8d288a13d75fa2b6ee084d42c96a48f0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 46/70] fix: turbine callback evaluated the power with the
 undisturbed depth

---
 thetis/turbines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbines.py b/thetis/turbines.py
index 9494e9d..a44a44a 100644
--- a/thetis/turbines.py
+++ b/thetis/turbines.py
@@ -229,7 +229,7 @@ class TurbineFunctionalCallback(DiagnosticCallback):
         super().__init__(solver_obj, array_dim=nfarms, **kwargs)
 
         self.uv, eta = split(solver_obj.fields.solution_2d)
-        self.depth = solver_obj.fields.bathymetry_2d
+        self.depth = solver_obj.depth.get_total_depth(eta)
 
         self.cost = [farm.number_of_turbines() for farm in self.farms]
         if self.append_to_log:
-- 
2.43.0


From 23f690d1bec8d0dfa16ced96c69f571a793c5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 47/70] fix: number of turbines of a farm of constant density
 could not be evaluated

---
 thetis/solver2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index a943c16..24f7579 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -472,7 +472,7 @@ class FlowSolver2d(FrozenClass):
                                 "[farm_options]"
                     raise TypeError(error_msg)
                 for farm_options in farm_options_list:
-                    fdx = dx(subdomain, degree=quad_degree)
+                    fdx = dx(subdomain, domain=self.mesh2d, degree=quad_degree)
                     self.tidal_farms.append(TidalTurbineFarm(farm_options.turbine_density, fdx, farm_options))
             for subdomain, farm_options_list in self.options.discrete_tidal_turbine_farms.items():
                 if not isinstance(farm_options_list, list):
@@ -481,7 +481,7 @@ class FlowSolver2d(FrozenClass):
                                 "[farm_options]"
                     raise TypeError(error_msg)
                 for farm_options in farm_options_list:
-                    fdx = dx(subdomain, degree=farm_options.quadrature_degree)
+                    fdx = dx(subdomain, domain=self.mesh2d, degree=farm_options.quadrature_degree)
                     self.tidal_farms.append(DiscreteTidalTurbineFarm(self.mesh2d, fdx, farm_options))
         else:
             self.tidal_farms = None
-- 
2.43.0


From 08bf606e3aee54e5079b36de5a41d73eadc57fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 48/70] fix: SUPG stabilisation failed for monolithic tracer
 systems

---
 thetis/tracer_eq_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 02464c7..30ac215 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -492,10 +492,10 @@ class TracerEquation2D(Equation):
         Apply SUPG stabilization in the sense of modifying the test function.
         """
         unorm = self.options.horizontal_velocity_scale
-        self.cellsize = anisotropic_cell_size(self.function_space.mesh())
+        self.cellsize = anisotropic_cell_size(self.function_space[0].mesh())
         tau = 0.5*self.cellsize/unorm
         D = self.options.horizontal_diffusivity_scale
         Pe = 0.5*unorm*self.cellsize/D
         tau = conditional(D > 0, min_value(tau, Pe/3), tau)
-        inc = tau*dot(self.velocity, grad(self.test))
+        inc = tau*dot(self.velocity, grad(test_function))
         return test_function + conditional(unorm > 0, inc, 0)
-- 
2.43.0


From d90681e8a7ff0b9e78f111e6348088477db9bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 49/70] fix: tracer boundary velocity from 'un' ignored the
 advective velocity factor

---
 thetis/tracer_eq_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 30ac215..a62d59c 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -108,7 +108,7 @@ class TracerTerm(Term):
             area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = self.corr_factor * funcs['flux']/area*self.normal
         elif 'un' in funcs:
-            uv_ext = funcs['un']*self.normal
+            uv_ext = self.corr_factor * funcs['un']*self.normal
         else:
             uv_ext = uv_in
 
-- 
2.43.0


From c12e10eacc52074d7613985944584cb8d461d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 50/70] fix: invalid boundary tags were accepted after a valid
 one

---
 thetis/shallowwater_eq.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index 4f2edfe..789659c 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -290,9 +290,7 @@ class ShallowWaterTerm(Term):
             if k not in all_tags:
                 raise Exception(f'Invalid boundary tag "{k}" '
                                 f'specified on boundary {bnd_id}')
-            if k in open_tags:
-                return True
-        return False
+        return any(k in open_tags for k in bnd_funcs)
 
 
 class ShallowWaterMomentumTerm(ShallowWaterTerm):
-- 
2.43.0


From 18a3301bd623359007490bada7910af584f0150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 51/70] fix: PressureProjectionPicard ignored the volume source

---
 thetis/timeintegrator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 60406a1..9733d53 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -419,6 +419,13 @@ class PressureProjectionPicard(TimeIntegrator):
                     - theta_const*term.residual(self.uv_star, eta_lagged, uv_star_nl, eta_lagged, self.fields, self.fields, bnd_conditions)
                     - (1-theta_const)*term.residual(uv_old, eta_old, uv_old, eta_old, self.fields_old, self.fields_old, bnd_conditions)
                 )
+        # add sources of the continuity eqn.: those of the mom. eqn. are in u^*
+        for key, term in self.equation.terms.items():
+            if self.equation.labels[key] == 'source' and key not in self.equation_mom.terms:
+                self.F += -self.dt_const*(
+                    theta_const*term.residual(uv_lagged, eta_lagged, uv_lagged, eta_lagged, self.fields, self.fields, bnd_conditions)
+                    + (1-theta_const)*term.residual(uv_old, eta_old, uv_old, eta_old, self.fields_old, self.fields_old, bnd_conditions)
+                )
 
         self.update_solver()
 
-- 
2.43.0


From 0469f5a1799777682408b2abf98f346fcead38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 52/70] fix: PressureProjectionPicard lost volume with wetting
 and drying

---
 thetis/timeintegrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 9733d53..b4b2aa7 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -404,6 +404,7 @@ class PressureProjectionPicard(TimeIntegrator):
         # where u^* is the velocity solved for in the mom. eqn., and G eta_lagged the gradient term in that eqn.
         uv_test, eta_test = split(self.equation.test)
         mass_term_star = inner(uv_test, self.uv_star)*dx + inner(eta_test, eta_old)*dx
+        mass_term_star += -self.equation.bathymetry_displacement_mass_term.residual(self.solution_old)
         self.F = (
             self.equation.mass_term(self.solution) - mass_term_star
             - self.dt_const*(
-- 
2.43.0


From 53a9e2d5e5cf24d82ede5339a2c6f637ac3b3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 53/70] fix: constant tracers changed with continuous elements
 in a discontinuous flow and with SUPG

---
 thetis/tracer_eq_2d.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index a62d59c..d934ea8 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -159,16 +159,18 @@ class HorizontalAdvectionTerm(TracerTerm):
         f += -(Dx(uv[0] * self.test, 0) * c
                + Dx(uv[1] * self.test, 1) * c) * self.dx
 
+        # add interface term
+        # NOTE does not vanish for continuous tracers either, if the normal
+        # velocity or the (SUPG) test function is discontinuous
+        uv_av = avg(uv)
+        un_av = (uv_av[0]*self.normal('-')[0]
+                 + uv_av[1]*self.normal('-')[1])
+        s = 0.5*(sign(un_av) + 1.0)
+        c_up = c('-')*s + c('+')*(1-s)
+
+        f += c_up*(jump(self.test, uv[0] * self.normal[0])
+                   + jump(self.test, uv[1] * self.normal[1])) * self.dS
         if self.horizontal_dg:
-            # add interface term
-            uv_av = avg(uv)
-            un_av = (uv_av[0]*self.normal('-')[0]
-                     + uv_av[1]*self.normal('-')[1])
-            s = 0.5*(sign(un_av) + 1.0)
-            c_up = c('-')*s + c('+')*(1-s)
-
-            f += c_up*(jump(self.test, uv[0] * self.normal[0])
-                       + jump(self.test, uv[1] * self.normal[1])) * self.dS
             # Lax-Friedrichs stabilization
             if self.options.use_lax_friedrichs_tracer:
                 gamma = 0.5*abs(un_av)*lax_friedrichs_factor
-- 
2.43.0


From d7694a68aa85c69ce3b8932d849b94d8b5df3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 54/70] fix: fields given as expressions were ignored in old
 time level terms

---
 thetis/timeintegrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index b4b2aa7..c8db6e6 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -96,8 +96,8 @@ class TimeIntegrator(TimeIntegratorBase):
                 if isinstance(self.fields[k], Function):
                     self.fields_old[k] = Function(
                         self.fields[k].function_space())
-                elif isinstance(self.fields[k], Constant):
-                    # Although Constants may be changed by the user, we just
+                else:
+                    # Although Constants and expressions may be changed by the user, we just
                     # use the same value here, as assigning to domain-less Constants
                     # causes issues in the adjoint. Constants with a domain, created by Constaint(.., domain=...),
                     # are now just Functions on the Real space, so are dealt with under isinstance(..., Function)
-- 
2.43.0


From d9011797fb40ddda4561a5e1f31a664367969415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 55/70] fix: detectors could not evaluate velocities of the
 rt-dg and bdm-dg families

---
 thetis/utility.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index da54223..b42cda6 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -1176,9 +1176,10 @@ def vom_interpolator_functions(solver_obj, field_names, locations):
     for field_name in field_names:
         field = solver_obj.fields[field_name]
 
-        if isinstance(field.function_space().ufl_element(), VectorElement):
-            P0DG = VectorFunctionSpace(vom, "DG", 0)
-            P0DG_input_ordering = VectorFunctionSpace(vom.input_ordering, "DG", 0)
+        if field.ufl_shape != ():
+            dim = field.ufl_shape[0]
+            P0DG = VectorFunctionSpace(vom, "DG", 0, dim=dim)
+            P0DG_input_ordering = VectorFunctionSpace(vom.input_ordering, "DG", 0, dim=dim)
         else:
             P0DG = FunctionSpace(vom, "DG", 0)
             P0DG_input_ordering = FunctionSpace(vom.input_ordering, "DG", 0)
-- 
2.43.0


From 56ed2d1c8669231a077a446d27f17a96f875aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 56/70] fix: AccumulatorCallback integrated with
 options.timestep although evaluated at other intervals

---
 thetis/callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 0d9bd0c..fc1d21f 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -605,15 +605,17 @@ class AccumulatorCallback(DiagnosticCallback):
         kwargs.setdefault('append_to_log', False)
         super(AccumulatorCallback, self).__init__(solver_obj, **kwargs)
         self.scalar_callback = scalar_callback      # Evaluate functional
-        self.dt = solver_obj.options.timestep
         self.integrant = 0.
         self.old_value = None
+        self.old_time = None
 
     def __call__(self):
         scalar_value = self.scalar_callback()
+        time = self.solver_obj.simulation_time
         if self.old_value is not None:
-            self.integrant += 0.5 * (self.old_value + scalar_value) * self.dt
+            self.integrant += 0.5 * (self.old_value + scalar_value) * (time - self.old_time)
         self.old_value = scalar_value
+        self.old_time = time
 
         return scalar_value
 
-- 
2.43.0


From caed23b380741e51647b17979078e356aa36a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 57/70] fix: volume conservation diagnostic ignored the
 displacement of wetting and drying

---
 thetis/callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index fc1d21f..4cd3c14 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -358,8 +358,10 @@ class VolumeConservation2DCallback(ScalarConservationCallback):
         """
 
         def vol2d():
-            return comp_volume_2d(self.solver_obj.fields.elev_2d,
-                                  self.solver_obj.fields.bathymetry_2d)
+            elev_2d = self.solver_obj.fields.elev_2d
+            # water above the bed, which wetting and drying displaces
+            bed = self.solver_obj.fields.bathymetry_2d + self.solver_obj.depth.wd_bathymetry_displacement(elev_2d)
+            return comp_volume_2d(elev_2d, bed)
         super(VolumeConservation2DCallback, self).__init__(vol2d, solver_obj, **kwargs)
 
 
-- 
2.43.0


From ed488815f275259877b9a66a527ffd9f729a1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 58/70] fix: KineticEnergyCalculator discarded the interpolated
 kinetic energy

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 975dec8..722c92a 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -245,7 +245,7 @@ class KineticEnergyCalculator(DiagnosticCalculator):
             self.projector.project()
         else:
             assert hasattr(self, 'interpolator')
-            self.interpolator.assemble()
+            self.interpolator.assemble(tensor=self.ke)
 
 
 class DualWeightedResidual2D(DiagnosticCalculator):
-- 
2.43.0


From e46aaac123d6cf28aa2767646cb5ff1e71d20f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 59/70] fix: porosity given as a Function stopped the Exner
 equation from being set up

---
 thetis/exner_eq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exner_eq.py b/thetis/exner_eq.py
index 9e72951..04b8939 100644
--- a/thetis/exner_eq.py
+++ b/thetis/exner_eq.py
@@ -72,7 +72,7 @@ class ExnerSourceTerm(ExnerTerm):
         morfac = fields.get('morfac')
         porosity = fields.get('porosity')
 
-        fac = Constant(morfac/(1.0-porosity))
+        fac = morfac/(1.0-porosity)
         H = self.depth.get_total_depth(fields_old['elev_2d'])
 
         erosion = self.sediment_model.get_erosion_term()
@@ -105,7 +105,7 @@ class ExnerBedloadTerm(ExnerTerm):
         morfac = fields.get('morfac')
         porosity = fields.get('porosity')
 
-        fac = Constant(morfac/(1.0-porosity))
+        fac = morfac/(1.0-porosity)
 
         # bnd_conditions are the shallow water bcs, any boundary for which
         # nothing is specified is assumed closed
-- 
2.43.0


From 0bdb61bd27e2ef31445cd6fbd63e9fb131f5aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 60/70] fix: bedload transport could not be used with boundary
 values that are fields

---
 thetis/exner_eq.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/thetis/exner_eq.py b/thetis/exner_eq.py
index 04b8939..7e6f373 100644
--- a/thetis/exner_eq.py
+++ b/thetis/exner_eq.py
@@ -97,6 +97,16 @@ class ExnerBedloadTerm(ExnerTerm):
 
     where :math:`\textbf{n}` is the unit normal of the element interfaces.
     """
+    @staticmethod
+    def _is_zero(value):
+        """Whether a boundary value is a constant zero (a field is not)"""
+        if isinstance(value, Constant):
+            return not value.values().any()
+        try:
+            return all(float(v) == 0.0 for v in (value if ufl.shape(value) else [value]))
+        except (TypeError, ValueError):
+            return False
+
     def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
         f = 0
 
@@ -115,12 +125,8 @@ class ExnerBedloadTerm(ExnerTerm):
             keys = [*bnd_conditions[bnd_marker].keys()]
             values = [*bnd_conditions[bnd_marker].values()]
             for i in range(len(keys)):
-                if keys[i] not in ('elev', 'uv'):
-                    if float(values[i]) == 0.0:
-                        no_contr = True
-                elif keys[i] == 'uv':
-                    if all(j == 0.0 for j in [float(j) for j in values[i]]):
-                        no_contr = True
+                if keys[i] != 'elev' and self._is_zero(values[i]):
+                    no_contr = True
             if not no_contr:
                 f += -self.test*(fac*qbx*self.n[0] + fac*qby*self.n[1])*self.ds(bnd_marker)
 
-- 
2.43.0


From 96ae70d5ffc51b3ccbeb8fdcc72e00c4d567becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:10 +0000
Subject: [PATCH 61/70] fix: bedload transport turned the bed into nan where
 the water was still

---
 thetis/sediment_model.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index f688dd5..71dc97e 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -212,8 +212,12 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa = Function(self.P1_2d).interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa = Function(self.P1_2d).interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            # still water transports nothing and has no direction
+            self.moving = self.unorm > Constant(0.0)
+            self.calfa_expr = conditional(self.moving, self.u/sqrt(self.unorm), Constant(0.0))
+            self.salfa_expr = conditional(self.moving, self.v/sqrt(self.unorm), Constant(0.0))
+            self.calfa = Function(self.P1_2d).interpolate(self.calfa_expr)
+            self.salfa = Function(self.P1_2d).interpolate(self.salfa_expr)
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
@@ -279,10 +283,10 @@ class SedimentModel(object):
             t4 = sqrt((t_1**2) + (t_2**2))
 
             # updated magnitude correction and angle corrections
-            slopecoef_secc = t4/self.bed_stress
+            slopecoef_secc = conditional(self.moving, t4/self.bed_stress, Constant(0.0))
 
-            calfanew = t_1/t4
-            salfanew = t_2/t4
+            calfanew = conditional(self.moving, t_1/t4, Constant(0.0))
+            salfanew = conditional(self.moving, t_2/t4, Constant(0.0))
 
         # implement meyer-peter-muller bedload transport formula
         thetaprime = self.mu*(self.rhow*Constant(0.5)*self.qfc*self.unorm)/((self.rhos-self.rhow)*self.g*self.average_size)
@@ -406,8 +410,8 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa.interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa.interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            self.calfa.interpolate(self.calfa_expr)
+            self.salfa.interpolate(self.salfa_expr)
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
-- 
2.43.0


From 9b8f03a43d5632b8d4fb81301c6009737820ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:15 +0000
Subject: [PATCH 62/70] fix: Kantha-Clayson stability functions could not be
 selected

---
 thetis/stability_functions.py | 7 ++++++-
 thetis/turbulence.py          | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index d4cfa83..16ac14d 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -173,6 +173,7 @@ class StabilityFunctionBase(ABC):
             b = -self.d2 + self.n0 - (self.d1 + self.nb0)*ri_st
             c = -self.d0
             a_shear = (-b + numpy.sqrt(b**2 - 4*a*c))/2/a
+            assert a_shear > 0, 'no steady state exists for Ri_st={:}'.format(ri_st)
 
         return a_shear
 
@@ -220,7 +221,11 @@ class StabilityFunctionBase(ABC):
             a = self.d5 - self.n2
             b = self.d2 - self.n0
             c = self.d0
-            a_shear = (-b - numpy.sqrt(b**2 - 4*a*c))/2/a
+            if a == 0:
+                # the equilibrium condition is linear, e.g. Kantha-Clayson
+                a_shear = -c/b
+            else:
+                a_shear = (-b - numpy.sqrt(b**2 - 4*a*c))/2/a
             s_m, s_h = self.eval_funcs(a_buoy, a_shear)
             cm0 = s_m**0.25
         else:
diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index 300a521..bb179fc 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -421,7 +421,7 @@ class GenericLengthScaleModel(TurbulenceModel):
                      'lim_alpha_buoy': True,
                      'smooth_alpha_buoy_lim': False}
         if stability_function_name == 'Kantha-Clayson':
-            self.stability_func = StabilityFunctionKanthaClayson(**stab_args)
+            self.stability_func = GOTMStabilityFunctionKanthaClayson(**stab_args)
         elif stability_function_name == 'Canuto A':
             self.stability_func = StabilityFunctionCanutoA(**stab_args)
         elif stability_function_name == 'Canuto B':
-- 
2.43.0


From ccd6dcc4b4200230c7198dc7f52657c114b432b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 63/70] fix: gradient of a velocity misfit was nan where model
 and observation agree

---
 thetis/inversion_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index 79bc60b..e320cda 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -849,12 +849,12 @@ class StationObservationManager(StationObservationManagerBase):
             self._end_times[i] for i in self.local_station_index
         ])
 
-        # expressions for cost function
+        # expressions for cost function (square error)
         if self.observed_quantity_is_scalar:
-            self.misfit_expr = self.obs_values_0d - self.mod_values_0d
+            self.misfit_expr = (self.obs_values_0d - self.mod_values_0d) ** 2
         else:
             diff = self.obs_values_0d - self.mod_values_0d
-            self.misfit_expr = fd.sqrt(fd.inner(diff, diff))
+            self.misfit_expr = fd.inner(diff, diff)
         self.initialized = True
 
     def eval_observation_at_time(self, t):
@@ -909,7 +909,7 @@ class StationObservationManager(StationObservationManagerBase):
         self.mod_values_0d.interpolate(mod_func, ad_block_tag=f'{self.variable} observation')
         # compute square error
         s = self.cost_function_scaling_0d * self.indicator_0d * self.station_weight_0d
-        self.J_misfit = fd.assemble(s * self.misfit_expr ** 2 * fd.dx, ad_block_tag='misfit_eval')
+        self.J_misfit = fd.assemble(s * self.misfit_expr * fd.dx, ad_block_tag='misfit_eval')
         return self.J_misfit
 
     def collect_time_series(self, current_iteration):
-- 
2.43.0


From 1c1a3d965d8e9a22d1ea461b512f3b0e4763c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 64/70] fix: stations at the same location were all compared
 with the data of the first

---
 thetis/inversion_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index e320cda..144ed3b 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -822,6 +822,8 @@ class StationObservationManager(StationObservationManagerBase):
                 x_mesh, y_mesh = mesh0d.coordinates.dat.data[i, :]
                 xy_diff = xy - numpy.array([x_mesh, y_mesh])
                 xy_dist = numpy.sqrt(xy_diff[:, 0]**2 + xy_diff[:, 1]**2)
+                # several stations may share the same location
+                xy_dist[self.local_station_index] = numpy.inf
                 j = numpy.argmin(xy_dist)
                 self.local_station_index.append(j)
 
-- 
2.43.0


From 54b439c5a8a6bb8ef889949d5d5400c2a233afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 65/70] fix: observation periods could not be given as arrays

---
 thetis/inversion_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index 144ed3b..9d0200e 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -721,8 +721,12 @@ class StationObservationManager(StationObservationManagerBase):
         self.observation_x = x
         self.observation_y = y
         num_stations = len(station_names)
-        self._start_times = start_times or -numpy.ones(num_stations)*numpy.inf
-        self._end_times = end_times or numpy.ones(num_stations)*numpy.inf
+        if start_times is None:
+            start_times = -numpy.ones(num_stations)*numpy.inf
+        if end_times is None:
+            end_times = numpy.ones(num_stations)*numpy.inf
+        self._start_times = start_times
+        self._end_times = end_times
 
     def set_model_field(self, function):
         """
-- 
2.43.0


From 151504bcaaf7d17c1135c2b46d1e20b635fd38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 66/70] fix: stations in use were compared with zero where they
 have no data

---
 thetis/inversion_tools.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index 9d0200e..2677766 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -811,10 +811,6 @@ class StationObservationManager(StationObservationManagerBase):
         self.cost_function_scaling_0d.assign(self.cost_function_scaling)
         self.station_weight_0d = fd.Function(self.fs_points_0d_scalar, name='station-wise weighting')
         self.station_weight_0d.assign(1.0)
-        interp_kw = {}
-        if numpy.isfinite(self._start_times).any() or numpy.isfinite(self._end_times).any():
-            interp_kw.update({'bounds_error': False, 'fill_value': 0.0})
-
         # Construct timeseries interpolator
         self.station_interpolators = []
         self.local_station_index = []
@@ -839,12 +835,12 @@ class StationObservationManager(StationObservationManagerBase):
                       f'{j} {i} {x} {x_mesh} {y} {y_mesh} {x - x_mesh} {y - y_mesh}'
                 assert numpy.allclose([x, y], [x_mesh, y_mesh]), msg
                 if self.observed_quantity_is_scalar:
-                    ip = interp1d(t, self.observation_data[j], **interp_kw)
+                    ip = interp1d(t, self.observation_data[j])
                     self.station_interpolators.append(ip)
                 else:
                     u_data, v_data = self.observation_data
-                    ip_u = interp1d(t, u_data[j], **interp_kw)
-                    ip_v = interp1d(t, v_data[j], **interp_kw)
+                    ip_u = interp1d(t, u_data[j])
+                    ip_v = interp1d(t, v_data[j])
                     self.station_interpolators.append((ip_u, ip_v))
 
         # Process start and end times for observations
@@ -868,15 +864,20 @@ class StationObservationManager(StationObservationManagerBase):
         Evaluate observation time series at the given time.
 
         :arg t: model simulation time
-        :returns: list of observation time series values at time `t`
+        :returns: list of observation time series values at time `t`, zero for
+            stations that are not in use
         """
         self.update_stations_in_use(t)
+
+        def evaluate(interpolators):
+            return [float(ip(t)) if start <= t <= end else 0.0 for ip, start, end
+                    in zip(interpolators, self.obs_start_times, self.obs_end_times)]
+
         if self.observed_quantity_is_scalar:
-            ip = [float(ip(t)) for ip in self.station_interpolators]
-            return ip
+            return evaluate(self.station_interpolators)
         else:
-            ip_u = [float(ip_u(t)) for ip_u, _ in self.station_interpolators]
-            ip_v = [float(ip_v(t)) for _, ip_v in self.station_interpolators]
+            ip_u = evaluate([ip_u for ip_u, _ in self.station_interpolators])
+            ip_v = evaluate([ip_v for _, ip_v in self.station_interpolators])
             return ip_u, ip_v
 
     def eval_cost_function(self, t):
-- 
2.43.0


From 7bdc188a741226a50b1959d8f91d46bb6de04ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:00 +0000
Subject: [PATCH 67/70] fix: initial depth-averaged H(div) velocity was scaled
 with the mesh at rest

---
 thetis/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index d0e679d..8ae8db2 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -933,9 +933,6 @@ class FlowSolver(FrozenClass):
         if uv_2d is not None:
             self.fields.uv_2d.project(uv_2d)
             self.fields.uv_dav_2d.project(uv_2d)
-            if uv_3d is None:
-                ExpandFunctionTo3d(self.fields.uv_2d, self.fields.uv_dav_3d,
-                                   elem_height=self.fields.v_elem_size_3d).solve()
         if uv_3d is not None:
             self.fields.uv_3d.project(uv_3d)
         if salt is not None and self.options.solve_salinity:
@@ -952,6 +949,11 @@ class FlowSolver(FrozenClass):
         if self.options.use_ale_moving_mesh:
             self.timestepper._update_3d_elevation()
             self.timestepper._update_moving_mesh()
+        if uv_2d is not None and uv_3d is None:
+            # NOTE in HDiv spaces the 3D velocity scales with the element height
+            # so this must be done after the mesh has been updated
+            ExpandFunctionTo3d(self.fields.uv_2d, self.fields.uv_dav_3d,
+                               elem_height=self.fields.v_elem_size_3d).solve()
         self.timestepper.initialize()
         # update all diagnostic variables
         self.timestepper._update_all_dependencies(self.simulation_time,
-- 
2.43.0


From 7138efaccf99abb7633d059869b69e477330894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:00 +0000
Subject: [PATCH 68/70] fix: shear and buoyancy frequencies used the element
 volumes of the first mesh

---
 thetis/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index bb179fc..523e0b7 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -199,7 +199,8 @@ class VerticalGradSolver(object):
         l = -inner(p, Dx(test, 2))*dx
         l += avg(p)*jump(test, normal[2])*dS_h
         l += p*test*normal[2]*(ds_t + ds_b)
-        prob = LinearVariationalProblem(a, l, self.solution, constant_jacobian=True)
+        # NOTE mass matrix changes with the mesh if ALE mesh is used
+        prob = LinearVariationalProblem(a, l, self.solution, constant_jacobian=False)
         self.weak_grad_solver = LinearVariationalSolver(prob, solver_parameters=solver_parameters)
 
     @PETSc.Log.EventDecorator("thetis.VerticalGradSolver.solve")
-- 
2.43.0


From 144a6790fbde7aec55e504a5f01957049a4591c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 69/70] fix: DensitySolverWeak used the mass matrix of the
 first mesh

---
 thetis/utility3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 645771b..39378c3 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -307,7 +307,8 @@ class DensitySolverWeak(object):
         rho0 = physical_constants['rho0']
 
         f = self.eos.eval(self.s, self.t, self.p, rho0)
-        self.projector = Projector(f, self.density)
+        # NOTE mass matrix changes with the mesh if ALE mesh is used
+        self.projector = Projector(f, self.density, constant_jacobian=False)
 
     def ensure_positive_salinity(self):
         """
-- 
2.43.0


From 428c1c309c98f011520fd86c7ca81d48bbb2e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 70/70] fix: projected visualization output used the mass
 matrix of the first mesh

---
 thetis/exporter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 2b331c1..71444d1 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -107,7 +107,8 @@ class VTKExporter(ExporterBase):
         op = self.cast_operators.get(function)
         if self.project_output:
             if op is None:
-                op = Projector(function, self.fs_visu)
+                # NOTE mass matrix changes if the mesh is moved
+                op = Projector(function, self.fs_visu, constant_jacobian=False)
                 self.cast_operators[function] = op
             output = op.project()
         else:
-- 
2.43.0

