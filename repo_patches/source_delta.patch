From 7f01d31096abc254bb3fbd5d214f911de28ba409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 01/38] fix: dependency status is probed by importing, not
 assumed available

---
 marEx/_dependencies.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/marEx/_dependencies.py b/marEx/_dependencies.py
index c9d2878..e86ce7b 100644
--- a/marEx/_dependencies.py
+++ b/marEx/_dependencies.py
@@ -16,14 +16,14 @@ class DependencyTracker:
         """Check availability of all optional dependencies."""
         # Performance dependencies
         try:
-            pass
+            import jax  # noqa: F401
 
             self._dependencies["jax"] = True
         except ImportError:
             self._dependencies["jax"] = False
 
         try:
-            pass
+            import jaxlib  # noqa: F401
 
             self._dependencies["jaxlib"] = True
         except ImportError:
@@ -31,7 +31,7 @@ class DependencyTracker:
 
         # HPC dependencies
         try:
-            pass
+            import dask_jobqueue  # noqa: F401
 
             self._dependencies["dask_jobqueue"] = True
         except (ImportError, ValueError):
@@ -40,7 +40,7 @@ class DependencyTracker:
             self._dependencies["dask_jobqueue"] = False
 
         try:
-            pass
+            import psutil  # noqa: F401
 
             self._dependencies["psutil"] = True
         except ImportError:
@@ -48,28 +48,28 @@ class DependencyTracker:
 
         # Visualisation dependencies
         try:
-            pass
+            import matplotlib  # noqa: F401
 
             self._dependencies["matplotlib"] = True
         except ImportError:
             self._dependencies["matplotlib"] = False
 
         try:
-            pass
+            import cartopy  # noqa: F401
 
             self._dependencies["cartopy"] = True
         except ImportError:
             self._dependencies["cartopy"] = False
 
         try:
-            pass
+            import seaborn  # noqa: F401
 
             self._dependencies["seaborn"] = True
         except ImportError:
             self._dependencies["seaborn"] = False
 
         try:
-            pass
+            import cmocean  # noqa: F401
 
             self._dependencies["cmocean"] = True
         except ImportError:
@@ -77,7 +77,7 @@ class DependencyTracker:
 
         # PIL for image processing
         try:
-            pass
+            import PIL  # noqa: F401
 
             self._dependencies["pillow"] = True
         except ImportError:
-- 
2.43.0


From 38eea9b0305719d9bc84ab1b528cd8c4089a45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 02/38] fix: area threshold is inclusive on unstructured grids
 and in the accepted-area statistic too

---
 marEx/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dd83d63..5e8ceae 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1334,7 +1334,7 @@ class tracker:
         object_areas = object_areas.compute()
         total_area_IDed = float(object_areas.sum().item())
 
-        accepted_area = float(object_areas.where(object_areas > area_threshold, drop=True).sum().item())
+        accepted_area = float(object_areas.where(object_areas >= area_threshold, drop=True).sum().item())
         accepted_area_fraction = accepted_area / total_area_IDed
 
         total_hobday_area = float(raw_area.sum().compute().item())
@@ -1836,7 +1836,7 @@ class tracker:
                 area_threshold = self.area_filter_absolute
             else:
                 area_threshold = np.percentile(object_areas, self.area_filter_quartile * 100)
-            N_objects_filtered = np.sum(object_areas > area_threshold)
+            N_objects_filtered = np.sum(object_areas >= area_threshold)
 
             def filter_area_binary(cluster_IDs_0: NDArray[np.int32], keep_IDs_0: NDArray[np.int32]) -> NDArray[np.bool_]:
                 """Keep only clusters above threshold area."""
@@ -1845,7 +1845,7 @@ class tracker:
                 return keep_where
 
             # Create filtered binary data
-            keep_IDs = xr.where(cluster_sizes > area_threshold, unique_cluster_IDs, 0)
+            keep_IDs = xr.where(cluster_sizes >= area_threshold, unique_cluster_IDs, 0)
 
             data_bin_filtered = xr.apply_ufunc(
                 filter_area_binary,
-- 
2.43.0


From 3243460e58e59044c3c5c8b3aafc976d3d9c83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 03/38] fix: tracker no longer rewrites the coordinates of the
 caller's array

---
 marEx/track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 5e8ceae..7102910 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -371,6 +371,8 @@ class tracker:
         log_dask_info(logger, data_bin, "Binary input data")
         log_memory_usage(logger, "Tracker initialisation")
 
+        # Shallow copy: coordinate unit conversion below must not alter the caller's array
+        data_bin = data_bin.copy(deep=False)
         self.data_bin = data_bin
 
         # Store coordinate parameters
-- 
2.43.0


From c94908aa6cd4c642433612e96651c145c60d11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 04/38] fix: checkpoint save/load works for structured grids

---
 marEx/track.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marEx/track.py b/marEx/track.py
index 7102910..f51b486 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -420,6 +420,7 @@ class tracker:
             )
         self.unstructured_grid = unstructured_grid
         self.checkpoint = checkpoint
+        self.scratch_dir = temp_dir
         self.debug = debug
 
         logger.debug(f"Dimensions: time={self.timedim}, x={self.xdim}, y={self.ydim}")
-- 
2.43.0


From 690d226df73a555f4d113990c26348bbd59530e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 05/38] fix: merge partitioning on unstructured grids only
 considers the actual parents

---
 marEx/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index f51b486..27a3945 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4068,7 +4068,7 @@ class tracker:
                         new_labels_uint = partition_nn_unstructured_optimised(
                             child_mask.copy(),
                             parent_masks_uint.copy(),
-                            parent_centroids,
+                            parent_centroids[:n_parents],
                             neighbours_int.copy(),
                             lat,
                             lon,
@@ -4082,7 +4082,9 @@ class tracker:
 
                     else:
                         # Use centroid-based partitioning
-                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids, child_ids, lat, lon)
+                        new_labels = partition_centroid_unstructured(
+                            child_mask, parent_centroids[:n_parents], child_ids, lat, lon
+                        )[child_mask]
 
                     # Update slice data for subsequent merging in process_chunk
                     data_t[child_mask] = new_labels
-- 
2.43.0


From 3b87ab08b901070f2d1da2d9a120a0d76e3e9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 06/38] fix: merge capacity limits are reported as
 TrackingError at the limit

---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 27a3945..6da127e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4037,7 +4037,7 @@ class tracker:
 
                     # Record merge event
                     curr_merge_idx = merge_counts[t]
-                    if curr_merge_idx > MAX_MERGES:  # pragma: no cover
+                    if curr_merge_idx >= MAX_MERGES:  # pragma: no cover
                         raise TrackingError(
                             "Too many merge operations",
                             details=f"Timestep {t} requires {curr_merge_idx} merges (limit: {MAX_MERGES})",
@@ -4130,7 +4130,7 @@ class tracker:
                     else:
                         # Record for next chunk
                         for new_object_id in new_merging_list:
-                            if final_merge_count > MAX_MERGES:  # pragma: no cover
+                            if final_merge_count >= MAX_MERGES:  # pragma: no cover
                                 raise TrackingError(
                                     "Excessive merge operations detected",
                                     details=f"Final merge count {final_merge_count} exceeds limit {MAX_MERGES} at timestep {t}",
-- 
2.43.0


From 6cb49cda904fb6e0101da320791eb3fb34fadf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 07/38] fix: re-queued merge candidates use the same inclusive
 overlap threshold

---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 6da127e..5d657c4 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4118,7 +4118,7 @@ class tracker:
                                 min_area = min(area_0, area_1)
                                 overlap_area = area[parent_mask & potential_child_mask].sum()
 
-                                if overlap_area / min_area > self.overlap_threshold:
+                                if overlap_area / min_area >= self.overlap_threshold:
                                     new_merging_list.append(potential_child)
 
                     # Add newly found merging objects to processing queue
-- 
2.43.0


From 707d6ca1518264e94e00ec732002af31ad42b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 08/38] fix: convergence on the last allowed iteration is not
 reported as failure

---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 5d657c4..33b8670 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4734,7 +4734,7 @@ class tracker:
             del object_id_field_new
 
         # Check if we reached maximum iterations
-        if iteration == self.max_iteration:  # pragma: no cover
+        if merging_objects and iteration == self.max_iteration:  # pragma: no cover
             raise TrackingError(
                 "Maximum iterations reached in tracking algorithm",
                 details=f"Algorithm failed to converge after {self.max_iteration} iterations",
-- 
2.43.0


From 094d603069e4556a6c18c7ba9545d432e492d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 09/38] fix: checkpoint_to_zarr never returns None when the
 store cannot be written

---
 marEx/helper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 87ea372..4f67594 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -699,8 +699,8 @@ def checkpoint_to_zarr(
 
             logger.debug(f"Attempting Zarr checkpoint: {zarr_path}")
             # Check if time dimension has irregular chunks that need fixing
-            if timedim in data.dims and timedim in data.chunks:
-                time_chunks = data.chunks[timedim]
+            if timedim in data.dims and timedim in data.chunksizes:
+                time_chunks = data.chunksizes[timedim]
                 if len(time_chunks) > 1 and len(set(time_chunks)) > 1:
                     # Chunks are irregular - need to fix for Zarr
                     first_chunk = time_chunks[0]
@@ -744,8 +744,7 @@ def checkpoint_to_zarr(
                 # Clean up failed zarr attempt
                 if zarr_path.exists():
                     shutil.rmtree(zarr_path)
-            else:
-                raise
+            raise
 
     except Exception as e:
         logger.error(f"Failed to checkpoint '{name}' to disk: {e}")
-- 
2.43.0


From 32f5bd7c92c1c1eb45a74d2ccf8ca0d8ac535ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 10/38] fix: checkpoint_to_zarr(cleanup=True) keeps the values
 of the removed store

---
 marEx/helper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index 4f67594..9dd35a4 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -735,6 +735,11 @@ def checkpoint_to_zarr(
                     ds_temp = xr.open_zarr(zarr_path, chunks={})
                     reloaded = ds_temp[list(ds_temp.data_vars)[0]]
 
+            if cleanup:
+                # The store is removed below: keep the values in memory
+                chunks = dict(reloaded.chunksizes)
+                reloaded = reloaded.load().chunk(chunks)
+
             logger.info(f"Checkpoint '{name}' saved via Zarr: {zarr_path}")
             return reloaded
 
-- 
2.43.0


From f8dfb52d5dc652cb2794ffff0090d534a98ef1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 11/38] fix: error constructors no longer modify the caller's
 context

---
 marEx/exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/exceptions.py b/marEx/exceptions.py
index 0d759de..975652a 100644
--- a/marEx/exceptions.py
+++ b/marEx/exceptions.py
@@ -353,7 +353,7 @@ def create_data_validation_error(message: str, data_info: Optional[Dict[str, Any
     DataValidationError
         Configured exception with data context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if data_info:
         context.update(data_info)
     kwargs["context"] = context
@@ -385,7 +385,7 @@ def create_coordinate_error(
     CoordinateError
         Configured exception with coordinate context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if coordinate_ranges:
         context["coordinate_ranges"] = coordinate_ranges
     if detected_system:
@@ -412,7 +412,7 @@ def create_processing_error(message: str, computation_info: Optional[Dict[str, A
     ProcessingError
         Configured exception with computation context
     """
-    context = kwargs.get("context", {})
+    context = dict(kwargs.get("context") or {})
     if computation_info:
         context.update(computation_info)
     kwargs["context"] = context
-- 
2.43.0


From 85615560d1a710d8246aeff54d29c4c2120efe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 12/38] fix: day-of-year window of one day yields one threshold
 per day

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index a0a1d07..d268544 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2365,7 +2365,7 @@ def _rolling_histogram_quantile(
 
     # Pad histogram with wrap mode for day-of-year cycling
     pad_size = window_days_hobday // 2
-    hist_pad = np.concatenate([hist_chunk[-pad_size:], hist_chunk, hist_chunk[:pad_size]], axis=0)
+    hist_pad = np.concatenate([hist_chunk[n_doy - pad_size :], hist_chunk, hist_chunk[:pad_size]], axis=0)
 
     # Apply rolling sum using stride tricks FTW
     windowed_view = sliding_window_view(hist_pad, window_days_hobday, axis=0)
-- 
2.43.0


From 4a1becbb18e2415a5e6b3cd6d2334c5c62287123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 13/38] fix: exact percentile on small unstructured grids

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index d268544..17ee896 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2761,7 +2761,7 @@ def _identify_extremes_constant(
         if "y" in dimensions:
             rechunk_size = "auto"
         else:
-            rechunk_size = 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100)
+            rechunk_size = max(100, 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100))
         # N.B.: If this rechunk_size is too small, then dask will be overwhelmed by the number of tasks
         chunk_dict = {dimensions[dim]: rechunk_size for dim in ["x", "y"] if dim in dimensions}
         chunk_dict[dimensions["time"]] = -1
-- 
2.43.0


From a30bffa6fc0fa38b3fa033b1f9d55e42f5149ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 14/38] fix: plotting IDs no longer reseeds the global random
 state

---
 marEx/plotX/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index e8d7bb3..99fa889 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -583,8 +583,7 @@ class PlotterBase:
         n_bins = len(bounds) - 1
 
         if cmap is None:
-            np.random.seed(42)
-            cmap = ListedColormap(np.random.random(size=(n_bins, 3)))
+            cmap = ListedColormap(np.random.RandomState(42).random_sample(size=(n_bins, 3)))
 
         norm = BoundaryNorm(bounds, cmap.N)
         return cmap, norm, "ID"
-- 
2.43.0


From 35bd88adbcbc8db63051926c1073c73466d48e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 15/38] fix: multi_plot keeps custom dimension names and works
 with one panel

---
 marEx/plotX/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 99fa889..3019236 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -356,10 +356,10 @@ class PlotterBase:
         cmap, norm, clim, var_units, extend = self._setup_common_params(config)
 
         fig = plt.figure(figsize=(6 * ncols, 3 * nrows))
-        axes = fig.subplots(nrows, ncols, subplot_kw={"projection": config.projection}).flatten()
+        axes = fig.subplots(nrows, ncols, squeeze=False, subplot_kw={"projection": config.projection}).flatten()
 
         # Create a single plotter instance to be reused
-        base_plotter = type(self)(self.da)
+        base_plotter = type(self)(self.da, self.dimensions, self.coordinates)
         for attr in ["fpath_tgrid", "fpath_ckdtree"]:
             if hasattr(self, attr):
                 setattr(base_plotter, attr, getattr(self, attr))
-- 
2.43.0


From 78c7601bad4caa5bf8e9ccb9d68ad3e3465282d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 16/38] fix: animation frames honour custom coordinate names
 and triangulated grids

---
 marEx/plotX/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 3019236..929f750 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -464,6 +464,7 @@ class PlotterBase:
             "extend": extend,
             "show_colorbar": config.show_colorbar,
             "grid_labels": config.grid_labels,
+            "coordinates": self.coordinates,
         }
 
         # Set up grid information if needed
@@ -624,6 +625,7 @@ def make_frame(
     ax = plt.axes(projection=ccrs.Robinson())
 
     data_slice_np = data_slice.values
+    coord_names = plot_params.get("coordinates") or {"y": "lat", "x": "lon"}
 
     # Set up plot kwargs
     plot_kwargs = {
@@ -664,11 +666,12 @@ def make_frame(
             # Use triangulation
             triang = _load_triangulation(grid_info["tgrid_path"])
             data_masked = np.ma.masked_invalid(data_slice_np)
+            plot_kwargs.pop("shading")  # tripcolor has no automatic shading
             im = ax.tripcolor(triang, data_masked, **plot_kwargs)
     else:
         # Regular grid plotting
-        lat = data_slice.lat.values
-        lon = data_slice.lon.values
+        lat = data_slice[coord_names["y"]].values
+        lon = data_slice[coord_names["x"]].values
         im = ax.pcolormesh(lon, lat, data_slice_np, **plot_kwargs)
 
     time_str = plot_params.get("time_str", f"Frame {time_ind}")
@@ -690,8 +693,8 @@ def make_frame(
                     pass
                 else:
                     # Regular grid plotting - use lat/lon coordinates
-                    lat = data_slice.lat.values
-                    lon = data_slice.lon.values
+                    lat = data_slice[coord_names["y"]].values
+                    lon = data_slice[coord_names["x"]].values
 
                     # Draw contours around object boundaries (treating all IDs > 0 the same)
                     ax.contour(
-- 
2.43.0


From 1eb196ffc15ee79a220cffd591bc595bc705ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 17/38] fix: gridded plots are drawn at the coordinates, not at
 the dimension index

---
 marEx/plotX/gridded.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/marEx/plotX/gridded.py b/marEx/plotX/gridded.py
index cacdfc2..56954a4 100644
--- a/marEx/plotX/gridded.py
+++ b/marEx/plotX/gridded.py
@@ -47,15 +47,18 @@ class GriddedPlotter(PlotterBase):
 
     def wrap_lon(self, data: xr.DataArray) -> xr.DataArray:
         """Handle periodic boundary in longitude by adding a column of data."""
-        lon = data[self.dimensions["x"]]
+        x_dim, x_coord = self.dimensions["x"], self.coordinates.get("x", self.dimensions["x"])
+        lon = data[x_coord]
+        if lon.ndim != 1:
+            return data
 
         # Check if we're dealing with global data that needs wrapping
         lon_spacing = np.diff(lon)[0]
         if abs(360 - (lon.max() - lon.min())) < 2 * lon_spacing:
             # Add a column at lon=360 that equals the data at lon=0
             new_lon = np.append(lon, lon[0] + 360)
-            wrapped_data = xr.concat([data, data.isel({self.dimensions["x"]: 0})], dim=self.dimensions["x"])
-            wrapped_data[self.dimensions["x"]] = new_lon
+            wrapped_data = xr.concat([data, data.isel({x_dim: 0})], dim=x_dim)
+            wrapped_data = wrapped_data.assign_coords({x_coord: (x_dim, new_lon)})
             return wrapped_data
         return data
 
@@ -88,8 +91,8 @@ class GriddedPlotter(PlotterBase):
                 plot_kwargs["vmin"] = clim[0]
                 plot_kwargs["vmax"] = clim[1]
 
-            lons = data[self.dimensions["x"]].values
-            lats = data[self.dimensions["y"]].values
+            lons = data[self.coordinates.get("x", self.dimensions["x"])].values
+            lats = data[self.coordinates.get("y", self.dimensions["y"])].values
             values = data.values
 
             logger.debug(f"Rendering plot with {len(lons)} x {len(lats)} grid points")
-- 
2.43.0


From 7a3ac3dcc846d6158cc34d80a7dcdec82ffbc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 18/38] fix: local cluster is reduced to the available logical
 cores

---
 marEx/helper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 9dd35a4..1a2bd3a 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -362,19 +362,19 @@ def start_local_cluster(
 
     # Warn if requested resources exceed available
     total_threads = n_workers * threads_per_worker
-    if total_threads > physical_cores:
+    if total_threads > logical_cores:
         logger.warning(
             f"Requested {n_workers} workers with {threads_per_worker} threads each, "
-            f"but only {physical_cores} physical cores available"
+            f"but only {logical_cores} logical cores available"
         )
-        logger.warning("Hyper-threading can reduce performance for compute-intensive tasks!")
-    elif total_threads > logical_cores:
+        n_workers = max(1, logical_cores // threads_per_worker)
+        logger.info(f"Reducing to {n_workers} workers")
+    elif total_threads > physical_cores:
         logger.warning(
             f"Requested {n_workers} workers with {threads_per_worker} threads each, "
-            f"but only {logical_cores} logical cores available"
+            f"but only {physical_cores} physical cores available"
         )
-        n_workers = logical_cores // threads_per_worker
-        logger.info(f"Reducing to {n_workers} workers")
+        logger.warning("Hyper-threading can reduce performance for compute-intensive tasks!")
 
     memory_per_worker = memory.total / n_workers / (1024**3)
     logger.info(f"Memory per worker: {memory_per_worker:.2f} GB")
-- 
2.43.0


From e5995a65ff87cfd6f96533e074bfd0cd8a028e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 19/38] fix: start_distributed_cluster honours verbose and
 quiet

---
 marEx/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index 1a2bd3a..daea4ec 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -549,6 +549,10 @@ def start_distributed_cluster(
     ...     n_workers=64, workers_per_node=16, node_memory=256
     ... )
     """
+    # Configure logging if verbose/quiet parameters are provided
+    if verbose is not None or quiet is not None:
+        configure_logging(verbose=verbose, quiet=quiet)
+
     logger.info(f"Starting distributed SLURM cluster - {n_workers} workers on {n_workers//workers_per_node} nodes")
     logger.info(f"Configuration: {workers_per_node} workers/node, {node_memory}GB memory/node, {runtime}h runtime")
 
-- 
2.43.0


From f4d38a1e33a1a2798226c4f7b449a022283ef0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:48 +0000
Subject: [PATCH 20/38] fix: hole filling on global grids no longer joins the
 two poles

---
 marEx/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 33b8670..c733c69 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1625,7 +1625,9 @@ class tracker:
                     pass  # No morphological operations needed
                 else:
                     # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: diameter, self.xdim: diameter}, mode=mode)
+                    # (only longitude is periodic: the poles do not touch each other)
+                    data_bin = data_bin.pad({self.ydim: diameter}, mode="edge")
+                    data_bin = data_bin.pad({self.xdim: diameter}, mode=mode)
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
-- 
2.43.0


From 68c2107c2d9871bc6dd0f3ca9f35f4fbe8e69e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 21/38] fix: hole filling is exact across the date line
 (padding covers closing and opening)

---
 marEx/track.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index c733c69..2c97fc3 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1624,10 +1624,12 @@ class tracker:
                 if R_fill == 0:
                     pass  # No morphological operations needed
                 else:
-                    # Pad data to avoid edge effects
+                    # Pad data to avoid edge effects: closing then opening reaches 4 * R_fill cells
+                    pad_y = 2 * diameter
+                    pad_x = pad_y if self.regional_mode else min(pad_y, data_bin.sizes[self.xdim])
                     # (only longitude is periodic: the poles do not touch each other)
-                    data_bin = data_bin.pad({self.ydim: diameter}, mode="edge")
-                    data_bin = data_bin.pad({self.xdim: diameter}, mode=mode)
+                    data_bin = data_bin.pad({self.ydim: pad_y}, mode="edge")
+                    data_bin = data_bin.pad({self.xdim: pad_x}, mode=mode)
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
@@ -1642,8 +1644,8 @@ class tracker:
                     data_bin = xr.DataArray(data_bin, coords=data_coords, dims=data_dims)
                     data_bin = data_bin.isel(
                         {
-                            self.ydim: slice(diameter, -diameter),
-                            self.xdim: slice(diameter, -diameter),
+                            self.ydim: slice(pad_y, -pad_y),
+                            self.xdim: slice(pad_x, -pad_x),
                         }
                     )
             else:  # pragma: no cover
-- 
2.43.0


From 0b5872f2068b3afd11538915e5debf05c1d244d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:49 +0000
Subject: [PATCH 22/38] fix: standardised anomalies work for data without a
 leap day

---
 marEx/detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 17ee896..1964110 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2183,7 +2183,8 @@ def _compute_anomaly_detrended(
 
         # Calculate 30-day rolling standard deviation with annual wrapped padding
         std_day_wrap = std_day.pad(dayofyear=16, mode="wrap")
-        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, 366 + 16))
+        n_days = std_day.sizes["dayofyear"]  # 365 when the data contain no leap day
+        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, n_days + 16))
 
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
-- 
2.43.0


From f5d279691c89a494a69c1f5273b4a68c23ffd5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:51 +0000
Subject: [PATCH 23/38] fix: nearest-parent search on grids finds the nearest
 parent cell within its search distance

---
 marEx/track.py | 51 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 2c97fc3..2230978 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5021,6 +5021,7 @@ def partition_nn_grid(
     half_Nx = Nx / 2
     n_parents = len(parent_masks)
     grid_size = max(2, max_distance // 4)
+    n_rings = max_distance // grid_size + 2  # Rings of grid cells which reach max_distance (incl. a partial cell at the seam)
 
     y_indices, x_indices = np.nonzero(child_mask)
     n_child_points = len(y_indices)
@@ -5051,32 +5052,44 @@ def partition_nn_grid(
 
             min_dist_to_parent = np.inf
 
-            # Check nearby grid cells
-            for dy in range(-1, 2):
-                grid_y_check = (grid_y + dy) % n_grids_y
+            # Check grid cells in growing rings, until no closer point can remain
+            for ring in range(n_rings + 1):
+                if (ring - 2) * grid_size > min_dist_to_parent:
+                    break
 
-                for dx in range(-1, 2):
-                    grid_x_check = (grid_x + dx) % n_grids_x
+                for dy in range(-ring, ring + 1):
+                    grid_y_check = (grid_y + dy) % n_grids_y
 
-                    # Process points in this grid cell
-                    n_points = grid_counts[grid_y_check, grid_x_check]
+                    for dx in range(-ring, ring + 1):
+                        if max(abs(dy), abs(dx)) != ring:  # Inner cells are already checked
+                            continue
 
-                    for p_idx in range(n_points):
-                        point_idx = grid_points[grid_y_check, grid_x_check, p_idx]
-                        if point_idx == -1:
-                            break
+                        grid_x_check = (grid_x + dx) % n_grids_x
 
-                        dist = wrapped_euclidian_distance_points(child_y, child_x, py[point_idx], px[point_idx], Nx, half_Nx, wrap)
+                        # Process points in this grid cell
+                        n_points = grid_counts[grid_y_check, grid_x_check]
 
-                        if dist > max_distance:
-                            continue
+                        for p_idx in range(n_points):
+                            point_idx = grid_points[grid_y_check, grid_x_check, p_idx]
+                            if point_idx == -1:
+                                break
+
+                            dist = wrapped_euclidian_distance_points(
+                                child_y, child_x, py[point_idx], px[point_idx], Nx, half_Nx, wrap
+                            )
+
+                            if dist > max_distance:
+                                continue
+
+                            if dist < min_dist_to_parent:
+                                min_dist_to_parent = dist
 
-                        if dist < min_dist_to_parent:
-                            min_dist_to_parent = dist
+                            if dist < 1e-6:  # Found exact same point (within numerical precision)
+                                min_dist_to_parent = dist
+                                found_close[child_idx] = True
+                                break
 
-                        if dist < 1e-6:  # Found exact same point (within numerical precision)
-                            min_dist_to_parent = dist
-                            found_close[child_idx] = True
+                        if found_close[child_idx]:
                             break
 
                     if found_close[child_idx]:
-- 
2.43.0


From aad60b2f68eb72676cd03ffaf87d007ddd4be1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:51 +0000
Subject: [PATCH 24/38] fix: unstructured nearest-parent search advances one
 hop per iteration for every parent

---
 marEx/track.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 2230978..7e73df2 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5214,7 +5214,7 @@ def partition_nn_unstructured(
 
         for parent_idx in range(n_parents):
             # Get current frontier points
-            frontier_mask = visited[parent_idx]
+            frontier_mask = visited[parent_idx].copy()  # Only advance one edge hop per iteration
             if not np.any(frontier_mask):
                 continue
 
@@ -5257,7 +5257,7 @@ def partition_nn_unstructured(
             dlon = parent_lon_rad - lon_rad[point]
             a = np.sin(dlat / 2) ** 2 + cos_lat[point] * cos_parent_lat * np.sin(dlon / 2) ** 2
             dist = 2 * np.arctan2(np.sqrt(a), np.sqrt(1 - a))
-            parent_assignments[point] = np.argmin(dist).astype(np.int32)
+            parent_assignments[point] = np.int32(np.argmin(dist))
 
     # Return only the assignments for points in child_mask
     child_points = np.where(child_mask)[0].astype(np.int32)
@@ -5316,13 +5316,16 @@ def partition_nn_unstructured_optimised(
         updates_made = False
 
         for parent_idx in range(n_parents):
+            # Only advance one edge hop per iteration
+            frontier_mask = parent_frontiers_working == parent_idx
+
             # Skip if no frontier points for this parent
-            if not np.any(parent_frontiers_working == parent_idx):
+            if not np.any(frontier_mask):
                 continue
 
             # Process neighbours for current parent's frontier
             for i in range(3):
-                neighbors = neighbours_int[i, parent_frontiers_working == parent_idx]
+                neighbors = neighbours_int[i, frontier_mask]
                 valid_neighbors = neighbors >= 0
 
                 if not np.any(valid_neighbors):
-- 
2.43.0


From d36685afe35679422254975ceb075b175eaa309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:51 +0000
Subject: [PATCH 25/38] fix: cells beyond the search distance go to the nearest
 centroid (no comparison with inf under fastmath)

---
 marEx/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 7e73df2..a50bec9 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5027,7 +5027,7 @@ def partition_nn_grid(
     n_child_points = len(y_indices)
 
     min_distances = np.full(n_child_points, np.inf)
-    parent_assignments = np.zeros(n_child_points, dtype=np.int32)
+    parent_assignments = np.full(n_child_points, -1, dtype=np.int32)
     found_close = np.zeros(n_child_points, dtype=np.bool_)
 
     for parent_idx in range(n_parents):
@@ -5104,7 +5104,7 @@ def partition_nn_grid(
                 parent_assignments[child_idx] = parent_idx
 
     # Handle any unassigned points using centroids
-    unassigned = min_distances == np.inf
+    unassigned = parent_assignments == -1  # N.B.: Comparing with inf is undefined with fastmath
     if np.any(unassigned):
         for child_idx in np.nonzero(unassigned)[0]:
             child_y, child_x = y_indices[child_idx], x_indices[child_idx]
@@ -5192,7 +5192,7 @@ def partition_nn_unstructured(
         overlap_mask = parent_masks[parent_idx] & child_mask
         if np.any(overlap_mask):
             visited[parent_idx, overlap_mask] = True
-            unclaimed_overlap = distances[overlap_mask] == np.inf
+            unclaimed_overlap = parent_assignments[overlap_mask] == -1
             if np.any(unclaimed_overlap):
                 overlap_points = np.where(overlap_mask)[0].astype(np.int32)
                 valid_points = overlap_points[unclaimed_overlap]
-- 
2.43.0


From 785ef67b0daa8900f1eb2eb2adbd1b9dfa3ed9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:15 +0000
Subject: [PATCH 26/38] fix: checkpoint_to_zarr keeps an unnamed array unnamed

---
 marEx/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index daea4ec..3eedfe3 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -737,7 +737,7 @@ def checkpoint_to_zarr(
                     reloaded = xr.open_zarr(zarr_path, chunks={})
                 else:
                     ds_temp = xr.open_zarr(zarr_path, chunks={})
-                    reloaded = ds_temp[list(ds_temp.data_vars)[0]]
+                    reloaded = ds_temp[list(ds_temp.data_vars)[0]].rename(data.name)
 
             if cleanup:
                 # The store is removed below: keep the values in memory
-- 
2.43.0


From 66bcd3a16b2c1b0d84b44c1ad5c1d02132b2a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 27/38] fix: shifting baseline with no year left after the
 baseline is reported as insufficient data

---
 marEx/detect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 1964110..bbbe4b6 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -600,11 +600,11 @@ def preprocess_data(
 
         logger.info(f"Shifting baseline data validation: {total_years} years available ({min_year}-{max_year})")
 
-        if total_years < window_year_baseline:
-            logger.error(f"Insufficient data: {total_years} years < {window_year_baseline} required")
+        if total_years <= window_year_baseline:  # The first window_year_baseline years only serve as baseline
+            logger.error(f"Insufficient data: {total_years} years < {window_year_baseline + 1} required")
             raise create_data_validation_error(
                 "Insufficient data for shifting_baseline method",
-                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline} years",
+                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline + 1} years",
                 suggestions=[
                     "Use more years of data to meet minimum requirement",
                     f"Reduce window_year_baseline parameter (currently {window_year_baseline})",
@@ -612,7 +612,7 @@ def preprocess_data(
                 ],
                 data_info={
                     "available_years": int(total_years),
-                    "required_years": int(window_year_baseline),
+                    "required_years": int(window_year_baseline) + 1,
                 },
             )
 
-- 
2.43.0


From a6c38bb49ebf6af2c9b39d5c994f2957e0f871ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:06 +0000
Subject: [PATCH 28/38] fix: plots of (x, y)-ordered data are no longer
 transposed

---
 marEx/plotX/base.py    | 6 ++++--
 marEx/plotX/gridded.py | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 929f750..596461b 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -482,11 +482,13 @@ class PlotterBase:
         time_dim = config.dimensions["time"] if config.dimensions else "time"
         time_coord = config.coordinates.get("time", time_dim) if config.coordinates else time_dim
 
+        spatial_dims = [self.dimensions[k] for k in ("y", "x") if k in self.dimensions]  # Frames are drawn as (y, x)
+
         # Use provided centroids or None if not provided
         centroid_data = centroids
 
         for time_ind in range(len(self.da[time_dim])):
-            data_slice = self.da.isel({time_dim: time_ind})
+            data_slice = self.da.isel({time_dim: time_ind}).transpose(..., *spatial_dims, missing_dims="ignore")
 
             # Create fresh copy of plot_params for this frame to avoid shared references
             frame_params = plot_params.copy()
@@ -505,7 +507,7 @@ class PlotterBase:
             # Extract object IDs for this time step if available
             if object_ids is not None:
                 try:
-                    object_ids_time = object_ids.isel({time_dim: time_ind})
+                    object_ids_time = object_ids.isel({time_dim: time_ind}).transpose(..., *spatial_dims, missing_dims="ignore")
                     frame_params["object_ids"] = object_ids_time
                 except Exception:
                     frame_params["object_ids"] = None
diff --git a/marEx/plotX/gridded.py b/marEx/plotX/gridded.py
index 56954a4..6d14f32 100644
--- a/marEx/plotX/gridded.py
+++ b/marEx/plotX/gridded.py
@@ -79,6 +79,9 @@ class GriddedPlotter(PlotterBase):
             if self.dimensions["time"] in data.dims and len(data[self.dimensions["time"]]) == 1:
                 data = data.squeeze(dim=self.dimensions["time"])  # Remove time dimension if singular
 
+            # pcolormesh expects (y, x)
+            data = data.transpose(..., self.dimensions["y"], self.dimensions["x"], missing_dims="ignore")
+
             plot_kwargs = {
                 "transform": ccrs.PlateCarree(),
                 "cmap": cmap,
-- 
2.43.0


From 3ba30644ccfef976b1bcdffae944dc9b9cae8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:42 +0000
Subject: [PATCH 29/38] fix: processing steps record the default spatial window
 that was applied

---
 marEx/detect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marEx/detect.py b/marEx/detect.py
index bbbe4b6..422a1a6 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -708,6 +708,11 @@ def preprocess_data(
         chunk_dict = {dim: -1 for dim in cell_areas.dims}
         ds["cell_areas"] = cell_areas.astype(np.float32).chunk(chunk_dict)
 
+    # Record the default spatial window that identify_extremes applies on structured grids
+    if method_extreme == "hobday_extreme" and method_percentile == "approximate" and window_spatial_hobday is None:
+        if "y" in dimensions and dimensions["y"] in da.dims:
+            window_spatial_hobday = 5
+
     # Add processing parameters to metadata
     ds.attrs.update(
         {
-- 
2.43.0


From f206f7440a81395586506b4668c88c34dbbb88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 30/38] fix: centroids of events away from the seam on grids
 with fewer than 200 longitudes

---
 marEx/track.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index a50bec9..fd39a1f 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2099,6 +2099,10 @@ class tracker:
             right_side = x_indices > binary_mask.shape[1] // 2
             x_indices_adj[right_side] -= binary_mask.shape[1]
 
+            # Near both edges without straddling the boundary (e.g. on a narrow grid): nothing to adjust
+            if np.ptp(x_indices_adj) > np.ptp(x_indices):
+                x_indices_adj = x_indices
+
             x_centroid = np.mean(x_indices_adj)
             if x_centroid < 0:  # Ensure centroid is positive
                 x_centroid += binary_mask.shape[1]
@@ -3252,6 +3256,10 @@ class tracker:
                                 right_side = x_indices > nx / 2
                                 x_adjusted[right_side] -= nx
 
+                                # Near both edges without straddling the boundary (e.g. on a narrow grid): nothing to adjust
+                                if np.ptp(x_adjusted) > np.ptp(x_indices):
+                                    x_adjusted = x_indices
+
                                 # Area-weighted mean with adjusted coordinates
                                 centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
 
-- 
2.43.0


From 66181fd9c426f19df4921e885aa1c2445a999e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 31/38] fix: temporary IDs of split objects are unique between
 time steps

---
 marEx/track.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index fd39a1f..486e9af 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4455,10 +4455,9 @@ class tracker:
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
-            next_id_offsets = np.arange(n_time, dtype=np.int64) * max_merges * self.timechunks + global_id_counter
-            # N.B.: We also need to account for possibility of newly-split objects subsequently creating
-            #          more than max_merges by the end of the iteration through the chunk
-            # !!! This is likely the root cause of any errors such as "ID needs to be contiguous/continuous/full/unrepeated"
+            # N.B.: A timestep creates at most MAX_MERGES * (MAX_PARENTS - 1) new IDs, including those of objects which
+            #          are newly-split within the chunk
+            next_id_offsets = np.arange(n_time, dtype=np.int64) * MAX_MERGES * MAX_PARENTS + global_id_counter
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-- 
2.43.0


From 4480fdc721bd93f163fdcfa87500b24fa2a780ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 32/38] fix: unstructured merging works with time chunks of a
 single step

---
 marEx/track.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 486e9af..08ea9c2 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3846,6 +3846,7 @@ class tracker:
 
         def process_chunk(
             chunk_data_m1_full: NDArray[np.int32],
+            chunk_data_full: NDArray[np.int32],
             chunk_data_p1_full: NDArray[np.int32],
             merging_objects: NDArray[np.int64],
             next_id_start: NDArray[np.int64],
@@ -3873,7 +3874,9 @@ class tracker:
             Parameters
             ----------
             chunk_data_m1_full : numpy.ndarray
-                Data from previous timestep (t-1) and current timestep (t)
+                Data from previous timestep (t-1)
+            chunk_data_full : numpy.ndarray
+                Data from current timestep (t)
             chunk_data_p1_full : numpy.ndarray
                 Data from next timestep (t+1)
             merging_objects : (n_time, max_merges) numpy.ndarray
@@ -3897,9 +3900,10 @@ class tracker:
             #    N.B.: This is a weird artefact/choice of xarray apply_ufunc broadcasting...
             #           (i.e. 'nv' dimension gets injected into all the other arrays!)
 
-            chunk_data_m1 = chunk_data_m1_full.squeeze()[0].astype(np.int32).copy()
-            chunk_data = chunk_data_m1_full.squeeze()[1].astype(np.int32).copy()
-            del chunk_data_m1_full  # Free memory immediately
+            n_time = chunk_data_p1_full.shape[0]
+            chunk_data_m1 = chunk_data_m1_full.reshape(n_time, -1)[0].astype(np.int32).copy()
+            chunk_data = chunk_data_full.reshape(n_time, -1)[0].astype(np.int32).copy()
+            del chunk_data_m1_full, chunk_data_full  # Free memory immediately
             chunk_data_p1 = chunk_data_p1_full.astype(np.int32).copy()
             # Remove any singleton dimensions except time and space
             while chunk_data_p1.ndim > 2:
@@ -3910,7 +3914,7 @@ class tracker:
             lat = lat.squeeze().astype(np.float32)
             lon = lon.squeeze().astype(np.float32)
             area = area.squeeze().astype(np.float32)
-            next_id_start = next_id_start.squeeze()
+            next_id_start = next_id_start.reshape(n_time)
 
             # Handle neighbours_int with correct dimensions (nv, ncells)
             neighbours_int = neighbours_int.squeeze()
@@ -3918,9 +3922,7 @@ class tracker:
                 neighbours_int = neighbours_int.T
 
             # Handle multiple merging objects - ensure proper dimensionality
-            merging_objects = merging_objects.squeeze()
-            if merging_objects.ndim == 1:
-                merging_objects = merging_objects[:, None]  # Add dimension for max_merges
+            merging_objects = merging_objects.reshape(n_time, -1)
 
             # Pre-convert lat/lon to Cartesian coordinates for efficiency
             x = (np.cos(np.radians(lat)) * np.cos(np.radians(lon))).astype(np.float32)
@@ -3928,7 +3930,6 @@ class tracker:
             z = np.sin(np.radians(lat)).astype(np.float32)
 
             # Pre-allocate output arrays
-            n_time = chunk_data_p1.shape[0]
             n_points = chunk_data_p1.shape[1]
 
             merge_child_ids = np.full((n_time, MAX_MERGES, MAX_PARENTS), -1, dtype=np.int32)
@@ -4470,6 +4471,7 @@ class tracker:
 
             # Align chunks for better parallel processing
             object_id_field_unique_m1 = object_id_field_unique_m1.chunk({self.timedim: self.timechunks})
+            object_id_field_unique_t0 = object_id_field_unique.chunk({self.timedim: self.timechunks})
             object_id_field_unique_p1 = object_id_field_unique_p1.chunk({self.timedim: self.timechunks})
             merging_objects_da = merging_objects_da.chunk({self.timedim: self.timechunks})
             next_id_offsets_da = next_id_offsets_da.chunk({self.timedim: self.timechunks})
@@ -4478,6 +4480,7 @@ class tracker:
             results = xr.apply_ufunc(
                 process_chunk,
                 object_id_field_unique_m1,
+                object_id_field_unique_t0,
                 object_id_field_unique_p1,
                 merging_objects_da,
                 next_id_offsets_da,
@@ -4486,6 +4489,7 @@ class tracker:
                 self.cell_area,
                 neighbours_int,
                 input_core_dims=[
+                    [self.xdim],
                     [self.xdim],
                     [self.xdim],
                     ["merges"],
-- 
2.43.0


From 15e344b5930fd14b04757762775f394a9641ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:41 +0000
Subject: [PATCH 33/38] fix: the ID-time lookup holds every object of a time
 step

---
 marEx/track.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 08ea9c2..3fbb015 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2692,18 +2692,29 @@ class tracker:
         time_index_map : dict
             Dictionary mapping object IDs to time indices
         """
-        # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100)
-
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
             uniq = np.unique(x)
-            result = np.zeros(est_objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
+            result = np.zeros(objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
             result[: len(uniq)] = uniq
             return result
 
-        # Get unique IDs for each time slice
+        # Maximum number of unique IDs (incl. background) at any time
         input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
+        objects_per_time_max = int(
+            xr.apply_ufunc(
+                lambda x: np.unique(x).size,
+                da,
+                input_core_dims=[input_dims],
+                output_dtypes=[np.int64],
+                dask="parallelized",
+                vectorize=True,
+            )
+            .max()
+            .compute()
+        )
+
+        # Get unique IDs for each time slice
         unique_ids_by_time = xr.apply_ufunc(
             unique_pad,
             da,
@@ -2711,7 +2722,7 @@ class tracker:
             output_core_dims=[["unique_values"]],
             dask="parallelized",
             vectorize=True,
-            dask_gufunc_kwargs={"output_sizes": {"unique_values": est_objects_per_time_max}},
+            dask_gufunc_kwargs={"output_sizes": {"unique_values": objects_per_time_max}},
         )
 
         # Set up IDs to search for
-- 
2.43.0


From bdf61eb1652e7d57ee12be3ac089d85bd113f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:19 +0000
Subject: [PATCH 34/38] fix: IDs are consolidated in time chunks of a single
 step too

---
 marEx/track.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 3fbb015..0b53591 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3625,12 +3625,16 @@ class tracker:
                 if iteration == 10:
                     logger.warning(f"Resolving mergers at timestep {absolute_t} did not converge after 10 iterations")
 
-            # End-of-chunk consolidation: consolidate the last timestep if chunk has multiple timesteps
-            if chunk_data.sizes[self.timedim] >= 2:
+            # End-of-chunk consolidation: consolidate the last timestep if there is a timestep before it
+            if chunk_data.sizes[self.timedim] >= 2 or updated_chunks:
 
                 # Get last and second-to-last timesteps
                 last_t_data = chunk_data.isel({self.timedim: -1})
-                second_last_t_data = chunk_data.isel({self.timedim: -2})
+                if chunk_data.sizes[self.timedim] >= 2:
+                    second_last_t_data = chunk_data.isel({self.timedim: -2})
+                else:  # Chunk of a single timestep: second-to-last is in previous chunk
+                    _, _, last_chunk_data = updated_chunks[-1]
+                    second_last_t_data = last_chunk_data[-1]
 
                 # Consolidate last timestep using second-to-last as reference
                 consolidated_last, object_props = self.consolidate_object_ids(
-- 
2.43.0


From c09d7edd9166ddf16c1685cb90becfdb8e6f63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 35/38] fix: the merge ledger lists the siblings of each
 merging event

---
 marEx/track.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 0b53591..bc47469 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3099,8 +3099,9 @@ class tracker:
                 if IDs_at_time.ndim == 1:
                     valid_mask = IDs_at_time > 0
                     if np.any(valid_mask):
-                        # Create expanded array for sibling_ID dimension
-                        expanded_IDs = np.broadcast_to(IDs_at_time, (len(time_block.sibling_ID), len(IDs_at_time)))
+                        # Create expanded array: Each of the IDs lists all siblings along the sibling_ID dimension
+                        sibling_IDs = np.where(valid_mask, IDs_at_time, -1)[:, np.newaxis]
+                        expanded_IDs = np.broadcast_to(sibling_IDs, (len(time_block.sibling_ID), len(IDs_at_time)))
                         result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs[:, valid_mask]
 
                 # Handle multiple mergers case
@@ -3108,8 +3109,9 @@ class tracker:
                     for merger_IDs in IDs_at_time:
                         valid_mask = merger_IDs > 0
                         if np.any(valid_mask):
+                            sibling_IDs = np.where(valid_mask, merger_IDs, -1)[:, np.newaxis]
                             expanded_IDs = np.broadcast_to(
-                                merger_IDs,
+                                sibling_IDs,
                                 (len(time_block.sibling_ID), len(merger_IDs)),
                             )
                             result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs[:, valid_mask]
-- 
2.43.0


From abfa37c989ae83051b6afd8aeb49679efc99473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 36/38] fix: plotX shortcuts use the dimension and coordinate
 names of the plot settings

---
 marEx/plotX/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/plotX/__init__.py b/marEx/plotX/__init__.py
index 7f2cca7..7d897ad 100644
--- a/marEx/plotX/__init__.py
+++ b/marEx/plotX/__init__.py
@@ -140,17 +140,17 @@ class PlotXAccessor:
     # Also provide methods that work with default parameters for backward compatibility
     def single_plot(self, config: PlotConfig, **kwargs):  # pragma: no cover
         """Create a single plot with default dimension detection."""
-        plotter = self()
+        plotter = self(config.dimensions, config.coordinates)
         return plotter.single_plot(config, **kwargs)
 
     def multi_plot(self, config: PlotConfig, **kwargs):  # pragma: no cover
         """Create multiple plots with default dimension detection."""
-        plotter = self()
+        plotter = self(config.dimensions, config.coordinates)
         return plotter.multi_plot(config, **kwargs)
 
     def animate(self, config: PlotConfig, **kwargs):  # pragma: no cover
         """Create animation with default dimension detection."""
-        plotter = self()
+        plotter = self(config.dimensions, config.coordinates)
         return plotter.animate(config, **kwargs)
 
 
-- 
2.43.0


From 7b5bfb4ef7d2cd525ff7ae38c145cb77d6d0dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 37/38] fix: identifier plots accept a colour map given by name

---
 marEx/plotX/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 596461b..fbc2486 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -587,6 +587,8 @@ class PlotterBase:
 
         if cmap is None:
             cmap = ListedColormap(np.random.RandomState(42).random_sample(size=(n_bins, 3)))
+        elif isinstance(cmap, str):
+            cmap = plt.get_cmap(cmap, n_bins)
 
         norm = BoundaryNorm(bounds, cmap.N)
         return cmap, norm, "ID"
-- 
2.43.0


From d8f59cb4a0ef5543d273acc500091877d6976df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 38/38] fix: panels and animation frames honour the grid line
 and projection settings

---
 marEx/plotX/base.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index fbc2486..a9401fd 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -374,6 +374,7 @@ class PlotterBase:
                     cmap=cmap,
                     clim=clim,
                     show_colorbar=False,
+                    grid_lines=config.grid_lines,
                     grid_labels=False,
                     norm=norm,
                     plot_IDs=False,
@@ -463,8 +464,10 @@ class PlotterBase:
             "var_units": var_units,
             "extend": extend,
             "show_colorbar": config.show_colorbar,
+            "grid_lines": config.grid_lines,
             "grid_labels": config.grid_labels,
             "coordinates": self.coordinates,
+            "projection": config.projection,
         }
 
         # Set up grid information if needed
@@ -626,7 +629,7 @@ def make_frame(
     plt.rc("font", family="serif")
 
     fig = plt.figure(figsize=(7, 5))
-    ax = plt.axes(projection=ccrs.Robinson())
+    ax = plt.axes(projection=plot_params.get("projection") or ccrs.Robinson())
 
     data_slice_np = data_slice.values
     coord_names = plot_params.get("coordinates") or {"y": "lat", "x": "lon"}
@@ -774,15 +777,16 @@ def make_frame(
     coastlines = cfeature.COASTLINE.with_scale("50m")
     ax.add_feature(land, facecolor="darkgrey", zorder=2)
     ax.add_feature(coastlines, linewidth=0.5, zorder=3)
-    ax.gridlines(
-        crs=ccrs.PlateCarree(),
-        draw_labels=plot_params.get("grid_labels", False),
-        linewidth=1,
-        color="gray",
-        alpha=0.5,
-        linestyle="--",
-        zorder=4,
-    )
+    if plot_params.get("grid_lines", True):
+        ax.gridlines(
+            crs=ccrs.PlateCarree(),
+            draw_labels=plot_params.get("grid_labels", False),
+            linewidth=1,
+            color="gray",
+            alpha=0.5,
+            linestyle="--",
+            zorder=4,
+        )
 
     # Save and process frame
     filename = f"time_{time_ind:04d}.jpg"
-- 
2.43.0

