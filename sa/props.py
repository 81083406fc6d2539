"""The properties, and for each the obligations (function, constrained outputs) that decide it.

An obligation (q, slots): q a qualified function name (or prefix ending in '.*'); slots None = every observable output of
the function (value returned, attributes set, arguments mutated, effects, exceptions), or a tuple of slot names.
"""
ASSUMPTIONS = [
    "external libraries (numpy, xarray, dask, scipy, numba, matplotlib) behave as documented; calls into them are uninterpreted",
    "the contract in /verif/contract was read and confirmed property by property; it is the reference for later changes",
    "a rewrite the analysis cannot relate to the contract is UNKNOWN, counted in this file, and not reported",
]
D, K, H, E, L, P = "detect.", "track.", "helper.", "exceptions.", "logging_config.", "plotX."
T = "track.tracker."
FILES = {"detect": "marEx/detect.py", "track": "marEx/track.py", "helper": "marEx/helper.py", "exceptions": "marEx/exceptions.py",
         "logging_config": "marEx/logging_config.py", "plotX": "marEx/plotX/__init__.py", "plotX.base": "marEx/plotX/base.py",
         "plotX.gridded": "marEx/plotX/gridded.py", "plotX.unstructured": "marEx/plotX/unstructured.py",
         "_dependencies": "marEx/_dependencies.py", "marEx": "marEx/__init__.py", "__init__": "marEx/__init__.py",
         "_coverage_init": "marEx/_coverage_init.py"}
NORAISE = ("ret", "attr", "out", "effect", "default", "mutcapture", "yield", "with", "catch")
INP = ["inputs", "configurations"]
PROPS = []


def p(id, title, statement, over, qtext, why, obl, rules=(), state=(), observe=(), na=None, min_instances=0):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, obl=obl, rules=list(rules),
                      state=list(state), observe=list(observe), na=na, min_instances=min_instances))


def obligations(P, ref):
    out = []
    for o in P["obl"]:
        q, slots = o if isinstance(o, tuple) else (o, None)
        if q.endswith("*"):
            ms = [x for x in ref.funcs if x.startswith(q[:-1])]
            out += [(x, slots) for x in ms]
        else:
            out.append((q, slots))
    return out


# --------------------------------------------------------------------------------------------------- detection
p("D01", "Extreme flags agree with the returned thresholds, inclusively",
  "A cell is flagged extreme at a time step exactly when its anomaly is greater than or equal to the threshold that is returned for "
  "that cell (and, with seasonal thresholds, for that calendar day). Missing values are never flagged. This holds for both extreme "
  "methods, exact and approximate percentiles, and gridded and unstructured data.",
  INP, "every data array, percentile, method, window, grid kind and chunking",
  "The stable tests never run the extreme identification end to end; sampled data would not contain ties at the threshold.",
  [D + "identify_extremes", D + "_identify_extremes_hobday", D + "_identify_extremes_constant", D + "preprocess_data"],
  rules=["inclusive_extremes"], observe=["extreme_events and thresholds of the returned dataset"], min_instances=2)

p("D02", "Thresholds are the requested percentile of the right sample",
  "Every threshold is the requested percentile, taken along time of the non-missing anomalies that belong to it (all times, or the "
  "calendar-day window), interpolated within the histogram bins when approximate, and missing where the cell has no data. The exact "
  "and the approximate, and the one- and two-dimensional, calculations use the same percentile and the same range of anomalies.",
  INP, "every data array, percentile in range, precision, maximum anomaly and grid kind",
  "The helpers are tested on a few arrays; the percentile of an arbitrary sample, near bin edges or outside the range, is not sampled.",
  [D + "_rolling_histogram_quantile", D + "_compute_histogram_quantile_2d", D + "_compute_histogram_quantile_1d",
   D + "_identify_extremes_constant", D + "_identify_extremes_hobday", D + "identify_extremes"],
  rules=["percentile_flow", "histogram_siblings"], observe=["thresholds of the returned dataset"], min_instances=4)

p("D03", "Calendar-day windows are centred and wrap around the year end",
  "Seasonal thresholds and climatologies for a calendar day use the days within half the requested window on both sides of it, counted "
  "cyclically over the year so that the first days of January and the last of December are neighbours, leap day included. Each day "
  "receives exactly one value, and spatial windows wrap in longitude only.",
  INP, "every window length (odd, 1 to 365), calendar day and leap or non-leap year",
  "Tests use one or two window lengths and compare summary statistics; errors limited to a few days around new year pass.",
  [D + "rolling_climatology", D + "smoothed_rolling_climatology", D + "_identify_extremes_hobday", D + "_rolling_histogram_quantile",
   D + "_compute_histogram_quantile_2d", D + "_compute_anomaly_fixed_baseline"],
  rules=["cyclic_window"], observe=["thresholds by dayofyear", "dat_anomaly"], min_instances=1)

p("D04", "The shifting baseline only looks at preceding years",
  "With the shifting baseline, the climatology used at any date is built only from the configured number of years immediately before the "
  "year of that date, never from that year itself or later (day smoothing apart). Years without a complete baseline are removed from the output, and no "
  "other year is.",
  INP, "every time axis, window length and smoothing length",
  "Looking one year too far, or into the same year, changes values slightly; no stable test computes a shifting baseline independently.",
  [D + "rolling_climatology", D + "smoothed_rolling_climatology", D + "_compute_anomaly_shifting_baseline", D + "preprocess_data",
   D + "compute_normalised_anomaly"],
  rules=["baseline_causal"], observe=["dat_anomaly", "time axis of the returned dataset"], min_instances=2)

p("D05", "Detrending removes exactly the requested trend and seasonal cycle",
  "The detrended anomaly is the data minus the least-squares fit of a constant, the requested polynomial orders and, for the harmonic "
  "method only, the annual and semi-annual cycles evaluated at the true decimal date; the mean is removed afterwards when "
  "requested and only then. Cells that are missing stay missing.",
  INP, "every time axis (leap years, gaps, any start date), set of orders and mean option",
  "Tests fit a few clean synthetic signals; a model term lost for some option combination or date still fits those.",
  [D + "_compute_anomaly_detrended", D + "add_decimal_year", D + "_compute_anomaly_detrend_fixed_baseline",
   D + "compute_normalised_anomaly"],
  observe=["dat_anomaly"])

p("D06", "Fixed-baseline anomalies are deviations from the full-period daily mean",
  "With the fixed baseline the anomaly is the data minus the mean over all years of the same calendar day; with the detrended "
  "variant the polynomial trend is removed first and no seasonal harmonics are. Both keep the whole time axis and mark the same "
  "valid cells.",
  INP, "every time axis, grid kind, names of dimensions and set of orders",
  "No stable test computes the daily climatology independently for arbitrary calendars.",
  [D + "_compute_anomaly_fixed_baseline", D + "_compute_anomaly_detrend_fixed_baseline", D + "compute_normalised_anomaly",
   D + "_compute_anomaly_detrended", D + "preprocess_data"],
  observe=["dat_anomaly", "mask"])

p("D07", "Every detection option reaches the step it configures",
  "Each option given to the preprocessing pipeline, or to one of its public stages, is the value used by the step it configures, for "
  "every choice of methods; in particular the standardised branch uses the same options as the main branch. Options left out take "
  "their documented defaults, and these agree between the pipeline and its stages.",
  INP, "every combination of options and methods",
  "Option combinations are too many to run, and most option values give plausible output when ignored or swapped.",
  [D + "preprocess_data", D + "compute_normalised_anomaly", D + "identify_extremes", D + "_compute_anomaly_shifting_baseline",
   D + "_identify_extremes_hobday", D + "_identify_extremes_constant", D + "_compute_anomaly_detrend_fixed_baseline",
   D + "smoothed_rolling_climatology", D + "_rolling_histogram_quantile", D + "<module>"],
  rules=["detect_threading", "detect_defaults"], observe=["the returned dataset"], min_instances=30)

p("D08", "Unsupported detection settings are rejected, supported ones accepted",
  "A detection call with an unknown method, an even window, a percentile, precision or range setting that the chosen calculation does "
  "not support, invalid trend orders, or a spatial window for a method or grid kind without one ends with a configuration error. Every "
  "documented setting within range is accepted.",
  INP, "every configuration",
  "Tests try a few bad values each; the acceptance region as a whole, its borders and combinations are not enumerated.",
  [(D + "preprocess_data", ("raise",)), (D + "compute_normalised_anomaly", ("raise",)), (D + "identify_extremes", None),
   (D + "_identify_extremes_hobday", ("raise",)), (D + "_identify_extremes_constant", ("raise",)),
   (D + "_compute_anomaly_detrended", ("raise", "effect")), (D + "rolling_climatology", ("raise",)),
   (D + "smoothed_rolling_climatology", ("raise",)), (D + "_compute_anomaly_shifting_baseline", ("raise",)),
   (D + "_compute_histogram_quantile_1d", ("raise",)), (D + "_compute_histogram_quantile_2d", ("raise",))],
  rules=["unknown_method_rejected"], observe=["exception raised by the call"], min_instances=2)

p("D09", "Unusable input data is rejected before any computation",
  "Input that is not lazily chunked, lacks a named dimension or coordinate, is too short for the baseline, has no valid cell, or contains "
  "missing or infinite values at any time in a cell valid at the first time ends with a data-validation error that names the problem. "
  "Data whose only missing values lie in cells without data at the first time (land) is accepted.",
  INP, "every input array",
  "Tests plant one bad value at one place; the validation must hold wherever and whenever the bad value occurs.",
  [D + "_validate_data_values", D + "_validate_dimensions_exist", D + "_validate_coordinates_exist", D + "_infer_dims_coords",
   (D + "preprocess_data", ("raise", "effect")), (D + "identify_extremes", ("raise",)), (D + "compute_normalised_anomaly", ("raise",))],
  rules=["validation_before_compute"], observe=["exception raised by the call"], min_instances=1)

p("D10", "Custom dimension and coordinate names work like the standard ones",
  "Naming the time, horizontal dimensions or coordinates differently never changes a result: every step uses the names the caller gave, "
  "fills in the rest from the defaults, and recognises an unstructured grid by the absence of the second horizontal dimension.",
  INP, "every choice of names and both grid kinds",
  "Tests use one alternative set of names on a few paths; a hard-coded default name on another path passes.",
  [D + "_infer_dims_coords", D + "preprocess_data", D + "compute_normalised_anomaly", D + "identify_extremes", D + "rolling_climatology",
   D + "smoothed_rolling_climatology", D + "_compute_anomaly_shifting_baseline", D + "_identify_extremes_hobday", D + "add_decimal_year",
   D + "_compute_anomaly_detrended", D + "_compute_anomaly_fixed_baseline", D + "_compute_anomaly_detrend_fixed_baseline",
   D + "_rolling_histogram_quantile", D + "_compute_histogram_quantile_1d", D + "_compute_histogram_quantile_2d",
   D + "_identify_extremes_constant", D + "_validate_data_values", D + "_validate_dimensions_exist", D + "_validate_coordinates_exist"],
  rules=["names_not_hardcoded"], observe=["the returned dataset"], min_instances=10)

p("D11", "The valid-cell mask is exactly the cells with data, and land is never extreme",
  "The returned mask is true exactly for the cells that hold a finite value at the first time step of the input, has no time axis, and "
  "is the same for every anomaly method. Cells outside it carry no anomaly, are never flagged extreme and have no threshold.",
  INP, "every input, land distribution and method",
  "Tests check one land rectangle with one method; a mask from another time or variable agrees there.",
  [D + "rolling_climatology", D + "_compute_anomaly_shifting_baseline", D + "_compute_anomaly_detrended",
   D + "_compute_anomaly_fixed_baseline", D + "_compute_anomaly_detrend_fixed_baseline", D + "compute_normalised_anomaly",
   D + "_identify_extremes_hobday", D + "_identify_extremes_constant", D + "_compute_histogram_quantile_2d",
   D + "_compute_histogram_quantile_1d", D + "preprocess_data", D + "smoothed_rolling_climatology"],
  rules=["mask_is_first_finite"], observe=["mask, dat_anomaly, extreme_events, thresholds"], min_instances=3)

p("D12", "Output metadata records the processing that was actually applied",
  "The attributes of the returned dataset name the methods, percentile, windows, orders and options actually used, and list a processing "
  "step if and only if it was applied. Neighbour and cell-area arrays given by the caller are returned unchanged in value.",
  INP, "every combination of methods and options",
  "Metadata of most option combinations is never inspected by a test.",
  [D + "preprocess_data", D + "_get_preprocessing_steps", (D + "compute_normalised_anomaly", NORAISE)],
  rules=["metadata_threading"], observe=["attributes of the returned dataset"], min_instances=8)

p("D13", "Standardised anomalies are the anomalies over a cyclic 30-day deviation",
  "When standardisation is requested, and only with harmonic detrending, the standardised anomaly equals the anomaly divided by the "
  "deviation for its calendar day, a deviation smoothed cyclically over the year. Its extremes come from its own thresholds under the same "
  "options as the unstandardised ones.",
  INP, "every input, calendar and option combination",
  "The standardised branch is run by few tests and its values are not recomputed.",
  [D + "_compute_anomaly_detrended", D + "preprocess_data", D + "compute_normalised_anomaly"],
  observe=["dat_stn, STD, extreme_events_stn, thresholds_stn"])

# --------------------------------------------------------------------------------------------------- tracking
p("T01", "Global grids are periodic in longitude and only there; regional ones nowhere",
  "On a global grid every tracking step (hole filling, labelling, centroids, distances, splitting merged events) treats the two "
  "longitude ends as neighbours, so shifting the data in longitude shifts the result; latitude never wraps. In regional mode nothing wraps.",
  INP, "every field, radius and position of an event relative to the seam",
  "Few test events straddle the seam, and one step losing the wrap still yields a plausible result.",
  [T + "fill_holes", T + "identify_objects", T + "calculate_centroid", T + "calculate_object_properties", K + "partition_nn_grid",
   K + "wrapped_euclidian_distance_mask_parallel", K + "wrapped_euclidian_distance_points", K + "create_grid_index_arrays",
   K + "regional_tracker", (T + "__init__", ("attr", "default")), T + "split_and_merge_objects", T + "split_and_merge_objects_parallel",
   K + "partition_centroid_unstructured", K + "partition_nn_unstructured", K + "partition_nn_unstructured_optimised",
   T + "_unify_coordinates", T + "_setup_unstructured_grid", T + "_build_sparse_dilation_matrix", T + "filter_small_objects",
   T + "cluster_rename_objects_and_props"],
  rules=["pad_reach", "regional_gates"], observe=["events"], min_instances=3)

p("T02", "Tracked events never cover masked cells",
  "No cell outside the valid-cell mask belongs to any event, whatever the fill radius, gap filling or splitting did: every step that can "
  "grow the event area is followed by the mask. Cells inside the mask that are neither extreme nor filled never belong to an event.",
  INP, "every mask, field and fill setting, both grid kinds",
  "Tests check the final area of a few synthetic events; growth into a masked cell needs a coast at the right place.",
  [T + "fill_holes", T + "fill_time_gaps", T + "run_preprocess", T + "filter_small_objects", T + "identify_objects", T + "run",
   T + "run_tracking", T + "track_objects", T + "__init__", T + "cluster_rename_objects_and_props", T + "split_and_merge_objects",
   T + "split_and_merge_objects_parallel"],
  rules=["mask_after_growth"], observe=["events", "mask"], min_instances=2)

p("T03", "Small objects are removed by area, inclusively, and the threshold is reported",
  "An object is kept exactly when its area is at least the threshold, which is the given absolute area or the given quantile of all object "
  "areas before filtering; both grid kinds agree and areas are physical when cell areas are given. The reported counts and accepted area "
  "fraction describe that same decision.",
  INP, "every set of objects, quantile and absolute threshold",
  "Ties at the threshold and a quantile of zero are not sampled, and the statistics are not recomputed.",
  [T + "filter_small_objects", T + "run_preprocess", T + "_resolve_area_filtering_parameters", T + "calculate_object_properties",
   T + "compute_area", T + "run_stats_attributes", (T + "__init__", ("attr", "default", "raise")), K + "regional_tracker",
   T + "identify_objects"],
  rules=["inclusive_area_filter", "keep_table_positional"], observe=["events", "preprocessing statistics"], min_instances=3)

p("T04", "Filling closes holes and gaps of the configured size and keeps the grid",
  "Spatial filling closes holes up to the fill radius and removes specks below it, temporal filling bridges gaps up to the configured "
  "number of time steps and no more; a radius or length of zero leaves the data unchanged. Padding added for it is removed exactly, so "
  "the data come back on the same grid and time axis.",
  INP, "every field, radius and gap length, both grid kinds",
  "Tests use one radius and inspect totals; off-by-one sizes and unequal pad and trim change few cells.",
  [T + "fill_holes", T + "fill_time_gaps", K + "sparse_bool_power", T + "_build_sparse_dilation_matrix", T + "run_preprocess",
   T + "_setup_unstructured_grid", (T + "__init__", ("attr", "default", "raise"))],
  rules=["pad_reach", "gap_kernel", "even_t_fill"], observe=["events"], min_instances=3)

p("T05", "Event identifiers are unique, consecutive and identify one connected history",
  "In the result identifier 0 is background and every event has its own positive identifier, numbered without holes from 1; two cells share one exactly "
  "when they are linked through adjacency in space and the recorded overlaps in time. Every identifier "
  "in the field has one entry in the property table and vice versa.",
  ["inputs", "histories"], "every field and history of merging and splitting",
  "Identifier collisions need particular numbers of objects per time step and merges in the same chunk.",
  [T + "identify_objects", T + "cluster_rename_objects_and_props", T + "consolidate_object_ids", T + "track_objects",
   T + "split_and_merge_objects", T + "split_and_merge_objects_parallel", T + "run_tracking", T + "compute_id_time_dict",
   T + "run", T + "calculate_object_properties", T + "refresh_dask_graph", T + "find_overlapping_objects", T + "check_overlap_slice"],
  rules=[], observe=["events and ID_field"])

p("T06", "Objects are linked in time exactly when they overlap enough",
  "Two objects at successive time steps are linked exactly when the area they share is at least the configured fraction of the smaller of "
  "the two; a fraction of zero links any overlap. The same inclusive rule is used when links are found, filtered and re-examined after a "
  "split, in both the serial and the parallel algorithm.",
  ["inputs", "histories"], "every pair of objects, areas and threshold",
  "Overlaps exactly at the threshold and objects of very different size are not sampled.",
  [T + "check_overlap_slice", T + "find_overlapping_objects", T + "enforce_overlap_threshold", T + "consolidate_object_ids",
   T + "split_and_merge_objects", T + "split_and_merge_objects_parallel", T + "track_objects", (T + "__init__", ("attr", "default", "raise")),
   T + "cluster_rename_objects_and_props", T + "run_tracking"],
  rules=["overlap_sites"], observe=["events", "overlap list"], min_instances=3)

p("T07", "A merged object is divided among its parents by proximity, losing nothing",
  "When several events merge, every cell of the merged object is assigned to exactly one of its parents, the nearest one by the configured "
  "measure (parent cells within the search distance, or centroids) under the grid's periodicity, and never to any other event. No cell is lost or counted twice, and "
  "parents appear with the identifiers they had.",
  ["inputs", "histories"], "every merge geometry, number of parents and grid kind",
  "Tests check that merging runs; the assignment of each cell is not recomputed, and unequal distances need particular shapes.",
  [K + "partition_nn_grid", K + "partition_nn_unstructured", K + "partition_nn_unstructured_optimised", K + "partition_centroid_unstructured",
   K + "wrapped_euclidian_distance_mask_parallel", K + "wrapped_euclidian_distance_points", K + "create_grid_index_arrays",
   T + "split_and_merge_objects", T + "split_and_merge_objects_parallel", T + "calculate_centroid"],
  rules=["prange_disjoint", "fastmath_no_inf"], observe=["events around a merge"], min_instances=1)

p("T08", "The merge record agrees with the tracked field",
  "Every recorded merge names parents and children that exist, the time at which they touch, how many there are and the areas they "
  "share, in matching order; every merge that was split is recorded once. Unused slots hold the missing value and never a "
  "valid identifier.",
  ["inputs", "histories"], "every history of merges",
  "Tests look at counts; the entries of a record with several parents or children are not compared with the field.",
  [T + "split_and_merge_objects", T + "split_and_merge_objects_parallel", T + "track_objects", T + "cluster_rename_objects_and_props",
   T + "run_stats_attributes", T + "run_tracking", T + "run", T + "compute_id_time_dict", T + "consolidate_object_ids",
   T + "check_overlap_slice", T + "find_overlapping_objects", T + "enforce_overlap_threshold"],
  rules=[], observe=["merge dataset, event merge ledger"])

p("T09", "Event properties describe the event's own cells",
  "For every event and time its reported area, centroid and presence are those of the cells carrying its identifier at that time, its "
  "first and last times are the earliest and latest such times, and absent times hold missing values. Centroids are area-weighted "
  "correctly across the seam of a global grid and stay within the coordinate range.",
  ["inputs", "histories"], "every field and history",
  "Tests check shapes and a few totals; the properties of every event at every time are not recomputed.",
  [T + "calculate_object_properties", T + "calculate_centroid", T + "compute_area", T + "cluster_rename_objects_and_props",
   T + "compute_id_time_dict", T + "run_stats_attributes", T + "track_objects", T + "split_and_merge_objects",
   T + "split_and_merge_objects_parallel", T + "run_tracking", T + "consolidate_object_ids"],
  observe=["area, centroid, presence, time_start, time_end"])

p("T10", "Coordinates come back in the units they were given in",
  "Coordinates given in degrees or radians yield the same events; results and centroids carry the "
  "caller's original coordinates, names and units. Global longitudes that span a full circle in neither unit are rejected unless the "
  "units are declared, unknown units always, and regional mode needs them declared.",
  INP, "every coordinate convention and region",
  "Tests use one or two conventions; detection near the range borders is not sampled.",
  [T + "_unify_coordinates", T + "_remap_coordinates", (T + "__init__", ("attr", "default", "raise", "effect")), T + "run", T + "run_tracking",
   T + "calculate_centroid", T + "calculate_object_properties", K + "regional_tracker", T + "run_stats_attributes",
   T + "cluster_rename_objects_and_props"],
  rules=["unit_roundtrip", "units_snapshot_first"], observe=["coordinates and centroid of the result"], min_instances=2)

p("T11", "Exceeding a capacity or not converging is an error, never a wrong result",
  "When a merge has more parents or children than the algorithm can hold, or splitting does not settle within its iteration limit, the call "
  "ends with a tracking error that states the limit. It never drops, truncates or overwrites a parent, child or object silently.",
  ["inputs", "histories"], "every number of simultaneous merges and every number of iterations",
  "Reaching a limit needs far more objects than a test can hold.",
  [T + "split_and_merge_objects", T + "split_and_merge_objects_parallel", T + "track_objects", (T + "cluster_rename_objects_and_props", None),
   T + "compute_id_time_dict", T + "refresh_dask_graph", (T + "run", ("raise", "catch", "effect")), (T + "run_tracking", ("raise", "catch", "effect")),
   (T + "filter_small_objects", ("raise",)), (T + "run_preprocess", ("raise", "catch"))],
  rules=["capacity_guards", "bounded_loops_raise"], observe=["exception raised by the call"], min_instances=2)

p("T12", "Restarting from a checkpoint equals not stopping",
  "A run that loads the preprocessed checkpoint uses exactly the field, threshold and statistics that the saving run stored, under the "
  "same names in the same place, for both grid kinds. A run that is not asked to save or load neither writes nor reads it.",
  ["inputs", "configurations", "crash_points"], "every checkpoint mode, grid kind and stop between saving and loading",
  "No stable test saves and reloads a checkpoint.",
  [T + "run", T + "run_preprocess", (T + "__init__", ("attr", "default", "raise", "effect")), T + "refresh_dask_graph", T + "run_tracking",
   (T + "split_and_merge_objects_parallel", ("effect",))],
  rules=["checkpoint_keys"], observe=["checkpoint store and result"], min_instances=1)

p("T13", "Unsupported tracker settings and inputs are rejected, supported ones accepted",
  "A tracker for data or a mask that is not boolean or not lazily chunked, lacks dimensions or coordinates or has no valid cell, or with an odd "
  "gap length, an area threshold out of range or given twice, or missing or contradictory grid information raises an error when it is created. "
  "Every documented setting in range is accepted with its documented default; data split in space are rechunked, not rejected.",
  INP, "every configuration and input",
  "Tests try one bad value per option; borders and combinations are not enumerated.",
  [T + "__init__", T + "_validate_inputs", T + "_resolve_area_filtering_parameters", T + "_validate_spatial_chunking",
   T + "_validate_unstructured_chunking", T + "_unify_coordinates", K + "regional_tracker", (T + "_setup_unstructured_grid", ("raise", "effect")),
   (T + "_configure_warnings", None), (T + "run", ("raise", "default"))],
  rules=["validation_called"], observe=["exception raised by the constructor"], min_instances=3)

p("T14", "Results do not depend on how parallel work is scheduled",
  "The outcome of tracking is the same for every interleaving and placement of parallel work: iterations of parallel loops write disjoint "
  "locations, tasks compute from their arguments alone, and nothing drawn at random or from the clock enters a result.",
  ["schedules", "inputs"], "every schedule of threads, tasks and workers",
  "A race or hidden state shows only under particular schedules; tests observe one.",
  [K + "wrapped_euclidian_distance_mask_parallel", K + "partition_nn_grid", K + "partition_nn_unstructured",
   K + "partition_nn_unstructured_optimised", K + "partition_centroid_unstructured", T + "split_and_merge_objects_parallel",
   K + "wrapped_euclidian_distance_points", K + "<module>", T + "refresh_dask_graph", T + "identify_objects",
   T + "check_overlap_slice", T + "find_overlapping_objects", K + "sparse_bool_power", T + "compute_id_time_dict"],
  rules=["prange_disjoint", "no_ambient_state"], observe=["events and properties"], min_instances=2)

p("T15", "The caller's arrays, dictionaries and plot settings are left unchanged",
  "No public detection, tracking, checkpoint or plotting call modifies the arrays, datasets, dictionaries or lists it was given, their "
  "values, coordinates and attributes included. Calling again with the same arguments gives the same result.",
  ["inputs", "histories"], "every call and argument",
  "Tests build fresh inputs for every call and do not compare them afterwards.",
  [(T + "__init__", ("out", "mutcapture", "attr:data_bin", "attr:mask", "attr:dimensions", "attr:coordinates")),
   (T + "_unify_coordinates", None), (T + "_remap_coordinates", None),
   (D + "preprocess_data", ("out", "mutcapture")), (D + "compute_normalised_anomaly", ("out", "mutcapture")),
   (D + "identify_extremes", ("out", "mutcapture")), (D + "_infer_dims_coords", ("out", "ret", "mutcapture")),
   (D + "rolling_climatology", ("out",)), (D + "smoothed_rolling_climatology", ("out",)), (D + "add_decimal_year", ("out", "ret")),
   (D + "_compute_anomaly_detrended", ("out",)), (H + "checkpoint_to_zarr", ("out",)), (E + "create_*", None),
   (E + "wrap_exception", None), (P + "base.PlotConfig.__post_init__", None), (P + "base.PlotterBase.__init__", None),
   (P + "base.PlotterBase.multi_plot", None), (P + "base.PlotterBase.animate", ("out", "mutcapture"))],
  rules=["no_param_mutation", "aliases_not_mutated", "no_mutable_defaults"], observe=["the caller's objects after the call"], min_instances=20)

p("T16", "The tracking pipeline applies every step once, in order, with the options given",
  "A tracking run fills holes, then gaps, then filters small objects, labels the result, links or splits and merges as configured, and "
  "computes statistics from that same data; each option of the tracker reaches the step it configures. Turning merging off yields "
  "plain connected events, and the merge dataset is returned exactly when asked for.",
  INP, "every combination of options and both grid kinds",
  "Option combinations are too many to run, and most give plausible output when ignored or swapped.",
  [T + "run", T + "run_preprocess", T + "run_tracking", T + "run_stats_attributes", T + "__init__", K + "regional_tracker", T + "track_objects",
   T + "identify_objects", T + "_setup_unstructured_grid", T + "_configure_warnings"],
  rules=["pipeline_order", "tracker_threading"], observe=["events dataset and its attributes"], min_instances=10)

# --------------------------------------------------------------------------------------------------- everything else
p("H01", "A checkpointed array always equals the original",
  "Writing an intermediate array or dataset to a temporary store and reading it back yields the same values, names and chunk sizes; if the "
  "store cannot be written or read back, the original data are returned instead. Removing the temporary store never invalidates the returned data, and nothing outside the "
  "chosen folder is touched.",
  ["inputs", "fault_sequences", "crash_points"], "every array, chunking, failure of the file system and clean-up option",
  "Tests do not inject storage failures or compare values after clean-up.",
  [H + "checkpoint_to_zarr", H + "fix_dask_tuple_array"], rules=["loaded_before_removal"], observe=["returned array, store on disk"])

p("H02", "Clusters are started with the resources asked for, within the machine's limits",
  "A local cluster gets the requested workers and threads, reduced when the machine has fewer cores and never below one; a distributed one "
  "gets the requested nodes, memory, time and account, with unknown node memory sizes rejected. The memory limits and settings "
  "reported are those applied.",
  INP, "every request and machine size",
  "Tests cannot vary the machine or start a batch system.",
  [H + "start_local_cluster", H + "start_distributed_cluster", H + "configure_dask", H + "get_cluster_info", H + "<module>"],
  observe=["client and cluster configuration"])

p("L01", "Verbosity settings take effect, last call wins, quiet beats verbose",
  "After any sequence of verbosity calls the library logs at the level of the last one: verbose gives debug, quiet warnings only, "
  "otherwise normal, and asking for both gives quiet. Repeated configuration never duplicates output, and helper "
  "loggers and other libraries follow the same level.",
  ["histories", "configurations"], "every sequence of configuration calls and environment settings",
  "Tests try single calls; leftovers of earlier calls and combinations are not sampled.",
  [L + "*", L + "<module>"], observe=["log records emitted"])

p("L02", "Timing, progress and memory helpers never change results or hide failures",
  "Wrapping work in the timing, progress, memory or call-tracing helpers neither alters its return value nor its arguments nor swallows "
  "its exceptions; helpers that lack an optional library do nothing. Timing reports cover exactly the wrapped work, "
  "also when it fails.",
  ["inputs", "fault_sequences"], "every wrapped function, outcome and installed set of libraries",
  "Tests wrap a few functions that succeed.",
  [L + "log_timing", L + "log_function_call", L + "progress_bar", L + "create_progress_bar", L + "log_progress", L + "log_memory_usage",
   L + "get_memory_usage", L + "log_dask_info"],
  rules=["wrappers_transparent"], observe=["return values and exceptions of wrapped calls"], min_instances=2)

p("E01", "Every library error carries its type, message, code, details and advice",
  "All library-specific errors are of one family that can be caught as one, each kind with its own default code; the given message, details, "
  "suggestions, code and context are stored unchanged and shown in the text. Converting a foreign exception keeps it as the cause.",
  ["inputs", "programs"], "every error kind, argument combination and wrapped exception",
  "Tests construct some errors with some arguments; the factories' combinations are not enumerated.",
  [E + "*", E + "<module>"], rules=["exception_family"], observe=["exception attributes and text"], min_instances=7)

p("E02", "Failures are reported, never swallowed or turned into default results",
  "When a step of detection, tracking, checkpointing, cluster start or plotting fails, the failure reaches the caller as an exception; code "
  "that catches errors only does so for the specific optional feature it guards and continues with a documented fallback. No "
  "invalid request falls through to a default branch.",
  ["fault_sequences", "inputs"], "every failing step",
  "Tests inject almost no failures.",
  [("*", ("catch",)), (H + "start_local_cluster", ("raise", "catch")), (H + "start_distributed_cluster", ("raise", "catch")),
   (H + "checkpoint_to_zarr", ("raise", "catch")), (P + "base.PlotterBase.animate", ("raise", "catch")),
   (P + "specify_grid", ("raise",)), (P + "unstructured._load_triangulation", ("raise", "catch")),
   (P + "unstructured._load_ckdtree", ("raise", "catch"))],
  rules=["no_new_swallow"], observe=["exceptions reaching the caller"], min_instances=3)

p("K01", "Dependency status is what an import would find",
  "An optional dependency is reported available exactly when importing it works; a feature that requires missing ones fails with an "
  "import error naming exactly those and how to install them; warnings, profile and status report agree with the same facts. "
  "Importing the library never fails because an optional dependency is missing or broken.",
  ["configurations", "fault_sequences"], "every subset of optional dependencies",
  "The test environment has one fixed set installed.",
  ["_dependencies.*", "_dependencies.<module>", "marEx.<module>", P + "base._check_plotting_dependencies", P + "base.<module>",
   P + "gridded.<module>", P + "unstructured.<module>", H + "<module>", P + "<module>"],
  rules=["import_names"], observe=["status functions and exceptions"])

p("P01", "Colour limits, normalisation and colour maps are honoured as given",
  "A plot uses the given normalisation and then no separate limits, else the given limits, else robust ones from the data, symmetric when "
  "asked; identifier plots give each identifier its own colour, reproducibly, without touching the caller's "
  "random state. Single plots, panels and animation frames agree.",
  INP, "every plot configuration and data",
  "Tests check that figures are produced; the limits reaching the drawing call are not compared.",
  [P + "base.PlotterBase._setup_common_params", P + "base.PlotterBase.clim_robust", P + "base.PlotterBase.setup_id_plot_params",
   P + "base.PlotterBase.setup_plot_params", P + "base.PlotterBase.single_plot", P + "base.PlotterBase.multi_plot",
   P + "base.PlotterBase.animate", P + "base.make_frame", P + "gridded.GriddedPlotter.plot", P + "unstructured.UnstructuredPlotter.plot",
   P + "base.PlotConfig.__post_init__", P + "base.PlotterBase._setup_colorbar", P + "base.<module>"],
  rules=["norm_beats_clim"], observe=["arguments of the drawing calls"], min_instances=2)

p("P02", "Plots show every cell at its own coordinates with the right plotter",
  "The grid kind is taken from the caller's declaration when given and otherwise from the data, and unknown kinds are rejected; data are drawn "
  "at their own coordinates under the given names, closed across the date line, for the requested time, in every panel and frame; "
  "the projection and grid lines asked for are used in each. Grid files are loaded once per path and dropped when the grid changes.",
  INP + ["histories"], "every grid kind, naming, sequence of grid declarations and plot kind",
  "Tests check that figures are produced, not where a value is drawn.",
  [P + "_detect_grid_type", P + "specify_grid", P + "PlotXAccessor.*", P + "base.PlotterBase.*", P + "base.make_frame",
   P + "gridded.*", P + "unstructured.*", P + "base._validate_dimensions_exist", P + "base._validate_coordinates_exist",
   P + "base.PlotConfig.__post_init__", P + "<module>", P + "unstructured.<module>", P + "gridded.<module>"],
  observe=["drawing calls"])

p("P03", "Animations contain every time step once, in order",
  "An animation is made of one frame for every time step of the data in time order, each drawn from that step's own data with limits "
  "common to all frames, and the produced file is the one whose path is returned. Without video software nothing is rendered and "
  "no path is returned.",
  INP + ["schedules"], "every number of frames, schedule of frame rendering and configuration",
  "Tests do not render animations.",
  [P + "base.PlotterBase.animate", P + "base.make_frame", P + "PlotXAccessor.*"],
  rules=["frames_in_order", "tasks_own_arguments"], observe=["frame files and video command"], min_instances=1)

p("M01", "The public interface offers what it names",
  "Every name the package and its plotting part declare public is the documented function or class itself, importing them has no effect on "
  "global state beyond registering the accessor, and the module-level constants have their documented values.",
  ["programs"], "every program using the public names",
  "Tests import some of the names.",
  ["marEx.<module>", P + "<module>", D + "<module>", K + "<module>", H + "<module>", E + "<module>", L + "<module>", P + "base.<module>"],
  rules=["exports_resolve"], observe=["imported names"], min_instances=10)

# --------------------------------------------------------------------------------------------------- declined
p("N01", "Approximate thresholds are within one histogram bin of the exact percentile",
  "For every sample the approximate threshold differs from the exact percentile by at most the requested precision in the resolved range.",
  ["inputs"], "every sample", "Numerical bound over all samples.",
  [D + "_compute_histogram_quantile_1d", D + "_compute_histogram_quantile_2d"],
  na="numerical error bound over run-time samples; no static argument in reach bounds it (the structural part - bins, interpolation, range - is D02)")
p("N02", "Results are bit-identical for every chunking of the input",
  "Rechunking the input never changes any flag, identifier or property.",
  ["inputs", "schedules"], "every chunking", "Chunkings cannot be enumerated.",
  [D + "preprocess_data", T + "run"],
  na="depends on the run-time behaviour of dask reductions and floating-point summation order, which the source does not determine; the "
     "structural part - disjoint writes, pure tasks - is T14")
p("N03", "Peak memory stays bounded by the chunk size",
  "Processing a longer time series never needs more memory per worker than a few chunks.",
  ["inputs"], "every data volume", "Needs data larger than memory.",
  [D + "preprocess_data", T + "run"], na="run-time resource quantity of dask's scheduler; not visible in the source")
p("N04", "Splitting of merged events settles",
  "For every input the iterative splitting of merged events reaches a state in which no object has two parents.",
  ["inputs", "histories"], "every field", "Termination over all inputs.",
  [T + "split_and_merge_objects_parallel"],
  na="termination of a data-dependent fixpoint iteration; no ranking argument is visible in the source (that non-convergence is an error is T11)")

BY_ID = {x["id"]: x for x in PROPS}
CLAIMED = [x for x in PROPS if not x["na"]]
