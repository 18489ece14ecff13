"""Writes properties.jsonl (one property per line) from the table below."""
import json
from pathlib import Path

R = "src/stcal/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [R + f for f in files],
            "state": [{"name": a, "meaning": b, "where": R + c} for a, b, c in state],
            "mechanism": [{"name": a, "where": R + b} for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


I, C, H, S, F = "inputs", "configurations", "histories", "schedules", "fault_sequences"

# ---------------------------------------------------------------- detector corrections
p("S01", "Saturation flagging follows thresholds, persists in time, grows in space",
  "A group is flagged saturated exactly when its pixel, or a pixel within the configured neighbour distance, was at or above its saturation threshold (or already carried that flag) in that group or any earlier group of the same integration, and values at or below zero get the A/D-floor and do-not-use flags. Pixels marked as having no saturation check, or with a missing (NaN) threshold, never saturate by themselves, and the mark appears in the output pixel flags; in a zero frame, samples at or above threshold, within the neighbour distance of one, or at or below zero are zeroed. All other group and pixel flags, and the result of every other integration, are unaffected.",
  [I, C], "All ramps, thresholds, reference flags, neighbour distances, integration counts and prior flags; no two-read inputs beyond what the API takes.",
  "Unit tests set one or two bright pixels with constant thresholds; they do not vary neighbour distance, edges, NaN thresholds, prior flags and integrations together.",
  ["saturation/saturation.py"], [("flag_saturated_pixels", "saturation/saturation.py"), ("neighbour growth", "saturation/saturation.py")],
  ["group and pixel flag arrays returned by saturation flagging"])
p("S02", "Grouped-read saturation flags exactly the groups the ramp shows",
  "For groups that average several reads, the group before a saturated one (and its neighbours within the growth distance) also becomes do-not-use exactly if it reaches the threshold scaled by the ratio of the group's mean read to its last read, and the second group becomes do-not-use exactly if the third is saturated, the second is not, the rate of the first group predicts no saturation by the end of the third, and the step from first to second group exceeds (threshold minus first group) divided by the reads of group two. This is judged per pixel and integration with that pixel's bias, and never adds a saturation flag. With single-read groups, or without a read pattern, the additional tests change nothing.",
  [I, C], "All three-or-more-group ramps, read patterns, thresholds and bias images.",
  "Tests use a single hand-built ramp per read pattern.",
  ["saturation/saturation.py"], [("group-2 test", "saturation/saturation.py")], ["group flag array with and without a read pattern"])
p("L01", "Linearity correction is the pixel's polynomial, and only where applicable",
  "Every unsaturated sample with usable coefficients becomes the value of its pixel's correction polynomial at the input value (with a read-level correction: the mean of the polynomial over the individually reconstructed reads of the group); saturated samples and pixels whose coefficient set contains NaN, has a zero linear term or is flagged unusable keep their input value, the latter also carrying the no-linearity-correction flag. A zero frame is corrected by the same polynomial, and group flags are unchanged. The answer for a pixel does not depend on the other pixels in the image.",
  [I, C], "All image contents and sizes, coefficient orders, flag patterns, integrations and zero frames.",
  "Tests use constant images with quadratic coefficients and few flags.",
  ["linearity/linearity.py"], [("linearity_correction", "linearity/linearity.py")], ["corrected ramp, pixel flags and zero frame"])
p("D01", "Dark subtraction removes exactly the matching averaged dark frames",
  "For every integration and group, what is subtracted is the mean of exactly the dark-reference frames that the exposure's frames-per-group and group gap select for that group (linearly extrapolated where a reference covers fewer groups), taken from the dark integration that corresponds to the science integration, also in exposure segments that start later, or the last one when the reference has fewer. NaN dark values subtract nothing, reference flags are OR-ed into the pixel flags, and group flags stay unchanged. A reference whose frame pattern cannot cover the exposure leaves the data unmodified and says it was skipped.",
  [I, C], "All frame averaging patterns, group gaps, group counts, integration counts, exposure segments and 3-D or 4-D references.",
  "Tests fix two or three readout patterns and one integration window.",
  ["dark_current/dark_sub.py", "dark_current/dark_class.py"], [("average_dark_frames", "dark_current/dark_sub.py"), ("subtract_dark", "dark_current/dark_sub.py")],
  ["corrected data, flags, averaged dark returned to the caller"])
# ---------------------------------------------------------------- jump
p("J01", "Two-point jump detection flags exactly the groups that fail the test",
  "With extended-event handling off and no neighbour or after-jump growth, the groups flagged as jumps are exactly those selected by the published two-point-difference rule (iterative clipping against the median with read and photon noise, separate thresholds for 3- and 4-group ramps, minimum usable groups; or sigma clipping across integrations when there are enough), evaluated pixel by pixel. Saturated or do-not-use groups never carry a new jump flag, and all other pre-existing flags are kept.",
  [I, C], "All ramps, noise levels, thresholds, group counts, prior flags and integration counts.",
  "Tests plant one or two jumps with fixed noise; interaction of several jumps, flagged groups, NaNs and integrations is open.",
  ["jump/jump.py", "jump/twopoint_difference.py"], [("find_crs", "jump/twopoint_difference.py"), ("calc_med_first_diffs", "jump/twopoint_difference.py")],
  ["group flags returned by jump detection"])
p("J02", "Jump growth in time and space adds exactly the configured groups",
  "Neighbour flagging adds the jump flag to the four adjacent pixels only for jumps whose strength lies in the configured range and only in the group of the jump; after-jump flagging adds it to the configured number of following groups when the jump exceeds its threshold. Growth never marks saturated or do-not-use groups of the grown pixel and never crosses the image border or the integration boundary. It never removes any flag other than the jump flag of unusable groups.",
  [I, C], "All jump positions (edges, corners, consecutive), strengths, growth parameters and prior flags.",
  "Tests use isolated jumps in the image centre.",
  ["jump/twopoint_difference.py"], [("propagate_flags", "jump/twopoint_difference.py"), ("neighbour flagging", "jump/twopoint_difference.py")], ["group flags with growth on versus off"])
p("J03", "Jump detection does not depend on how the image is split among workers",
  "Detecting jumps with the image split into any number of row slices (worker processes) yields the same group flags, pixel flags and counts as processing the whole image at once. Two deviations that the row-slice design causes are recorded as known findings: after-jump growth of jumps whose flag came from a pixel in another slice, and sigma clipping of a group that is flagged in every pixel of a slice.",
  [S, C, I], "All slice counts up to the number of rows, image heights, jumps on slice borders, with and without neighbour growth.",
  "The multiprocess tests only cover two slices with a hand-placed jump.",
  ["jump/jump.py", "multiprocessing.py"], [("slicing and reassembly", "jump/jump.py"), ("cross-slice neighbours", "jump/jump.py")], ["outputs for max_cores none versus n slices"])
p("J04", "Snowball and shower handling only adds flags, inside the event footprint",
  "Expanding large events only ever adds jump (or saturation) flags, apart from dropping the jump flag of newly saturated groups; no pixel further from a detected event than the configured expansion is touched, and data values are unchanged. Regions with fewer connected jump pixels than the minimum area, and snowballs without the required saturated core away from the image edge, are left alone, and enlarging the jump expansion factor never yields fewer flagged pixels. Groups flagged as showers revert where the flags would leave a pixel without a rate or change its rate by more than the configured amplitude.",
  [I, C], "All blob shapes, sizes, positions incl. edges and non-square images, saturation cores, group and integration counts.",
  "Tests use a few circular blobs in square images.",
  ["jump/jump.py"], [("flag_large_events", "jump/jump.py"), ("find_faint_extended", "jump/jump.py")], ["group flag array before and after"])
# ---------------------------------------------------------------- ramp fitting
p("R01", "OLS slopes and variances equal the documented weighted fit",
  "For every pixel, the per-integration and exposure slope, Poisson variance, read-noise variance and error equal the documented segment-wise optimally weighted least-squares estimate computed from that pixel's usable groups, noise, gain and timing, including the special cases of one- and two-group ramps, zero frames and charge-loss flags (whose read-noise variance is reported as though those groups had been used). Integrations whose groups are all saturated or do-not-use, or whose first group is saturated, give NaN slopes and zero variances, and integrations with only jump-flagged groups give slope zero.",
  [I, C], "All group counts, flag patterns (jumps, saturation, do-not-use, charge loss, persistence), integrations, gains, noises, timings and zero frames.",
  "Tests pin particular ramps to stored numbers; combinations of segment structures, special one- and two-group cases, several integrations and noise regimes are not covered.",
  ["ramp_fitting/ramp_fit.py", "ramp_fitting/ols_fit.py", "ramp_fitting/src/slope_fitter.c"], [("segment computation", "ramp_fitting/src/slope_fitter.c"), ("weighted fit", "ramp_fitting/src/slope_fitter.c")],
  ["rate and rateints products"])
p("R02", "OLS ramp flags collapse to integration and exposure flags as documented",
  "A pixel's integration flags are its input pixel flags plus jump, saturated and persistence if any of its groups has the flag, and do-not-use exactly if every group is saturated or do-not-use, the first group is saturated (and no zero frame stands in for it), or the gain is invalid; exposure flags combine integrations with OR, except do-not-use which needs every integration. Slopes are NaN exactly where these flags say the result is unusable.",
  [I, C], "All combinations of group flags, pixel flags, gains and integrations.",
  "Tests enumerate a handful of flag combinations.",
  ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ramp_fit.py", "ramp_fitting/utils.py"], [("flag statistics", "ramp_fitting/src/slope_fitter.c")], ["flag arrays of rate and rateints products"])
p("R03", "Ramp fitting treats pixels independently of layout, slicing and unused samples",
  "A pixel's fit depends only on its own samples: permuting pixels, splitting the image over any number of workers, array memory layout or byte order, and arbitrary values (including NaN) in saturated or do-not-use groups leave every slope, variance, error and flag of every pixel unchanged. The caller's science values are not modified by the fit.",
  [S, I, C], "All images, slice counts, permutations, byte orders, strides and garbage in unusable groups.",
  "Tests compare one multiprocess configuration on nearly constant data.",
  ["ramp_fitting/ols_fit.py", "ramp_fitting/src/slope_fitter.c"], [("slicing and reassembly", "ramp_fitting/ols_fit.py"), ("byte-order handling", "ramp_fitting/ols_fit.py")], ["products for transformed inputs"])
p("R04", "The optional fit product describes exactly the fitted segments",
  "When requested, the optional product holds, in order, one entry per fitted segment of every pixel and integration with the slope, intercept, uncertainties, variances and weight of that segment, zero elsewhere, no more planes than the largest segment count, plus each jump's magnitude in order and a pedestal. Combining its segments reproduces the integration results, and requesting it does not change any other output.",
  [I, C], "All segment structures, integrations and slice counts.",
  "Tests check a few entries of a few ramps.",
  ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ols_fit.py"], [("optional results", "ramp_fitting/src/slope_fitter.c")], ["optional product with save on/off"])
p("R05", "Native fitting code is memory-safe and free of undefined behaviour",
  "For every input the interface accepts, and for malformed inputs it rejects (wrong type, rank or size), the compiled fitters never read or write outside their buffers, use freed or uninitialised memory, or execute undefined arithmetic. Bad input and failed memory allocations produce an exception, not a crash.",
  [I, F], "All shapes, layouts, flag patterns, special float values, empty dimensions and wrong array types.",
  "Plain tests cannot see out-of-bounds or uninitialised accesses that happen not to crash.",
  ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ols_cas22/_fit.pyx", "ramp_fitting/ols_cas22/_ramp.pyx", "ramp_fitting/ols_cas22/_jump.pyx"], [("array access", "ramp_fitting/src/slope_fitter.c")], ["sanitizer reports, process status"])
p("R06", "Native fitting code releases everything it acquires",
  "Repeating a fit any number of times, successful or rejected, leaves the process's native heap and the reference counts of all argument arrays where they were, and results never depend on earlier calls.",
  [H, I, F], "All sequences of successful and failing calls with any segment structure and with or without optional results.",
  "Tests make single calls and do not observe memory.",
  ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ols_cas22/_fit.pyx"], [("cleanup paths", "ramp_fitting/src/slope_fitter.c")], ["heap in use, reference counts, outputs on repetition"])
p("C01", "Casertano ramp fits equal the published weighted estimator",
  "For each pixel the returned slope and read/Poisson/total variances equal, to single precision, the Casertano (2022) estimator applied to every maximal run of unflagged resultants and combined with inverse-read-variance weights; runs of one resultant contribute nothing, and units are honoured. The caller's arrays are not modified, and a pixel's result does not depend on the other pixels.",
  [I, C], "All read patterns (uneven reads, gaps), resultant counts, flags, noise levels and array shapes or units.",
  "Tests check statistical scatter of one read pattern and a few flags.",
  ["ramp_fitting/ols_cas22_fit.py", "ramp_fitting/ols_cas22/_ramp.pyx", "ramp_fitting/ols_cas22/_fit.pyx"], [("fit_ramp", "ramp_fitting/ols_cas22/_ramp.pyx")], ["parameters, variances and dq outputs"])
p("C02", "Casertano jump search splits ramps exactly by its statistic",
  "With jump detection on, the resultants newly flagged are exactly those found by recursively splitting each run at its largest single/double-difference statistic while that exceeds the slope-dependent threshold; flagged resultants get the jump flag in the returned flags only, and the fit equals the no-detection fit on the resulting flags.",
  [I, C], "All ramps, jump positions and sizes, thresholds, read patterns and prior flags.",
  "Tests count detections for single jumps in one pattern.",
  ["ramp_fitting/ols_cas22/_jump.pyx", "ramp_fitting/ols_cas22/_fit.pyx"], [("fit_jumps", "ramp_fitting/ols_cas22/_jump.pyx")], ["returned flags and fits"])
p("K01", "Likelihood fit equals dense generalised least squares",
  "For every pixel the likelihood fit's slope, uncertainty, Poisson and read-noise variances and chi-squared equal generalised least squares on the used group differences with the documented read and photon covariance, evaluated at the rate estimated by the jump search, independent of the other pixels. Exposure values combine integrations by inverse variance, with the Poisson variance rescaled to the combined rate, and flags follow the same collapse rules as the standard fit.",
  [I, C], "All read patterns, group counts, masks, count rates, gains and noises.",
  "Tests compare a few constant-rate ramps with stored numbers.",
  ["ramp_fitting/likely_fit.py", "ramp_fitting/likely_algo_classes.py"], [("fit_ramps", "ramp_fitting/likely_fit.py"), ("Covar", "ramp_fitting/likely_algo_classes.py")], ["rate and rateints products"])
p("K02", "Likelihood jump search uses true leave-out chi-squared and reports its flags",
  "The likelihood algorithm omits exactly the differences (single, or pairs around a group of several reads) whose removal lowers the dense chi-squared by more than the threshold, the best candidate first, repeating until nothing qualifies or too few differences remain, and never uses a difference touching an unusable or already flagged group. It records each omitted difference as a jump in the caller's group flags without removing any flag, and a repeated fit of the same input gives the same result.",
  [I, C, H], "All ramps with any number of jumps, masks, thresholds, read patterns and zero frames; repeated fits of the same data.",
  "Tests plant single jumps.",
  ["ramp_fitting/likely_fit.py", "ramp_fitting/likely_algo_classes.py"], [("mask_jumps", "ramp_fitting/likely_fit.py")], ["group flags after the fit, per-difference masks"])
# ---------------------------------------------------------------- resample
p("A01", "Resampling conserves flux, weight and provenance",
  "Combining images onto an output grid conserves total weight and weighted flux of the good input pixels that land inside it, gives every output pixel the weighted mean of what was dropped on it, marks in the context exactly the inputs that contributed to it, and leaves pixels nobody reached at the fill value. Do-not-use pixels, pixels excluded by the good-bits choice, and pixels of zero weight contribute nothing; weights follow the chosen weight type (exposure time, inverse variance) and pixels within a pixel or two of the output edge or without sky coordinates may be left out.",
  [I, C], "All numbers of inputs (beyond 32), offsets, rotations, scales, pixel fractions, kernels, weight types, flags and fill values.",
  "Tests use a few aligned images and check summary values.",
  ["resample/resample.py", "resample/utils.py"], [("add_model", "resample/resample.py"), ("build_driz_weight", "resample/utils.py")], ["output data, weight and context arrays"])
p("A02", "Resampled variance and error arrays obey error propagation",
  "Each resampled variance component equals the weight-squared propagation of the input component over the inputs that contributed (missing or non-positive input variances contribute nothing, undefined ones leave that input out there), and the error array is the square root of the sum of the available components or the direct error drizzle, as configured. Inverse-variance weights use that same input's read-noise variance, or equal weights where it is missing, and never values of another input.",
  [I, C, H], "All weight types, sets of available variance arrays per input, orders of inputs and NaN patterns.",
  "Tests check uniform variances with all components present.",
  ["resample/resample.py"], [("resample_variance_arrays", "resample/resample.py"), ("finalize", "resample/resample.py")], ["output variance and error arrays"])
p("A03", "Resampling results depend only on the inputs added, not on history",
  "The product after adding a set of inputs equals that of a fresh accumulator given the same inputs: adding in another order or after finalize-and-reset gives the same images and the same exposure-time, start/end and pointing totals, the times of each group of inputs being counted once. Inputs are never modified, and an input that is refused leaves no trace in the product.",
  [H, I, C], "All sequences of add, finalize and reset; all groupings of inputs into exposures.",
  "Tests run add-then-finalize once.",
  ["resample/resample.py"], [("reset_arrays", "resample/resample.py"), ("update_total_time", "resample/resample.py")], ["output model after each history"])
p("A04", "Pixel maps agree with the two coordinate systems and leave them untouched",
  "The map between two coordinate systems gives, for every input pixel, the output position of the same sky point, exactly without a step and to interpolation accuracy with one, with undefined positions only where the coordinate systems have none; pixel areas, ranges and inverse-variance or exposure weights derived from it match their definitions. Both coordinate systems are left exactly as they were, bounding boxes included, also when the computation fails.",
  [I, C, F], "All shapes, steps, interpolation orders, bounding-box settings and coordinate systems; failures injected in the transforms.",
  "Tests use one image size and step.",
  ["resample/utils.py", "alignment/resample_utils.py"], [("calc_pixmap", "alignment/resample_utils.py")], ["pixel map; bounding boxes before/after"])
# ---------------------------------------------------------------- outlier detection
p("O01", "Streaming median equals the NaN-median for every buffer size",
  "The median over a stack of images is the per-pixel NaN-median of all images added, identical between in-memory and on-disk operation for every buffer size, image shape, floating-point type and number of images, and no section read back from disk exceeds the requested buffer (or one row). All temporary files are gone once the median was evaluated or the object is released, also when it is abandoned half-way.",
  [I, C, F], "All image shapes, stack sizes, buffer sizes, NaN patterns, dtypes; abandonment at any point.",
  "Tests use a handful of shapes with a default buffer.",
  ["outlier_detection/median.py"], [("MedianComputer", "outlier_detection/median.py"), ("on-disk arrays", "outlier_detection/median.py")], ["computed median; contents of the temporary directory"])
p("O02", "Outlier masks follow the signal-to-noise and derivative criteria",
  "A pixel is flagged exactly when it deviates from the model image by more than the noise threshold plus (when a blotted comparison is given) the scaled local gradient allowance, evaluated on the documented two-pass criterion with the second threshold applied only in the 3 by 3 neighbourhood of first-pass detections; NaN never flags by itself, and NaN noise counts as zero. Weight masking marks exactly pixels below the given fraction of the 3-sigma-clipped mean of finite nonzero weights.",
  [I, C], "All images, noise arrays, thresholds, backgrounds, gradients, NaN patterns and shapes.",
  "Tests use one injected outlier.",
  ["outlier_detection/utils.py"], [("flag_crs", "outlier_detection/utils.py"), ("flag_resampled_crs", "outlier_detection/utils.py"), ("compute_weight_threshold", "outlier_detection/utils.py")], ["boolean masks"])
p("O03", "Blotting maps the sky image back with values and fill preserved",
  "Blotting a median image to a detector grid interpolates it bilinearly at the same sky positions, keeps the surface-brightness scale, fills positions outside the source with the fill value, and does not change either coordinate system. A constant image blots to that constant wherever covered, and sparse pixel maps give the same result to interpolation accuracy.",
  [I, C], "All pairs of coordinate systems, shapes, fill values and offsets.",
  "Tests use identity transforms.",
  ["outlier_detection/utils.py"], [("gwcs_blot", "outlier_detection/utils.py")], ["blotted array"])
# ---------------------------------------------------------------- sky matching
p("M01", "Sky matching recovers relative backgrounds and subtracts what it reports",
  "Images that differ only by constant backgrounds end up with equal sky levels within each connected set after matching, the reported sky of each image is exactly what is subtracted (nothing is subtracted when subtraction is off), members of a group share one change, and the order of images does not change relative levels. In the global methods every input, also one without valid sky, gets the smallest measured sky; in the match and local methods images with no valid sky keep their data and do not disturb the rest.",
  [I, C, H], "All methods, overlap graphs (chains, islands), offsets, groups, masks and image orders, including images without valid pixels.",
  "Tests use a chain of constant images with all pixels valid.",
  ["skymatch/skymatch.py", "skymatch/skyimage.py"], [("skymatch", "skymatch/skymatch.py"), ("overlap computation", "skymatch/skyimage.py")], ["image data, reported sky values"])
p("M02", "Sky statistics respect masks, overlaps and clipping limits",
  "The sky value and pixel count of an image equal the selected clipped statistic over exactly its valid pixels that lie inside the overlap with the other footprint and within the configured limits. Masks of any boolean or integer type mean the same, and pairwise overlap areas are symmetric and equal to the common area of the footprints.",
  [I, C], "All statistics, limits, clipping settings, masks and overlap polygons.",
  "Tests evaluate full-frame statistics.",
  ["skymatch/skyimage.py", "skymatch/skystatistics.py"], [("calc_sky", "skymatch/skyimage.py"), ("SkyStats", "skymatch/skystatistics.py")], ["returned statistic and pixel counts"])
# ---------------------------------------------------------------- alignment / WCS
p("W01", "Output coordinate systems contain their inputs at the requested geometry",
  "The coordinate system built for a set of footprints contains every footprint corner within its pixel area (at most one pixel beyond, unless a shape or reference pixel is given), has the requested pixel scale, orientation, reference sky point, reference pixel and shape, and sky-to-pixel conversions round-trip. Results do not depend on where on the sky (poles, RA wrap) the same configuration lies.",
  [I, C], "All footprint sets anywhere on the sky (poles, RA wrap), scales, rotations, ratios and explicit shapes or reference values.",
  "Tests use one or two footprints near one sky position.",
  ["alignment/util.py"], [("wcs_from_sregions", "alignment/util.py"), ("wcs_from_footprints", "alignment/util.py")], ["returned coordinate system"])
p("W02", "Combined sky footprints cover the union of their inputs, and nothing else",
  "Combining region strings of convex inputs yields polygons whose union equals the union of the inputs (gaps fully enclosed by inputs counting as covered) to pixel-level tolerance, cut to the given outline: every input corner stays inside or on the boundary, uncovered sky stays outside, and disjoint groups stay separate. The result does not depend on the input order or on repeating an input.",
  [I, C], "All sets of overlapping, touching, contained, disjoint and duplicated footprints, detector bounding boxes, sky positions.",
  "Tests use a few axis-aligned squares.",
  ["alignment/resample_utils.py"], [("combine_sregions", "alignment/resample_utils.py")], ["combined region string"])
p("W03", "Footprint and sky-geometry helpers agree with the coordinate system",
  "Reported footprints, region strings, reference sky points, pixel scales and position angles equal those computed directly from the coordinate system's sky positions, also around RA 0 and the poles. Region strings carry nine decimals, and parsing a written region string gives back its vertices.",
  [I, C], "All celestial coordinate systems, bounding boxes, rotations, parities and sky positions.",
  "Tests use one sky position.",
  ["alignment/util.py", "alignment/resample_utils.py"], [("compute_scale", "alignment/util.py"), ("compute_s_region_imaging", "alignment/util.py")], ["returned values"])
# ---------------------------------------------------------------- tweakreg
p("T01", "Relative and absolute alignment recover the displacement that was injected",
  "Given catalogs of the same stars seen through displaced coordinate systems, relative and absolute alignment yield corrected coordinate systems whose predicted star positions agree with the reference to within the catalog noise, equal to what the documented settings (fit geometry, clipping, minimum matches, search radius, separation, tolerance, offsets) give in the alignment library. Images of one group move rigidly together (absolute alignment moves all images as one), images that fail keep their coordinates, and everything reported in the fit summary matches the applied correction. Too close separations, a single group, confused sources, too few reference sources, or a correction that moves an image by more than twice the search radius plus tolerance raise the documented error.",
  [I, C, H], "All shifts, rotations and scale changes within tolerance, fit geometries, group structures, image orders and insufficient-match situations.",
  "Tests align three images with one shift and need the network for the absolute part.",
  ["tweakreg/tweakreg.py"], [("relative_align", "tweakreg/tweakreg.py"), ("absolute_align", "tweakreg/tweakreg.py")], ["corrected coordinate systems and fit information"])
p("T02", "Catalogs, reference files and pointing angles reach alignment as given",
  "Preparing a source catalog keeps exactly the sources inside the bounding box (all of them without one), in order and with all their values; reference-catalog files are accepted with RA and DEC columns in any case, else with sky positions in one column, and rejected with a clear error when positions are missing or ambiguous or the file is unknown. User tables and files are not modified. The reference sky point and roll angle extracted from a coordinate system, also a corrected one, are those it was built with.",
  [I, C], "All tables, column spellings, bounding boxes, file formats and coordinate systems.",
  "Tests use one small table.",
  ["tweakreg/tweakreg.py", "tweakreg/utils.py"], [("filter_catalog_by_bounding_box", "tweakreg/tweakreg.py")], ["returned tables"])
p("T03", "Reference-catalog queries return exactly the sources of the requested field",
  "A reference catalog holds exactly the service's sources within the requested cone, faintest to brightest, limited to the requested number of brightest (a negative number: faintest) when asked; with an epoch, only sources with known proper motion are kept and moved to it, including parallax for the object store. A service failure, error message or truncated answer surfaces as a request error and a timeout as a timeout error within the time asked for, never as a partial table or a hang, and trying again works. The cone requested for a set of coordinate systems covers all of their footprints.",
  [I, C, F], "All cone positions (poles, RA wrap), radii, partition layouts, epochs, limits and injected service faults.",
  "Tests need the network and query one field.",
  ["tweakreg/astrometric_utils.py", "tweakreg/_s3_catalog.py"], [("cone search", "tweakreg/_s3_catalog.py"), ("create_astrometric_catalog", "tweakreg/astrometric_utils.py")], ["returned table, elapsed time, error raised"])
# ---------------------------------------------------------------- rest
p("V01", "Velocity aberration obeys special relativity",
  "For every target and observer velocity, the scale factor and corrected direction equal the special-relativistic aberration formula: zero velocity changes nothing, motion along the line of sight leaves the direction unchanged, the apparent shift is towards the velocity, right ascension stays in its range, and reversing the velocity inverts the scale to first order.",
  [I], "All sky directions including poles and RA wrap, all sub-light speeds, and missing velocity values.",
  "Tests check two numeric examples.",
  ["velocity_aberration.py"], [("compute_va_effects", "velocity_aberration.py")], ["returned scale, RA and Dec"])
p("P01", "Worker counts are always between one and the available work",
  "Whatever core setting is given, the number of workers is at least one, never more than the number of cores available or of rows to process, follows the requested fraction or number, and unrecognised settings mean one worker.",
  [C, I], "All strings, fractions, integers, core counts and row counts.",
  "Tests use four strings.",
  ["multiprocessing.py"], [("compute_num_cores", "multiprocessing.py")], ["returned count"])
# ---------------------------------------------------------------- process
p("N01", "Failing worker processes surface as errors and leave nothing behind",
  "When a worker process of jump detection or ramp fitting dies, is killed or runs out of memory, the call raises an error, or gives exactly the undisturbed result, instead of hanging or returning a partial one. No worker process is left running afterwards, and later calls give the undisturbed result.",
  [F, S], "All points of a worker's life at which it may be killed or denied memory, numbers of slices, both steps.",
  "Tests never lose a worker.",
  ["jump/jump.py", "ramp_fitting/ols_fit.py"], [("detect_jumps_data", "jump/jump.py"), ("ols_ramp_fit_multi", "ramp_fitting/ols_fit.py")], ["returned products or error, elapsed time, child processes"])
p("N02", "Library calls leave the process as they found it",
  "A call into the library leaves process-wide state as it was: floating-point error handling, warning filters, random states, logging set-up, environment, working directory, signal handlers, locale and import path. Once it returns and its objects are gone, no thread, child process or open file is left, nor a file nobody asked for.",
  [H, I], "All calls the workloads of the other properties make, successful or failing, in processes whose state is not the default one.",
  "Tests run in one process each with default state and look at results only.",
  ["ramp_fitting/ols_fit.py", "outlier_detection/median.py", "tweakreg/tweakreg.py"], [("errstate and warning contexts", "ramp_fitting/ols_fit.py"), ("temporary files", "outlier_detection/median.py")], ["process state before and after each call"])
p("N03", "Results depend on arguments only, not on history, threads or environment",
  "Repeating a call with equal arguments gives equal results, whatever calls came before it, whatever runs at the same time in other threads on other data, and in any process: hash seed, time zone, working directory, temporary directory and optimisation level do not matter. The same holds for what a call does to arguments it works on in place.",
  [H, S, C], "All orders and concurrent combinations of calls the workloads of the other properties make, and process environments.",
  "Tests make each call once, in one thread, in a fixed order.",
  ["ramp_fitting/src/slope_fitter.c", "jump/twopoint_difference.py", "skymatch/skymatch.py"], [("C ramp fitter", "ramp_fitting/src/slope_fitter.c"), ("jump detection", "jump/jump.py")], ["arguments and results of each call"])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
