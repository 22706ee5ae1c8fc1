#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/kikuchipy/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(
        spec=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=quant), why_tests_cant=why,
            anchors=dict(files=[S + f for f in files],
                         mechanism=[dict(name=a, where=S + b) for a, b in mech]),
        ),
        technique=technique, note=note,
    ))


prop(
    "A01", "Background removal, rescaling and normalisation act per pattern as defined",
    "Static and dynamic background correction, get_dynamic_background(), "
    "rescale_intensity(), normalize_intensity() and adaptive_histogram_equalization() "
    "give, for every pattern on its own, the documented formula: (pattern minus or "
    "divided by its background), stretched to the range of the output data type; the "
    "background being the given or stored static pattern (optionally rescaled to the "
    "pattern), or the pattern convolved with a Gaussian truncated at truncate*std "
    "(default std width/8). The data type is the one asked for (else unchanged), "
    "integer intensities reach both ends of the type's range and never wrap around. "
    "Backgrounds of other shape or type, and contradictory arguments, are rejected "
    "with ValueError and change nothing.",
    ["inputs"], "for all patterns, data types, map and pattern shapes, operations and "
    "parameters",
    "tests compare a handful of pixels of one 3x3 data set against stored numbers; an "
    "error that depends on aspect ratio, data type range, window parity or a parameter "
    "combination does not show there",
    ["pattern/_pattern.py", "pattern/chunk.py", "filters/fft_barnes.py",
     "signals/_kikuchipy_signal.py", "signals/ebsd.py"],
    [("per-pattern kernels", "pattern/_pattern.py"),
     ("EBSD.remove_static_background/remove_dynamic_background", "signals/ebsd.py"),
     ("KikuchipySignal2D.rescale_intensity/normalize_intensity",
      "signals/_kikuchipy_signal.py")],
    "runtime monitoring: differential oracle (double-precision reference) over "
    "generated patterns, data types and parameters",
    "exploration: seeded random inputs; integer results within one grey level",
)

prop(
    "A02", "Pattern operations do not depend on how they are executed",
    "Every pattern operation gives the same patterns, axes, detector, crystal map and "
    "static background whether run eagerly or lazily, in place or out of place, with "
    "lazy_output set either way, whatever the Dask chunks (also chunk borders running "
    "through patterns), scheduler and task order. In-place calls return nothing and "
    "keep laziness; lazy_output decides the laziness of what is returned.",
    ["inputs", "schedules", "configurations"],
    "for all operations, chunkings, task orders the dependencies allow and execution "
    "modes",
    "tests run one or two chunkings on small data with the default scheduler; chunk "
    "border and ordering errors need particular chunkings",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/util/_dask.py",
     "signals/util/_map_helper.py", "pattern/chunk.py"],
    [("get_dask_array, chunk overlap depth", "signals/util/_dask.py"),
     ("in-place store and attribute transfer", "signals/ebsd.py")],
    "runtime monitoring: metamorphic oracle across execution modes, with a hostile "
    "Dask scheduler that permutes task order",
    "exploration: random chunkings (ragged, through patterns) and random, deep-first "
    "and wide-first task orders",
)

prop(
    "A04", "Map-neighbourhood quantities equal their definitions at every map point",
    "average_neighbour_patterns() gives at each map point the window-weighted mean of "
    "the patterns that exist inside the map, stretched to the data type's range; "
    "neighbour dot product matrices hold the dot products of the (optionally zero-mean "
    "and normalised) patterns within the window, NaN elsewhere, their average map the "
    "mean over neighbours without the point itself; image quality is one minus the "
    "pattern's spectral inertia over its maximum. This holds for any window (even, "
    "fractional, one-dimensional, larger than the map) and any chunks.",
    ["inputs", "configurations"],
    "for all maps, windows, data types, normalisation options and chunkings",
    "tests use 3x3 odd windows on a 3x3 map; parity, border and weight errors cancel",
    ["signals/ebsd.py", "signals/util/_map_helper.py", "signals/util/_dask.py",
     "pattern/chunk.py", "pattern/_pattern.py", "filters/window.py"],
    [("EBSD.average_neighbour_patterns", "signals/ebsd.py"),
     ("_neighbour_dot_products", "signals/util/_map_helper.py"),
     ("get_image_quality", "pattern/_pattern.py")],
    "runtime monitoring: point-by-point reference model over generated maps and windows",
    "exploration: seeded random maps up to 9x9 and windows up to 5x5",
)

prop(
    "G01", "Crystal map, detector and background follow the patterns",
    "After slicing (inav, isig), cropping, binning, downsampling, grid extraction, "
    "copying and changes of laziness or data type, in any order, the crystal map "
    "describes exactly the points whose patterns are left, in order and with the "
    "signal's step sizes; the detector has the patterns' shape, the projection centers "
    "of these points, each pointing in the same direction as before relative to the "
    "pixels left, and the other detector parameters; and the static background has the "
    "pixels left. Where this cannot be described the attribute is dropped or reset, "
    "never left misaligned, and attributes that do not fit are rejected with "
    "ValueError. extract_grid() returns as many evenly spaced points as asked for.",
    ["inputs", "histories"],
    "for all map and pattern shapes, slices (negative, stepped, calibrated) and "
    "sequences of operations",
    "tests slice one 3x3 signal with positive bounds once; misalignment shows up with "
    "negative or calibrated bounds, one-dimensional maps, sequences",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/util/_crystal_map.py",
     "signals/util/array_tools.py", "detectors/_ebsd_detector.py"],
    [("_update_custom_attributes", "signals/ebsd.py"),
     ("EBSD.crop/rebin/extract_grid", "signals/ebsd.py"),
     ("EBSDDetector.crop", "detectors/_ebsd_detector.py")],
    "runtime monitoring: every pixel stamped with its map point and detector pixel; "
    "an invariant monitor decodes the stamps after every operation of random histories",
    "exploration: seeded random signals and histories of up to six operations",
)

prop(
    "B01", "Projection center conventions and detector files round trip",
    "A projection center given in the Bruker, EDAX TSL, Oxford or EMsoft (before and "
    "from version 5) convention, under any of its names, denotes the documented "
    "physical point for any detector shape, binning and pixel size, is returned in every "
    "convention accordingly, and survives saving the detector in any convention and "
    "loading it, together with the shape, map shape and every detector parameter. "
    "Setting single coordinates or the map shape, copying, reading and saving change "
    "nothing else. Unknown conventions and values that are not numbers are rejected "
    "with ValueError.",
    ["inputs", "configurations"],
    "for all detector shapes, binnings, pixel sizes, map shapes of PCs and conventions",
    "tests convert a few PCs on a few detectors; non-square detectors, pixel sizes, "
    "aliases and map shapes combine",
    ["detectors/_ebsd_detector.py", "io/_detectors.py"],
    [("EBSDDetector.pc_*/convention", "detectors/_ebsd_detector.py"),
     ("read/write_ebsd_detector_*file", "io/_detectors.py")],
    "runtime monitoring: random detectors, each PC compared after every conversion, "
    "setter, save and load with the documented formulas in double precision",
    "exploration: seeded random detectors, all conventions and names",
)
prop(
    "B02", "Detector coordinates agree with the projection geometry",
    "Gnomonic ranges, the distance to the farthest corner, and the conversions between "
    "pixel and gnomonic coordinates follow from the projection center of each map point "
    "alone, and the conversions are each other's inverse, for all points at once or one "
    "at a time. A cropped detector or a binned screen sees every direction in the same "
    "physical place. The rotation from the sample to the detector is a proper rotation "
    "composed of the sample tilt, detector tilt, azimuthal and twist angles about the "
    "documented axes, and each angle moves features the documented way.",
    ["inputs", "configurations"],
    "for all detector shapes, projection centers, map shapes, crops, binnings and angles",
    "tests check a handful of detectors with few PCs; the relations hold between "
    "conversions, crops and angles for all of them",
    ["detectors/_ebsd_detector.py", "detectors/_convert_detector_coordinates.py"],
    [("gnomonic ranges, to_gnomonic/pixel_coords, crop, sample_to_detector",
      "detectors/_ebsd_detector.py")],
    "runtime monitoring: random detectors against double precision geometry, and "
    "metamorphic monitors (inverse, crop, binning, each angle's effect)",
    "exploration: seeded random detectors",
)
prop(
    "B03", "Projection center planes and sample tilts are recovered",
    "Projection centers extrapolated from given ones lie on the plane through their mean "
    "with the documented slopes for any step sizes, detector shape, pixel size, binning "
    "and tilts; centers fitted from exact ones (projective or affine) are the exact "
    "plane at all map points, and the affine fit of noisy ones is the least squares "
    "plane. Tilts estimated from a plane of centers are those of the plane, and the "
    "fitted sample tilt is the sample's also when the detector is tilted. Centers marked "
    "as outliers have no influence, outliers off a line are detected, and requests that "
    "cannot be fitted are rejected with ValueError.",
    ["inputs", "configurations"],
    "for all planes of PCs, positions, step sizes, detector tilts and outlier masks",
    "tests fit one plane of an untilted detector; sign errors show up with tilted "
    "detectors, scattered positions, and masks",
    ["detectors/_ebsd_detector.py", "detectors/_fit_projection_center.py"],
    [("extrapolate_pc, fit_pc, estimate_xtilt(_ztilt)", "detectors/_ebsd_detector.py"),
     ("fit_plane_to_pc", "detectors/_fit_projection_center.py")],
    "runtime monitoring: PC planes built from the documented equations, results "
    "compared with the plane; least squares solved independently",
    "exploration: seeded random planes; two known findings (documented index shape, "
    "pairs with outliers)",
)
prop(
    "C01", "Projected patterns show what each pixel sees of the master pattern",
    "Each pixel of a pattern from get_patterns() is the master pattern of the asked "
    "energy (nearest; highest if not given), interpolated bilinearly in the crystal "
    "direction the pixel center looks along for that orientation, projection center and "
    "detector, from the hemisphere the direction is in; a single hemisphere of a "
    "centrosymmetric crystal gives what both give. Intensities are kept when the data "
    "type is and stretched over the output range per pattern otherwise; lazy, chunked "
    "and eager projection, and one center or the same repeated, agree, a cropped "
    "detector gives cropped patterns, and orientations, phase and detector are attached "
    "in order. Unsuitable master patterns and mismatched shapes are rejected.",
    ["inputs", "configurations"],
    "for all orientations (1D, 2D), projection centers, detectors, hemispheres, "
    "energies, data types and chunkings",
    "tests project a few orientations of cubic crystals on square detectors; wrong "
    "hemispheres, chunk alignment and 2D orders show elsewhere",
    ["signals/ebsd_master_pattern.py", "signals/_kikuchi_master_pattern.py",
     "signals/util/_master_pattern.py", "_utils/numba.py"],
    [("get_patterns", "signals/ebsd_master_pattern.py"),
     ("projection kernels, Lambert mapping", "signals/util/_master_pattern.py"),
     ("hemisphere and energy selection", "signals/_kikuchi_master_pattern.py")],
    "runtime monitoring: every projected pixel compared with a double precision model of "
    "the geometry, plus metamorphic monitors over crops, tilts, chunkings",
    "exploration: seeded random detectors, orientations and asymmetric master patterns",
)
prop(
    "C02", "Lambert conversion keeps the intensity of every direction",
    "A stereographic master pattern converted with as_lambert() holds, in each pixel, "
    "the intensity of the crystal direction of that pixel in the equal-area projection, "
    "for every energy and hemisphere, as 32-bit floats, with axes, phase and hemisphere "
    "kept and the original unchanged. Patterns projected from the result are those of "
    "the function on the sphere that the original sampled. Lambert patterns are copied "
    "with a warning and lazy ones rejected.",
    ["inputs", "configurations"],
    "for all sizes, energies, hemispheres and smooth intensity functions",
    "tests compare one nickel pattern to a stored one; an analytic function on the "
    "sphere tells where every pixel has to come from",
    ["signals/_kikuchi_master_pattern.py", "signals/util/_master_pattern.py"],
    [("as_lambert", "signals/_kikuchi_master_pattern.py"),
     ("_lambert2vector", "signals/util/_master_pattern.py")],
    "runtime monitoring: analytic functions on the sphere as oracle, per pixel and end "
    "to end through the projection onto detectors",
    "exploration: seeded random polynomials; tolerances from interpolation order",
)
prop(
    "C03", "Simulated bands, lines and zone axes lie where the lattice puts them",
    "A kinematical master pattern is, in every direction, the sum of the (linear, "
    "squared or unit) structure factors of the reflectors whose Bragg band holds the "
    "direction, half of it on the plane itself, independent of the number "
    "of threads. A geometrical simulation shows exactly the reflectors facing the "
    "detector within the largest gnomonic radius, as chords of the circle of that radius "
    "along their lattice planes, and the zone axes on the detector where pairs of them "
    "intersect, in gnomonic and pixel coordinates alike, for each orientation and "
    "projection center. Markers and labels are at these coordinates.",
    ["inputs", "schedules", "configurations"],
    "for all crystal structures, reflectors, orientations, projection centers, detector "
    "shapes and thread counts",
    "tests use nickel with a handful of reflectors and cannot see lost updates between "
    "threads",
    ["simulations/kikuchi_pattern_simulator.py",
     "simulations/_kikuchi_pattern_simulation.py",
     "simulations/_kikuchi_pattern_features.py"],
    [("get_pattern, on_detector", "simulations/kikuchi_pattern_simulator.py"),
     ("coordinates, markers, collections", "simulations/_kikuchi_pattern_simulation.py"),
     ("plane traces", "simulations/_kikuchi_pattern_features.py")],
    "runtime monitoring: brute force sum over reflectors per direction; repeated runs on "
    "1 to n threads with few pixels and many reflectors (race detection); independent "
    "projection of planes and directions",
    "exploration: seven crystal structures, seeded random orientations and detectors",
)
prop(
    "D01", "Dictionary indexing returns the best matches in all of the dictionary",
    "Dictionary indexing gives every pattern which is not masked out the n best patterns "
    "of the whole dictionary by the similarity metric, best first, with their scores, "
    "dictionary indices and orientations, at the pattern's point of the map. The result "
    "does not depend on how dictionary or patterns are divided into iterations or "
    "chunks, and follows the metric's own sense of better, range, masks and data type. "
    "A metric passed in can be used again as if new.",
    ["inputs", "schedules", "configurations"],
    "for all patterns, dictionaries, built-in and user-defined metrics, numbers of best "
    "matches, iterations, masks, data types and chunkings",
    "tests use one dictionary of simulated nickel patterns and metrics where higher is "
    "better",
    ["indexing/_dictionary_indexing.py", "indexing/similarity_metrics", "signals/ebsd.py"],
    [("_dictionary_indexing", "indexing/_dictionary_indexing.py"),
     ("similarity metrics", "indexing/similarity_metrics"),
     ("dictionary_indexing", "signals/ebsd.py")],
    "runtime monitoring: every result compared to all-pairs similarities computed in "
    "double precision, under shuffled task orders, with user-defined metrics of either "
    "sign",
    "exploration: seeded random patterns, dictionaries, masks, iterations and chunkings",
)

prop(
    "D02", "Merged crystal maps take the best map in each point; similarity maps count",
    "A crystal map merged from several has in each point the phase, orientations, scores "
    "and indices of the map with the best mean of its n best scores there, and the scores "
    "of all maps in order of merit, with points and steps where they were. Equal phases "
    "become one, phases only sharing a name are kept apart, and points covered by some "
    "maps only take these into account. An orientation similarity map has in each point "
    "the mean number of matches shared with the neighbours.",
    ["inputs", "configurations"],
    "for all maps, shapes, steps, numbers of matches, score senses, masks and footprints",
    "tests use square steps and a few fixed maps",
    ["indexing/_merge_crystal_maps.py", "indexing/_orientation_similarity_map.py"],
    [("merge_crystal_maps", "indexing/_merge_crystal_maps.py"),
     ("orientation_similarity_map", "indexing/_orientation_similarity_map.py")],
    "runtime monitoring: results compared point by point to a direct search over maps and "
    "to neighbour sets counted with Python sets",
    "exploration: seeded random maps of up to 4 phases, masked or partly covered",
)

prop(
    "D03", "Refinement reports true scores, improves them and stays in the trust region",
    "The score reported for a refined pattern is the correlation of that pattern with the "
    "projection of the master pattern at the refined orientation and projection center, "
    "using unmasked pixels only. It is not lower than at the start for local methods, the "
    "result is within the trust region if one is given, and the best of pseudo-symmetric "
    "starting points is chosen and told. Results are placed at the points of their "
    "patterns, and other points are left out or not indexed.",
    ["inputs", "configurations", "schedules"],
    "for all patterns, orientations, detectors, masks, optimization methods, and modes "
    "(orientation, projection center or both)",
    "tests assert single scores of a nine-pattern nickel data set",
    ["indexing/_refinement", "signals/ebsd.py", "signals/util/_crystal_map.py"],
    [("solvers", "indexing/_refinement/_solvers.py"),
     ("setup and results", "indexing/_refinement/_refinement.py"),
     ("points to refine", "signals/util/_crystal_map.py")],
    "runtime monitoring: each reported score recomputed from an independent projection "
    "and compared to that at the start; trust regions and layout checked point by point",
    "exploration: seeded random problems; NLopt is replaced by a stand-in",
)

prop(
    "D04", "Refinement of one pattern does not depend on others, threads or history",
    "A pattern is refined to the same result whether alone or among others, in any order, "
    "number of chunks or threads, now or later, and whatever was refined before or is "
    "waiting to be computed. Refinement leaves the maps, detectors, arrays and options "
    "passed to it as they were, so that using them again gives the same result.",
    ["schedules", "histories", "inputs"],
    "for all task orders and thread interleavings, chunkings, sequences of refinements "
    "and methods",
    "tests run each refinement once, on few patterns",
    ["indexing/_refinement", "signals/ebsd.py"],
    [("solvers", "indexing/_refinement/_solvers.py"),
     ("_RefinementSetup", "indexing/_refinement/_refinement.py"),
     ("_prepare_patterns_for_refinement", "signals/ebsd.py")],
    "runtime monitoring: results of repeated runs under shuffled task orders and threads "
    "switching every microsecond compared to a sequential run; arguments compared before "
    "and after",
    "exploration: seeded random problems and schedules; NLopt is replaced by a stand-in",
)

prop(
    "F01", "Signals saved and loaded come back the same",
    "An EBSD signal written with save() and read with load(), eagerly or lazily, has the "
    "same patterns (every value, data type and map position), axes, crystal map, "
    "detector with all its projection centers, static background (or none) and "
    "microscope metadata in the package's HDF5 format, the same patterns and axes in "
    "HyperSpy's, and the same 8-bit patterns in map order in NORDIF's. Each scan of a "
    "file holding several is the one read by its name, and goes back to the file it came "
    "from; the file and format written are the ones asked for. Saving lazy signals "
    "never waits for tasks while holding the HDF5 library's lock.",
    ["inputs", "histories", "schedules"],
    "for all map dimensions, pattern shapes, data types, chunks, crystal maps (phases, "
    "points not indexed or not in the data, several matches per point), detectors, "
    "backgrounds, slices, scan numbers and save and load cycles",
    "tests save and load one 3x3 map of one phase and compare parts of it; losses that "
    "depend on the map's dimension, data type, phases, missing background, laziness or "
    "scan number do not show, and a deadlock only rarely",
    ["io/_io.py", "io/plugins/kikuchipy_h5ebsd/_api.py", "io/plugins/_h5ebsd.py",
     "io/plugins/nordif/_api.py", "signals/ebsd.py"],
    [("EBSD.save", "signals/ebsd.py"), ("kikuchipy.load", "io/_io.py"),
     ("writer and reader", "io/plugins/kikuchipy_h5ebsd/_api.py")],
    "runtime monitoring: round-trip oracle over generated signals and histories of "
    "files; lock monitor at every Dask computation",
    "exploration: seeded random signals; detector pixel size equals the signal axes' "
    "scale",
)

prop(
    "F03", "Saving keeps what is on disk already, unless told to replace it",
    "A save refused (by argument, answer or lack of a terminal) leaves an existing file "
    "as it is, and a scan added to a file leaves all scans in it as they are and never "
    "takes the number of one of them; files of others are not added to. A save which "
    "fails, because patterns cannot be computed or arguments are wrong, keeps the scans "
    "in the file added to and leaves it usable, and patterns read lazily from a file "
    "survive being saved to it. Saving does not change the signal.",
    ["inputs", "histories", "fault_sequences"],
    "for all formats, arguments, answers, histories of scans added, failing tasks and "
    "lazy or eager signals",
    "tests try one refusal and one added scan; a lost scan after several steps, a failing "
    "task or a file read while it is written is not among them",
    ["io/_io.py", "io/_util.py", "io/plugins/kikuchipy_h5ebsd/_api.py",
     "io/plugins/nordif/_api.py", "signals/ebsd.py"],
    [("overwrite and add_scan decisions", "io/_io.py"),
     ("KikuchipyH5EBSDWriter", "io/plugins/kikuchipy_h5ebsd/_api.py"),
     ("file_writer", "io/plugins/nordif/_api.py")],
    "runtime monitoring: file digests and HDF5 content compared over histories of saves "
    "with scripted answers and injected faults",
    "exploration: no process kill while writing; a failed overwrite of an HDF5 file may "
    "lose the old file",
)
prop(
    "F02", "Patterns in vendors' files are read to where they were measured",
    "A file of a supported vendor (Bruker, EDAX, Oxford Instruments and NORDIF HDF5, "
    "binary or image files, EMsoft simulations and master patterns, directories of "
    "images) is read, eagerly or lazily, with every stored pattern unchanged at its map "
    "position, whatever the order, region of interest or subset it is stored in, and "
    "with black patterns where a map was interrupted. Step sizes, the projection center "
    "of each pattern (converted from the vendor's convention), detector and sample "
    "tilts, binning, pixel size, static background and microscope settings are those of "
    "the file. Layouts that are not supported are rejected.",
    ["inputs", "configurations"],
    "for all map shapes, pattern shapes and data types, storage orders and layouts, file "
    "versions, scan names, hemispheres, projections and energies, read lazily or not",
    "tests read one example file per vendor: 3x3 square maps of patterns in order, "
    "projection centers all equal; misplaced patterns, swapped axes or swapped "
    "projection centers of other layouts do not show",
    ["io/plugins/bruker_h5ebsd/_api.py", "io/plugins/edax_h5ebsd/_api.py",
     "io/plugins/oxford_h5ebsd/_api.py", "io/plugins/edax_binary/_api.py",
     "io/plugins/oxford_binary/_api.py", "io/plugins/nordif/_api.py",
     "io/plugins/ebsd_directory/_api.py", "io/plugins/emsoft_ebsd/_api.py",
     "io/plugins/_emsoft_master_pattern.py", "io/plugins/_h5ebsd.py"],
    [("H5EBSDReader", "io/plugins/_h5ebsd.py"),
     ("OxfordBinaryFileReader", "io/plugins/oxford_binary/_api.py"),
     ("EMsoftMasterPatternReader", "io/plugins/_emsoft_master_pattern.py")],
    "runtime monitoring: readers run on files of independent writers of each format; "
    "every pattern and parameter compared to what was written",
    "exploration: seeded random files; formats as documented by the package",
)
prop(
    "G02", "Virtual backscatter electron images sum the detector regions shown",
    "A virtual backscatter electron image holds, for each pattern, the sum of exactly "
    "the detector pixels inside the region of interest in calibrated detector "
    "coordinates, whatever the data type, laziness, detector scale and offset. The tiles "
    "of a detector grid cover the detector once, are the tiles drawn and labelled on a "
    "pattern, and grids finer than the detector are refused. Colour images hold the sum "
    "over each channel's regions, stretched as documented, keep the axes of the map, and "
    "leave patterns and the alpha image unchanged.",
    ["inputs", "configurations"],
    "for all maps, detector shapes, data types, detector scales and offsets, grids, "
    "regions and stretching settings",
    "tests use one map with square pixels at the origin and compare mean intensities; a "
    "region moved by an offset, scale or swapped axis gives a plausible image",
    ["imaging/vbse.py", "signals/ebsd.py", "signals/virtual_bse_image.py"],
    [("VirtualBSEImager", "imaging/vbse.py"),
     ("get_virtual_bse_intensity", "signals/ebsd.py")],
    "runtime monitor comparing images, tiles and drawn markers of generated signals to "
    "explicit sums over detector pixels",
    "bounded by workload: maps up to 2-D, detectors up to 24 pixels wide")
prop(
    "A05", "Fourier transforms, filters and binning of patterns equal their definitions",
    "fft(), ifft() and fft_spectrum() are the (centred, apodized, real) discrete Fourier "
    "transform and its inverse for any shape; fft_filter() multiplies spectra with the "
    "transfer function, or correlates patterns with the kernel extending them by their "
    "edge pixels for kernels of any size, and downsample() sums blocks of pixels, the "
    "results being stretched over the data type's range. The functions for single "
    "patterns and chunks of them do the same as the methods, for integers as for floats. "
    "No function changes the patterns, spectra, kernels and windows given to it.",
    ["inputs", "configurations"],
    "for all pattern and kernel shapes, parities, data types, transfer functions and "
    "laziness",
    "tests compare a few symmetric filters on square float patterns to stored values; odd "
    "shapes, integers, kernels larger than patterns and arguments used again are not seen",
    ["pattern/_pattern.py", "pattern/chunk.py", "filters/fft_barnes.py",
     "signals/ebsd.py"],
    [("fft, ifft, fft_filter", "pattern/_pattern.py"),
     ("_pad_image, _fft_filter", "filters/fft_barnes.py"),
     ("_downsample2d", "pattern/_pattern.py")],
    "runtime monitor comparing every result to the DFT by its matrix definition or to "
    "spatial correlation in double precision, and arguments to their values before",
    "bounded by workload: patterns up to 40 pixels wide, kernels up to 22",
)


prop(
    "A06", "Windows and filter functions have the values, shape and origin documented",
    "A window has, in one or two dimensions of any size, the values of the function named "
    "with the arguments given by name (the outer product of two in 2D), zero outside the "
    "half width of the longest axis if circular, and its origin, distances, neighbours "
    "and name accordingly; low and high pass functions follow their formulas. A window "
    "made from an array leaves the array alone, and is not changed by copying, plotting or "
    "being used. Invalid shapes, types and names are rejected.",
    ["inputs", "configurations"],
    "for all names, arguments in any order, shapes and arrays",
    "tests hold stored values for a few odd square windows; even, one-pixel and oblong "
    "ones and arrays shared with the user are not among them",
    ["filters/window.py"],
    [("Window", "filters/window.py"), ("lowpass_fft_filter", "filters/window.py")],
    "runtime monitor comparing generated windows to the formulas and to SciPy called by "
    "keyword, and arrays to their values before",
    "bounded by workload: windows up to 11 elements wide (1D functions up to 39)",
)
prop(
    "A07", "A decomposition model is the truncated decomposition of the patterns",
    "A model of chosen components of a decomposed signal is, in memory, lazily or written "
    "to file, the product of those factors and loadings plus any mean taken off, which for "
    "the first n components is the best approximation of rank n. It keeps the axes, "
    "detector, background and data type asked for. Building it changes neither the signal "
    "nor its learning results, and leaves no other files.",
    ["inputs", "configurations"],
    "for all signals, lists and numbers of components, chunkings and file formats",
    "tests compare the mean intensity of models of a single nine-pattern signal",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/util/_dask.py"],
    [("EBSD.get_decomposition_model", "signals/ebsd.py"),
     ("LazyEBSD.get_decomposition_model_write", "signals/ebsd.py"),
     ("_update_learning_results, _rechunk_learning_results", "signals/util/_dask.py")],
    "runtime monitor comparing model signals and files to NumPy's truncated SVD and to the "
    "product of factors and loadings, and the directory and signal to what they were",
    "bounded by workload: up to 24 patterns up to 12 pixels wide",
)
prop(
    "D05", "Hough indexing assigns to each point what its pattern was indexed as",
    "Indexing a map by Hough transforms gives, at every point's position and in the map's "
    "step sizes and unit, the orientation, phase and quality found for that point's "
    "pattern (points not indexed marked so), whatever the chunk size, and the same data "
    "converted afterwards give the same map. The indexer made from a detector has its "
    "shape, projection centers, tilts and the phases and reflectors given, and projection "
    "centers optimised with it belong to the patterns in order. Signals, detectors, phase "
    "lists and data passed stay as they were, and an indexer for other patterns, centers, "
    "conventions or phases is rejected.",
    ["inputs", "configurations"],
    "for all maps, phase lists, reflectors, chunk sizes and detectors",
    "tests index a single three by three map of one phase, and never a single pattern",
    ["indexing/_hough_indexing.py", "signals/ebsd.py", "detectors/_ebsd_detector.py"],
    [("xmap_from_hough_indexing_data", "indexing/_hough_indexing.py"),
     ("EBSD.hough_indexing, hough_indexing_optimize_pc", "signals/ebsd.py"),
     ("EBSDDetector.get_indexer", "detectors/_ebsd_detector.py")],
    "runtime monitor comparing maps to the orientations patterns were simulated with, to "
    "generated index data and to PyEBSDIndex called directly, and arguments to copies",
    "bounded by workload: cubic phases, up to 30 patterns of 60 pixels, no OpenCL",
)
prop(
    "E01", "Compiled functions stay inside the arrays they are given",
    "No accepted input makes a compiled function read or write outside its arrays: not "
    "patterns and maps of a single row, column or pixel, even and odd shapes, masks leaving "
    "little, windows bigger than the map, orientations on poles, equator and borders of "
    "tiny master patterns, detectors far off or through the source point, or optimizers on their "
    "way there. Inputs that cannot be handled are refused instead.",
    ["inputs", "configurations"],
    "for all inputs accepted by operations with compiled inner loops",
    "an index out of bounds is not noticed when the tests run, unless it happens to crash",
    ["signals/util/_master_pattern.py", "pattern/_pattern.py", "pattern/chunk.py",
     "indexing/_refinement/_solvers.py", "simulations/kikuchi_pattern_simulator.py",
     "detectors/_ebsd_detector.py", "filters/fft_barnes.py"],
    [("_get_pixel_from_master_pattern, _get_lambert_interpolation_parameters",
      "signals/util/_master_pattern.py"),
     ("_bin2d, _rescale_with_min_max", "pattern/_pattern.py"),
     ("_rescale_neighbour_averaged_patterns", "pattern/chunk.py")],
    "Numba's bounds checking sanitizer (all functions compiled anew with it) under the "
    "workloads of the other checks and of borders; a planted overflow shows it is on",
    "bounded by workload; compiled functions only (Python and NumPy check themselves)",
)
prop(
    "A03", "Calls leave what they are given alone, and do not remember earlier ones",
    "An operation that is not asked to work in place changes none of the objects it is given "
    "(signals, detectors, maps, masks, windows, master patterns, keyword arguments) and no "
    "setting of the process, whether it succeeds or is refused. Its result depends only on "
    "those objects, and not on which calls came before: in a long history it is the same as "
    "alone in a fresh process. Changing a returned signal or detector in place afterwards "
    "does not reach back into what it came from.",
    ["histories", "inputs"],
    "for all sequences of calls on shared objects",
    "tests make one call on objects of their own, so that neither leftovers of earlier calls "
    "nor changes to shared objects are seen",
    ["signals/ebsd.py", "signals/_kikuchipy_signal.py", "signals/_kikuchi_master_pattern.py",
     "signals/ebsd_master_pattern.py", "detectors/_ebsd_detector.py", "pattern/_pattern.py",
     "indexing/_refinement/_refinement.py", "indexing/_merge_crystal_maps.py",
     "filters/window.py", "simulations/kikuchi_pattern_simulator.py", "imaging/vbse.py"],
    [("_get_custom_attributes, _set_custom_attributes, deepcopy",
      "signals/_kikuchipy_signal.py"),
     ("_update_custom_attributes", "signals/ebsd.py"),
     ("deepcopy, crop", "detectors/_ebsd_detector.py")],
    "random histories of calls on a shared pool: a monitor fingerprints all objects and "
    "process settings before and after each call, and compares its result with that of the "
    "same call in a process forked before any",
    "bounded by 55 operations and histories of six calls; hidden state shows only if it "
    "changes a result, an object or a setting",
)
prop("B04",
     "Projection centers from a moving screen are the source point's",
     "Given the positions of two or more features in patterns from two positions of a "
     "screen, the calibration returns the projection center that the features were "
     "projected from, and the distances moved, in every convention and whether given in "
     "pixels, microns or millimetres. Pairs of features that meet outside the screen are "
     "left out of the mean and the error. Points, pixel size or distance changed "
     "afterwards count, and figures draw the features and the estimate where they are.",
     ["inputs", "histories"],
     "for all source points on and off the screen, numbers and directions of features, "
     "shapes, binnings, units, conventions and changes afterwards",
     "A wrong sign, axis or unit gives PCs that look plausible; tests compare two "
     "patterns with numbers from a former run.",
     ["src/kikuchipy/detectors/_calibration.py",
      "src/kikuchipy/draw/_ebsd_detector_plot.py"],
     [("pairs of lines intersected", "src/kikuchipy/detectors/_calibration.py"),
      ("outliers outside the screen", "src/kikuchipy/detectors/_calibration.py"),
      ("figure", "src/kikuchipy/draw/_ebsd_detector_plot.py")],
     "runtime monitoring: synthetic scenes projected from a known source point; oracle on "
     "estimates, errors and figures",
     "exploration over seeded scenes")
prop("G03",
     "Figures show detectors, projection centers and patterns where they are",
     "Side and top views show the detector and (mean) projection center in the geometry "
     "that patterns are projected with, and the detector plane, maps and scatter plots of "
     "projection centers and marked positions in maps show the values they are given at "
     "the coordinates they belong to. An interactive figure shows, after any sequence of "
     "its controls, what a figure drawn afresh from the same settings would, and changes "
     "the detector passed only when asked to. Colour navigators keep order and proportions "
     "over the full range of the data type asked for.",
     ["inputs", "histories", "configurations"],
     "for all detectors, coordinate systems, options, map shapes and sequences of controls",
     "Users calibrate by eye in these figures; tests count artists.",
     ["src/kikuchipy/draw/_ebsd_detector_plot.py",
      "src/kikuchipy/draw/_ebsd_detector_plotter.py",
      "src/kikuchipy/draw/_navigators.py",
      "src/kikuchipy/draw/_plot_pattern_positions_in_map.py",
      "src/kikuchipy/draw/_projection_center_plot.py"],
     [("side and top views", "src/kikuchipy/draw/_ebsd_detector_plot.py"),
      ("overlays and controls", "src/kikuchipy/draw/_ebsd_detector_plotter.py"),
      ("positions", "src/kikuchipy/draw/_plot_pattern_positions_in_map.py")],
     "runtime monitoring: artists of figures read back and compared with an independent "
     "geometry; random walks over the controls of interactive figures",
     "exploration over seeded detectors and control sequences")

#NEXT

NOT_APPLICABLE = []


def main():
    have = [p for p in P if os.path.exists(
        os.path.join(HERE, "kpmon", "checks", p["spec"]["id"] + ".py"))]
    import re
    for p in P:
        n = len(re.findall(r"[.](?:\s+(?=[A-Z])|$)", p["spec"]["statement"]))
        assert n <= 3, (p["spec"]["id"], n)
        assert len(p["spec"]["title"]) <= 80
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["spec"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="python3 run.py --setup",
        checks=[
            dict(
                property=p["spec"]["id"],
                quick_cmd=f"python3 run.py {p['spec']['id']} --tier quick",
                thorough_cmd=f"python3 run.py {p['spec']['id']} --tier thorough",
                evidence_file=f"evidence/{p['spec']['id']}.json",
                technique=p["technique"], level="exploration", level_note=p["note"],
            )
            for p in have
        ],
        not_applicable=NOT_APPLICABLE,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "checks")


if __name__ == "__main__":
    main()
