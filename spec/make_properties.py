"""Source of /verif/properties.jsonl (run: python3 spec/make_properties.py)."""
import json, os
P = []

def prop(pid, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": ["algotom/" + f for f in files],
            "state": [{"name": a, "meaning": b} for a, b in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": False}})

I = ["inputs"]; IC = ["inputs", "configurations"]

prop("A01", "Processing functions never modify the caller's arrays",
     "Calling any public processing, reconstruction, calibration or post-processing function leaves every array that the caller passed in (image, sinogram, stack, flat, dark, mask, weights, coordinates) exactly as it was. Results are returned, never written back into an argument, for every option that the function offers.",
     IC, "all array contents (zeros, negative values, edge-touching masks included), all shapes, all option combinations",
     "Tests compare returned values only; an argument is overwritten only for particular contents (non-positive pixels, masks that touch the border) or options (log enabled, no padding, zero sigma), which no test inspects afterwards.",
     ["prep/removal.py", "prep/conversion.py", "prep/correction.py", "prep/filtering.py", "prep/calculation.py", "rec/reconstruction.py", "rec/vertrec.py", "util/utility.py", "util/calibration.py", "post/postprocessing.py"],
     [("copy-before-write in each function", "every function of algotom/prep, algotom/rec, algotom/util, algotom/post that assigns into an array")],
     ["arguments after the call"])

prop("A02", "Flat-field correction is (P-D)/(F-D) with dead pixels made harmless",
     "The corrected data equals (projection - dark)/(ratio*flat - dark) at every pixel where that denominator is non-zero (projection/(ratio*flat) when the dark field is not used), with flat and dark broadcast over the leading axis. Where the denominator is zero it is replaced by the mean denominator (or by one if that mean is zero), so a finite input never meets a zero divisor. Filters given as options are then applied in the given order to the corrected image, or, for a 3D chunk, to each of its sinograms separately.",
     IC, "all 2D/3D data, 1D/2D flat and dark fields, any position and number of dead pixels, any exposure ratio, dark used or not",
     "Tests use one flat field and constant data; the dead-pixel branches and the ratio/dark combinations depend on pixel contents.",
     ["prep/correction.py"], [("flat_field_correction", "algotom/prep/correction.py")], ["return value"])

prop("A03", "Stitching keeps geometry and blends the overlap with weights summing to one",
     "Stitching two images of widths w1 and w2 with overlap v gives an image of the same height and width w1+w2-v: the non-overlapping parts are the (intensity-matched) inputs unchanged, and inside the overlap the output is a linear cross-fade whose two weights lie in [0,1], sum to one, and go to zero at each image's own edge. Stitching on either side is the mirror image of the other, a larger requested total width only replicates the last column, and images of different height are rejected.",
     IC, "all image sizes, every overlap from 2 columns up to the narrower image, both sides, normalisation on/off, any requested total width, fractional overlaps for the geometry",
     "Tests stitch one random image with itself at a fixed overlap; unequal widths, the other side and extreme overlaps are never compared pixel by pixel.",
     ["prep/conversion.py"],
     [("make_weight_matrix / stitch_image / stitch_image_multiple", "algotom/prep/conversion.py")], ["return value"])

prop("A04", "Joining images leaves a gap of the requested width, filled by interpolation",
     "Joining two images across a gap of g columns gives width w1+w2+g in which every column further than the repaired seam (two columns on the left image, three on the right) is the corresponding input column, intensity-matched if requested. The seam columns are linear interpolation between the nearest kept columns of the same row, on either side and for any requested total width.",
     IC, "all image sizes (at least six columns), gaps, both sides, normalisation on/off, any requested total width",
     "Tests check only output shapes for one size.",
     ["prep/conversion.py"], [("join_image / join_image_multiple", "algotom/prep/conversion.py")], ["return value"])

prop("A05", "360-degree conversions and the returned rotation centre agree",
     "Converting a 360-degree sinogram to 180 degrees pairs row r with the mirrored row half a turn later, overlaps the two halves consistently with the given centre of rotation (given as a position or as overlap and side), and returns the centre referred to the new image; extending a 360-degree sinogram returns twice the data padded to the same centred geometry, the overlap weighted so that opposite views sum to full weight. Converting 180 to 360 degrees keeps the original rows and appends rows mirrored about the given centre.",
     IC, "all sinogram sizes, centres on either side (integral and half-integral overlaps exactly, others for geometry), log on/off, normalisation on/off",
     "Tests use one phantom and compare the returned centre loosely; the geometry for arbitrary sizes and sides is not covered.",
     ["prep/conversion.py"],
     [("convert_sinogram_360_to_180 / convert_sinogram_180_to_360 / extend_sinogram", "algotom/prep/conversion.py")], ["return value"])

prop("A06", "Helical-scan sinograms read the right rows and refuse impossible requests",
     "Each row of a sinogram generated from a helical scan is the linear interpolation of the two detector rows bracketing the requested height in the corresponding projection, flat-field corrected with the same rows of the flat and dark, within the cropped field of view. Projection and row indices never leave the data: a request that would need one outside is rejected with an error, and the returned angle list matches the rows one to one.",
     IC, "all scan geometries (pitch, pixel size, travel), slice indices, crops, both scan types, with or without flat/dark/mask/angles",
     "Tests generate a few indices of one synthetic scan; index arithmetic is real-valued and only breaks for particular pitch/crop/height combinations.",
     ["prep/conversion.py", "prep/calculation.py"],
     [("generate_sinogram_helical_scan / generate_full_sinogram_helical_scan", "algotom/prep/conversion.py"), ("calculate_maximum_index / calculate_reconstructable_height", "algotom/prep/calculation.py")], ["return value", "raised error"])

prop("A07", "Distortion correction agrees between image, single-sinogram and chunk paths",
     "Correcting distortion of a whole projection, of one sinogram, or of a chunk of sinograms samples the data at the same polynomial-model positions clipped to the detector, so row i of the corrected projection, sinogram i, and the i-th sinogram of any chunk containing it are the same. With the identity model the data come back unchanged, for any selection of projections and any chunk up to the last row.",
     IC, "all data sizes (including detectors taller than 32767 rows for index arithmetic), distortion centres, coefficients for which the model is order-preserving, chunk bounds, projection selections",
     "Tests compare loosely on one 64x64 set with interior chunks; the cropping window that the chunk path reads is data-size and coefficient dependent.",
     ["prep/correction.py", "util/utility.py"],
     [("unwarp_projection / unwarp_sinogram / unwarp_sinogram_chunk", "algotom/prep/correction.py"), ("mapping", "algotom/util/utility.py")], ["return value"])

prop("A08", "Tilted sinograms and profiles agree between single and chunk paths",
     "A tilted sinogram or intensity profile samples each image along the line through the requested row, rotated about the image centre by the given angle and clipped to the image, and the chunk functions return exactly the lines from the start index to the stop index inclusive, each equal to the single-line result. At zero tilt each line is the image row itself, for every projection selection.",
     IC, "all image sizes, indices, angles, chunk bounds, projection selections",
     "Tests check shapes and one angle; the row window read for a chunk depends on size, angle and bounds.",
     ["prep/correction.py"],
     [("generate_tilted_sinogram / generate_tilted_sinogram_chunk / generate_tilted_profile_line / generate_tilted_profile_chunk", "algotom/prep/correction.py")], ["return value"])

prop("A09", "Downsampling reduces complete cells only, alike for images and datasets",
     "Each output pixel of a downsampled image or volume is the chosen statistic (mean, minimum, maximum exactly; median of medians per axis) of its own cell of input pixels inside the cropped region, incomplete cells at the far edges being dropped. The result for a dataset does not depend on whether it is an array, an HDF file or a folder of images, nor on the output container.",
     IC, "all sizes, cell sizes (scalar or per axis), methods, crops, containers",
     "Tests compare shapes for cells that divide the size; remainders, anisotropic cells and crops are not compared.",
     ["post/postprocessing.py"],
     [("downsample / downsample_dataset", "algotom/post/postprocessing.py")], ["return value", "written files"])

prop("A10", "Rescaling to 8 or 16 bit is monotone, clipped and uses the full range",
     "Rescaling maps the given minimum (and everything below) to 0 and the given maximum (and everything above) to 255 or 65535, is linear in between up to truncation, and never wraps around or reverses the order of two pixels. Without given limits the data's own extremes are used, other bit depths are refused, and rescaling a dataset equals rescaling each cropped slice with one common pair of limits, whatever the container.",
     IC, "all contents, limits with minimum < maximum, 8/16 bit, arrays, HDF files and folders, crops",
     "Tests check the extremes of one random image; order preservation and common limits are relations over all pixels and slices.",
     ["post/postprocessing.py"], [("rescale / rescale_dataset", "algotom/post/postprocessing.py")], ["return value", "written files"])

prop("A11", "Reslicing transposes the cropped volume whatever the chunking and container",
     "Reslicing a dataset along an axis yields, in order, every cross-section of the cropped volume along that axis with nothing lost, duplicated, shifted or taken from outside the crop, for any chunk size, for image folders and HDF files as input, and for both output containers. Temporary data are removed afterwards and no file or folder that existed before is deleted.",
     IC, "all volume sizes, crops, chunk sizes, axes, input and output containers",
     "Tests use two crops and one chunk size and compare one container; chunk remainders and crop offsets multiply.",
     ["post/postprocessing.py", "io/loadersaver.py"],
     [("reslice_dataset and its intermediate-file writer", "algotom/post/postprocessing.py")], ["written files", "directory contents"])

prop("A12", "Dataset statistics aggregate exactly the sampled, cropped slices",
     "The statistics of a dataset are the minimum of minima, maximum of maxima, minimum and maximum of the slice percentiles, mean of slice means, median of slice medians and mean of slice variances over exactly the slices of the cropped region visited with the given step. They are the same for an array, an HDF file and a folder of images.",
     IC, "all volumes, crops, steps, percentiles, containers",
     "Tests check minimum and maximum on one volume; the other fields and crops are not compared.",
     ["post/postprocessing.py"],
     [("get_statistical_information / get_statistical_information_dataset", "algotom/post/postprocessing.py")], ["return value"])

prop("A13", "Loading and converting selects exactly the requested images and region",
     "Loading stacks from image folders or HDF files, converting a folder to HDF and extracting images from HDF deliver exactly the requested images, in file order, restricted to exactly the requested crop, dark- and flat-corrected by the same crop of the supplied fields. Indices or crops that select nothing or lie outside the data are refused or clamped as documented, never silently replaced by other data.",
     IC, "all dataset sizes, indices, ranges and steps, crops, with or without flat and dark fields (2D or stacks of any length), list or folder inputs",
     "Tests load one small stack with one crop; off-by-one in far edges, field stacks of different length and index edge cases are not sampled.",
     ["io/loadersaver.py", "io/converter.py"],
     [("get_tif_stack / get_image_stack / get_reference_sample_stacks / get_reference_sample_stacks_dls", "algotom/io/loadersaver.py"), ("convert_tif_to_hdf / extract_tif_from_hdf", "algotom/io/converter.py")], ["return value", "written files"])

prop("A14", "A folder of images indexes exactly like the stacked array",
     "The folder-backed data object reports the shape, length and data type of the stack of its images in sorted file order, and every supported index (an integer, a slice, or a full three-part index with integers and slices, negative and stepped ones included) returns what indexing the stacked array with the same index returns.",
     I, "all folder sizes, image sizes and index expressions of the supported forms, any worker count",
     "Tests index one folder a handful of ways.",
     ["io/converter.py", "io/loadersaver.py"], [("HdfEmulatorFromTif", "algotom/io/converter.py")], ["return value"])

prop("A15", "Generated names never collide and no-overwrite saving never destroys a file",
     "A generated file or folder name never names something that already exists, saving with overwriting disabled never changes an existing file, and saving a stack gives every image its own file whose names sort in image order. This holds whatever already exists in the folder and however many images are saved.",
     ["inputs", "histories"], "all prior directory contents, all stack sizes (index width included), all file types written",
     "Tests save one or two files into an empty folder; gaps in numbering and large stacks are not exercised.",
     ["io/loadersaver.py", "io/converter.py", "post/postprocessing.py"],
     [("make_file_name / make_folder_name / save_image / save_image_multiple / open_hdf_stream / save_distortion_coefficient", "algotom/io/loadersaver.py")], ["directory contents"])

prop("A16", "Parallel slice processing equals the plain loop along the chosen axis",
     "Applying a function to the slices of a volume in parallel returns the volume whose i-th slice along the chosen axis is the function applied to the i-th input slice with the given parameters, for every axis, worker count and execution mode. Nothing is reordered, dropped or transposed.",
     ["inputs", "schedules", "configurations"], "all volumes, axes, worker counts, parameter lists and keyword parameters, any pure slice function",
     "Tests run one function on one volume; order and axis placement are relations over all slices.",
     ["util/utility.py"], [("parallel_process_slices", "algotom/util/utility.py")], ["return value"])

prop("A17", "Sorting columns is exactly undone, and sorting-based filters only move values",
     "Sorting an image along an axis returns each line in non-decreasing order together with indices from which the inverse operation restores the original image exactly, for any contents including repeated values, and any image processed in the sorted domain is carried back to the original positions by those indices.",
     I, "all images and both axes, ties included",
     "Tests round-trip one random image without ties.",
     ["util/utility.py", "prep/removal.py"], [("sort_forward / sort_backward", "algotom/util/utility.py"), ("sorting-based stripe removal", "algotom/prep/removal.py")], ["return value"])

prop("A18", "Back-projection reads inside the data and equals its interpolated sum",
     "Every value of a CPU back-projection is the sum over angles of the linear interpolation of that view at the pixel's projected position, contributing only where that position lies on the detector (or with the edge value when edge padding is requested); no access ever falls outside the arrays. The single-slice and chunk variants agree slice by slice.",
     I, "all sizes, angles, centres, sinogram contents, coordinate lists, edge handling modes",
     "Compiled kernels run without bounds checks, so an out-of-range read is silent; tests compare one phantom loosely.",
     ["rec/reconstruction.py", "rec/vertrec.py"],
     [("back_projection_cpu / back_projection_cpu_chunk", "algotom/rec/reconstruction.py"), ("vertical_back_projection_cpu / vertical_back_projection_cpu_chunk", "algotom/rec/vertrec.py")], ["return value"])

prop("A19", "Vertical slices are sampled on the requested line, and ranges are inclusive",
     "The sampling points of a vertical slice are equally spaced by one pixel along the straight line at the requested angle, whose signed distance from the rotation axis equals the requested slice offset; angles or indices out of range are refused. Ranges of slices include both ends, with the requested step, and lists of slices and angles are paired one to one.",
     I, "all widths, slice indices, angles in [0, 180], ranges and steps",
     "Tests check a few angles by reconstruction only.",
     ["rec/vertrec.py"], [("point generators of single, multiple and different-angle slices", "algotom/rec/vertrec.py")], ["return value"])

prop("A20", "Chunked and windowed accumulation does not change a reconstruction",
     "A vertical reconstruction is the same for every chunk size: each selected projection, with its own angle, contributes exactly once, after the requested crop and flat correction. Reconstructing a stack of sinograms gives, slice by slice, what reconstructing each sinogram alone gives.",
     IC, "all numbers of projections, sub-ranges, chunk sizes (divisors, remainders, oversize), crops, flat/dark options",
     "Tests use one chunk size; remainders and sub-ranges shift the pairing of angles and images.",
     ["rec/vertrec.py", "rec/reconstruction.py"],
     [("vertical_reconstruction / vertical_reconstruction_multiple / vertical_reconstruction_different_angles", "algotom/rec/vertrec.py"), ("fbp_reconstruction / bpf_reconstruction", "algotom/rec/reconstruction.py")], ["return value"])

prop("A21", "Polar and Cartesian coordinate maps stay inside the image they index",
     "The coordinate maps between Cartesian and polar images, for any pair of sizes, only contain positions inside the target image, with the radius axis running from the centre outwards and the angle axis covering one full turn. The Fourier-space coordinate map used by direct Fourier inversion likewise stays inside the padded sinogram spectrum.",
     I, "all image sizes of at least 4 pixels, all width/height combinations",
     "Tests check shapes only.",
     ["util/utility.py", "rec/reconstruction.py"],
     [("rectangular_from_polar / polar_from_rectangular / transform_1d_window_to_2d", "algotom/util/utility.py"), ("generate_mapping_coordinate", "algotom/rec/reconstruction.py")], ["return value"])

prop("A22", "Blob, zinger and stripe repairs touch only the flagged pixels",
     "Repairing blobs or stripes with a mask changes only pixels inside the mask, and each repaired pixel is a linear interpolation between unmasked pixels of the same row and therefore within their range. Removing zingers replaces only pixels that exceed their smoothed neighbourhood by the given fraction, and replaces them by the mean of the surrounding pixels.",
     I, "all images, all masks (touching the border included), thresholds",
     "Tests place one blob in the middle of an image.",
     ["prep/removal.py", "util/utility.py"],
     [("remove_blob / remove_blob_1d / remove_zinger", "algotom/prep/removal.py"), ("interpolate_inside_stripe", "algotom/util/utility.py")], ["return value"])

prop("A23", "Every slice of a tiled scan is located once, with weights summing to one",
     "For a vertical grid of tiles with given overlaps, locating a slice returns exactly the tiles and rows that contain it, with weight one outside overlaps and two weights that sum to one inside an overlap; locating a range of slices gives the same tiles, rows and weights as locating each of them.",
     I, "all tile heights, numbers of tiles, overlaps (unequal ones included) smaller than half a tile, both scanning directions, all slice indices",
     "Tests use two tiles of one height.",
     ["util/utility.py"], [("locate_slice / locate_slice_chunk", "algotom/util/utility.py")], ["return value"])

prop("A24", "Filling gaps in overlap tables keeps every measured value",
     "Filling in the entries of an overlap table for tiles without sample keeps every measured entry unchanged, and every filled entry is a copy of some measured entry; entries stay empty only if nothing measured is adjacent to them. A table without gaps comes back unchanged in both directions.",
     I, "all grid sizes, all patterns of missing entries, both directions",
     "Tests use one 3x3 pattern.",
     ["util/utility.py"], [("fix_non_sample_areas", "algotom/util/utility.py")], ["return value"])

prop("A25", "Centre and overlap searches return the best candidate inside the search range",
     "The overlap search returns an overlap inside the searched range and the side it was measured on, the same whether the side is given or detected, with the requested normalisation and denoising applied in every case. The metric-based centre searches evaluate every candidate of the range and return the one optimising the metric, however the range is typed.",
     IC, "all images, window sizes, sides, normalisation/denoising options, integer- or float-typed ranges and steps, custom metrics",
     "Tests check one image with default options; option plumbing through the auto-detection branch and integer-typed ranges are not exercised.",
     ["prep/calculation.py", "rec/reconstruction.py", "rec/vertrec.py"],
     [("find_overlap / search_overlap / find_center_360", "algotom/prep/calculation.py"), ("find_center_based_slice_metric", "algotom/rec/reconstruction.py"), ("find_center_vertical_slice", "algotom/rec/vertrec.py")], ["return value"])

prop("A26", "Correlation peaks stay at the maximum and local shifts do not depend on chunks",
     "The located correlation peak is the position of the maximum of the map; the default sub-pixel refinement moves it by less than one pixel, no refinement moves it outside the window it was fitted on, and it never leaves the map. Local-shift maps computed over a full image (without the per-chunk normalisation option) are the same for every chunk size and core count, with zero shift in the border that cannot be searched.",
     IC, "all maps (flat, edge and corner maxima included), methods, image sizes, window/margin sizes, chunk sizes, core counts",
     "Tests use one image pair with the peak inside and one chunk size.",
     ["util/correlation.py"],
     [("locate_peak and the sub-pixel helpers", "algotom/util/correlation.py"), ("full-image local shift functions", "algotom/util/correlation.py")], ["return value"])

prop("A27", "The beam-hardening curve keeps black, white and order",
     "The non-linear response used for beam-hardening correction maps 0 to 0 and 1 to 1, maps [0,1] into [0,1] without reversing the order of two intensities, and is applied pixel by pixel; data that are not normalised and exponents below two are refused.",
     I, "all intensities in [0,1], q > 0, n >= 2, both curve directions, 1D to 3D data",
     "Tests check one value of q and n.",
     ["prep/correction.py"], [("non_linear_function / beam_hardening_correction", "algotom/prep/correction.py")], ["return value"])

prop("A28", "Masks and filter windows have the documented support, range and symmetry",
     "Circle masks and wedge masks contain only 0 and 1 with 1 exactly inside the circle (or in the kept wedge); filter windows (Gaussian, Butterworth, damping, Fresnel, reconstruction smoothing and ramp) have the requested size, lie in their documented range, peak at (or vanish at) their centre and are mirror-symmetric about it.",
     I, "all sizes, odd and even, all parameters in the documented ranges",
     "Tests check shapes and a single centre value.",
     ["util/utility.py", "prep/filtering.py", "prep/calculation.py", "rec/reconstruction.py", "util/simulation.py"],
     [("make_circle_mask / make_2d_gaussian_window / make_2d_butterworth_window / make_2d_damping_window", "algotom/util/utility.py"), ("make_fresnel_window / make_double_wedge_mask", "algotom/prep/filtering.py"), ("make_inverse_double_wedge_mask", "algotom/prep/calculation.py"), ("make_smoothing_window / make_2d_ramp_window", "algotom/rec/reconstruction.py")], ["return value"])

prop("A29", "Calibration geometry: distances, tilt and roll are what the points say",
     "Dot selection keeps exactly the dots whose size (or axis ratio) lies within the tolerance of the reference, distances between neighbouring lines or points follow from their coordinates, and an ellipse fitted to noise-free points on an ellipse gives back its centre, axes and orientation, from which tilt and roll follow.",
     I, "all dot sizes and tolerances, point sets on ellipses and lines",
     "Tests use a single synthetic image.",
     ["util/calibration.py"], [("select_dot_based_size / fit_points_to_ellipse / find_tilt_roll / calculate_distance", "algotom/util/calibration.py")], ["return value"])

prop("A30", "Wrapping and chunked phase-signal retrieval are exact re-arrangements",
     "Wrapping a phase image puts every pixel in the principal interval and changes it by a whole number of turns, and unwrapping gives back, up to a constant, a phase whose neighbours differ by less than half a turn. Transmission and dark-field signals compare, at every pixel, the window of the sample with the window of the reference displaced by the local shift, and are the same for every chunk size and core count.",
     IC, "all phase images, all image sizes, chunk sizes and core counts",
     "Tests use one chunk size on one image.",
     ["prep/phase.py"], [("get_quality_map / wrapping helpers / get_transmission_dark_field_signal", "algotom/prep/phase.py")], ["return value"])

prop("A31", "Distortion coefficients survive a save and load unchanged",
     "Saving a distortion centre and any number of polynomial coefficients and loading the file again returns exactly the same numbers in the same order, for every magnitude and sign.",
     I, "all finite floats and all coefficient counts",
     "Tests round-trip one set of values.",
     ["io/loadersaver.py"], [("save_distortion_coefficient / load_distortion_coefficient", "algotom/io/loadersaver.py")], ["return value"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
