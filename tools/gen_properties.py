#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as code so that anchors and statements are edited in one place)"""
import json, os
P = []
NOTES = {}
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
IO = 'image_operations.h'
prop('C01', 'A pixel coordinate names exactly one cell; bad coordinates throw',
     'For every image and every in-range coordinate, at(), operator[], set() and get() all reach the same single storage cell (first axis fastest), and writing it changes no other pixel. An out-of-range coordinate makes the checked accessors throw std::out_of_range (or the tuple form of set return false) with the image unchanged, and a coordinate of the wrong arity throws std::runtime_error.',
     ['inputs'], 'every shape of 1 to 3 dimensions, every coordinate value (negative ones included), every pixel content',
     'tests read a few pixels of a few small images; an aliasing or off-by-one error at one coordinate or one shape is invisible to them',
     ['image.h'], [('checked access', 'image.h: Image::at, checkBoundary'), ('address computation', 'image.h: calculateIndex, tuple_location_to_index'), ('set', 'image.h: Image::set, checkBoundaryTuple')])
prop('C02', 'Image construction, copying and comparison keep shape and data exact',
     'Every constructor yields exactly the requested shape with one cell per coordinate holding the given data in row-major order (or value-initialised), and a data length or size list that does not fit throws instead of producing an inconsistent image. Copies and assignments are independent and equal, casts convert pixel by pixel with the shape kept, and equality holds exactly when shape and all pixels agree.',
     ['inputs'], 'every shape, every content, every data length', 'tests construct a few fixed sizes; they cannot show that shape and data agree for all of them',
     ['image.h'], [('constructors', 'image.h: Image::Image'), ('conversion', 'image.h: Image::cast'), ('comparison', 'image.h: operator==')])
prop('C03', 'Transpose and flips move every pixel to exactly the mirrored place',
     'transpose, flip_horizontal, flip_vertical and flip_horizontal_vertical put every input pixel, unchanged, at exactly its transposed or mirrored coordinate in an image of the corresponding shape. Hence applying transpose or a flip twice gives back the original image, with and without an execution policy.',
     ['inputs'], 'every 2-D shape, every pixel, every content', 'tests compare or print one small image; a wrong index at one row, column or shape passes',
     [IO], [('transpose', IO + ': transpose'), ('flips', IO + ': flip_horizontal, flip_vertical, flip_horizontal_vertical')])
prop('C04', 'Cropping, pasting, joining and splitting move pixels to exactly their place',
     'subimage2 returns exactly the requested inclusive rectangle and throws std::runtime_error for any rectangle not inside the image; subimage returns the window starting at centre minus half its size, with the default value where the window leaves the image. paste2D, concat_horizontal, concat_vertical, concat and add_border_2d place every source pixel unchanged at its offset in a result of exactly the needed size, fill uncovered cells with the default and reject mismatched sizes, and split yields the grid of equal blocks that concat joins again.',
     ['inputs'], 'every image shape and content, every rectangle, offset and margin', 'tests crop and paste a few fixed rectangles; rectangles touching or leaving the border, or one shape, escape them',
     [IO], [('crop', IO + ': subimage, subimage2'), ('paste', IO + ': paste2D, add_border_2d'), ('join and split', IO + ': concat_horizontal, concat_vertical, concat, split')])
prop('C05', 'Padding keeps the image and fills the margin by the boundary rule',
     'generate_constant_padding_image, generate_mirror_padding_image, generate_replicate_padding_image and generate_padded_image return an image enlarged by exactly the margins with the input unchanged in the middle; each margin pixel is the constant, the pixel mirrored about the border pixel, or the nearest input pixel. Mirroring by a margin not smaller than the image throws, and split_overlap cuts each block with its margins from that padded image.',
     ['inputs'], 'every image shape and content, every margin, every boundary condition', 'tests pad one image by one margin; corners, thin images and large margins escape them',
     [IO], [('padding', IO + ': generate_constant_padding_image, generate_mirror_padding_image, generate_replicate_padding_image, generate_padded_image'), ('overlapping blocks', IO + ': split_overlap')])
prop('C06', 'Pixelwise arithmetic combines exactly the matching pixels',
     'add, subtract, multiplies, divides, modulus, difference, negate, abs, pow and the Image operators (+, -, *, /, +=, -=, *=, /=) give an image of the operands\' shape in which every pixel (every channel, for multi-channel pixels) is that operation applied to the operands\' pixels at the same coordinate; the operands are unchanged. Operands of different shape throw instead of reading outside an image.',
     ['inputs'], 'every shape and content, scalar and multi-channel pixel types, matching and mismatched operand shapes', 'tests add one pair of equal-size images; a skipped pixel, a wrong channel or an accepted mismatch escapes them',
     [IO, 'image.h', 'base_types.h'], [('pixelwise kernel', IO + ': pixelwise_transform, add, subtract, multiplies, divides, modulus, difference, negate, abs, pow'), ('operators', 'image.h: operator+=, operator-=, operator*=, operator/='), ('channel arithmetic', 'base_types.h: RGB, RGB_DOUBLE, HSV, MultiChannel operators')])
prop('C07', 'Colour planes split and join without loss',
     'getPlane, getRplane, getGplane, getBplane, getHplane, getSplane, getVplane return exactly the chosen channel of every pixel, constructRGB, constructRGBDOUBLE, constructHSV, constructMultiChannel and addChannel join planes back into the pixel they came from and reject planes of different sizes. apply_each applies the given function to each plane separately, and conversions between RGB, RGB_DOUBLE and grey keep every pixel at its place with the documented value.',
     ['inputs'], 'every shape and content, every channel, every pixel type', 'tests look at one constant-colour image, where swapped channels or pixels cannot be seen',
     [IO], [('planes', IO + ': getPlane, getRplane, getGplane, getBplane, getHplane, getSplane, getVplane'), ('joining', IO + ': constructRGB, constructRGBDOUBLE, constructHSV, constructMultiChannel, addChannel'), ('per-plane application', IO + ': apply_each, apply_each_pixel'), ('conversion', IO + ': convert_image, rgb2gray')])
prop('C08', 'What is written to a file is what is read back',
     'Writing an image with bmp_write, double_image::write, hsv_write, pnm::write or write_to_csv and reading the file with the matching reader gives an image of the same size with the same value at every pixel (P2 keeps the first channel, P1 keeps zero and non-zero). The BMP bytes are the documented format: header fields, file size, rows padded to four bytes, BGR order, bottom row first; the reader takes bottom-up, top-down and palette files. A missing file is reported and never turned into pixels, and no call leaves its file open.',
     ['inputs', 'histories'], 'every width (all residues modulo 4), height and content', 'tests do not open the files they write; a wrong padding for one width residue, swapped channels or a leaked handle goes unseen',
     ['image_io.cpp', 'image_io.h'], [('BMP', 'image_io.cpp: bmp_write, bmp_read, bmp_file_read, array_to_raw_image, raw_image_to_array'), ('floating-point images', 'image_io.cpp: double_image::write/read, hsv_write, hsv_read'), ('PNM', 'image_io.h: pnm::write, pnm::read, ProcessPPMData'), ('CSV', 'image_io.h: write_to_csv, read_from_csv')])
prop('C12', 'Convolution sums exactly the overlapping pixel pairs',
     'conv2 and convolution return, for every output pixel, the sum over exactly those pixel pairs of image and kernel that overlap there, with the kernel rotated by 180 degrees as convolution is defined; the full result has size image + kernel - 1, and the is_size_same result is its central part with the size of the image. Colour images are convolved plane by plane, and the execution-policy overloads give the same result.',
     ['inputs'], 'every image and kernel shape and content, every output pixel', 'tests convolve a small image with one square kernel; wrong ranges at borders, non-square or even-sized kernels escape them',
     [IO], [('2-D convolution', IO + ': conv2'), ('n-D convolution', IO + ': convolution, convolution_detail')])
prop('C13', 'Whole-image questions look at every pixel exactly once',
     'all_of, any_of, none_of and their named variants, count, unique_value, sum, mean, min and max give exactly the answer defined over all pixels of the image: no pixel is skipped or counted twice, whatever the shape and wherever the deciding pixel lies. replace changes exactly the pixels equal to the given value.',
     ['inputs'], 'every shape and content, every position of the deciding pixel', 'tests ask about a few images; a skipped first, last or odd pixel passes',
     [IO], [('quantifiers', IO + ': all_of, any_of, none_of, all_positive, any_zero, none_negative'), ('statistics', IO + ': count, sum, mean, min, max, minmax, unique_value'), ('replacement', IO + ': replace')])
prop('C14', 'A histogram counts every pixel once, at its value',
     'The Histogram of an image (and histogram()) has at every value exactly the number of pixels with that value, and its counts add up to the number of pixels. addCount adds one at the given value and nowhere else; getCount, operator[], iteration and size show the same counts; + and - combine two histograms bin by bin (- stops at zero) and leave the operands alone; normalize and to_probabilities_vector give each value its share of the total. histogram_with_bins puts every value between lowest and max into its equal-width bin, and otsu_threshold returns the split with the largest between-class variance.',
     ['inputs', 'histories'], 'every image shape and content, every value, any counts before an operation', 'tests print one histogram; a value counted twice, an off-by-one bin edge or an iterator into a dead copy goes unseen',
     ['histogram.h', IO], [('counting', 'histogram.h: Histogram(Image), addCount, getCount, getCountSum, operator[]'), ('iteration', 'histogram.h: begin, end, cbegin, cend'), ('combination', 'histogram.h: operator+=, operator-=, operator+, operator-'), ('shares', 'histogram.h: normalize, to_probabilities_vector; ' + IO + ': histogram_normalized, normalize_histogram'), ('bins and threshold', IO + ': histogram_with_bins, otsu_threshold')])
prop('C19', 'Matrix algebra gives the defined result at every entry',
     'For linalg::Matrix, at(r, c) names one cell per position, transpose moves entry (r, c) to (c, r), multiply gives at (r, c) the sum over k of a(r, k) b(k, c) and throws for inner sizes that differ, and is_symmetry answers true exactly when the matrix is square and every pair of mirrored entries agrees. invert gives the 3x3 matrix whose product with the input is the identity (an empty matrix for a singular one, an exception for any other size), and the eigenvectors of jacobi_eigen_solver and the solution of svd_solve_ah_zero satisfy their equations.',
     ['inputs'], 'every matrix size and content, every entry', 'tests multiply or invert one or two small matrices; a wrong index for a non-square shape or a wrong cofactor that happens to vanish escapes them',
     ['linear_algebra.h'], [('storage', 'linear_algebra.h: Matrix::at'), ('algebra', 'linear_algebra.h: transpose, multiply, invert, is_symmetry'), ('eigen solver', 'linear_algebra.h: jacobi_eigen_solver, svd_solve_ah_zero')])
prop('C20', 'A volumetric image is a consistent W x H x D array',
     'Every VolumetricImage, however it is built (sizes, sizes and a value, a vector, a stack of images), has the sizes it was given and exactly width*height*depth voxels in row-major order; at(x, y, z) names one voxel per position, writes only that one and throws std::out_of_range for every position outside; a vector whose length does not fit is rejected. plus, subtract, multiplies, divides, modulus, negate, scaling and the operators give at every voxel the result of the operation on the voxels at that position and reject volumes of different sizes; == is equality of sizes and all voxels.',
     ['inputs', 'histories'], 'every size, content and position', 'no test uses volumetric images beyond construction; sizes taken from uninitialised members or transposed axes go unseen',
     ['cube.h', 'cube_operations.h'], [('storage', 'cube.h: VolumetricImage constructors, at, getWidth, getHeight, getDepth, getData'), ('operators', 'cube.h: operator+=, -=, *=, /=, +, -, *, =='), ('voxelwise operations', 'cube_operations.h: voxelwiseOperation, plus, subtract, multiplies, divides, modulus, negate, check_size_same')])
prop('C17', 'The recursive algorithms visit every element of a nested container once',
     'recursive_transform (one, two or three inputs; vector, array or nested vectors; with or without an execution policy) returns a container of the same shape in which each element is the function of the element(s) at the same place; recursive_all_of, any_of, none_of, find and find_if answer exactly the quantified question over the elements; recursive_count, count_if, size, reduce, transform_reduce, for_each and two_input_map_reduce take every element exactly once, and the last rejects inputs of different lengths; recursive_max and recursive_min bound every element and are attained; replace_copy_if, remove_copy, copy_if change or keep exactly the selected elements in order; the statistics (mean, variance, standard deviation, rms) are those of the elements and reject empty input.',
     ['inputs'], 'every container length, nesting shape, element value and execution policy', 'tests print or compare a handful of small nested vectors',
     ['basic_functions.h'], [('transform', 'basic_functions.h: recursive_transform, recursive_replace_copy_if, recursive_remove_copy, recursive_copy_if'), ('questions', 'basic_functions.h: recursive_all_of, recursive_any_of, recursive_none_of, recursive_find, recursive_find_if'), ('reductions', 'basic_functions.h: recursive_count, recursive_count_if, recursive_size, recursive_reduce, recursive_transform_reduce, two_input_map_reduce, recursive_max, recursive_min, recursive_for_each'), ('statistics', 'basic_functions.h: arithmetic_mean, population_variance, population_standard_deviation, square_sum, root_mean_square')])
prop('C22', 'Drawing changes exactly the pixels of the shape',
     'draw_point and draw_points give the draw value to exactly the pixels strictly inside the disc(s) and keep every other pixel and the size, also when the disc crosses or lies outside the border; highlight_region paints exactly the clipped frame; draw_circle paints exactly the pixels of the midpoint circle that lie in the image; draw_line paints one pixel per step along the longer axis, the one nearest to the ideal line, both ends included, and nothing else; a canvas that is not two-dimensional is rejected by draw_circle and draw_line.',
     ['inputs'], 'every image size and content, centre, radius and pair of end points, inside and outside the image', 'no test checks a drawn pixel; borders and clipping go unseen',
     ['image_operations.h'], [('discs', 'image_operations.h: draw_point, draw_points'), ('frame', 'image_operations.h: highlight_region'), ('circle and line', 'image_operations.h: draw_circle, draw_line')])
prop('C16', 'Colour conversion treats every pixel alike and stays in range',
     'rgb2hsv gives every colour a hue in [0, 360), a saturation of 1 - min/max (0 for black) in [0, 1] and the largest channel as value, with hue 0 for greys; a double-valued pixel converts like the byte pixel of the same channels; hsv2rgb is the hexagonal-cone map, truncated to bytes, and takes every converted colour back to within 5 of 255 per channel; Grayscale2RGB is the full-saturation hue scale; on images each of these is applied to every pixel, in its place, with or without an execution policy, and keeps the size.',
     ['inputs'], 'every one of the 2^24 colours, every image size and pixel', 'tests convert whole pictures and look at none of the pixels',
     ['image_operations.h'], [('pixel conversion', 'image_operations.h: rgb2hsv, hsv2rgb, Grayscale2RGB'), ('image conversion', 'image_operations.h: rgb2hsv(Image), hsv2rgb(Image), Grayscale2RGB(Image), pixelwise_transform')])
prop('C21', 'Parallel loops give the sequential result under every schedule',
     'The iterations of the parallel loops (OpenMP `parallel for` and std::execution policies) never interfere: no iteration writes a memory cell that another one reads or writes, so whatever the number of threads and their interleaving the result is the sequential one. This holds for flips, transpose, plane extraction and construction, convert_image, apply_each_pixel and apply_each_pixel_openmp, pixelwise_transform, difference, replace, subimage2, draw_point, paste2D, conv2, the resizers (nearest, bicubic, Lanczos), gaussianFigure2D, dct3/idct3 planes and gaussian_fisheye.',
     ['inputs', 'schedules'], 'every image size and content, every pair of iterations of every parallel loop, hence every schedule', 'a race shows up in a test only under an unlucky interleaving; most tests run on tiny images or print',
     ['image_operations.h', 'basic_functions.h'], [('OpenMP loops', 'image_operations.h: flip_*, getPlane, construct*, convert_image, apply_each_pixel_openmp, subimage2, draw_point, resize_nearest_neighbor, copyResizeBicubic, gaussianFigure2D, dct3_one_plane, idct3_one_plane, gaussian_fisheye'), ('execution policies', 'image_operations.h: transpose, conv2, apply_each_pixel, pixelwise_transform, replace, difference, lanczos_resample, paste2D; basic_functions.h: recursive_transform')])
prop('C23', 'Neighbourhood filters see the unmodified window around each pixel',
     'windowed_filter gives every pixel the filter of the window of the requested size centred on it, taken from the unfiltered input continued over its border (constant, mirrored or nearest pixel), keeps the size, and rejects window sizes of another dimensionality; get_center_pixel is the pixel at half the size; bilateral_filter is the average weighted by range kernel times spatial kernel, symmetric about the centre; imgaussfilt with odd filter sizes is the normalised Gaussian average centred on the pixel (it moves nothing and keeps constant images); difference_of_gaussian is the difference of two such blurs.',
     ['inputs'], 'every image size and content, window size, boundary condition and policy', 'tests print the filtered image or only run the filter',
     ['image_operations.h'], [('windows', 'image_operations.h: windowed_filter, generate_padded_image, linear_index_to_indices, subimage, get_center_location, get_center_pixel'), ('filters', 'image_operations.h: bilateral_filter, bilateral_filter_detail, bilateral_filter_spatial_kernel, imgaussfilt, difference_of_gaussian')])
prop('C24', 'Element-wise mathematics and generated images are exact at every place',
     'The mathematical functions of the library (sqrt, cbrt, the trigonometric, hyperbolic, exponential, logarithmic, rounding, error, gamma and classification functions, abs, pow) give for a scalar the standard function, for a multi-channel pixel that function of every channel, and for an image that function of every pixel with the shape kept, with and without a policy. to_double and to_complex convert every pixel exactly. zeros, ones and generate give an image of the requested shape with every pixel the constant, or the generator\'s calls in pixel order, one call per pixel; rand and randi stay within their range. manhattan_distance and euclidean_distance are the sum of the absolute differences, and the root of the sum of squared differences, over all pixels (channels, coordinates), and images of different sizes throw.',
     ['inputs'], 'every scalar, every channel, every image size and content', 'tests evaluate a few of the functions at a few points; a wrong function behind one overload, a skipped channel or an overflowing pixel count goes unseen',
     ['base_types.h', 'basic_functions.h', 'image_operations.h'], [('functions', 'base_types.h, basic_functions.h, image_operations.h: sqrt, sin, cos, log, exp, ... (scalar, MultiChannel, Image)'), ('generation', 'image_operations.h: zeros, ones, generate, rand, randi'), ('distances', 'image_operations.h: manhattan_distance, euclidean_distance'), ('conversion', 'image_operations.h: to_double, to_complex')])
prop('C25', 'Resizing and turning take every pixel from its place in the source',
     'resize_nearest_neighbor gives an image of exactly the requested size whose pixel (x, y) is source pixel (floor(x W / newW), floor(y H / newH)); hence resizing to the same size changes nothing and enlarging by a whole factor repeats every pixel in a block. copyResizeBicubic gives every pixel the cubic interpolation of its 4 x 4 source neighbourhood (border pixels repeated) and lanczos_resample the normalised Lanczos sum, for integral pixels too: same-size resizing is the identity and constant images stay constant; colour images are resized channel by channel; lanczos_resample rejects images that are not two-dimensional. cubic_interpolate, cubic_kernel, lanczos_kernel, bilinear_interpolate and the bicubic point interpolation are the defined formulas. rotate_detail and rotate_detail_shear_transformation move pixel (x, y) to (H - 1 - y, x) for a quarter turn and change nothing for a turn by 0; other angles sample each pixel at the rotated position about the centre.',
     ['inputs'], 'every source size, target size and content, every pixel', 'tests resize one picture and look at none of the pixels; a rounded ratio, a truncated fraction or a shifted window goes unseen',
     ['image_operations.h'], [('nearest', 'image_operations.h: resize_nearest_neighbor'), ('cubic', 'image_operations.h: cubic_interpolate, bicubicPolate, copyResizeBicubic, cubic_kernel, default_bicubic_interpolator'), ('Lanczos', 'image_operations.h: lanczos_kernel, lanczos_resample'), ('turning', 'image_operations.h: rotate_detail, rotate_detail_shear_transformation, bilinear_interpolate')])
prop('C26', 'Frequency transforms are the defined sums and invert each other',
     'dft2 and idft2 give at every frequency the unitary discrete Fourier sum (factor 1 / sqrt(W H), minus sign forward, plus sign inverse) over all pixels, whatever the pixel type; dct2, idct2, dct3 and idct3 give the cosine sums with factor 8 alpha alpha alpha / (N1 N2 N3) forward and the alpha-weighted sum inverse, the same with a policy. The shape is kept, each inverse gives the original back up to rounding, and colour images are transformed channel by channel.',
     ['inputs'], 'every image size and content, every frequency, signed, unsigned and floating-point pixels', 'tests transform one small floating-point image and print it; a wrong factor at frequency 0, exchanged axes of a non-square image or wrapped unsigned pixels go unseen',
     ['image_operations.h'], [('Fourier', 'image_operations.h: dft2, idft2'), ('cosine', 'image_operations.h: dct3_one_plane, dct3, idct3_one_plane, idct3, dct2, idct2')])
prop('C27', 'Keypoints, matches and stitched images follow their definitions',
     'A block is an extremum exactly when its centre exceeds the threshold in magnitude and is above, or below, all 26 neighbours in the three layers (other sizes throw); find_local_extrema reports exactly the interior extrema, each refined to the stationary point of the quadratic through its block, whatever the schedule; layers of different sizes throw. mapping_point keeps a point in place when the sizes agree and scales it exactly by whole factors. Orientation histograms (37 bins) and descriptors (4 x 4 regions of 8 bins) collect the gradient of every in-image pixel of the window once, at the border too; an octave holds the successive differences of Gaussians. A match pairs a descriptor with its nearest one when the ratio test singles it out; a robust match holds in both directions. compute_homography needs four points and maps every given pair, ignoring outliers in the refined and robust forms; scale_homography is the product with the two scalings; warp_perspective samples the source at the mapped place of every output pixel; create_stitched_image puts both images at their place on a canvas that holds both (blended where they overlap), the same with a policy; draw_matches sets the images side by side.',
     ['inputs', 'schedules'], 'every block, image size, keypoint position, descriptor set, matrix and canvas', 'tests run the pipeline on one picture pair and look at no number; a swapped derivative, a lost border keypoint or a canvas shifted the wrong way goes unseen',
     ['image_operations.h'], [('detection', 'image_operations.h: SIFT_impl::is_it_extremum, keypoint_refinement, mapping_point, find_local_extrema, generate_octave'), ('description', 'image_operations.h: SIFT_impl::compute_each_pixel_orientation, get_orientation_histogram, get_keypoint_descriptor'), ('matching', 'image_operations.h: find_keypoint_matches, find_raw_matches, find_robust_matches'), ('homography', 'image_operations.h: compute_homography, refine_homography, find_homography_robust, scale_homography, warp_perspective'), ('stitching', 'image_operations.h: create_stitched_image, draw_matches')])
NA = []     # (property, reason)
NOTE = 'every contract is discharged for all shapes up to 2^20 per axis and all contents; parts listed as bounded in the evidence are executed natively on enumerated inputs only and are not counted as proved'
NOTES['C19'] = NOTE + '; the inverse is proved over the reals (floating-point rounding not modelled); jacobi_eigen_solver, svd_solve_ah_zero and the choice between singular and regular are bounded only'
NOTES['C08'] = NOTE + '; the file system is modelled as one file that keeps the bytes written to it; BMP sizes are those whose byte count fits the int arithmetic of the format code; CSV, the PNM text tokens and the palette reader are bounded only'
NOTES['C14'] = NOTE + '; proved for 8- and 16-bit pixels (dense counts); the map-based histograms of other pixel types, histogram_normalized, histogram_with_bins and otsu_threshold are bounded only'
NOTES['C20'] = NOTE.replace('2^20', '2^16') + '; stacks of images are proved for 1 to 3 slices and bounded beyond'
NOTES['C17'] = NOTE.replace('shapes up to 2^20 per axis', 'lengths up to 2^40') + '; nesting of depth 2 is proved for transform and size with two rows and bounded for ragged nested vectors; the element filters (copy_if, remove_copy), fold_right are bounded only; the statistics are proved over the reals (rounding is not modelled)'
NOTES['C22'] = NOTE + '; draw_line is proved to keep or paint every pixel and to paint the end point (loop without trip count, partial correctness); which pixels the line and the circle paint is bounded only'
NOTES['C16'] = NOTE + '; arc cosine, square root and long double arithmetic are uninterpreted in the proofs: hue range, the there-and-back distance and the cone formula are bounded (executed natively; for each of the red values tried, all green and blue values)'
NOTES['C21'] = NOTE + '; interference is decided at the level of memory cells of two arbitrary iterations; the loops over floating-point coordinates assume their accesses in bounds (decided natively); mutexes are no-ops (stronger than needed); reductions, critical sections and the SIFT/RANSAC loops are not covered; natively the same loops run on three threads under ThreadSanitizer'
NOTES['C23'] = NOTE + '; windowed_filter is proved for constant and mirror borders in two dimensions; nearest-pixel borders, three dimensions, bilateral_filter, imgaussfilt and difference_of_gaussian are bounded only'
NOTES['C24'] = NOTE + '; the standard functions themselves are uninterpreted (the same symbol on both sides); rand and randi are bounded only'
NOTES['C25'] = NOTE + '; the interpolation polynomials are proved over the reals (rounding not modelled); bicubic and Lanczos images, point interpolation and turns by other angles are bounded only'
NOTES['C26'] = NOTE + '; the sums are proved over the reals with sine and cosine uninterpreted (stacks of 1 and 2 planes for dct3/idct3); that each inverse undoes its transform, the policy overload and colour images are bounded only'
NOTES['C27'] = NOTE + '; refinement, orientation, scaling and warping are proved over the reals; the list of extrema, histograms, descriptors, octaves, matches, homographies through points and the stitched canvas are bounded only'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
    for d in P: o.write(json.dumps(d) + '\n')
na = {p for p, r in NA}
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': d['id'], 'quick_cmd': f"./check.sh {d['id']} quick", 'thorough_cmd': f"./check.sh {d['id']} thorough",
                   'technique': 'contract-based deductive verification: pre/postconditions on the real functions, VCs generated from the LLVM IR of /repo\'s sources on every run, loops summarised by inferred inductive invariants, obligations discharged by Z3; bounded native replay as stand-in where labelled',
                   'level': 'proof', 'level_note': NOTES.get(d['id'], NOTE)} for d in P if d['id'] not in na],
       'not_applicable': [{'property': p, 'reason': r} for p, r in NA]}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
