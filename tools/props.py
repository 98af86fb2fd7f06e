# p(id, title, statement, over, text, why, files, mech, level_note, [technique])
INP = ["inputs"]
NOTE = "Random search with shrinking over seeded generators; evidence counts the distinct non-trivial cases. Says nothing beyond the sizes, pixel types and value ranges generated. "

p("C01", "An N-dimensional image stores and returns every pixel where it was put",
  "For an image of any dimensionality and sizes, writing a pixel through any accessor (individual coordinates, a coordinate tuple or range, a flat position) and reading it back through any other gives the same pixel and disturbs no other; the first coordinate varies fastest in the flat data. An access outside the image, or with the wrong number of coordinates, is refused rather than served from other memory. Construction, copies, casts, fills, comparison and printing of images and of three-dimensional volumes keep every pixel in its place.",
  INP + ["histories"], "all sizes, dimensionalities, element types and sequences of reads, writes, copies and fills",
  "Tests touch a few fixed 2-D images; a stride or bounds error shows only for particular shapes, coordinates and operation orders.",
  ["image.h", "cube.h"], [("pixel access", "image.h Image::at / at_without_boundary_check / get / set"), ("bounds checks", "image.h boundaryCheck"), ("fills", "image.h setAllValue"), ("construction", "image.h constructors")],
  NOTE + "Model: a flat vector plus explicit stride arithmetic, driven by generated operation sequences.", "stateful model-based property testing against a flat-vector model")
p("C02", "Pixelwise arithmetic acts on each pixel and channel exactly as on scalars",
  "Adding, subtracting, multiplying, dividing, taking remainders, absolute differences, powers and elementary functions of images gives at every pixel, and in every channel, what the same scalar operation gives on the corresponding inputs, and leaves the operands unchanged. Operands of different sizes are refused before anything is read or written. Scalar operands, image operands, compound and plain forms, and single-image and list-of-images forms agree with each other. Volumes (cubes of voxels and stacks of planes) add, subtract, multiply and divide voxel by voxel in the same way and refuse other sizes.",
  INP, "all image sizes, dimensionalities, pixel values, pixel types and scalar operands, and all size mismatches",
  "Tests check a few constant images; wrong channels, wrong operand order or unchecked sizes only show for mixed values and shapes.",
  ["image_operations.h", "image.h", "base_types.h", "basic_functions.h", "cube_operations.h", "cube.h"], [("volume arithmetic", "cube_operations.h plus/subtract/multiplies/divides"), ("pixelwise map", "image_operations.h pixelwise_transform"), ("arithmetic", "image_operations.h add/subtract/multiplies/divides/modulus/difference"), ("operators", "image.h operator+= -= *= /=")],
  NOTE + "Oracle: the scalar operation applied element by element to the flat data.")
p("C03", "BMP files round-trip every pixel and are valid BMP files",
  "Writing any colour image as BMP and reading it back returns the same size and the same pixels, whatever the width, and the file on disk is a well-formed 24-bit BMP whose header sizes match its contents. Reading a 24-bit or 8-bit-palette BMP made by another encoder, bottom-up or top-down, gives its pixels with the bottom row first. Missing or truncated files are reported without crashing, inventing a size, or leaking file handles.",
  INP + ["fault_sequences"], "all image sizes and contents, and all truncations and header variations of BMP files",
  "Row padding, header fields and error paths depend on width modulo 4 and on malformed bytes that fixed sample files never contain.",
  ["image_io.cpp", "image_io.h"], [("writing", "image_io.cpp bmp_write / image_write header"), ("reading", "image_io.cpp bmp_read / bmp_file_read / bmp_read_x_size"), ("padding", "image_io.cpp bmp_filling_byte_calc")],
  NOTE + "Oracle: round trip plus an independent BMP encoder/decoder in the harness; malformed files by byte mutation.", "round-trip and differential property testing with an independent codec, plus malformed-input fuzzing")
p("C04", "Floating-point image files and CSV files round-trip their values",
  "Writing an image of doubles or of hue-saturation-value pixels to the library's floating-point formats and reading it back returns the identical values and size for every width. Writing CSV and reading it back returns every value to the printed precision, one line per row, equally for the sequential and parallel readers and writers. Images that are not two-dimensional, missing files and truncated files are reported without touching an existing target or leaking file handles.",
  INP + ["fault_sequences"], "all image sizes, all double values including infinities and denormals, all CSV layouts and truncations",
  "Padding and precision depend on width and value; tests use one file and compare nothing.",
  ["image_io.cpp", "image_io.h"], [("double format", "image_io.cpp double_image::write/read"), ("hsv format", "image_io.cpp hsv_write/hsv_read"), ("csv", "image_io.h write_to_csv/read_from_csv")],
  NOTE + "Oracle: bit-exact round trip and an independent CSV parser.", "round-trip property testing and malformed-input fuzzing")
p("C05", "Plain-text portable anymap files follow the format and round-trip their pixels",
  "Writing an image as a plain-text bitmap, graymap or pixmap (P1, P2, P3) and reading it back returns the same size and, for P3, the same pixels, the first channel for P2, and zero versus non-zero for P1. Files written by other programs, with comments and arbitrary whitespace (or none between the bits of a bitmap) and any maximum value, are read row by row from the top to the pixels they denote, scaled by the power of two between the two depths, equally by the sequential and parallel readers. A missing or incomplete file or an unsupported format is refused, and a refused write leaves an existing file as it was.",
  INP + ["fault_sequences"], "all image sizes and contents, all header layouts and malformed files",
  "Header grammar and sample scaling have many variants; the tests read one file.",
  ["image_io.cpp", "image_io.h"], [("reading", "image_io pnm::read"), ("writing", "image_io pnm::write")],
  NOTE + "Oracle: round trip and an independent generator and parser of PNM text.", "round-trip and differential property testing, plus malformed-input fuzzing")
p("C06", "Convolution equals the sum of products, with exact output size and placement",
  "The full convolution of two images, in two or any number of dimensions, has size a+b-1 along every axis and holds at each position the sum of products of the overlapping elements, computed in the common type of the two pixel types. The same-size form returns the central block with the size of the first image. Colour and multi-channel images are convolved channel by channel, lists of images image by image, complex pixels as complex numbers, and every execution-policy form returns the same result.",
  INP, "all sizes and contents of both operands, dimensionalities, pixel types and execution policies",
  "Border handling, placement for odd and even sizes and N-dimensional index arithmetic depend on the pair of shapes; tests print a few examples.",
  ["image_operations.h"], [("2-D convolution", "image_operations.h conv2"), ("N-D convolution", "image_operations.h convolution / convolution_detail")],
  NOTE + "Oracle: direct sum over explicit N-D coordinates; integer-valued data so equality is exact.")
p("C07", "Cosine and Fourier transforms match their definitions and invert exactly",
  "The two- and three-dimensional discrete cosine transforms give, up to rounding, the defining sums with the library's scaling, and the inverse transforms recover the original image for any size and content; colour images transform channel by channel and each plane of a list can be computed on its own with the same value. The two-dimensional discrete Fourier transform is unitary: it matches its definition, preserves energy, and its inverse returns the original.",
  INP, "all image sizes, list lengths, pixel values, element types and execution policies",
  "A wrong scale or index only shows for sizes above one with general content; the tests print results of one image.",
  ["image_operations.h"], [("DCT", "image_operations.h dct2/idct2/dct3/idct3 (and their detail functions)"), ("DFT", "image_operations.h dft2/idft2")],
  NOTE + "Oracle: the transform definition evaluated in long double, round trips and Parseval.", "property-based testing against the transform definition and metamorphic round trips")
p("C08", "Cutting, flipping, joining and pasting move pixels without changing them",
  "Flips, transposition, subimages, splitting into blocks, concatenation, pasting and region highlighting put every source pixel exactly where the operation says and nothing else: flipping or transposing twice is the identity, joining the blocks of a split gives the image back, a subimage outside the source is filled with the default, an explicit region outside the image or inverted is refused, and a paste grows the image with the default value. Overlapping splits take each block with its true neighbourhood, and images that are not two-dimensional are refused.",
  INP, "all image sizes, block counts, regions and positions including those at and beyond the border, and all execution policies",
  "Off-by-one errors appear only for particular region positions and sizes; tests use one image.",
  ["image_operations.h"], [("flips", "image_operations.h flip_horizontal/flip_vertical/flip_horizontal_vertical/transpose"), ("regions", "image_operations.h subimage/subimage2"), ("blocks", "image_operations.h split/split_overlap/concat"), ("paste", "image_operations.h paste2D/highlight_region")],
  NOTE + "Oracle: coordinate formulas on images with distinct pixel values.")
p("C09", "Padding keeps the image in the middle and extends its border as named",
  "Constant, mirror and replicate padding return an image enlarged by the requested amount on every side, with the original unchanged in the middle; the border holds respectively the given value, the reflection about the edge pixel, and the nearest edge pixel. A mirror expansion that reaches beyond the image and an image that is not two-dimensional are refused, the default is mirror padding, and all overloads and execution policies agree.",
  INP, "all image sizes, expansion amounts, pixel types and execution policies",
  "Corner and edge regions depend on expansion relative to size; tests sample one.",
  ["image_operations.h"], [("padding", "image_operations.h generate_constant_padding_image/generate_mirror_padding_image/generate_replicate_padding_image/generate_padded_image")],
  NOTE + "Oracle: clamped or reflected coordinate formula per output pixel.")
p("C10", "Resizing resamples with the stated kernel at the stated positions",
  "Resizing to any size gives an image of exactly that size. Nearest-neighbour resizing copies the source pixel at floor(x*old/new); bicubic resizing evaluates the cubic interpolant of the 4x4 neighbourhood of x*old/new with border pixels repeated; Lanczos resizing evaluates the normalised windowed-sinc sum around the centre-aligned position with border pixels repeated. Integer pixels are clamped to their range, never wrapped; colour and complex images are resampled per component; resizing to the same size with these kernels returns the image; constants stay constant.",
  INP, "all source and target sizes, pixel values, pixel types and execution policies",
  "Neighbourhood selection, rounding and clamping depend on size ratios and extreme values; tests sample one ratio and compare nothing.",
  ["image_operations.h"], [("bicubic", "image_operations.h copyResizeBicubic/bicubicInterpolate/cubicPolate"), ("Lanczos", "image_operations.h lanczos_resample/lanczos kernel"), ("nearest", "image_operations.h resize_nearest_neighbor")],
  NOTE + "Oracle: independent long-double evaluation; results within rounding of a truncation boundary may be either neighbour.")
p("C11", "Interpolation, rotation and fisheye warps sample each pixel where geometry says",
  "Bilinear and bicubic interpolation at any position return the weighted mean of the surrounding pixels (zero outside the image, bilinear near the border), truncated and clamped for integer pixels. Rotation by any angle, in radians or degrees, turns the image by that whole angle about its centre and returns the bounding size; zero and whole turns return the image and a quarter turn moves pixels exactly. The fisheye warps take or put every pixel at the radius their formula gives. Colour images follow channel by channel, all forms and policies agree, and images that are not two-dimensional are refused.",
  INP, "all positions, angles of any size and sign, warp parameters, image sizes and pixel types",
  "Tests rotate one photograph by a few angles and check nothing about where pixels land.",
  ["image_operations.h"], [("interpolation", "image_operations.h bilinear_interpolate/default_bicubic_interpolator"), ("rotation", "image_operations.h rotate/rotate_degree/rotate_detail_shear_transformation"), ("fisheye", "image_operations.h gaussian_fisheye/butterworth_fisheye")],
  NOTE + "Oracle: the mapping evaluated in long double; positions within 1e-9 of a discontinuity may fall on either side.")
p("C12", "Colour conversion and channel handling keep every channel's value in place",
  "Converting colour to hue-saturation-value gives the hue angle in [0,360), saturation 1-min/max and value max of every pixel; the way back gives the standard hexagon colour, saturating values beyond 255, and a round trip keeps the largest channel exactly, the smallest within one level and the third within rounding of the two hue conventions. Brightening scales the value and never wraps. Splitting into planes and joining them, adding channels, mapping a function over planes and converting between integer and floating-point colour are exact and keep channel order for any number of channels; planes of different sizes are refused.",
  INP, "all colours, images of any dimensionality, numbers of channels and execution policies",
  "16 million colours and arbitrary channel counts; the tests convert one photograph.",
  ["image_operations.h", "base_types.h"], [("conversion", "image_operations.h rgb2hsv/hsv2rgb/Grayscale2RGB/increase_intensity"), ("planes", "image_operations.h getPlane/constructRGB/constructHSV/constructMultiChannel/addChannel"), ("per-channel map", "image_operations.h apply_each/apply_each_single_output"), ("types", "image_operations.h convert_image/im2double/im2uint8")],
  NOTE + "Oracle: hue as atan2 of the chroma vector, the hexagon formula in long double, and direct channel indexing.")
p("C13", "Histograms count every pixel exactly once and Otsu maximises class separation",
  "The histogram of any image holds for every value exactly the number of pixels with it, whatever the pixel type; lookup, iteration, indexing, sums, normalised probabilities and binned counts all agree with those counts, and adding, subtracting (never below zero) and editing histograms in any order keeps them so. Binned counts cover the requested range with equal bins and leave out values outside it. The Otsu threshold of an image or histogram maximises the variance between the classes at or below and above it. Thresholding maps values above the threshold to the type's maximum and all others to its minimum.",
  INP + ["histories"], "all images, value distributions, bin ranges, thresholds and sequences of histogram operations",
  "Counts at the extremes of a type, ties, empty bins and iterator lifetime are not sampled by the tests.",
  ["histogram.h", "image_operations.h"], [("counting", "histogram.h Histogram"), ("bins", "image_operations.h histogram_with_bins/normalize_histogram/histogram_normalized"), ("Otsu", "image_operations.h otsu_threshold"), ("threshold", "image_operations.h apply_threshold_openmp/apply_each_pixel")],
  NOTE + "Oracle: a std::map of counts, exact between-class variance in long double; operation histories against the map model.", "stateful model-based property testing and optimality check against exhaustive search")
p("C14", "Whole-image predicates, reductions and distances account for every pixel",
  "The all, any and none predicates, sum, mean, minimum, maximum, count, replacement, sorting, range normalisation and shape comparisons of an image give exactly the answer defined over all of its pixels, channel by channel for colour and multi-channel images, for images of any dimensionality and with every execution policy. Means and distances of integer images never wrap. Manhattan and Euclidean distances between images, arrays and number ranges, complex numbers included, equal their definition, are zero between identical operands, and operands of different sizes are refused.",
  INP, "all images, pixel types, numbers of channels, predicates and execution policies",
  "A reduction that skips, repeats or wraps a pixel shows only for particular positions and values; the tests print a few sums.",
  ["image_operations.h"], [("predicates", "image_operations.h all_of/any_of/none_of families, is_*_same, check_*_same, is_symmetry"), ("reductions", "image_operations.h sum/mean/min/max/minmax/count/replace/sort/normalize"), ("distances", "image_operations.h manhattan_distance/euclidean_distance/squared_euclidean_distance")],
  NOTE + "Oracle: explicit loops over the pixels in wider types.")
p("C16", "Gaussian kernels, smoothing and Gaussian fitting follow their formulas",
  "The normal-density functions and the one-, two- and three-dimensional and elliptical Gaussian figures hold the defining value at every sample, scaled to unit sum when asked. Gaussian smoothing with an odd window replaces every pixel, without displacement, by the normalised Gaussian-weighted mean of its neighbourhood with the border extended as requested (the window defaults to 2*ceil(2*sigma)+1 and the border to mirror); with any window it keeps constants and never leaves the range of the input. The difference of Gaussians is the difference of two smoothings. Fitting a sampled noise-free Gaussian spot recovers its parameters. Colour images are smoothed channel by channel, with any execution policy.",
  INP, "all sizes, centres, deviations, correlations, windows, borders and image contents",
  "A kernel that is off by one sample or not normalised still looks like a blur; the tests only write pictures.",
  ["image_operations.h"], [("densities and figures", "image_operations.h normalDistribution1D/2D, gaussianFigure1D/2D/3D"), ("smoothing", "image_operations.h imgaussfilt/difference_of_gaussian/computeFilterSizeFromSigma"), ("fitting", "image_operations.h estimate_gaussian_parameters_2d")],
  NOTE + "Oracle: densities and direct weighted sums in long double; fitting is checked for well-sampled spots (deviation at least one pixel, centre in the middle of the image, correlation at most 0.6).")
p("C17", "Windowed and bilateral filters see exactly the window around each input pixel",
  "A windowed filter calls its function once per pixel with the window of the requested size around that pixel of the unfiltered image, extended at the border as requested (filled with the default value in dimensions other than two), and stores the result at that pixel, so the order or parallelism of evaluation cannot be seen. The bilateral filter gives the mean of the window weighted by the range kernel of the difference to the centre and the spatial kernel of the distance to it, truncated for integer pixels, channel by channel for colour. Patch distances are mean squared differences. A window whose number of sizes differs from the dimensionality is refused.",
  INP + ["schedules"], "all images, dimensionalities, window sizes, borders, filter functions and execution policies",
  "Reading already filtered neighbours or a lopsided window changes values only slightly; tests filter one picture.",
  ["image_operations.h"], [("windows", "image_operations.h windowed_filter/get_center_pixel"), ("bilateral", "image_operations.h bilateral_filter/bilateral_filter_detail/bilateral_filter_spatial_kernel"), ("patches", "image_operations.h DefaultPatchDistance/DefaultWeightCalculation")],
  NOTE + "Oracle: windows rebuilt from coordinates and filters that tell every window position apart; bilateral weights in long double.")
p("C18", "Matrix algebra returns true products, inverses, eigenpairs and solutions",
  "Matrix product and transpose equal their definitions for all shapes; the eigenvalues and eigenvectors of a symmetric matrix satisfy A v = e v with orthonormal vectors, up to rounding; the least-squares null vector has unit length and no unit vector has a smaller residual; the inverse of a regular 3x3 matrix multiplies to the identity from both sides and a singular one has none; solving a regular linear system gives the vector that satisfies it, pivoting where needed; determinants and symmetry tests agree with their definitions. Shapes that do not fit, and matrices that are not square where they must be, are refused.",
  INP, "all matrix shapes up to 10x10, entries, ranks and right-hand sides",
  "Convergence, pivoting and rank-deficient cases depend on the matrix; the tests use none.",
  ["linear_algebra.h", "image_operations.h"], [("matrices", "linear_algebra.h Matrix/multiply/transpose/invert"), ("eigenpairs", "linear_algebra.h jacobi_eigen_solver/svd_solve_ah_zero"), ("systems", "image_operations.h solve_linear_system/determinant3x3")],
  NOTE + "Oracle: the defining equations evaluated in long double and comparison with random competing vectors.")
p("C19", "Homographies map matched points onto each other and warps and stitches follow",
  "From four or more exact matches the estimated homography maps every point onto its partner; fewer matches are refused. With a share of wrong matches the robust estimators still map all right matches onto their partners within the threshold, and refinement makes no right match worse. Rescaling a homography between image sizes keeps the mapping. Warping fills each output pixel with the interpolated source at the position the homography gives and with the default value outside; the identity returns the image. A stitched canvas is the bounding box of both images and holds each image where only it lies and, where they overlap, their mean weighted by the position across the first image, also when the second extends to the left or above. Two overlapping photographs with enough features are registered from their pixels alone; photographs without features are not stitched. Degenerate homographies give empty results, never a crash. All forms and execution policies agree.",
  INP, "all match sets, outlier shares, homographies, image sizes and contents, random seeds and execution policies",
  "The tests stitch nothing and cannot sample the space of maps; errors show only for particular geometry.",
  ["image_operations.h", "linear_algebra.h"], [("estimation", "image_operations.h compute_homography/find_homography_robust/refine_homography"), ("warping", "image_operations.h warp_perspective"), ("stitching", "image_operations.h create_stitched_image/find_stitch_homography/imstitch/stitch_sequential"), ("rescaling", "image_operations.h scale_homography")],
  NOTE + "Oracle: ground-truth maps from which the matches are generated, and inverse mapping with bilinear interpolation in long double.")
p("C23", "The command-line engine keeps its variables, arguments and commands consistent",
  "The workspace behaves as a map from names to values under any sequence and interleaving of store, read, rename, copy, remove and clear, decorated names ($, quotes, blanks) denote the same variable, and the listing names each variable with its kind. Numeric, boolean and string arguments are parsed to the value they denote and invalid or out-of-range text is refused. An execution-policy word selects exactly that policy and only as a whole word. The registry runs the command registered under the name with its arguments and refuses others. A value saved under a name goes to the file format its extension says and is loaded back equal; an optimised pipeline leaves every variable the user can name, every file and every output as the unoptimised one does.",
  INP + ["histories", "schedules"], "all histories of workspace operations and threads, argument texts, names, file extensions and pipelines",
  "The tests run no command; histories of names and rewritten pipelines have combinatorially many shapes.",
  ["main.h"], [("workspace", "main.h Workspace store/retrieve/rename/remove/list_variables"), ("arguments", "main.h parse_arg/sanitize_string_view/parse policy"), ("registry", "main.h CommandRegistry"), ("files", "main.h load/save routing by extension"), ("optimiser", "main.h PeepholeOptimizer::optimize")],
  NOTE + "Oracle: a std::map model of the workspace; pipelines are interpreted symbolically before and after optimisation.", "stateful model-based property testing, including multi-threaded histories and differential interpretation of pipelines")
p("C25", "Command-line sessions do to variables and files exactly what their lines say",
  "For any session of command lines (reading, writing, generating, transforming, copying, renaming, removing and listing variables, pipelines, with or without execution policy and optimisation, well-formed or not) the variables and files after each line are those obtained by applying each command's meaning to a plain map of images. A line that fails is reported, leaves all variables and files as they were, and the session goes on; no line ends the program. A single command given as program arguments does the same as the line. Random generation is reproducible for a given seed and engine and stays in range.",
  INP + ["histories"], "all sequences of commands, arguments, image sizes, execution policies, pipelines and failures",
  "The state after a session depends on the whole history and on failing lines in it; the repository tests never run the program.",
  ["main.cpp", "main.h"], [("session loop", "main.cpp main / run of a line"), ("commands", "main.cpp command handlers"), ("pipelines", "main.cpp pipeline execution and temporaries")],
  NOTE + "Oracle: a model of the workspace in plain vectors; the real program runs in-process with its streams redirected.", "stateful model-based property testing of the whole program against a workspace model")
p("C26", "Plugin commands apply their mathematics to every kind of value a session holds",
  "Loading a plugin adds exactly its commands (abs, max, min, sum and subtract; add) with the stated places of input and output. abs stores the absolute value of every element, max and min the extreme element (one per channel for colour and multi-channel images), sum the total in the element type (colour bytes as doubles), add and subtract the element-wise sum and difference of two images of the same size, for images of every pixel type and for vectors, lists, deques and arrays, with or without an execution-policy word anywhere among the arguments. The result goes to the named variable, also when that is an input, or is printed when none is named; every other variable stays as it was. Missing arguments or variables, unsupported types, different sizes, truth values in sums and differences, complex values or no elements in extremes, and outputs that are no variable are reported and change nothing.",
  INP + ["histories"], "all pixel and element types, sizes, values, variable names, policies and argument errors",
  "The handlers are instantiated over some forty types and dispatch at run time; the repository never runs them.",
  ["main.h", "plugin_math.cpp", "plugin_math_add.cpp"], [("registration", "plugin_math.cpp / plugin_math_add.cpp register_plugin_commands"), ("reductions", "main.h MetaScalarHandler, handlers::max / min / sum"), ("element-wise", "main.h MetaTransformHandler, handlers::abs / add / subtract")],
  NOTE + "Oracle: element loops over plain vectors. Sums and differences of bytes are compared only where they fit the byte.", "model-based property testing of the registered commands over generated workspaces")
p("C20", "Algorithms on nested containers act on the flattened sequence of their elements",
  "Searching, counting, testing, transforming, filtering, replacing, reducing, folding, flattening, visiting, printing and taking extremes of arbitrarily nested containers gives what the same algorithm gives on the elements in order, keeps the nesting where the result is nested, calls a given function once per element, leaves the input unchanged, and is the same with every execution policy. Mean, population variance and standard deviation, square sums, root mean squares and sums of tuple elements equal their definitions and are refused for no data where undefined; combining two sequences of different lengths is refused.",
  INP + ["schedules"], "all nestings including empty inner containers, all element values, functions, projections and execution policies",
  "Every image operation is built on these helpers; empty inner containers, order of evaluation and parallel forms are not reached by the sample programs.",
  ["basic_functions.h"], [("recursion", "basic_functions.h recursive_transform / recursive_reduce / recursive_for_each"), ("search and count", "basic_functions.h recursive_find / recursive_count / recursive_all_of"), ("statistics", "basic_functions.h arithmetic_mean / population_variance / root_mean_square")],
  NOTE + "Oracle: the standard algorithm on the flattened elements.", "differential property testing against flattened sequences with generated nestings")
p("C21", "Drawing colours exactly the shape's visible pixels and changes nothing else",
  "Drawing a point, several points, a circle, a line, keypoint matches or a border gives an image in which exactly the pixels of that shape that lie inside the image have the drawing colour: a point of radius r is every pixel nearer than r to its centre, a circle the ring of first pixels not nearer than its radius, a line one pixel per step along its longer axis and at most half a pixel from the ideal line, both ends included. All other pixels, and the input image, stay as they were, also when the shape reaches over or lies beyond any edge. Images that are not two-dimensional are refused.",
  INP, "all image sizes, pixel types, positions inside and outside the image, radii and colours",
  "Clipping at each of the four edges depends on unsigned arithmetic that only positions near the edge exercise.",
  ["image_operations.h"], [("points", "image_operations.h draw_point / draw_points"), ("circle and line", "image_operations.h draw_circle / draw_line"), ("matches and border", "image_operations.h draw_matches / add_border_2d")],
  NOTE + "Oracle: membership of each pixel in the ideal shape.")
p("C22", "Keypoints, descriptors and matches follow their definitions, inside the image",
  "Keypoints are exactly the samples of the differences of Gaussians that exceed the contrast threshold in magnitude and are strictly greater, or strictly smaller, than all 26 neighbours in position and scale, moved to the extremum of the fitted quadratic when that is less than a pixel away, and mapped to the original image; all lie inside it. Images too small for an octave or its filters yield the keypoints of the octaves that fit. Orientation histograms and descriptors add up the gradient magnitude of each pixel of the window that lies inside the image in the bin of its direction. Two descriptors match exactly when the first is nearer to the second than the ratio times the next nearest, and robust matches are those found in both directions. All of this is the same for every execution policy and number of threads, up to order.",
  INP + ["schedules"], "all images, sizes, keypoint positions including the borders, thresholds, octave and level counts, descriptor sets and thread counts",
  "The tests print counts on synthetic images; border wraparound, races on the result list, small images and singular Hessians are not reached.",
  ["image_operations.h"], [("extrema", "image_operations.h SIFT_impl::find_local_extrema / keypoint_refinement"), ("octaves", "image_operations.h SIFT_impl::generate_octave / get_potential_keypoint"), ("descriptor", "image_operations.h SIFT_impl::get_keypoint_descriptor"), ("matching", "image_operations.h find_raw_matches / find_robust_matches")],
  NOTE + "Oracle: brute-force definitions; directions on a bin border may fall in either bin.")
p("C24", "Generated and random images have the requested size, values and reproducibility",
  "Images of zeros, ones, not-a-number, generated values and complex values have exactly the requested size, given as arguments or as a list of any integer type, and hold the value, or the n-th call of the generator, at every pixel in storage order, with one call per pixel. Index conversion maps linear indices to coordinates and back for any sizes and strides. Random images are determined by the engine's state, lie in the stated range (zero included, one excluded for real ones; both ends included for integers), are spread evenly over it and advance the engine. LaTeX output lists every pixel once with its colour.",
  INP, "all sizes, dimensionalities, pixel types, seeds, ranges and generators",
  "Argument forms that look alike (sizes versus pixels) and range ends are only visible over many sizes and seeds.",
  ["image_operations.h", "image.h"], [("constants", "image_operations.h zeros / ones / nan"), ("generation", "image_operations.h generate / generate_complex_image"), ("random images", "image_operations.h rand / randi"), ("indices", "image_operations.h linear_index_to_indices")],
  NOTE + "Oracle: direct definition; even spread by bounds of seven standard deviations, so that a fair generator never fails in practice.")
p("C15", "Results do not depend on threads, execution policy or schedule",
  "Every operation that may run in parallel gives the same result, to rounding, for every number of threads, every execution policy, and however its iterations are interleaved, and leaves its inputs unchanged. A function handed in by the caller runs exactly once per pixel or element and its result lands at that pixel, also when its calls take very different times; a progress callback never runs twice at a time and its values increase within zero to one.",
  INP + ["schedules"], "all image contents and sizes, thread counts, execution policies and interleavings",
  "A race corrupts some runs on some machines; a test that runs once on a small image almost never sees it.",
  ["image_operations.h", "basic_functions.h"], [("OpenMP loops", "image_operations.h loops under omp parallel for"), ("policies", "image_operations.h overloads taking an execution policy"), ("windowed filter", "image_operations.h windowed_filter progress reporting")],
  NOTE + "Oracle: the single-thread result of the same operation, call counters, and random delays in the callables; a race is found only if it shows in a run.", "differential property testing over thread counts, policies and injected delays")
