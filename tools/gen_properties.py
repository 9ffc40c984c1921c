"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Padding one axis extends the signal exactly as each mode is documented",
     "Padding a tensor along one axis, in any of the documented modes (empty, zeros, constant, replicate, smooth, "
     "circular, periodize, symmetric, reflect, antisymmetric, odd_reflect, odd_symmetric, linear_ramp, maximum, mean, "
     "median, minimum), returns the original samples in the middle and, on both sides, the values given by the mode's "
     "documented extension rule. This holds for every signal length from one sample up, every pair of widths before "
     "and after (also many times longer than the signal, and zero on one side), every parameter of the mode "
     "(constant values, ramp end values, statistic lengths clipped to 1..length) and every element type the mode makes "
     "sense for. Every padded sample is written: none is left uninitialised except in mode empty.",
     ["inputs", "configurations"],
     "all modes x signal lengths x before/after widths x mode parameters x element types x position of the axis",
     "The tests draw ten random shapes and widths per mode and, for the wrapping modes, never pad wider than the "
     "signal; zeros, median, empty, custom element types and multiple wraps are never compared with anything.",
     ["torchimage/padding/generic_pad.py", "torchimage/padding/pad_1d.py", "torchimage/padding/utils.py"],
     [("one in-place filler per mode, chunked copying with alternating flips", "torchimage/padding/pad_1d.py"),
      ("mode dispatch and region bookkeeping", "Padder._fill_value_1d / Padder.forward")],
     ["return value of Padder.forward"])

prop("C02", "N-d padding is 1-d padding applied per axis, in order, right-aligned",
     "Padding several axes gives the same tensor as padding one axis after the other in the order the axes are listed, "
     "each with its own width, mode and mode parameters; axes that are not listed, or whose width is zero, keep their "
     "extent and content (samples in the padding of an axis in mode empty are undefined). Per-axis parameter lists are aligned to the right with the listed axes (surplus entries on "
     "the left are ignored, surplus axes on the left stay unpadded) and a single value applies to every axis. "
     "Axes may be given as an index, negative indices, a slice, a sequence or None (all); user-supplied padding "
     "functions and the single-axis entry point obey the same rules.",
     ["inputs", "configurations"],
     "tensor shapes up to 4 dimensions x every ordered subset of axes and every way to spell it x parameter list "
     "lengths x mixed modes and parameters per axis",
     "The tests only pad all axes with one common mode; axis subsets, axis order, mixed modes, list lengths that differ "
     "from the number of axes, custom functions and the single-axis entry point are not exercised.",
     ["torchimage/padding/generic_pad.py", "torchimage/utils/validation.py", "torchimage/utils/ndspec.py"],
     [("right-justified loop over negative parameter indices", "Padder.forward"),
      ("growing ground-truth region handed from axis to axis", "Padder._fill_value_1d"),
      ("axis normalisation", "check_axes")],
     ["return value of Padder.forward", "return value of Padder.pad_axis"])

prop("C03", "Per-axis parameters broadcast as documented, whatever container holds them",
     "A parameter given as one item (or a part of an item that broadcasts to the declared item shape) yields that same "
     "item for every integer index, has length zero and iterates once; a list of items yields the i-th item, supports "
     "negative indices, has the list's length and raises IndexError out of range. Items are broadcast individually to "
     "the item shape (-1 leaves an axis as is), ragged lists and mixed depths are classified by their common depth, and "
     "data that cannot be broadcast is rejected; nested lists, tuples, arrays and tensors with the same content "
     "behave the same. Mapping, star-mapping, zipping and applying a function act item by item and keep the index "
     "shape, items broadcast against lists, and lists of different length raise ValueError.",
     ["inputs", "configurations"],
     "all nested data up to depth 3 and width 3 (ragged and mixed-depth included) x container kinds x item shapes x "
     "index expressions x operator compositions",
     "Tests check a couple of dozen hand-written literals; the space of nesting x item shape x container x operation is "
     "never swept.",
     ["torchimage/utils/ndspec.py", "torchimage/utils/ragged.py"],
     [("shape discovery of ragged nests", "get_ragged_ndarray"),
      ("right-justified expansion", "expand_ragged_ndarray"),
      ("index/item split", "NdSpec.__init__, __getitem__, apply, map, zip, agg_index_shape")],
     ["NdSpec public methods", "get_ragged_ndarray / expand_ragged_ndarray / apply_ragged_ndarray results"])

prop("C04", "Padding-width and window-count arithmetic agrees with counting windows",
     "The same-padding widths for kernel size k, stride s and input size n are the non-negative pair, split with the "
     "surplus element in front, whose total is the smallest that makes the number of windows ceil(n/s) (k-1 in total "
     "when s=1; a missing stride means s=k). The predicted output size of a (dilated, strided) convolution equals the "
     "number of windows that fit, and the predicted number of original elements under each window, in one or several "
     "dimensions, equals a direct count. Converting padding widths between the numpy and the torch layout is lossless "
     "and describes the same padding in both.",
     ["inputs"],
     "all integer tuples (sizes, widths, kernel sizes, strides, dilations) up to the bounds",
     "The tests draw about 20 random tuples (and return at the first infeasible one), fix dilation to 1 and never touch "
     "the layout conversion or strides in the same-padding formula.",
     ["torchimage/padding/utils.py", "torchimage/shapes/conv_like.py"],
     [("same padding formula", "same_padding_width"),
      ("closed-form run-length construction", "n_original_elements_1d"),
      ("size formula", "conv_1d, conv_nd"), ("layout conversion", "pad_width_format")],
     ["return values"])

prop("C05", "Separable pooling equals dense correlation with the outer-product kernel",
     "Separable pooling along any distinct axes returns, at every output position, the correlation of the (padded) "
     "input window with the outer product of the per-axis kernels, with windows starting every stride elements; an "
     "omitted stride means the kernel size and an empty kernel leaves its axis alone. Without a padder only complete "
     "windows are used; with a same padder in any padding mode the input is first padded by the same-padding widths, "
     "so that each axis yields ceil(n/stride) outputs (mode periodize first makes odd sizes even). Converting a pooling layer to a filter sets stride 1 (and the "
     "padder if one is given) and changes nothing else; the stand-alone 1-d convolution agrees with the same "
     "definition for every axis, stride and dilation.",
     ["inputs", "configurations"],
     "shapes x ordered axis subsets x kernel lists (ragged sizes, empty entries, all container kinds) x strides x "
     "padding modes x layer/filter conversion",
     "The pooling tests do not run here (they need an old scipy) and compare randomly drawn shapes for stride-1 filters "
     "over all axes only; strides, axis subsets, empty kernels and same padding with stride are never tested.",
     ["torchimage/pooling/base.py", "torchimage/pooling/operator.py"],
     [("unfold and matrix-vector product per axis", "SeparablePoolNd.forward"),
      ("same padding resolved at run time", "BasePoolNd.pad, Padder.to_same"),
      ("stride defaults", "BasePoolNd.read_stride"), ("reshape to conv1d/conv2d", "any_conv_1d")],
     ["return value of forward", "return value of any_conv_1d"])

prop("C06", "Gaussian kernels sample the Gaussian derivative, correctly normalised",
     "A Gaussian kernel of given size, standard deviation and derivative order is the sampled Gaussian, normalised to "
     "sum one, multiplied by the Hermite-type polynomial of the requested derivative and oriented so that correlating "
     "with it smooths and differentiates the signal (a rising ramp responds positively to order one). Odd sizes are "
     "symmetric or antisymmetric by the parity of the order; even sizes drop the last sample and, for order zero, still "
     "sum to one. Gaussian pooling uses exactly these kernels axis by axis, each axis with its own size, standard "
     "deviation and order, or one value for all.",
     ["inputs", "configurations"],
     "kernel sizes 1..N x standard deviations x orders 0..K, and n-d pooling over mixed per-axis parameters",
     "The Gaussian tests need scipy and do not run here; even sizes, small sigmas, and per-axis parameter lists are not "
     "tested even there.",
     ["torchimage/pooling/gaussian.py"],
     [("operator-matrix derivative of the Gaussian", "_gaussian_kernel1d"),
      ("flip, crop and renormalise", "gaussian_kernel_1d"), ("per-axis kernels", "GaussianPoolNd._get_kernel")],
     ["gaussian_kernel_1d result", "GaussianPoolNd.forward result"])

prop("C07", "Average pooling divides by the right number of elements",
     "Average pooling returns the mean of each window over the chosen axes. When padding counts, padded samples enter "
     "the sum and the divisor is the full window size; when padding does not count, and the padding is zero, each "
     "output is the mean of only the original elements under its window, also at borders, for every kernel size, "
     "stride, axis order and input size. Without any padding both settings agree.",
     ["inputs", "configurations"],
     "shapes x kernel sizes x strides x ordered axis subsets x count_include_pad x padders",
     "These tests do not run here (scipy); even there only stride 1, odd kernels and two axes in natural order are "
     "compared.",
     ["torchimage/pooling/uniform.py", "torchimage/shapes/conv_like.py", "torchimage/pooling/base.py"],
     [("divisor correction by counted original elements", "AvgPoolNd.forward"),
      ("count of original elements", "n_original_elements_nd")],
     ["AvgPoolNd.forward result"])

prop("C08", "Edge detectors correlate edge kernel on one axis, smoothing kernel on others",
     "For every edge detector (Sobel, Prewitt, Scharr, Farid, Gaussian gradient, Laplace, Laplacian of Gaussian or a "
     "custom pair of kernels) the component along an axis is the same-padded correlation with the edge kernel on that "
     "axis followed by the same-padded correlation with the smoothing kernel on the smoothing axes other than it, with "
     "the documented kernel values (smoothing kernel scaled to sum one when normalisation is on). The list of all "
     "components, the horizontal and vertical shortcuts and the magnitude (p-th root of the sum of p-th powers plus "
     "epsilon; the plain sum for p=1, Laplace and Laplacian of Gaussian) are built from exactly those components for "
     "the axes given. This holds for every kernel value, not only for the ones with a fast path.",
     ["inputs", "configurations"],
     "detectors x kernels x shapes x edge/smooth axes in every spelling x padding modes x normalisation x p and epsilon",
     "The edge tests need skimage and scipy and do not run here; even there axis subsets, custom kernels, p and epsilon "
     "and small Gaussian kernels whose values truncate to a fast-path kernel are not covered.",
     ["torchimage/filtering/edges.py", "torchimage/pooling/gaussian.py", "torchimage/pooling/base.py"],
     [("slice-based fast paths", "EdgeFilter._conv_edge"),
      ("axis bookkeeping", "EdgeFilter.component, all_components, magnitude"), ("kernel tables", "Sobel ... GaussianGrad")],
     ["component, all_components, horizontal, vertical, magnitude, forward results"])

prop("C09", "Unsharp masking adds back the thresholded difference to the blurred image",
     "Unsharp masking returns x + amount * d where d = x - blur(x), with the entries of d whose magnitude is below the "
     "threshold replaced by zero, for any blur layer used as a same-padded stride-1 filter, any axes, amount (also "
     "negative or zero) and threshold. With amount zero, or for an image the blur leaves unchanged, it returns the "
     "image itself; the input is not modified and the output has its shape.",
     ["inputs", "configurations"],
     "blur layers x padders x shapes x axes x amounts x thresholds (below, at and above occurring differences)",
     "There is no test of unsharp masking at all.",
     ["torchimage/filtering/sharpen.py", "torchimage/pooling/base.py"],
     [("difference, threshold, recombination", "UnsharpMask.forward"), ("layer to filter conversion", "BasePoolNd.to_filter")],
     ["UnsharpMask.forward result"])

prop("C10", "SSIM equals its published definition, for every option and axis choice",
     "The structural similarity score and full map equal the published formula computed from windowed means, variances "
     "and covariance over the content axes (window Gaussian of size 11 and sigma 1.5, uniform of size 11, or any supplied "
     "blur; sample or population covariance; constants K1 and K2 for unit data range), with or without same padding in "
     "any mode. The score is the mean of the map over the reduce axes after dropping, when requested, exactly the border "
     "whose windows touch padding. It is symmetric in its two images, is 1 for identical images, and rejects images of "
     "different shape.",
     ["inputs", "configurations"],
     "blurs x padders x covariance kinds x border cropping x K constants x content and reduce axes x image pairs",
     "The only SSIM test needs skimage (it does not run here), fixes the padder, cropping and covariance mode and draws "
     "five random images.",
     ["torchimage/metrics/ssim.py", "torchimage/pooling/base.py"],
     [("moments from blurred products", "SSIM._mu_sigma, _ssim_full"), ("border crop from last-used widths", "SSIM._crop_border"),
      ("reduction", "SSIM._reduce")],
     ["SSIM.forward result, score and full map"])

prop("C11", "Multi-scale SSIM combines the per-level scores as published",
     "The multi-scale score halves both images with 2-wide mean pooling along the content axes between levels, uses the "
     "contrast-structure term on every level but the last and the full SSIM term on the last, averages each (cropped) map "
     "over the content axes per sample and channel, combines levels as a product of eps-clamped weighted powers or as a "
     "weighted sum, and finally averages over the reduce axes. This holds for any number of levels from one up, any "
     "weights, blur, padder and axes; images too small for the number of levels are rejected.",
     ["inputs", "configurations"],
     "weight tuples of length 1..4 x product/sum x blurs x padders x cropping x axes x image sizes around the minimum",
     "There is no running test of the multi-scale metric (the only one is commented out).",
     ["torchimage/metrics/ssim.py", "torchimage/pooling/uniform.py"],
     [("level loop", "MS_SSIM.forward"), ("downsampling", "MS_SSIM._downsample"), ("size check", "MS_SSIM._check_shape_large_enough")],
     ["MS_SSIM.forward result"])

prop("C12", "MSE and PSNR equal their definitions under every reduction",
     "Mean squared error is the squared difference reduced over the given axes (all by default) by mean, sum or not at "
     "all; peak signal-to-noise ratio is 20*log10(max_value) - 10*log10 of that error plus eps. Axes may be spelled in "
     "any supported way and the remaining axes keep their order; both are symmetric in their inputs, inputs of different "
     "shape and unknown reductions are rejected.",
     ["inputs", "configurations"],
     "shapes up to 4-d x axis subsets in every spelling x reductions x max values x eps x dtypes",
     "The metric tests need skimage and do not run here; they never use partial reductions, eps or another max_value.",
     ["torchimage/metrics/base.py", "torchimage/metrics/mse.py", "torchimage/metrics/psnr.py"],
     [("reduction", "BaseMetric._reduce"), ("formulas", "MSE.forward_full, PSNR.forward")],
     ["forward results"])

prop("C13", "Bayer format conversions place every sample correctly and are lossless",
     "Converting between the 1-channel and 4-channel Bayer layouts moves every sample to the documented place and is "
     "inverted exactly by the opposite conversion. Converting RGB to either Bayer layout keeps, at every pixel, exactly "
     "the colour the sensor alignment prescribes (all four alignments, either case), the two layouts agree, and "
     "downsampling to RGB returns R and B unchanged and the mean of both greens. Any leading dimensions and any element "
     "type are supported, and malformed shapes, odd sizes or unknown alignments are rejected.",
     ["inputs", "configurations"],
     "alignments and their case variants x leading dimensions x heights and widths x dtypes x all wrong-shape classes",
     "No test touches the conversions at all.",
     ["torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/cfa/utils/bayer_to_rgb.py", "torchimage/cfa/utils/rgb_to_bayer.py",
      "torchimage/cfa/utils/validation.py"],
     [("strided slicing per 2x2 position", "bayer_1c_to_4c, bayer_4c_to_1c, rgb_to_1c_bayer, rgb_to_4c_bayer"),
      ("shape and alignment checks", "validation.py")],
     ["return values", "raised assertion errors"])

prop("C14", "Bayer convolution applies the right filter per colour site; demosaicing is exact",
     "A Bayer convolution output at each pixel is the correlation, centred on that pixel with reflected borders, of the "
     "input with the filter group of that pixel's colour site (R, B, green in red row, green in blue row) under the given "
     "sensor alignment, and the unshuffled variant is the pixel-unshuffle of it. Demosaicing keeps every measured sample "
     "in its own colour channel, fills the two missing colours with the gradient-corrected linear interpolation of Malvar, "
     "He and Cutler, clamps to [0, limit], and reproduces images of one constant colour.",
     ["inputs", "configurations"],
     "alignments x odd kernel sizes x channel counts x bias x heights and widths x batch layouts x impulse inputs at "
     "every pixel",
     "The single test compares the two layouts of one random layer under one alignment with each other, never with a "
     "definition; demosaicing is untested.",
     ["torchimage/cfa/bayer_conv/bayer_conv_2d.py", "torchimage/cfa/bayer_conv/gradient_corrected.py"],
     [("offset padding per absolute site", "get_padding_layer"), ("site lookup", "get_sensor_beg_index"),
      ("recombination", "BayerConv2d.forward, forward_unshuffle, last_step_demosaic"), ("filter tables", "wf_dict")],
     ["layer outputs", "demosaic output"])

prop("C15", "Safe power is finite, sign-preserving and equals pow where pow is defined",
     "Safe power equals the ordinary power wherever the exponent is an integer or the base is positive; for a negative "
     "base and fractional exponent it returns minus the power of the magnitude, and for a zero base and fractional "
     "exponent the power of epsilon. With a positive epsilon its values and its gradient with respect to the base are "
     "never NaN for finite bases in the fractional-exponent cases, base and exponent broadcast against each other (scalars and tensors in "
     "either role, of any numeric type), and the inputs are left unmodified.",
     ["inputs", "configurations"],
     "bases and exponents from an alphabet covering signs, zero, integers, fractions and their broadcast shapes x scalar/"
     "tensor roles x dtypes x epsilon",
     "Six literals and a few random tensors are tested; broadcasting in both directions with mixed signs, zeros and mixed "
     "fractional/integer exponents, and integer tensors are not.",
     ["torchimage/misc/power.py"],
     [("mask-based rewriting of base and result", "safe_power")],
     ["return value", "gradient"])

prop("C16", "Polynomial, outer product, summary and display-geometry helpers are exact",
     "Polynomial evaluation returns the value of the polynomial with the given descending coefficients at every element, "
     "for any number of coefficients from one up and any coefficient container. The outer product of tensors of any shape "
     "has the concatenated shape and the product entries; the summary reports mean, standard deviation, extremes and "
     "quartiles of all elements; pixels-per-degree follows from diagonal, aspect ratio and viewing distance by plain "
     "trigonometry. None of them modifies its input.",
     ["inputs"],
     "coefficient lists of length 1..7 over a small alphabet x tensor shapes x ranks of both factors x data orders",
     "One random degree-7 polynomial is tested; the other helpers are not tested at all.",
     ["torchimage/misc/polynomial.py", "torchimage/misc/outer.py", "torchimage/misc/stats.py",
      "torchimage/metrics/hdrvdp/pixels_per_degree.py"],
     [("running power", "poly1d"), ("reshape and broadcast", "outer"), ("reductions", "describe")],
     ["return values"])

prop("C17", "Random crops reach exactly the valid offsets; noise models are reproducible",
     "For every answer the random source can give, a random crop is a contiguous block of the requested size along the "
     "requested axes (axes with size None are kept whole) copied from inside the input, and over all answers every valid "
     "offset, including the full-size crop and the last offset, is reachable on every cropped axis. Gaussian noise is the "
     "input plus sigma times a standard normal draw and Poisson-Gaussian noise is k times a Poisson draw of mean x/k plus "
     "such Gaussian noise, with shape and type of the input. Given an explicit generator the result depends only on that "
     "generator's state, the global random state is untouched, and the input is not modified.",
     ["inputs", "fault_sequences", "configurations"],
     "all outcomes of the random source (enumerated) x shapes x axes x sizes; generator states x noise parameters",
     "No test touches these functions; a sampled test could not show that every offset is reachable and none is out of range.",
     ["torchimage/random.py"],
     [("offset draw", "random_crop"), ("noise draws", "add_poisson_gauss_noise, add_gauss_noise")],
     ["return values", "state of the global and the supplied generator"])

prop("C18", "Reusing an object never changes its results: every history acts like fresh",
     "A padder, pooling or filter layer, edge detector, sharpening filter, metric or Bayer layer gives, for every call, the "
     "result that a freshly constructed object would give, whatever calls were made on it before: other shapes, numbers of "
     "axes, element types, calls that raised an error, or gradient computations. Two layers, detectors or metrics built on "
     "one padder, or on one blur layer with the same padding setting, each still behave as if they owned it, and constructing "
     "or using one object never changes another object's later results or results already handed out, except for the "
     "documented in-place conversions (of a layer to a filter, of a padder to same-padding widths).",
     ["histories"],
     "all call sequences over an alphabet of calls per object, to a depth, and all reachable object states to a fixpoint",
     "Tests construct a new object for each comparison and call it once; no test calls an object twice with different shapes.",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/metrics/ssim.py",
      "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/cfa/bayer_conv/bayer_conv_2d.py"],
     [("padding width rewritten in place on every call", "BasePoolNd.pad, Padder.to_same"),
      ("crop reads the last-used padding width", "SSIM._crop_border")],
     ["results of call sequences"])

prop("C19", "Every operation is differentiable with the correct gradient",
     "For padding in every mode, pooling, Gaussian and average filters, edge detectors, sharpening, the metrics and "
     "losses, Bayer layers, polynomial and safe power, back-propagation through the operation succeeds and yields the true "
     "derivative of the operation's output with respect to every differentiable input, at points where it is "
     "differentiable; gradients recorded with create_graph can be differentiated again, correctly. Requiring gradients never changes the forward values.",
     ["inputs", "configurations"],
     "operations x modes x shapes x every input coordinate x output cotangents",
     "Gradients are checked only for non-NaN in five safe-power literals; in-place writes on shared buffers can break or "
     "silently corrupt gradients of any other operation.",
     ["torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py",
      "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/misc/power.py", "torchimage/misc/polynomial.py"],
     [("in-place filling recorded by autograd", "pad_1d functions"), ("in-place accumulation", "EdgeFilter.magnitude, MS_SSIM.forward, poly1d")],
     ["gradients of inputs"])

prop("C20", "Inputs stay intact; results ignore memory layout, batching and axis numbering",
     "No operation modifies its input tensors or the parameter objects passed to it. The result keeps the input's element "
     "type, is the same for contiguous, transposed, strided and expanded inputs with equal content, the same for each "
     "sample whether processed alone or in a batch of any rank, and the same when the axes are permuted together with the "
     "axis arguments.",
     ["inputs", "configurations"],
     "every public tensor operation x configurations x memory layouts x dtypes x batch ranks x axis permutations",
     "Tests pass fresh contiguous tensors in one layout and never look at the input again.",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/pooling/operator.py",
      "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/metrics/base.py",
      "torchimage/metrics/ssim.py", "torchimage/misc/power.py", "torchimage/cfa/utils/bayer_1c_4c.py"],
     [("copy before in-place fill", "Padder.forward"), ("clone before masked write", "safe_power")],
     ["input tensors before and after", "results"])

prop("C21", "Invalid requests fail with an error instead of a wrong result or a hang",
     "Requests with no defined result end in an exception no later than the call that needs them: axis indices outside the "
     "tensor (a ValueError wherever axes are an argument, also for indices that would be valid after wrapping twice), negative "
     "padding widths, strides below one, unknown padding modes or reductions, per-axis lists of different lengths (or, for "
     "pooling, of another length than the axes), pooling windows larger than the padded input, non-empty padding of an empty "
     "axis in a mode that needs samples, more than one edge kernel or edge axis, fewer than two axes for a gradient "
     "magnitude, negative derivative orders, images compared in different shapes or too small for the levels or window, crops "
     "larger than the image, kernels with fractional weights (averages, Gaussians) on images of an integer type, and malformed Bayer arrays or alignments. Valid requests next to those boundaries succeed.",
     ["inputs", "configurations"],
     "every entry point x all values of each validated argument in a window around the validity boundary",
     "Two of these rejections are tested, on one literal each.",
     ["torchimage/utils/validation.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py",
      "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/cfa/utils/validation.py"],
     [("argument checks", "check_axes, check_stride, check_pad_width, check_sensor_alignment"), ("assertions at entry points", "forward methods")],
     ["raised exceptions"])

prop("C22", "Independent objects used from several threads never disturb each other",
     "When two threads run operations on independent objects, or call pure functions, or share one padder (or any layer "
     "without an automatic same padder) for reading only, every interleaving gives each thread the result it would get "
     "alone. No hidden module-level or class-level scratch state couples them.",
     ["schedules"],
     "all interleavings of two threads at source-line granularity up to a preemption bound",
     "No test uses threads, and a scratch buffer hoisted to module scope would pass every sequential test.",
     ["torchimage/padding/generic_pad.py", "torchimage/padding/pad_1d.py", "torchimage/pooling/base.py",
      "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/cfa/bayer_conv/bayer_conv_2d.py"],
     [("all scratch state is local to a call or to one object", "whole package")],
     ["results of both threads"])

prop("C23", "Edge losses compare Gaussian edge maps as defined and vanish on equal images",
     "The Gaussian edge loss is the mean absolute difference of the Gaussian edge components of both images along height "
     "and width, and its weighted variants multiply or divide each difference by the reference edge before averaging, or "
     "compare the per-channel mean absolute edges. Each is zero for identical images (dividing variant: where no reference edge is "
     "zero), uses reflected borders and the requested size, standard deviation and order.",
     ["inputs", "configurations"],
     "loss variants x kernel sizes x sigmas x orders x shapes x image pairs",
     "No test imports the losses.",
     ["torchimage/contrib/edge_loss.py", "torchimage/filtering/edges.py"],
     [("edge maps concatenated over channels", "GaussianEdgeLoss._get_edge_tensor"), ("loss formulas", "forward methods")],
     ["forward results"])

prop("C24", "Copied, pickled and reloaded objects behave like the original",
     "Every padder, pooling layer, filter, metric, loss, Bayer layer and per-axis specification can be copied, deep-copied, "
     "pickled and saved with torch.save at any point of its life (fresh, used, used under automatic differentiation, after "
     "train/eval), and the copy and the original both go on giving the results of a fresh object of the same configuration. "
     "Deep copies are independent: converting, retraining or reconfiguring one leaves the other alone. The state_dict of a "
     "Bayer layer carries every trainable parameter, every parameter receives gradients and is trained, and loading the state "
     "into another instance reproduces its outputs exactly.",
     ["histories", "configurations"],
     "every object x every sequence of uses, copies, saves and mode switches up to a depth x every member of the lineage",
     "Nothing in the test suite copies, pickles, saves or trains an object.",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/pooling/uniform.py", "torchimage/pooling/gaussian.py",
      "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py",
      "torchimage/cfa/bayer_conv/bayer_conv_2d.py", "torchimage/utils/ndspec.py"],
     [("plain attributes and registered submodules only", "constructors of all layers"),
      ("four convolutions registered in conv_dict", "BayerConv2d.__init__")],
     ["results of copies and originals", "state_dict"])

prop("C25", "Calls neither change nor depend on the surrounding global settings",
     "Constructing an object and calling any operation, whether the call succeeds or raises, leaves everything global as it was: "
     "default element type and device, gradient and inference mode, anomaly and deterministic mode, thread count, numpy error "
     "handling, warning filters, and the states of the random generators of torch, numpy and Python (drawing operations given a "
     "generator draw from that generator only). The results have the same values, element type and device (that of the input) "
     "whatever those settings are (also with every warning raised as an error) and whatever freshly allocated memory holds, and require gradients only if an input or a "
     "trainable parameter does and gradient mode is on.",
     ["configurations", "histories"],
     "every operation and failing call x every combination of ambient settings with a bounded number away from the initial ones",
     "Tests run in one ambient configuration and never look at it afterwards.",
     ["torchimage/padding/generic_pad.py", "torchimage/padding/utils.py", "torchimage/pooling/base.py", "torchimage/pooling/operator.py",
      "torchimage/pooling/gaussian.py", "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py", "torchimage/misc/power.py",
      "torchimage/random.py", "torchimage/shapes/conv_like.py"],
     [("tensors created with the input's element type and device", "Padder.forward, any_conv_1d, n_original_elements_1d"),
      ("caller's generator passed to every draw", "torchimage/random.py")],
     ["ambient settings before and after a call", "results"])

prop("C26", "Values of any magnitude stay where the definition puts them",
     "Each entry of a result depends on exactly the input entries its definition names: replacing one sample by NaN, an infinity or "
     "a huge number leaves every result entry without a part in it (outside the windows, in other samples, channels, rows or colour "
     "sites) at its value, for short and long axes and kernels, and where it takes part with a non-zero coefficient a value that is not finite shows in the result. "
     "Scaling the input (and parameters measured in its unit) by a factor from tiny to huge scales the result of every homogeneous operation by the "
     "matching power. Operations that only move or select samples keep integer values exactly, up to the extremes of every "
     "integer type.",
     ["inputs", "configurations"],
     "every operation x every entry of every input x special value; exponents over the range of the type; integer extremes x modes",
     "Tests compare results on a few ordinary images; a value far away that leaks or a hidden epsilon does not show.",
     ["torchimage/padding/pad_1d.py", "torchimage/pooling/operator.py", "torchimage/pooling/uniform.py", "torchimage/filtering/edges.py",
      "torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py", "torchimage/cfa/bayer_conv/bayer_conv_2d.py",
      "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/misc/power.py"],
     [("windows read only the samples they cover", "any_conv_1d, SeparablePoolNd.forward"),
      ("padding copies or combines only the documented samples", "torchimage/padding/pad_1d.py"),
      ("one convolution per colour site, no masks", "BayerConv2d.forward")],
     ["results of operations on images with one special entry"])

prop("C27", "Empty batches, no axes and single-pixel axes are ordinary inputs",
     "Padding, pooling, filters, edge detectors, sharpening, metrics and pointwise operations applied to a batch without elements return an "
     "empty result of the shape and element type that belongs to it, wherever the batch axes stand. Padding, pooling, filtering or sharpening along no axes at all returns the "
     "input's values. Along axes of a single pixel padding (every mode), same-padded pooling and filters, average pooling that does not count padding, edge detectors, "
     "sharpening and SSIM give what their definitions say.",
     ["inputs", "configurations"],
     "operations x placements of empty axes; layers x modes x spellings of no axes; operations x modes x shapes with one-pixel axes",
     "Tests use images of a few pixels at least and never an empty tensor.",
     ["torchimage/padding/generic_pad.py", "torchimage/padding/pad_1d.py", "torchimage/pooling/base.py", "torchimage/pooling/uniform.py",
      "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py", "torchimage/metrics/mse.py",
      "torchimage/misc/power.py", "torchimage/misc/polynomial.py"],
     [("nothing to do without axes", "Padder.forward"), ("modes fall back to replicate for one sample", "torchimage/padding/pad_1d.py")],
     ["results on degenerate shapes"])

prop("C28", "Omitted arguments mean their documented defaults, in any spelling",
     "Every public constructor, method and function gives the same result however the call is spelled: an argument left out behaves as if its documented default "
     "had been written (Sobel() is Sobel(normalize=False, same_padder='reflect'), PSNR() is PSNR(max_value=1, eps=0.0, reduction='mean'), UnsharpMask(blur) has amount 0.5 "
     "and threshold 0, SSIM() uses K1=0.01, K2=0.03 and crops the border, MS_SSIM() the five weights of the paper, safe_power epsilon=1e-6 and so on), arguments given by position "
     "are those of the documented order (a layer's same_padder and a metric's reduction by name only), and every argument that is "
     "accepted takes effect.",
     ["inputs", "configurations"],
     "callables x subsets of omitted arguments x number of positional arguments x one argument at another value",
     "Tests construct each object in one spelling; a changed default or a parameter bound to the wrong position is invisible to them.",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/pooling/uniform.py", "torchimage/pooling/gaussian.py",
      "torchimage/filtering/edges.py", "torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py", "torchimage/metrics/psnr.py",
      "torchimage/metrics/mse.py", "torchimage/misc/power.py", "torchimage/random.py", "torchimage/contrib/edge_loss.py"],
     [("documented defaults in the signatures", "constructors and forward methods"), ("subclasses pass their arguments on by name", "edges.py, uniform.py, gaussian.py")],
     ["results of the same call written in different ways"])

prop("C29", "Operations run on the device of their input, and results stay there",
     "Every operation accepts tensors on any device, whatever devices and element types the same object was used with before: nothing it computes or keeps "
     "(kernels, counts, weights, masks, canvases for padding) is left on another device, the result is on the input's device with the documented shape and "
     "element type, and so is the gradient.  A kernel given as a tensor may live anywhere; functions with a device argument honour it; a layer moved as a module works "
     "where its parameters are.",
     ["inputs", "histories", "configurations"],
     "operations x element types x histories of devices of one object x places of tensor parameters (two further devices played by torch's fake tensors)",
     "Tests run on the cpu only, where a constant created on the wrong device or a cache that forgets the device goes unnoticed.",
     ["torchimage/pooling/base.py", "torchimage/pooling/uniform.py", "torchimage/padding/pad_1d.py", "torchimage/padding/generic_pad.py", "torchimage/misc/power.py",
      "torchimage/cfa/bayer_conv/bayer_conv_2d.py", "torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/random.py",
      "torchimage/shapes/conv_like.py", "torchimage/metrics/ssim.py", "torchimage/contrib/edge_loss.py"],
     [("move_tensor", "pooling/base.py"), ("'Has the same dtype and device as the input tensor'", "cfa/utils")],
     ["device, shape and element type of results and gradients"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
