"""Writes /verif/properties.jsonl (single source for ids, titles, statements, anchors)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["torchimage/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": "torchimage/" + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": "torchimage/" + w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


GP, P1, PU = "padding/generic_pad.py", "padding/pad_1d.py", "padding/utils.py"

prop("C01", "Padding embeds the input unchanged in a tensor of the requested shape",
     "For every tensor, padding mode (one mode or a mixture of modes per axis), padding width and choice of axes, the "
     "padded result has the input's dtype, each padded axis has length before + n + after (plus one when 'periodize' is "
     "used on an odd-length axis whose width is not (0, 0)) and all other axes keep their length. The block that starts at "
     "offset `before` along every padded axis equals the input element for element. This holds equally when axes are padded one at a time.",
     ["inputs", "configurations"], "every tensor shape (1-5 dims, length-1 axes included), dtype, memory layout, mode, width (0, asymmetric, wider than the axis), axes notation",
     "test_padder.py compares a few random contiguous float64 shapes with axes=None against numpy/pywt for widths that mostly do not exceed the axis; "
     "it never tests per-axis modes, subsets of axes, other dtypes/layouts, pad_axis or the zeros/empty/median modes.",
     [GP, P1], [("Padder.forward", GP), ("Padder.pad_axis", GP)], ["Padder.forward return value", "Padder.pad_axis return value"])

prop("C02", "Copying pad modes follow their periodic/mirror extension at every distance",
     "In modes replicate, circular, periodize, symmetric, antisymmetric and reflect, every padded element at signed "
     "coordinate j along a padded axis equals exactly the input element at the coordinate obtained by clamping, wrapping or "
     "mirroring j as the documented infinite extension prescribes (negated on odd folds for antisymmetric). "
     "This holds for every width, including widths that wrap around the axis many times, different widths before and after, and axes of length 1 and 2.",
     ["inputs", "configurations"], "all axis lengths, before/after widths (many wraps), axis positions and dtypes",
     "The tests stop at a width of one axis length for these modes because numpy/pywt are known to be wrong beyond it, so multi-wrap behaviour - the documented improvement over numpy - is never compared with anything.",
     [P1, GP], [("replicate_1d/circular_1d/periodize_1d/symmetric_1d/reflect_1d", P1)], ["Padder.forward return value"])

prop("C03", "Extrapolating pad modes follow their documented formulas at every distance",
     "In modes odd_reflect and odd_symmetric the padding is the repeated point reflection of the documented formulas for arbitrarily "
     "wide padding; in mode smooth it is the straight line through the two outermost samples on that side; in mode linear_ramp it moves in equal steps from the border "
     "sample to that side's end value, which is the outermost padded element. An axis of length 1 is extended by a constant in odd_reflect, odd_symmetric and smooth.",
     ["inputs", "configurations"], "all axis lengths, before/after widths, end values, axes and float dtypes",
     "Existing tests sample one random width below the axis length for odd_*, skip length-1 axes and zero widths for smooth, and always pad every axis of a float64 tensor.",
     [P1, GP], [("odd_symmetric_1d/odd_reflect_1d/smooth_1d/linear_ramp_1d", P1)], ["Padder.forward return value"])

prop("C04", "Constant and statistic pad modes use exactly the stated value on each side",
     "Modes zeros and constant fill each side of each padded axis with 0 or with that axis' before/after constant, also when the axis is empty. Modes maximum, minimum, mean and median fill each side "
     "with that statistic (torch's lower median) of the stat_length samples nearest to that side of the axis, with stat_length clipped to between 1 and the axis length and None meaning the whole axis, independently before and after.",
     ["inputs", "configurations"], "all shapes, widths, constants and stat_lengths (scalar, pair, per-axis, None on either side, larger than the axis)",
     "Median and zeros are never tested, stat_length is only tested inside the axis length and never None, and one-sided None or clipping is never reached.",
     [P1, GP], [("zeros_1d/constant_1d/stat_1d", P1), ("Padder._fill_value_1d", GP)], ["Padder.forward return value"])

prop("C05", "N-d padding is 1-d padding applied axis by axis with right-justified specs",
     "Padding several axes gives the same tensor as padding those axes one after another in the given order, each with its own width, mode and parameters, whether the parameters are built-in modes or a custom padding function. "
     "A scalar or single item applies to every axis; a per-axis list is aligned with the last of the requested axes, so missing leading entries leave those axes unpadded and surplus leading entries are ignored. "
     "Equivalent spellings of the same parameters (scalar, pair, list, array, wrapped spec) and of the same axes (negative, slice, None) give identical results.",
     ["inputs", "configurations"], "all combinations of per-axis widths/modes/values/stat_lengths, list lengths, axis orders and notations",
     "The tests only use full-length lists with a single mode and axes=None.",
     [GP, "utils/ndspec.py", "utils/validation.py"], [("Padder.forward loop over axes", GP), ("NdSpec right-justified indexing", "utils/ndspec.py")],
     ["Padder.forward return value", "custom pad_func calls"])

prop("C06", "No result ever depends on uninitialised memory",
     "Every element of every tensor returned by the library's padding, pooling, filtering, metric, colour-filter-array and miscellaneous operations is determined by the arguments: "
     "repeating a call while freshly allocated memory holds arbitrary other contents gives bit-identical results. The only exception is the border requested explicitly with padding mode 'empty'.",
     ["inputs", "configurations"], "all operations, modes, shapes and allocator contents",
     "A freshly mapped allocation is usually zero or stale plausible data, so a comparison test can pass by luck; no test controls allocator contents.",
     [GP, "cfa/bayer_conv/bayer_conv_2d.py", "cfa/utils/bayer_1c_4c.py", "cfa/utils/rgb_to_bayer.py"],
     [("torch.empty then fill", GP), ("torch.empty then strided fill", "cfa/bayer_conv/bayer_conv_2d.py")], ["return values under poisoned torch.empty"])

prop("C07", "Same padding gives ceil(n/stride) outputs and matches explicit padding",
     "A pooling module with a same padder produces ceil(n / stride) elements along each pooled axis of length n for every kernel size and stride (mode periodize on odd lengths excepted), so with stride 1 the shape is preserved. "
     "The total width is the smallest non-negative width that achieves this with every window in bounds, split so that `before` exceeds `after` by at most one and is never smaller. "
     "The result equals explicitly padding the input by that width in that mode and then pooling without padding.",
     ["inputs", "configurations"], "all axis lengths, kernel sizes, strides (None included), modes, axes",
     "test_padding_width checks stride 1 only; the pooling tests cannot run in this environment and use stride 1.",
     [PU, "pooling/base.py", GP], [("same_padding_width", PU), ("Padder.to_same", GP), ("BasePoolNd.pad", "pooling/base.py")],
     ["pool.forward return value", "same_padding_width return value"], [("Padder.pad_width", "re-derived on each call from kernel, stride and input shape", GP)])

prop("C08", "Separable pooling equals dense strided correlation with the outer-product kernel",
     "For every list of 1-d kernels (even, odd, length-1 or empty, different per axis, or one kernel for all axes), stride per axis (None meaning the kernel size) and list of axes, unpadded pooling equals the direct strided correlation "
     "of the input with the outer product of the kernels along those axes; axes with empty kernels are left unchanged, and a repeated axis is processed repeatedly. "
     "Converting a module to a filter changes only its stride to 1 and, if one is given, its padder.",
     ["inputs", "configurations"], "all kernels, strides, axes orders, dimensions and float dtypes",
     "The pooling test file cannot be imported here (scipy missing), and it only covers stride 1 with axes=None.",
     ["pooling/base.py"], [("SeparablePoolNd.forward", "pooling/base.py"), ("BasePoolNd.read_stride/to_filter", "pooling/base.py")], ["SeparablePoolNd.forward return value"])

prop("C09", "Average pooling returns exact window means, counting pads only when asked",
     "With count_include_pad=True each output of average pooling is the arithmetic mean of its window in the (padded) input. With count_include_pad=False and zero padding (or no padding) each output is the mean of only the original elements in its window, "
     "for every kernel size, stride, shape and every order or notation of the axes; so a constant image stays that constant.",
     ["inputs", "configurations"], "all kernel sizes, strides, shapes, axes orders",
     "Only square windows with stride 1 on axes (2, 3) were ever tested, in a file that does not run here.",
     ["pooling/uniform.py", "shapes/conv_like.py"], [("AvgPoolNd.forward", "pooling/uniform.py"), ("n_original_elements_nd", "shapes/conv_like.py")], ["AvgPoolNd.forward return value"])

prop("C10", "Gaussian kernels are normalised sampled Gaussians and their exact derivatives",
     "A Gaussian pooling kernel of odd size k, standard deviation sigma and order m equals the m-th derivative of the Gaussian with that sigma, sampled at the k integers around its centre, scaled so that the order-0 samples sum to one, and orientated for correlation (so an order-1 filter responds positively to an increasing ramp); "
     "an even size drops the last tap, re-normalising only for order 0. Gaussian pooling equals separable pooling with these kernels, per axis when size, sigma or order are lists, and order-0 pooling preserves constants.",
     ["inputs", "configurations"], "all kernel sizes, sigmas, orders, axes",
     "The scipy comparison for Gaussian pooling cannot be imported here; it used one sigma and odd sizes only.",
     ["pooling/gaussian.py"], [("gaussian_kernel_1d/_gaussian_kernel1d", "pooling/gaussian.py"), ("GaussianPoolNd", "pooling/gaussian.py")], ["gaussian_kernel_1d and GaussianPoolNd.forward return values"])

prop("C11", "Convolution shape arithmetic and 1-d convolution agree with brute force",
     "Convolution along any axis of a tensor of any layout, with any stride and dilation, equals the explicit sum over taps, and its output length is what the shape helper predicts. "
     "The count of original (unpadded) elements per window equals a brute-force count for every input size, padding, kernel size and stride, and in n dimensions is the outer product of the 1-d counts in axis order.",
     ["inputs", "configurations"], "all sizes, paddings, kernels, strides, dilations, axes and memory layouts",
     "The existing tests use dilation 1 and contiguous inputs, sample 20 random size combinations (stopping at the first one that does not fit), and never call the shape helpers.",
     ["pooling/operator.py", "shapes/conv_like.py"], [("any_conv_1d", "pooling/operator.py"), ("conv_1d/conv_nd/n_original_elements_*", "shapes/conv_like.py")], ["return values"])

prop("C12", "Edge components correlate the edge kernel on one axis and smooth the others",
     "A gradient component equals correlation with exactly the filter's edge kernel along the edge axis followed by correlation with its smoothing kernel (sum-normalised if requested) along each other given axis, after same padding in the chosen mode, for the Sobel, Prewitt, Scharr, Farid, Gaussian-gradient and user-supplied kernels. "
     "The horizontal component differentiates along axis -2, the vertical along axis -1, and the list of all components follows the order of the given axes.",
     ["inputs", "configurations"], "all kernels (fractional ones close to the built-in integer ones included), padding modes, axes, dimensions",
     "The edge test file needs skimage/scipy and cannot run here; it covered only 2-d images for the built-in kernels.",
     ["filtering/edges.py"], [("EdgeFilter.component/all_components/horizontal/vertical", "filtering/edges.py")], ["EdgeFilter method return values"])

prop("C13", "Gradient magnitude, Laplace and LoG combine the per-axis components as defined",
     "The gradient magnitude over the given axes is (sum of components**p + epsilon)**(1/p), with no root for p = 1. The Laplace filter is the sum over the axes of the second difference [1, -2, 1] along each axis alone, and the Laplacian of Gaussian is the sum over the axes of the sampled second Gaussian derivative along that axis smoothed by the order-0 Gaussian along the others. "
     "On an image that is constant the Sobel, Prewitt, Scharr, Farid and Laplace responses vanish in every shape-preserving mode that continues a constant, and requests for fewer than two axes are rejected.",
     ["inputs", "configurations"], "all images, axes subsets, p, epsilon, kernel sizes and sigmas",
     "Only compared with scipy/skimage for two-dimensional random images in a file that does not run here.",
     ["filtering/edges.py"], [("EdgeFilter.magnitude, Laplace.forward, LaplacianOfGaussian.forward", "filtering/edges.py")], ["forward/magnitude return values"])

prop("C14", "Unsharp masking computes x + amount * thresholded(x - blur(x))",
     "For every blur module, padding, amount, threshold and axes, the sharpened image equals x + amount * d, where d = x - blur(x) with the entries of absolute value below the threshold set to zero, and has the shape of x. "
     "Constant regions are left unchanged by normalised blurs, and amount 0 returns the input values.",
     ["inputs", "configurations"], "all images, blurs, amounts (negative included), thresholds, axes",
     "There are no tests of sharpening at all.",
     ["filtering/sharpen.py"], [("UnsharpMask.forward", "filtering/sharpen.py")], ["UnsharpMask.forward return value"])

prop("C15", "MSE and PSNR reduce exactly the requested axes with the stated formula",
     "MSE returns the squared differences reduced by mean or sum over exactly the requested axes (all if None, nothing for an empty sequence or reduction 'none'), and PSNR with mean reduction returns 10*log10(max_value**2 / (MSE + eps)) of them. "
     "Both are symmetric in their two images; mismatching shapes and unknown reductions are rejected.",
     ["inputs", "configurations"], "all shapes, reductions, axes notations, max_value, eps",
     "The metric tests import skimage and cannot run; they covered reduce_axes=None only.",
     ["metrics/base.py", "metrics/mse.py", "metrics/psnr.py"], [("BaseMetric.forward/_reduce", "metrics/base.py"), ("PSNR.forward", "metrics/psnr.py")], ["forward return values"])

prop("C16", "SSIM matches its windowed definition, is symmetric, bounded and crops borders",
     "The full SSIM map equals ((2*m1*m2+K1^2)(2*s12+K2^2))/((m1^2+m2^2+K1^2)(s1+s2+K2^2)) with blurred means m, population (or, if requested, sample: times n/(n-1) with n the window's pixel count) variances s1, s2 and covariance s12 of the sliding windows over the content axes; the score is its mean over the reduce axes after removing, if border cropping is on, every position whose window touches padding. "
     "It is symmetric in the two images, at most 1, and exactly 1 for identical images.",
     ["inputs", "configurations"], "all images, blurs, padders, K1/K2, content and reduce axes, crop and covariance options",
     "The SSIM test needs skimage and cannot run; it never covered sample covariance, subsets of axes, other kernels, or crop_border=False.",
     ["metrics/ssim.py"], [("SSIM._mu_sigma/_ssim_full/_crop_border/forward", "metrics/ssim.py")], ["SSIM.forward return value"], [("last-used pad_width of the blur's padder", "how much border is cropped", "metrics/ssim.py")])

prop("C17", "MS-SSIM combines per-scale contrast terms and a final SSIM as weighted",
     "With L weights, the multi-scale score multiplies max(c_i, eps)**w_i (or sums c_i*w_i if products are off), where c_1..c_{L-1} are the spatial means of the contrast-structure map and c_L that of the full SSIM map, image i+1 being the 2x average-pooled image i, and averages the result over the remaining reduce axes (batch and channel scores are combined only at the end). "
     "It is symmetric, gives 1 for identical images (sum of weights when summing), works for any number of weights L >= 1, and rejects images too small for the coarsest scale.",
     ["inputs", "configurations"], "all images, weights, blurs, padders, axes, options",
     "The only MS-SSIM test is commented out.",
     ["metrics/ssim.py"], [("MS_SSIM.forward/_cs_full/_downsample", "metrics/ssim.py")], ["MS_SSIM.forward return value"])

prop("C18", "Bayer mosaicking and layout conversions are exact and mutually consistent",
     "For each of the four sensor alignments (either case) and every batch shape, mosaicking an RGB image keeps at every site exactly the sample of the colour the pattern puts there; 1-channel to 4-channel conversion and back are exact inverses, the 4-channel mosaic equals the converted 1-channel mosaic, and channels appear in row-major order of the 2x2 cell. "
     "Downsampling a Bayer image to RGB returns that cell's red, blue and mean of its two greens; dtype is preserved by the layout conversions and mosaics.",
     ["inputs", "configurations"], "all even image sizes, leading dims (none, one or several), dtypes, alignments, letter cases",
     "There are no tests of the Bayer utilities.",
     ["cfa/utils/rgb_to_bayer.py", "cfa/utils/bayer_1c_4c.py", "cfa/utils/bayer_to_rgb.py", "cfa/utils/validation.py"],
     [("rgb_to_1c_bayer/rgb_to_4c_bayer", "cfa/utils/rgb_to_bayer.py"), ("bayer_1c_to_4c/bayer_4c_to_1c", "cfa/utils/bayer_1c_4c.py")], ["return values"])

prop("C19", "Bayer convolution applies each site's own filter centred on that site",
     "A Bayer convolution layer's output at each pixel equals the correlation of the reflect-padded input, centred at that pixel, with the weights and bias belonging to that pixel's site type (R, B, green in red row, green in blue row) under the given sensor alignment. "
     "The unshuffled variant equals the 2x2 pixel-unshuffle of that output, batched or not.",
     ["inputs", "configurations"], "all odd kernel sizes, channel counts, alignments, even image sizes, weights, bias on/off",
     "One test compares the two variants with each other for RGGB, kernel 5 only; a common error (wrong site, wrong centring) in both would pass.",
     ["cfa/bayer_conv/bayer_conv_2d.py"], [("BayerConv2d.forward/forward_unshuffle", "cfa/bayer_conv/bayer_conv_2d.py"), ("get_padding_layer/get_sensor_beg_index", "cfa/bayer_conv/bayer_conv_2d.py")], ["forward return values"])

prop("C20", "Demosaicing keeps measured samples and applies the gradient-corrected filters",
     "Demosaicing returns, at every pixel, the measured colour sample unchanged and the two missing colours from the Malvar-He-Cutler 5x5 filters applied with reflected borders, clamped to [0, clamp]. "
     "A mosaicked constant-colour image is reconstructed exactly (up to rounding), and flipping or transposing the mosaic together with its sensor alignment flips or transposes the result. "
     "Filling in the final colours from externally interpolated channels places measured and interpolated samples in their correct RGB channels.",
     ["inputs", "configurations"], "all alignments, even sizes, image contents, clamp values",
     "Demosaicing has no tests.",
     ["cfa/bayer_conv/gradient_corrected.py", "cfa/bayer_conv/bayer_conv_2d.py"], [("wf_dict filters", "cfa/bayer_conv/gradient_corrected.py"), ("last_step_demosaic, PreTrainedBilinearInterpolator.forward", "cfa/bayer_conv/bayer_conv_2d.py")], ["demosaic and last_step_demosaic return values"])

prop("C21", "A per-axis spec indexes like an infinite sequence of its item or like its list",
     "A spec built from a (possibly partial) item returns that item, broadcast to the item shape, for every integer index and reports length 0; a spec built from a list of items returns, for every in-range positive or negative index, the corresponding item (each broadcast to the item shape, otherwise unchanged), reports the list's length, iterates over exactly those items and raises IndexError out of range. "
     "Data that cannot be broadcast to the item shape, or that does not have a required index shape, is rejected.",
     ["inputs", "configurations"], "scalars, strings, None, callables, nested lists/tuples, ragged lists, arrays (object arrays included) and tensors, against item shapes with fixed and free lengths",
     "The tests exercise a dozen literal examples.",
     ["utils/ndspec.py", "utils/ragged.py"], [("NdSpec.__init__/__getitem__/__len__/__iter__", "utils/ndspec.py")], ["NdSpec public behaviour"])

prop("C22", "Combining per-axis specs broadcasts items and applies functions item-wise",
     "Mapping, star-mapping, zipping or applying a function over specs yields a spec whose item at every index is the function of the operands' items at that index, with a single-item operand broadcast against (rectangular) list operands, and whose index shape is the common index shape. "
     "Operands with different non-empty index shapes are rejected, and the operands themselves are not changed.",
     ["inputs", "configurations"], "all mixtures of single-item and list specs of any length, item types and functions (returning scalars, tuples, lists of varying length, None)",
     "The tests contain one zip and one map example.",
     ["utils/ndspec.py"], [("NdSpec.map/starmap/zip/apply/agg_index_shape/agg_index_len", "utils/ndspec.py")], ["NdSpec public behaviour"])

prop("C23", "Ragged arrays report their true shape and expand like broadcasting",
     "For every nested list/tuple/array/tensor structure, the reported ragged shape has the depth common to all leaves and at each level the common length or -1 if lengths differ; in strict mode siblings of unequal depth become leaves without changing the data, in non-strict mode shallower siblings are wrapped in length-1 levels to equal depth. "
     "Expanding to a new shape repeats length-1 levels and adds leading levels exactly as broadcasting does, keeps levels marked -1, and rejects mismatching lengths.",
     ["inputs", "configurations"], "all nesting structures up to depth 4, mixed containers, target shapes",
     "The tests use a handful of literals.",
     ["utils/ragged.py"], [("get_ragged_ndarray, expand_ragged_ndarray, apply_ragged_ndarray", "utils/ragged.py")], ["return values"])

prop("C24", "Safe power is real, finite and differentiable where plain power is not",
     "For every real base and exponent (either may be a plain number; at least one a tensor; broadcasting applies), safe power equals torch's power wherever the exponent is integral or the base is positive, equals -(|x|**e) for negative bases with fractional exponents, and evaluates zero bases with fractional exponents at epsilon. "
     "The result and, for a floating-point base, the gradient with respect to it are never NaN or infinite short of overflow (a zero base with a negative integral exponent excepted); an integer-typed base behaves as the numbers it holds (negative integral exponents excepted), and the result has the dtype of torch's power.",
     ["inputs", "configurations"], "all sign/zero/fractional combinations, broadcasting shapes, dtypes, epsilon",
     "Tests check single scalars and non-negative random bases; mixed-sign tensors with mixed fractional exponents and broadcasting are not reached.",
     ["misc/power.py"], [("safe_power", "misc/power.py")], ["return value and gradient"])

prop("C25", "Polynomial, outer product and summary statistics match their definitions",
     "poly1d(x, p) equals sum p[i]*x**(n-i) for every coefficient list of length >= 1 (lists, tuples or arrays), in the shape and dtype of a floating-point x. outer(u, v)[i..., j...] = u[i...]*v[j...] for tensors and arrays of any rank. "
     "describe returns the mean, sample standard deviation, minimum, linear-interpolated quartiles and maximum of all elements.",
     ["inputs"], "all degrees including 0, shapes, float dtypes, ranks",
     "One degree-7 polynomial is tested; outer and describe are not.",
     ["misc/polynomial.py", "misc/outer.py", "misc/stats.py"], [("poly1d", "misc/polynomial.py"), ("outer", "misc/outer.py"), ("describe", "misc/stats.py")], ["return values"])

prop("C26", "Random crops are contiguous windows, every window possible, none out of range",
     "A random crop returns, for each cropped axis, a contiguous window of exactly the requested length lying inside the tensor, leaving axes with size None and axes not listed untouched; a crop of the full length returns the whole axis. "
     "Every admissible offset including the last occurs with positive, equal probability, independently per axis, and equal generator states give equal crops; a crop given its own generator leaves the global random state alone.",
     ["inputs", "configurations"], "all shapes, axes, sizes from 1 to the full length, generators",
     "There are no tests of the random module.",
     ["random.py"], [("random_crop", "random.py")], ["return value over many generator states"])

prop("C27", "Noise functions have the stated distribution and are generator-reproducible",
     "Gaussian noise adds to the image zero-mean normal noise of standard deviation sigma, independent across elements; Poisson-Gaussian noise returns k*Poisson(x/k) plus such noise, so its mean is x and its variance k*x + sigma^2. "
     "Shape and dtype are those of the input, and equal generator states give equal outputs; noise drawn from a given generator leaves the global random state alone.",
     ["inputs", "configurations"], "all images, k, sigma, generators",
     "There are no tests of the random module.",
     ["random.py"], [("add_gauss_noise/add_poisson_gauss_noise", "random.py")], ["return value statistics"])

prop("C28", "Gradients through every operation are those of the function computed",
     "Backpropagating through padding in every mode, pooling, edge filters, sharpening, metrics, Bayer conversions, Bayer convolution, demosaicing, polynomials and safe power gives the true derivative of the returned value with respect to every floating-point input (the transpose of the linear map for linear operations), and never fails or detaches the result from its inputs.",
     ["inputs", "configurations"], "all differentiable operations, modes, shapes, at points of differentiability",
     "Only safe_power has gradient tests; differentiability is the stated purpose of the package.",
     [GP, P1, "pooling/base.py", "filtering/edges.py", "metrics/ssim.py"], [("in-place fills recorded by autograd", P1), ("unfold and matmul", "pooling/base.py")], ["backward results versus finite differences"])

prop("C29", "A module's output never depends on what was processed before",
     "Calling any padding, pooling, filtering, metric or demosaicing object gives the same result as a freshly constructed identical object given the same arguments, whatever sequence of other calls (other shapes, numbers of dimensions, axes, dtypes, or calls on other pooling modules sharing a same-padder) came before, and whatever other objects are used in between.",
     ["histories", "inputs"], "all interleavings of calls on shared and separate modules with varying shapes, axes and dtypes",
     "Each existing test uses a module once.",
     [GP, "pooling/base.py", "metrics/ssim.py", "filtering/edges.py"], [("Padder.to_same recomputed per call", GP)], ["forward return values along call histories"],
     [("Padder.pad_width / Padder.ndim", "mutable state rewritten on every same-padded call", GP)])

prop("C30", "Operations act only on their axes: batching and axis order do not matter",
     "For every operation that takes axes, processing a stack of images equals stacking the individually processed images (a stack of no images gives an empty result of the corresponding shape), permuting the dimensions of the input while renaming the axes permutes the result, and an image's result does not depend on the other images of the batch or on its memory layout. "
     "Axes given as negative numbers, slices or None mean the same as their explicit non-negative list, and omitted axes mean the documented default.",
     ["inputs", "configurations"], "all axis-taking operations, batch shapes, permutations, layouts",
     "Tests process one fixed layout, mostly with axes=None.",
     ["utils/validation.py", GP, "pooling/base.py", "filtering/edges.py", "metrics/ssim.py", "metrics/base.py"], [("check_axes", "utils/validation.py")], ["return values under permutation/batching"])

prop("C31", "Invalid arguments are rejected instead of producing a result",
     "Axes outside the tensor's dimensions, negative padding widths, unknown padding modes, extending an empty axis by anything but constants, non-positive strides, several edge axes or edge kernels, gradients over fewer than two axes, per-axis lists whose lengths are incompatible with each other or (except for padders, which right-justify theirs) with the number of axes, unknown sensor alignments, wrong Bayer/RGB channel counts, odd mosaic sizes, crop sizes that do not fit, mismatching metric inputs, unknown reductions and images too small for the MS-SSIM levels all raise an exception (at construction or at the first use) and never return a result.",
     ["inputs", "configurations"], "all such invalid arguments on every entry point that takes them",
     "Almost no test passes an invalid argument.",
     ["utils/validation.py", "cfa/utils/validation.py", GP], [("check_axes/check_stride/check_pad_width", "utils/validation.py"), ("check_sensor_alignment/check_1c_bayer/check_4c_bayer/check_rgb", "cfa/utils/validation.py")], ["exceptions at the public API"])

prop("C32", "Results stay on the input's device and in its floating-point precision",
     "For single- and double-precision inputs on any device, padding, pooling, filtering, metrics, Bayer utilities and miscellaneous operations return tensors of the same dtype on the same device as the input, never mixing in a tensor of another device, and the single-precision result agrees with the double-precision one to rounding.",
     ["inputs", "configurations"], "float32/float64, cpu and accelerator devices (emulated), all operations",
     "Tests run float64 on CPU only; no GPU is available.",
     [GP, P1, "pooling/base.py", "shapes/conv_like.py"], [("dtype=x.dtype, device=x.device at every allocation", P1), ("move_tensor", "pooling/base.py")], ["dtype/device of results"])

prop("C33", "Padding-width formats convert losslessly between numpy and torch order",
     "Converting numpy-style ((before, after), ...) widths to torch's flat reversed form and back returns the same widths (with (0, 0) for unlisted leading axes), and padding with torch.nn.functional.pad using the converted widths pads the axes numpy.pad would pad with the original ones. Converting a format to itself is the identity and unknown formats are rejected.",
     ["inputs"], "all ranks, partial torch specs, widths",
     "Not tested.",
     [PU], [("pad_width_format", PU)], ["return value"])

prop("C34", "Pixels-per-degree matches the viewing geometry",
     "For every display diagonal, resolution and viewing distance with square pixels, pixels-per-degree times the vertical visual angle subtended by the display equals the vertical resolution.",
     ["inputs"], "all positive display parameters",
     "Not tested.",
     ["metrics/hdrvdp/pixels_per_degree.py"], [("pixels_per_degree", "metrics/hdrvdp/pixels_per_degree.py")], ["return value"])

prop("C35", "Operations never modify their inputs",
     "No library operation changes the contents of any tensor, array, list or other argument passed to it for reading (images, kernels, weights, coefficient lists, specs), whether or not padding, thresholding or smoothing happens to be a no-op.",
     ["inputs", "configurations"], "all operations and argument values including degenerate ones (zero widths, size-1 kernels, p = 1, empty kernels)",
     "No test inspects its inputs after a call.",
     [GP, P1, "filtering/edges.py", "filtering/sharpen.py", "misc/power.py", "misc/polynomial.py", "random.py"], [("in-place arithmetic on fresh tensors only", "misc/polynomial.py"), ("magnitude accumulates in place", "filtering/edges.py")], ["argument contents before and after each call"])

prop("C36", "Edge losses compare the Gaussian-gradient components as their formulas state",
     "For NCHW images, with E the Gaussian-gradient components along height and width (reflect padding, the given kernel size, sigma and order) of prediction and target, the losses are the mean of |Ep-Et| (GaussianEdgeLoss), of |Et-Ep|*Et (WeightedMul), of |Et-Ep|/Et (WeightedDiv), and the mean over images and component channels of |mean|Et| - mean|Ep|| (WeightedSum). GaussianEdgeLoss and WeightedSum are non-negative and symmetric, all but WeightedDiv are zero for identical images, and the gradients are those of the formulas.",
     ["inputs", "configurations"], "kernel sizes (also larger than the image), sigmas, orders, shapes, image pairs",
     "contrib is not tested at all.",
     ["contrib/edge_loss.py", "filtering/edges.py"], [("GaussianEdgeLoss", "contrib/edge_loss.py"), ("GaussianGrad", "filtering/edges.py")], ["loss values and gradients"])

prop("C37", "Concurrent use gives the sequential results",
     "Calling the same padding, pooling, filtering, metric or Bayer object, objects that share a padder or blur module, or any library function from several threads at once gives each call exactly the result it gives when run alone, for every interleaving of the threads.",
     ["schedules", "histories", "inputs"], "all interleavings of concurrent calls with equal or different shapes, axes and objects",
     "All tests are single-threaded.",
     ["pooling/base.py", GP, "filtering/edges.py", "metrics/ssim.py", "cfa/bayer_conv/bayer_conv_2d.py"], [("BasePoolNd.pad derives the widths of one input from the shared padder", "pooling/base.py"), ("SSIM._crop_border", "metrics/ssim.py")], ["results of concurrent calls, compared with the same calls alone"])

prop("C38", "Copies of objects and torch's execution modes do not change results",
     "A copy of any padder, pooling, filtering, metric, Bayer object or spec, made by copy, deepcopy, pickling or torch.save before or after the object was used, returns what the original returns, and using or training a deep copy leaves the original's results alone; a Bayer layer's parameters travel completely through its state_dict. "
     "Running any operation under no_grad, inference mode, deterministic algorithms, anomaly detection, another default dtype, in train or eval mode, on inputs that require gradients, or through module(x) instead of module.forward(x) gives the same values and dtype as the plain call.",
     ["configurations", "histories", "inputs"], "all objects and operations, ways of copying, execution modes",
     "No test copies or saves an object or changes a global torch mode.",
     ["padding/generic_pad.py", "pooling/base.py", "filtering/edges.py", "metrics/ssim.py", "cfa/bayer_conv/bayer_conv_2d.py", "utils/ndspec.py"], [("object state held in plain attributes and registered modules", "pooling/base.py"), ("conv_dict registered as ModuleDict", "cfa/bayer_conv/bayer_conv_2d.py"), ("dtype=x.dtype at every allocation", P1)], ["results of copies and of calls under other modes, compared with the plain call"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
