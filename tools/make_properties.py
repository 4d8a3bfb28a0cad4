"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os

S = "src/ptwt/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


prop("C01", "1-D padded analysis transform equals the filter-bank definition",
     "For every discrete wavelet, padding mode, signal length and level, wavedec returns [cA_L, cD_L, ..., cD_1] where every coefficient is the documented filter-bank value: on each level c[k] = sum_j h[j] * ext(2k+1-j), of which there are floor((n+f-1)/2), with ext the selected border extension of that level's input. This holds for every signal value, in float32 and float64, and each level's result does not depend on how many further levels were requested. A request the border extension cannot serve (reflect or periodic padding that is longer than the signal) may raise an exception but never returns other numbers.",
     ["inputs", "configurations"],
     "all 106 discrete wavelets x 5 modes x all lengths (also shorter than the filter, odd on any level) x all levels x all signal values x both dtypes",
     "Tests compare with pywt for lengths 64 and 65, six wavelets and random data; lengths shorter than the filter, symmetric padding that wraps several times, and odd lengths deep in the pyramid are never reached.",
     ["conv_transform.py", "_util.py"],
     [("padding arithmetic and border extension", "_util.py:_get_pad, _pad_symmetric_1d; conv_transform.py:_fwt_pad"),
      ("strided convolution with flipped filters", "conv_transform.py:wavedec; _util.py:_get_filter_tensors")],
     observe=["return value of ptwt.wavedec"])

prop("C02", "1-D synthesis is the transposed filter bank and inverts the analysis",
     "waverec applied to any coefficient list with shapes as produced by wavedec returns the synthesis filter-bank value: on each level the upsampled channels are filtered with rec_lo and rec_hi, f-2 samples are dropped on either side, and one more at the end if the next level's details are one shorter. Hence waverec(wavedec(x)) equals x for every wavelet, mode, length and level (plus at most one trailing sample for odd lengths), up to the accuracy of the wavelet's own perfect-reconstruction property. Coefficient lists whose lengths do not fit together raise an exception.",
     ["inputs", "configurations"],
     "all discrete wavelets x all coefficient shapes reachable from lengths 1..N x levels x all coefficient values (not only consistent ones)",
     "Tests only reconstruct coefficients of random signals of a few lengths; a synthesis that is only right on the range of the analysis transform, or drops the padding on the wrong side for particular parities, passes.",
     ["conv_transform.py", "_util.py"],
     [("padding removal between levels", "_util.py:_adjust_padding_at_reconstruction"),
      ("transposed convolution", "conv_transform.py:waverec")],
     observe=["return value of ptwt.waverec"])

prop("C03", "2-D and 3-D padded transforms are the per-axis filter banks",
     "wavedec2 and wavedec3 return, level by level, the tensor product of the 1-D filter bank over the transformed axes, with every subband at its documented place: details of wavedec2 are (H, V, D) with H the high-pass along the first and the low-pass along the second transformed axis, and wavedec3's dictionaries have the keys aad..ddd whose i-th letter names the filter along the i-th transformed axis. waverec2 and waverec3 apply the matching synthesis to arbitrary coefficients and so invert them for every combination of side lengths (odd sides may return one trailing sample more).",
     ["inputs", "configurations"],
     "wavelets x modes x all small side-length combinations (square or not, odd or even per axis and level) x levels x all data values",
     "The 2-D comparison tests need a downloaded image and do not run offline; the remaining ones use square or power-of-two sides and round trips, which cannot see swapped subbands or axes.",
     ["conv_transform_2.py", "conv_transform_3.py", "_util.py"],
     [("outer-product filters and subband order", "_util.py:_construct_2d_filt, _construct_3d_filt"),
      ("per-axis padding", "_util.py:_get_padding_n; conv_transform_2.py:_fwt_pad2; conv_transform_3.py:_fwt_pad3"),
      ("per-axis padding removal", "conv_transform_2.py:waverec2; conv_transform_3.py:waverec3")],
     observe=["return values of wavedec2, waverec2, wavedec3, waverec3"])

prop("C04", "Fully separable transforms agree with the per-axis filter banks",
     "fswavedec2 and fswavedec3 return, for every level, dictionaries whose keys name the filter per transformed axis (first letter = first axis) and whose tensors are the per-axis 1-D filter-bank values; their coefficients are those of wavedec2 and wavedec3. fswaverec2 and fswaverec3 apply the matching synthesis to arbitrary coefficients (whatever the order of the dictionary's keys) and invert them for every side-length combination, odd sides up to one trailing sample.",
     ["inputs", "configurations"],
     "wavelets x modes x all small side-length combinations x levels x key orders x all data values",
     "Tests use even cubes or round trips of random data; non-square odd shapes, multi-level parity combinations and dictionaries built in another key order are not reached.",
     ["separable_conv_transform.py", "conv_transform.py", "_util.py"],
     [("recursion over axes", "separable_conv_transform.py:_separable_conv_dwtn_, _separable_conv_idwtn"),
      ("level loop and key handling", "separable_conv_transform.py:_separable_conv_wavedecn, _separable_conv_waverecn")],
     observe=["return values of fswavedec2/3 and fswaverec2/3"])

prop("C05", "Axes, batch layout and memory layout only relabel a transform",
     "For every transform and its inverse, selecting any distinct axes (positive or negative, in any order), adding any leading batch dimensions, and passing data in any memory layout (contiguous, transposed, strided, broadcast) gives exactly what transforming each batch item's moved axes on its own gives, returned in the input's axis order. Batch items never influence each other, not even by NaN or infinite values, and repeated or too many axes raise an exception.",
     ["inputs", "configurations"],
     "all transforms and inverses x all ordered selections of distinct axes of 1- to 5-dimensional inputs, in both sign conventions x batch shapes x memory layouts x modes",
     "Tests try a handful of axes tuples on contiguous data; the space of axes orders, signs, batch ranks and layouts is far larger and axis bookkeeping errors often cancel in symmetric shapes.",
     ["_util.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "separable_conv_transform.py", "stationary_transform.py"],
     [("axes permutation and its inverse", "_util.py:_swap_axes, _undo_swap_axes, _get_transpose_order"),
      ("folding of leading dimensions", "_util.py:_fold_axes, _unfold_axes, _preprocess_coeffs, _postprocess_coeffs")],
     observe=["return values of every transform"])

prop("C06", "Stationary transform equals its undecimated definition and inverts",
     "swt returns [cA_L, cD_L, ..., cD_1], all of the signal's length, where level j filters the previous approximation cyclically with the wavelet's filters dilated by 2^(j-1), with the phase of pywt.swt(trim_approx=True); this holds for every wavelet, length and level, also if the dilated filter wraps around the signal several times. iswt averages the shifted inverses for arbitrary coefficients, so iswt(swt(x)) equals x.",
     ["inputs", "configurations"],
     "all discrete wavelets x all lengths (including odd ones and ones shorter than the dilated filter) x levels x all data values",
     "Tests cover db1-db4 and sym3 with lengths 32 and 64, where the dilated filter rarely exceeds the signal.",
     ["stationary_transform.py", "_util.py"],
     [("repeated circular padding", "stationary_transform.py:_circular_pad"),
      ("dilated convolution and its transpose", "stationary_transform.py:swt, iswt")],
     observe=["return values of ptwt.swt and ptwt.iswt"])

prop("C07", "Continuous transform equals its definition for every scale list",
     "cwt returns for each scale, in the order given, -sqrt(scale) times the centred difference of the signal convolved with the sampled integral of the (conjugated, if complex) wavelet, together with the matching frequencies; each row depends only on its own scale and signal. The result is independent of the order, repetition and number type of the scales, of other batch items, and of whether the wavelet is given by name, as an object or as a learnable wavelet with the same parameters.",
     ["inputs", "configurations"],
     "continuous (and orthogonal discrete) wavelets x all short ordered scale sequences over an alphabet of integer and fractional scales x signal lengths x batch shapes x precision x sampling periods",
     "Tests use increasing scale ranges on one signal length; the FFT of the data is reused across scales and depends on the order in which scales arrive.",
     ["continuous_transform.py"],
     [("reuse of the padded data FFT across scales", "continuous_transform.py:cwt"),
      ("integration of the wavelet function", "continuous_transform.py:_integrate_wavelet"),
      ("learnable wavelets", "continuous_transform.py:_ShannonWavelet, _ComplexMorletWavelet")],
     state=[("fft_data/size_scale0", "cached transform of the padded signal", "continuous_transform.py:cwt")],
     observe=["both return values of ptwt.cwt"])

prop("C08", "1-D boundary-wavelet transform is an orthogonal filter bank",
     "For every orthogonal wavelet, even length not below the filter length and orthogonalization method, the analysis matrix used by MatrixWavedec is orthogonal, its rows that see the whole filter are exactly the shifted filters, the remaining rows are the truncated filters orthonormalized in their order, and MatrixWaverec uses its transpose. Hence MatrixWaverec inverts MatrixWavedec on all values, odd lengths on any level are extended by one sample in the selected padding mode, decomposition stops before a level shorter than the filter, and the published sparse operators equal the composed transform.",
     ["inputs", "configurations"],
     "orthogonal wavelets with well-conditioned boundaries x both orthogonalizations x all lengths x levels x odd-length padding modes x all data values x both dtypes",
     "Tests check round trips for a few lengths and compare with padded transforms only for Haar; the boundary rows and odd intermediate lengths are never compared with a definition.",
     ["matmul_transform.py", "sparse_math.py"],
     [("raw strided convolution matrices", "matmul_transform.py:_construct_a, _construct_s; sparse_math.py:construct_strided_conv_matrix"),
      ("orthogonalization of incomplete rows", "matmul_transform.py:orthogonalize; sparse_math.py:_orth_by_qr, _orth_by_gram_schmidt"),
      ("operator composition", "matmul_transform.py:sparse_fwt_operator, sparse_ifwt_operator; sparse_math.py:cat_sparse_identity_matrix")],
     observe=["construct_boundary_a/s, MatrixWavedec, MatrixWaverec, sparse_fwt_operator, sparse_ifwt_operator"])

prop("C09", "2-D and 3-D boundary-wavelet transforms are orthogonal and invertible",
     "The separable MatrixWavedec2 and MatrixWavedec3 apply the 1-D boundary transform along every transformed axis and put each subband at its documented place; the non-separable MatrixWavedec2 is an orthogonal transform whose rows away from the border are the 2-D filters. MatrixWaverec2 and MatrixWaverec3 apply the inverse to arbitrary coefficients, for square and non-square inputs, odd sides on any level (extended by one sample in the selected mode) and requests for more levels than fit, which are truncated; the published 2-D operators equal the composed transform.",
     ["inputs", "configurations"],
     "orthogonal wavelets x separable or not x orthogonalizations x all small side-length combinations x levels x padding modes x all data values",
     "The 2-D tests need a downloaded image or use square power-of-two inputs; swapped height and width or a wrong padding side cancel there.",
     ["matmul_transform_2.py", "matmul_transform_3.py", "sparse_math.py"],
     [("2-D matrices and their orthogonalization", "matmul_transform_2.py:construct_boundary_a2, construct_boundary_s2"),
      ("padding bookkeeping per level", "matmul_transform_2.py:_matrix_pad_2; matmul_transform_3.py:_matrix_pad_3"),
      ("subband splitting", "matmul_transform_2.py:MatrixWavedec2.__call__; matmul_transform_3.py:MatrixWavedec3.__call__")],
     observe=["MatrixWavedec2/3, MatrixWaverec2/3, construct_boundary_a2/s2, sparse operators"])

prop("C10", "Reused matrix-transform objects behave like new ones",
     "Whatever sequence of calls a MatrixWavedec, MatrixWavedec2, MatrixWavedec3, MatrixWaverec, MatrixWaverec2 or MatrixWaverec3 object has served before (other lengths, shapes, batch layouts, dtypes, level counts or rejected inputs), its next call returns exactly what a newly created object with the same arguments returns for that input, or raises as that would. The same holds for its published sparse operator and padding flag after the call, and for several objects used alternately.",
     ["histories"],
     "all call sequences up to a depth over an alphabet of input shapes, dtypes, level counts and invalid inputs, for every class and for fixed and automatic levels",
     "Tests call an object once or twice with growing random inputs; the cached matrices, the remembered shape and the remembered level interact over histories that no test enumerates.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"],
     [("rebuild decision in every call", "matmul_transform.py:MatrixWavedec.__call__, MatrixWaverec.__call__"),
      ("rebuild decision in every call (2-D)", "matmul_transform_2.py:MatrixWavedec2.__call__, MatrixWaverec2.__call__"),
      ("rebuild decision in every call (3-D)", "matmul_transform_3.py:MatrixWavedec3.__call__, MatrixWaverec3.__call__")],
     state=[("input_length/input_signal_shape, level", "what the cached matrices were built for", "matmul_transform*.py"),
            ("fwt_matrix_list/ifwt_matrix_list, pad_list, size_list, padded", "cached matrices and padding plan", "matmul_transform*.py")],
     observe=["return values, exceptions, sparse operators and padded flags of reused objects"])

prop("C11", "A wavelet packet tree is a lazily filled map of its root",
     "For every sequence of operations on a WaveletPacket or WaveletPacket2D (reading, assigning, deleting and testing keys, listing them, initializing several keys, transforming new data, reconstructing), each result is that of an eager specification: reading an absent node decomposes its parent's current value and stores all its children, reading a present node returns the stored value unchanged, testing and listing never compute anything, and a new transform forgets all old nodes. Reading beyond the maximum level raises KeyError, letters outside the alphabet raise ValueError, an object without data raises ValueError, and a failed operation changes nothing it has not documented.",
     ["histories"],
     "all operation sequences up to a depth over the node keys of small trees, for padding and boundary modes, 1-D, 2-D separable and non-separable, fresh and reused objects",
     "Tests read trees in one fixed order (full or partial expansion); the order of lazy reads, writes, deletions and reuse is a history nobody samples.",
     ["packets.py"],
     [("lazy expansion", "packets.py:WaveletPacket.__getitem__, _expand_node; WaveletPacket2D.__getitem__, _expand_node"),
      ("reset on transform", "packets.py:transform"),
      ("cached transform objects", "packets.py:_get_wavedec, _get_waverec")],
     state=[("data", "computed nodes by path", "packets.py"), ("maxlevel", "deepest level that may be read", "packets.py"),
            ("matrix_*_dict", "boundary transform objects by size", "packets.py")],
     observe=["returned tensors, key sets and exceptions"])

prop("C12", "Packet node values, node orders and reconstruction follow their definition",
     "Every node of a packet tree equals the value obtained by applying the filters its path names, one level per letter, to the input, for every wavelet, mode, size, axes choice and maximum level. The node orders list every path of a level exactly once: natural order is lexicographic in the filter alphabet, frequency order is the Gray-code order (per axis in 2-D). reconstruct() replaces all inner nodes by the synthesis of whatever the leaves hold, so that unmodified leaves give back the input (odd sizes up to one trailing sample), and raises KeyError if a leaf is missing.",
     ["inputs", "configurations"],
     "wavelets x modes incl. boundary x sizes x axes x levels x all node paths x all leaf values; node orders for all levels up to a bound",
     "2-D packet comparisons need a downloaded image; 1-D ones use two sizes. Reconstruction from modified leaves of odd-sized, multi-level, axis-swapped trees is not tested.",
     ["packets.py"],
     [("recursive synthesis with size correction", "packets.py:WaveletPacket.reconstruct, WaveletPacket2D.reconstruct"),
      ("node orders", "packets.py:get_level, _get_graycode_order, get_freq_order, get_natural_order")],
     observe=["node tensors, get_level/get_natural_order/get_freq_order lists, root after reconstruct()"])

prop("C13", "Calls are pure: arguments and earlier results never change",
     "No transform, inverse, packet tree, matrix construction or loss changes the tensors, coefficient containers, wavelet objects, scale arrays or keyword dictionaries it is given, nor any tensor or container it returned before, and calling it again with equal arguments returns equal results. Results depend only on the values of the arguments: interleaving calls with other wavelets of the same name or length, other dtypes, modes, shapes or gradient settings in between changes nothing.",
     ["histories", "inputs"],
     "all call sequences up to a depth over an alphabet of calls of every public entry point, with argument snapshots compared bit by bit after each call, and all pairs of calls that differ in exactly one argument",
     "Tests call each function once per process on fresh data and never look at the arguments again; caching or in-place updates only show when calls with colliding keys follow each other or outputs are kept.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py"],
     [("copies of coefficient structures", "_util.py:_coeff_tree_map, _preprocess_coeffs"),
      ("filter tensors created per call", "_util.py:_get_filter_tensors"),
      ("dictionaries extended by the approximation", "separable_conv_transform.py:_separable_conv_waverecn; matmul_transform_3.py:MatrixWaverec3.__call__")],
     observe=["arguments before and after, earlier results, repeated results"])

prop("C14", "Independent calls may run in several threads",
     "Calls of the library in different threads that do not share a matrix-transform, packet or learnable object return, under every interleaving, what they return when run alone; they may share input tensors, coefficient structures and wavelet objects, which stay unchanged. Nothing one thread does (other wavelets, dtypes, modes, failing calls) can be observed by the other.",
     ["schedules"],
     "all interleavings at source-line granularity up to a preemption bound, for all pairs of entry points with shared inputs and wavelets",
     "The tests are single threaded; module-level or shared scratch state would only fail under particular interleavings.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "stationary_transform.py", "continuous_transform.py"],
     [("no module-level mutable state", "_util.py:translation_dict (read only)"),
      ("state only in user-created objects", "matmul_transform.py:MatrixWavedec.__init__; packets.py:WaveletPacket.__init__")],
     observe=["return values and exceptions per thread"])

prop("C15", "An interrupted call leaves objects usable",
     "If a call on a matrix-transform or packet object is interrupted by an exception at any point of its computation (out of memory, an interrupt, a failing tensor operation), its arguments and earlier results are unchanged, and afterwards the same object answers every later call as if the interrupted one had never been made: repeated, or with other shapes, it returns what a new object (for packets: the tree before the call) returns, never partial or stale results. Nodes that a packet tree expanded lazily during the interrupted call may stay, and a call that is interrupted after its last effect counts as made.",
     ["fault_sequences", "crash_points"],
     "every tensor operation of a call x every class and history of up to two earlier calls x the follow-up calls, for an exception injected exactly there",
     "No test injects faults; the objects remember the new shape before the matrices are complete, so the damage shows only if the fault lands between and the object is used again.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py"],
     [("matrix lists stored when complete", "matmul_transform.py:_construct_analysis_matrices, _construct_synthesis_matrices"),
      ("children stored after both are computed", "packets.py:_expand_node")],
     state=[("input_length/input_signal_shape", "remembered before construction", "matmul_transform*.py"), ("data", "packet nodes", "packets.py")],
     observe=["results of calls that follow an injected exception"])

prop("C16", "Gradients are those of the linear transform",
     "Every transform and inverse is differentiable with respect to its data: the vector-Jacobian product in any direction equals the transpose of the transform applied to it, for every configuration, batch layout and subset of outputs that the gradient is taken of, also on reused objects. Gradients also reach filter tensors of learnable wavelets in the convolution-based transforms, parameters of learnable continuous wavelets and every filter of the loss functions, with the values of the definition's derivative; results never share a graph with other calls.",
     ["inputs", "configurations"],
     "all transforms and inverses x configurations x all output basis directions; all filter taps of learnable filter banks",
     "Tests only check that one loss decreases; a detach, an in-place update or a wrong order of views is only visible in particular outputs or on the second backward pass.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py", "wavelets_learnable.py"],
     [("torch operations only on the data path", "conv_transform.py:wavedec, waverec"),
      ("filters passed on without copies", "_util.py:_create_tensor")],
     observe=["torch.autograd.grad of every output"])

prop("C17", "Dtypes and devices are preserved, invalid requests are rejected",
     "Every result of a discrete transform, inverse or packet tree has the dtype and device of its input tensors (cwt always computes in double precision), whatever the default dtype, the wavelet's number type or an earlier call; coefficient lists that mix dtypes or devices, non-tensor approximations, wrongly structured details, inconsistent shapes, unknown wavelets, padding modes, orthogonalizations or orders, wrong axes counts, repeated axes (also by a negative index), non-positive matrix levels and, among the filters a transform uses, filters of different lengths all raise an exception instead of returning a number. Deprecated argument names act exactly like the new ones with a DeprecationWarning, and giving both raises TypeError.",
     ["configurations", "inputs"],
     "all entry points x dtypes x devices (cpu, meta) x default dtypes x all single-fault corruptions of valid arguments",
     "Tests check a few error paths of a few functions; the product of entry points, coefficient positions and corruptions is not sampled.",
     ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"],
     [("dtype and device checks", "_util.py:_check_same_device_dtype"), ("argument checks", "_util.py:_ensure_axes, _translate_boundary_strings, _is_orthogonalize_method_supported"),
      ("deprecated names", "_util.py:_deprecated_alias")],
     observe=["dtype/device of results, exceptions, warnings"])

prop("C18", "Sparse building blocks equal their dense definitions",
     "The public sparse functions return matrices equal to the dense definition, in the dtype of their input, for every argument in their domain: Kronecker products (also with zero factors), elongated identity matrices, shifted diagonals that are clipped at any border, replaced rows of square and non-square matrices, 1-D and 2-D convolution matrices for full, valid, same and sameshift modes (equal to numpy/scipy convolution and its strided subsets), and batched products. Incompatible shapes, shrinking elongations, rows outside the matrix and unknown modes raise an exception.",
     ["inputs", "configurations"],
     "all matrices and filters up to a small size over a small value alphabet (sparse, zero, duplicated entries) x sizes x modes x strides x offsets x dtypes",
     "Tests compare a few random matrices per function and float64 only; degenerate sizes, zero factors, far-off diagonals and rectangular matrices are not reached.",
     ["sparse_math.py"],
     [("Kronecker product", "sparse_math.py:sparse_kron"), ("convolution matrices", "sparse_math.py:construct_conv_matrix, construct_conv2d_matrix, construct_strided_conv_matrix, construct_strided_conv2d_matrix"),
      ("row replacement, diagonals", "sparse_math.py:sparse_replace_row, sparse_diag, cat_sparse_identity_matrix, batch_mm")],
     observe=["dense values, shapes and dtypes of the returned matrices"])

prop("C19", "Learnable-wavelet losses vanish exactly on valid filter banks",
     "For every filter bank the alias-cancellation and perfect-reconstruction losses equal the sum of squares of the polynomials F0(z)H0(-z)+F1(z)H1(-z) and F0(z)H0(z)+F1(z)H1(z)-2z^-l, the product-filter and orthogonality losses equal their documented expressions, and the totals are the sums of their terms. They are therefore zero (up to rounding) for every discrete wavelet's filter bank (the orthogonality losses for the orthogonal ones) and positive for every filter bank that violates the condition; filter_bank and len() report the current parameters.",
     ["inputs"],
     "all filter banks of small even length over a small alphabet of tap values, plus all discrete wavelets and all their single-tap perturbations, in both dtypes",
     "Tests check that the losses are small for known wavelets, which a loss that is always small also passes, and never that invalid filter banks are penalized.",
     ["wavelets_learnable.py"],
     [("product filter polynomials", "wavelets_learnable.py:alias_cancellation_loss, perfect_reconstruction_loss, pf_alias_cancellation_loss"),
      ("orthogonality losses", "wavelets_learnable.py:rec_lo_orthogonality_loss, filt_bank_orthogonality_loss")],
     observe=["loss values"])

prop("C20", "All ways to specify a wavelet give the same transform",
     "A wavelet given by name, as a pywt object, as a WaveletTensorTuple (of either dtype, with or without gradients), as a learnable wavelet or as any object following the Wavelet protocol yields the same result for the same filter values in every discrete transform, inverse and packet tree that accepts it, with given or automatic level, and the filters used are the object's current ones. Different filter values never yield each other's result, even under the same name, length or object, and a traced function returns for new data what the plain call returns.",
     ["configurations", "histories"],
     "all entry points x wavelet representations x wavelets x explicit and automatic level, in all orders of a pair of representations; traced versus plain calls",
     "Tests use strings and pywt objects nearly everywhere; tuples and protocol objects only appear in single-level or traced special cases.",
     ["_util.py", "constants.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"],
     [("conversion of wavelets to filter tensors", "_util.py:_as_wavelet, _get_filter_tensors, _get_len"),
      ("WaveletTensorTuple", "constants.py:WaveletTensorTuple")],
     observe=["return values per representation"])

prop("C21", "Automatic and excessive levels resolve to the documented depth",
     "Without a level every transform and packet tree uses the largest L for which the shortest transformed side n satisfies n >= (f-1)*2^L (the stationary one the largest L with 2^L dividing n; the 1-D matrix transforms count the sample that an odd signal is extended by), 0 if there is none, and a result with that many levels equals the one with L given explicitly. Level 0 of a padded or stationary transform returns the input as its approximation, matrix transforms reject an explicit level below one; matrix transforms asked for more levels than fit return the truncated decomposition, and padded transforms compute every level asked for.",
     ["inputs", "configurations"],
     "all transforms x filter lengths x all side-length combinations up to a bound x level in {None, 0, 1, ..., beyond the maximum}",
     "Tests request None for two or three power-of-two sizes; boundaries of the level formula, non-square inputs and level 0 are not reached.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"],
     [("automatic levels", "conv_transform.py:wavedec; separable_conv_transform.py:_separable_conv_wavedecn; matmul_transform.py:MatrixWavedec.__call__; packets.py:transform"),
      ("truncation", "matmul_transform.py:_construct_analysis_matrices")],
     observe=["number and shapes of the returned coefficients, maxlevel"])

prop("C22", "Transforms are linear over all magnitudes",
     "Every transform and inverse is linear in its data: scaling the data scales the result, and sums map to sums, for values from 1e-30 to 1e30 (within the precision of the dtype), sparse, constant, alternating or denormal-free tiny signals alike; a zero signal maps to exactly zero. NaN or infinite samples of the filter-bank transforms only reach coefficients whose filters see them (boundary rows of matrix transforms see everything) and never another batch entry, and results do not depend on gradient mode or on whether the data requires gradients.",
     ["inputs"],
     "all transforms and inverses x structured signal alphabets x scale alphabet x pairs of signals x position of one non-finite sample",
     "Tests use random or natural data of magnitude one and integer tests of one size; thresholds, clamps and special cases for constants, zeros or tiny values stay invisible.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py"],
     [("linear tensor operations on the data path", "conv_transform.py:wavedec, waverec; matmul_transform.py:MatrixWavedec.__call__")],
     observe=["return values of every transform"])

prop("C23", "Every way of passing arguments means the same call",
     "For every public function, class and method, leaving an optional argument out means its documented default (mode reflect, but zero for wavedec3 and for odd coefficients of matrix transforms; the automatic level; the last axes; orthogonalization qr; separable matrix transforms but non-separable packet trees; frequency order; sampling period 1 and precision 12; the documented convolution modes and stride 2), whatever the other arguments are and whatever the object was used for before; an explicit None where None is documented means the same. Arguments give the same result by position, where allowed, and by keyword in any order; a deprecated keyword gives the result of the current one with a DeprecationWarning, giving both raises a TypeError, as does an unknown keyword.",
     ["inputs", "configurations"],
     "all entry points x all assignments of {omitted, default, None, other values} to all optional arguments x positional/keyword/deprecated spellings x inputs whose sides and axes make every default matter",
     "Tests pass nearly all arguments explicitly, and the deprecation tests only look for a warning; a changed default or a misdirected argument only shows for inputs on which the values differ.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("signatures and defaults", "conv_transform.py:wavedec; conv_transform_3.py:wavedec3; packets.py:WaveletPacket.transform; matmul_transform_2.py:MatrixWavedec2"),
      ("renamed arguments", "_util.py:_deprecated_alias")],
     observe=["return values per spelling of a call"])

prop("C24", "Copies go on like their original, independently",
     "A matrix transform object, a wavelet packet tree or a learnable wavelet that is deep-copied, pickled or saved and loaded with torch, at any point of its history, goes on exactly like an object with that history: every later call, read, write, reconstruction, operator, loss or training step on the copy or on the original gives the same result or exception, and what happens to one of them never shows in the other. The same holds for a tree's copy() and copy.copy, whose nodes can be added, replaced and deleted independently, and for a learnable wavelet restored from its state_dict. Copied coefficients are inverted like the original ones.",
     ["histories"],
     "all histories of operations up to a depth, a copy by every means after each, and all interleaved continuations on the original and the copy x classes x wavelets x levels x modes",
     "No test copies or stores an object; sharing, lost state and methods bound to the original only show after a copy in the middle of a history.",
     ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "wavelets_learnable.py", "constants.py"],
     [("matrices and shapes stored by a call", "matmul_transform.py:MatrixWavedec.__call__, MatrixWaverec.__call__"),
      ("stored nodes and per-length transforms", "packets.py:WaveletPacket, WaveletPacket2D"),
      ("parameters", "wavelets_learnable.py:ProductFilter")],
     state=[("fwt_matrix_list, input_length, level", "state of a matrix object", "src/ptwt/matmul_transform.py:MatrixWavedec"),
            ("data, maxlevel", "contents of a tree", "src/ptwt/packets.py:WaveletPacket")],
     observe=["results on original and copy", "stored nodes", "parameters"])

prop("C25", "Function transforms of torch see the same linear map",
     "The padded, fully separable, stationary and continuous transforms, the padded packet trees and their inverses compose with torch's function transforms: vmap over any dimension, nested or in chunks, over data or over filters, returns what the plain calls on the single items return; Jacobian-vector and vector-Jacobian products, Jacobians, dual numbers, per-sample gradients and every mixture of forward and reverse mode, also repeatedly, are those of the linear map; checkpointing, hooks on stored tensors, functional calls of modules with learnable wavelets and (except for the continuous transform) captured graphs change nothing. None of them raises where the plain call does not.",
     ["inputs", "configurations"],
     "all these transforms and inverses x wavelets x modes x levels x shapes x axes x function transforms x all basis tangents and cotangents (by comparing full Jacobians)",
     "No test uses a function transform; an in-place buffer, a branch on values or a hand-written gradient works for plain calls and first-order gradients, which is all that tests see.",
     ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "continuous_transform.py", "packets.py", "wavelets_learnable.py", "_util.py"],
     [("out-of-place padding, filtering and reshaping", "_util.py:_pad_symmetric_1d, _preprocess_tensor, _get_filter_tensors; conv_transform.py:wavedec, waverec; stationary_transform.py:_circular_pad, swt, iswt"),
      ("differentiable wavelets", "continuous_transform.py:cwt; wavelets_learnable.py:ProductFilter")],
     observe=["values, tangents and gradients returned by function transforms"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
