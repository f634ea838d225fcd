_P = ('Every obligation generated from the current source of all functions the property depends on is discharged (z3, '
      'plus Lean for the lemmas), for all sizes, levels, filter lengths, taps and data; ranks, axes, modes, dtypes and '
      'wavelet-argument kinds are enumerated. Real arithmetic for floats; torch/pywt contracts trusted.')
PROVED = {p: _P for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12')}
PROVED.update({p: ('Every obligation generated from the current source of the builders and helpers is discharged (z3) for all sizes, offsets, strides, entries and sparsity '
                   'patterns; modes, coalesced or not, dtypes, tensor ranks and axes are enumerated. Sparse COO tensors by their definition (sum over stored entries; coalesce gives '
                   'one stored entry per place); real arithmetic for floats, unbounded integers for indices; torch contracts trusted.') for p in ('C13', 'C14')})
PROVED['C25'] = ('Every obligation generated from the current source of the loss methods is discharged (z3, plus Lean for the lemmas) for filters of any even length and any taps; '
                 'classes, two dtypes and two devices are enumerated. Real arithmetic for floats; torch contracts trusted.')
PROVED['C15'] = ('Every obligation generated from the current source of orthogonalize and its helpers is discharged (z3, plus Lean for the orthonormality and span lemmas) for all sizes, '
                 'stored entries, and sets of requested rows; methods, coalesced or not, dtypes and devices are enumerated. Precondition: requested rows linearly independent. '
                 'Trusted: reduced contract of torch.linalg.qr (QR = A, orthonormal columns, R invertible upper triangular), norms; "nonzeros" are stored entries; real arithmetic.')
PROVED['C16'] = ('Every obligation of MatrixWavedec, MatrixWaverec, their builders and base class is discharged from the current source (z3, plus Lean) for all '
                 'sizes, levels, even filter lengths and taps: padding per level, order of the entries, operators equal to transforms, shapes, orthogonality, inverse of the transform. '
                 'orthogonalize enters by its contract (proved under C15). Assumed: orthogonal wavelet (rec = reversed dec), incomplete rows linearly independent, and stored entries per raw '
                 'row = taps in range (both checked at run time for pywt wavelets). Real arithmetic; torch contracts trusted.')
PROVED['C18'] = ('Every obligation of MatrixWavedec3, MatrixWaverec3, the base class, the 1-D builders and the batched products is discharged from the current source (z3, plus Lean) for all '
                 'sizes, levels, even filter lengths and taps: padding per level and axis, the eight words of each level, shapes, orthogonality, inverse of the transform. '
                 'orthogonalize enters by its contract (proved under C15). Assumed: orthogonal wavelet, incomplete rows linearly independent, stored entries per raw row = taps in range '
                 '(the last two checked at run time for pywt wavelets). Real arithmetic; torch contracts trusted.')
PROVED['C20'] = ('Every obligation of the packet classes (construction, lazy node access, initialize, reconstruct; 1-D and 2-D, separable or not, all modes incl. boundary wavelets, any axes up to rank 3) '
                 'is discharged from the current source (z3, plus Lean lemma Packets.tree) for trees of any depth, nodes named by words of any length, any set of nodes already stored and any level count. '
                 'The single-level transforms enter by their contracts (proved under C02-C07, C16, C17). Assumed: data and nodes inside the domain of those transforms. Known finding: node names of separable '
                 'boundary trees (transposed words). Real arithmetic; torch contracts trusted.')
PARTIAL = {
    'C17': 'MatrixWavedec2 and MatrixWaverec2, separable or not, their builders and the batched products: every obligation discharged (z3, plus Lean) for all sizes, levels, even filter '
           'lengths and taps. Assumptions as for C16. The exposed operator matrices of several levels: bounded run-time contracts only.',
    'C23': 'Convolution, separable, stationary and boundary-wavelet transforms and inverses (1-D, 2-D, 3-D), their constructors, the matrix builders and the packet classes: all obligations discharged '
           '(coefficient lists of symbolic length with one malformed entry at a symbolic position: data type, device, kind, rank, sizes, names, container; data of every unsupported type; axes; '
           'modes; methods; orders; level counts; too few dimensions; and acceptance of well-formed input). Continuous transform, and unusual containers in other positions of 4-D inputs: bounded run-time contract.',
}
PROVED['C27'] = ('Convolution, separable and stationary transforms and packet trees: every obligation discharged (default level as a function of sizes and '
                 'filter length, every wavelet argument kind, all sizes). Trusted: contract of pywt.dwt_max_level / log2 (monotone, exact at small ratios), torch contracts.')
PARTIAL.update({
    'C19': '1-D objects: every obligation is discharged for histories of any calls (symbolic lengths, dtypes, devices, levels; a failed first call; operators read between calls): '
           'the state after each call is the state of a fresh object. 2-D and 3-D objects: bounded histories.',
})
BOUNDED = {}
PROVED['C21'] = ('Every obligation of get_level, get_freq_order, get_natural_order and their helpers (1-D and 2-D) is discharged from the current source for every level >= 0 (z3, plus Lean lemmas on '
                 'the reflected Gray words: position = frequency band, every word once). Words are symbolic; itertools.product by its contract (all tuples, lexicographic).')
PROVED['C10'] = ('Convolution, separable, stationary and boundary-wavelet transforms and inverses, and packet trees: every obligation discharged for every choice of axes up to rank 4 '
                 '(the quick tier takes every seventh choice for the 3-D boundary-wavelet analysis, the thorough tier all). The continuous transform has no axes argument.')
PROVED['C26'] = ('Every transform and inverse (convolution, separable, stationary, boundary-wavelet, packets, continuous), matrix builders and losses: every obligation discharged (result dtype, result device, and '
                 'filters rounded exactly once to the type of the data, for data on any device, both dtypes, filter tensors of any type and device). A complex wavelet gives the complex type of that precision.')
PROVED['C22'] = ('All transforms and inverses, packets, matrix builders and losses: frame obligations discharged on every path, including paths inside loops and paths that raise '
                 '(data, coefficient lists, detail dictionaries, filter tensors, scales). Same arguments, same result: results are functions of the arguments by the contracts.')
PROVED['C24'] = ('Every obligation of cwt, _integrate_wavelet and _next_fast_len is discharged from the current source (z3) for any number of scales, signal length, grid length, batch sizes and values: values, order, '
                 'shape, dtype, frequencies, reuse of the spectrum between scales (loop invariant); wavelet kinds, ranks 1-3, scale containers, dtypes enumerated. Trusted: DFT convolution theorem, '
                 'rounding functions, wavefun, scale2frequency. Real arithmetic (positions floor(m/den) exact).')
