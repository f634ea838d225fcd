_CONV = ('Contract on {f}: result entries, sizes, structure, dtype, frame = ghost sequence A(i) defined by the property; '
         'loop invariant over symbolic level; all callees executed or under contract; oracle = the defining sums. '
         'Covers every size/level/filter length/tap at once, which sampled tests cannot.')
_REC = ('Contract on {f}: result = ghost sequence R(J) of transposed filter-bank steps for every consistent coefficient list '
        '(symbolic number of levels, symbolic parity of every crop); Lean lemmas {l}, `sizes`, `levels` derive perfect '
        'reconstruction from the analysis and synthesis contracts for every PR bank and every extension.')
_B = 'Bounded run-time contract against an independent oracle (random sizes, wavelets, levels, axes, dtypes).'
APPROACH = {
    'C01': 'Contracts of _pad_symmetric_1d (recursive, measure padl+padr) and of _fwt_pad/_fwt_pad2/_fwt_pad3 for every mode: padded[j] = ext(j - padl); '
           'mirror-index theory proved in lean/Mirror.lean.',
    'C02': _CONV.format(f='wavedec'), 'C04': _CONV.format(f='wavedec2'), 'C06': _CONV.format(f='wavedec3'),
    'C08': _CONV.format(f='fswavedec2, fswavedec3 (recursion over axes through the real code)'),
    'C03': _REC.format(f='waverec', l='`pr1`'), 'C05': _REC.format(f='waverec2', l='`pr2`'), 'C07': _REC.format(f='waverec3', l='`pr3`'),
    'C09': _REC.format(f='fswaverec2, fswaverec3', l='`pr2`, `pr3`'),
    'C10': 'The contracts of C02-C09 instantiated for every ordered choice of distinct axes (negative, positive, mixed) of every rank up to 4: the result '
           'entry at (other axes, transformed axes) is stated against the same input entry layout; the same for swt/iswt and C11/C12, and for the boundary-wavelet transforms and inverses (1-D, 2-D separable or not, 3-D) and packet trees.',
    'C11': 'Contracts of _circular_pad (while loop: invariant over the padding still due, termination measure, ghost total) and of swt: '
           'entry i = dilated circular correlation of the ghost sequence A(i), dilation 2^i, any length and level; modular-index theory in lean/Periodic.lean.',
    'C12': 'Contract of iswt: result = ghost sequence R(J) of averaged circular syntheses; lean/Periodic.lean `swt_pr` derives '
           'iswt(swt(x)) = x for every PR bank, length and level from the two contracts.',
    'C13': 'Contracts of construct_conv_matrix (filtered comprehension over itertools.product: the enumerated set is described by its membership condition, the inferred size by a '
           'proved maximum), construct_conv2d_matrix (loop invariant: partial sum over the filter columns, in-place accumulation) and the strided builders (symbolic stride): entry (r, c) '
           '= tap(r + start - c) or zero, columns stacked for 2-D. A caller is checked against the contracts of sparse_kron, sparse_diag and construct_conv_matrix.',
    'C14': 'Contracts of sparse_kron, _dense_kron, sparse_diag, cat_sparse_identity_matrix, sparse_replace_row, batch_mm, _batch_dim_mm: the sum over the stored entries equals the dense '
           'definition for symbolic sizes, offsets, row numbers, number of stored entries (including none); plus size, dtype, device, frame.',
    'C24': 'Contract of cwt over ghost arrays (entries are polynomials over opaque reals): positions floor(m / (scale step)) with m < ceil(scale range + 1) cut at the end of the grid, the kernel is the flipped '
           'gathered integral, ifft of the product is the full convolution only if the obligation "size >= N + M - 1" is discharged; loop invariant over scales: size_scale0 and fft_data are size and spectrum of the '
           'previous scale; entry = -sqrt(scale) (conv(t+o+1) - conv(t+o)), o = (M-2) div 2, for t < N.',
    'C25': 'Contracts of all loss methods of ProductFilter and SoftOrthogonalWavelet for filters of symbolic length: the returned polynomials are the coefficient sums of the '
           'filter-bank products, the losses the sums of squared differences; lean/Loss.lean ties these to zero exactly on the condition and to the polynomials.',
    'C27': 'The contracts of C02-C11 with level=None: number of entries = default level + 1 with the level stated through the contract of '
           'pywt.dwt_max_level / log2 (monotone, exact at small ratios); packet trees: the level handed to initialize is that of the packet axes.', 'C23':
           'Exceptional postconditions: every feasible path of a call with a malformed argument ends in an exception raised by the code or documented by the library. Coefficient lists have symbolic '
           'length; one entry at a symbolic position is replaced (dtype, device, None, object, rank, any sizes, wrong names or containers), so the induction over the levels before it uses the '
           'synthesis contracts of C03-C18; sizes that a malformed finest level induces in the matrix list are covered by a contract of _construct_synthesis_matrices for any size. '
           'An attribute or argument that the library model lacks is never taken for a rejection. Packets: construction, node names, orders, missing leaves. Continuous transform: ' + _B,
    'C26': 'Contracts of all convolution, separable and stationary transforms with data on a symbolic device and filters given by name, object, tensors of the data type or '
           'double tensors on another device: dtype and device of every result; filters rounded exactly once to the data type (a narrower or wider intermediate type renames the '
           'value and fails the equality).',
    'C22': 'Frame condition: every tensor storage, list and dictionary of the caller is tracked through the symbolic execution of the transforms and inverses; a write on any '
           'feasible path (also inside loops, also before an exception) refutes the obligation. Same arguments, same result: the results are functions of the arguments by the '
           'contracts C02-C12.',
    'C15': 'Contracts of orthogonalize, _get_to_orthogonalize, _orth_by_qr, _orth_by_gram_schmidt: rows outside the requested set keep their entries, requested rows become the ghost basis; '
           'Gram-Schmidt loops carry the projection invariant, QR uses the reduced contract of torch.linalg.qr; lean/Orth.lean derives orthonormality and equality of the spans.',
    'C16': 'Contracts of MatrixWavedec/MatrixWaverec (__call__, _construct_*_matrices, operator properties), construct_boundary_a/s, _construct_a/s and the base class, for symbolic '
           'length, level, filter length and taps: ghost A(i+1) = upper half of B(2n)·padded(A(i)); loops over levels carry the invariant, early exits included. orthogonalize is used '
           'by contract only. lean/Boundary.lean derives orthogonality, the operators and the inverse from the per-level facts.',
    'C17': 'Contracts of MatrixWavedec2/MatrixWaverec2 (separable or not), construct_boundary_a2d/s2d, _construct_a_2/_construct_s_2 and the base class: per level and axis the input is padded to even '
           'and multiplied by the 1-D boundary matrices, or flattened column by column and multiplied by the 2-D boundary matrix, whose rows are the strided 2-D convolution rows (contracts of C13) '
           'orthogonalised (contract of C15); the four parts in documented order. lean/Boundary.lean: `one_level2`, `full_rows2`, `all_levels_nd`. Operators of several levels: ' + _B,
    'C18': 'Contracts of MatrixWavedec3/MatrixWaverec3 and the base class as for C17 with three axes and eight words, inputs of the synthesis in any key order; lean/Boundary.lean `one_level3`.',
    'C19': 'Contracts of the same objects over histories: the state after a call (matrices, levels, sizes, padding flags, error or not) equals the state a fresh object reaches with that '
           'call alone, from every state an earlier call (also a failing one, also an operator read) can leave. 2-D, 3-D: bounded histories.',
    'C20': 'Contracts of WaveletPacket and WaveletPacket2D (`__init__`, `transform`, `initialize`, `__getitem__`, `reconstruct` and their helpers). A node name is a ghost word of symbolic length; the stored nodes '
           'are a ghost dictionary holding an arbitrary prefix-closed set, each equal to T(word), T(word + letter) = the single-level transform of T(word). A read returns T(word) and leaves the invariant; loops over '
           'node names use a loop contract over all words of a level; reconstruct writes, level by level, the synthesis of the four (two) children cropped to the size of the parent. Boundary-wavelet objects are '
           'entered by the contracts of C16/C17. lean/Packets.lean `tree`: level-by-level inverses give back every inner node and the data.',
    'C21': 'Contracts of get_level, _get_graycode_order / get_natural_order and the 2-D natural order: the list of words of symbolic length; lean/Packets.lean: the recursive reflected order is the order by '
           'frequency band (`gray_band`), has each word once (`gray_all`, `gray_inj`, `gray_length`). 2-D grid: the loop over all words fills a ghost dictionary with letterwise keys (rule: one store per word, keys determine the word); entry (s, t) has the row letters G(s) and the column letters G(t); `grid_all`, `grid_inj`.',
}
for _k in range(1, 28):
    APPROACH.setdefault(f'C{_k:02d}', _B)
