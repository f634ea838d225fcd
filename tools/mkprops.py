import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['src/ptwt/'+f for f in files],mechanism=[dict(name=a,where='src/ptwt/'+b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where='src/ptwt/'+c) for a,b,c in state]
    P.append(d)
U='_util.py';C1='conv_transform.py';C2='conv_transform_2.py';C3='conv_transform_3.py';S='separable_conv_transform.py';ST='stationary_transform.py';SM='sparse_math.py';M1='matmul_transform.py';M2='matmul_transform_2.py';M3='matmul_transform_3.py';PK='packets.py';CW='continuous_transform.py';WL='wavelets_learnable.py'
prop('C01','Boundary extension equals the mathematical extension of the mode',
 'Before filtering, every padded convolution transform extends each transformed axis exactly as its boundary mode defines: zero, constant (edge value), reflect (whole-sample mirror), symmetric (half-sample mirror, repeated as often as needed), periodic. The pad widths are those that make one analysis level of a length-n axis with a length-L filter yield floor((n+L-1)/2) coefficients, with the surplus sample of an odd axis on the right. No other sample or axis is changed.',
 ['inputs','configurations'],'every mode, signal length n>=1 (n>pad for reflect), even filter length L>=2, any pad widths for symmetric, 1, 2 or 3 padded axes, any values',
 'Tests compare a few lengths and wavelets against numpy/pywt; a wrong second mirror or a pad that is off for one parity shows only at particular (n, L) combinations.',
 [U,C1,C2,C3],[('_get_pad/_get_padding_n',U),('_pad_symmetric(_1d)',U),('_translate_boundary_strings',U),('_fwt_pad, _fwt_pad2, _fwt_pad3',C1)],['wavedec','wavedec2','wavedec3'])
prop('C02','1-D analysis computes the textbook filter-bank coefficients at every level',
 'The 1-D transform of a signal returns the list [cA_n, cD_n, ..., cD_1] in which each coefficient k of a level is the inner product sum_j h(j)*ext(2k+1-j) of the decomposition filter with the boundary-extended approximation of the previous level. Every level has floor((m+L-1)/2) coefficients, m being the length of the previous approximation, and the list has exactly level+1 entries.',
 ['inputs','configurations'],'every signal, length, batch shape, even filter length, mode and level (also 0)',
 'Tests compare with pywt for some wavelets and sizes; they cannot cover every length/level/filter combination.',
 [C1,U],[('wavedec',C1),('_preprocess_deconstruction',U),('_get_filter_tensors',U)],['wavedec'])
prop('C03','1-D synthesis is the transposed filter bank and perfectly inverts analysis',
 'Reconstruction maps any valid coefficient list to the sum over bands of the upsampled, synthesis-filtered coefficients, cropped by L-2 samples on the left and enough on the right to fit the next detail band. Whenever the filters satisfy the perfect-reconstruction condition, reconstructing an analysed signal returns that signal (plus at most one trailing sample if its length was odd).',
 ['inputs','configurations'],'every coefficient list of consistent lengths; every signal, length, level, mode and perfect-reconstruction filter bank',
 'Round trips are sampled for a few even lengths and wavelets; odd lengths at inner levels and long filters are reached rarely.',
 [C1,U],[('waverec',C1),('_adjust_padding_at_reconstruction',U)],['waverec'])
prop('C04','2-D analysis yields the tensor-product coefficients in pywt band order',
 'Each level of the 2-D padded convolution transform returns the approximation and the (horizontal, vertical, diagonal) details, being the tensor-product inner products with (low,low), (high along rows axis -2, low along axis -1), (low, high) and (high, high) filters of the image extended along both axes. Levels are ordered coarsest first and each axis of length m yields floor((m+L-1)/2) coefficients.',
 ['inputs','configurations'],'every image size (odd and even, non-square), batch shape, even filter length, mode, level',
 'The 2-D tests compare against pywt on one picture that cannot be downloaded offline, and on small samples; they do not fix band order and lengths for all shapes.',
 [C2,U],[('wavedec2',C2),('_construct_2d_filt',U)],['wavedec2'])
prop('C05','2-D synthesis inverts 2-D analysis',
 'The 2-D reconstruction of any consistent coefficient tuple is the tensor-product synthesis sum of its four bands per level, cropped by L-2 samples at the start of each axis and fitted to the next level at the end. For perfect-reconstruction filters it returns every analysed image (plus at most one trailing row/column for odd sizes).',
 ['inputs','configurations'],'every coefficient tuple of consistent shapes; every image size, mode, level and perfect-reconstruction filter bank',
 'Only a handful of shapes are round-tripped; independent parities of the two axes at inner levels are not enumerable.',
 [C2,U],[('waverec2',C2),('_adjust_padding_at_reconstruction',U)],['waverec2'])
prop('C06','3-D analysis yields the eight tensor-product bands under the right keys',
 'Each level of the 3-D padded convolution transform returns the approximation and a dictionary with exactly the keys aad, ada, add, daa, dad, dda, ddd, where the i-th letter says whether the low (a) or high (d) filter was applied along the i-th transformed axis. Every band is the corresponding tensor-product inner product with the extended volume; levels are ordered coarsest first.',
 ['inputs','configurations'],'every volume size, batch shape, even filter length, mode and level (also 0)',
 'Tests sample few sizes; a swapped pair of keys or a wrong axis shows only on asymmetric data.',
 [C3,U],[('wavedec3',C3),('_construct_3d_filt',U)],['wavedec3'])
prop('C07','3-D synthesis inverts 3-D analysis',
 'The 3-D reconstruction of any consistent coefficient tuple is the tensor-product synthesis sum of its eight bands per level, cropped by L-2 samples at the start of each axis and fitted to the next level at the end. For perfect-reconstruction filters it returns every analysed volume (plus at most one trailing sample per odd axis).',
 ['inputs','configurations'],'every coefficient tuple of consistent shapes; every volume size, mode, level and perfect-reconstruction filter bank',
 'Only a few cubes are round-tripped; independent parities of three axes at inner levels are not enumerable.',
 [C3,U],[('waverec3',C3),('_adjust_padding_at_reconstruction',U)],['waverec3'])
prop('C08','Separable analysis equals axis-by-axis 1-D analysis under the right keys',
 'The separable 2-D and 3-D transforms return, for each level, a dictionary with a key for every detail band, where the i-th letter names the 1-D filter (a low, d high) applied along the i-th transformed axis. Every band equals applying the single-level 1-D transform along each transformed axis in turn, and the all-a band feeds the next level.',
 ['inputs','configurations'],'every size, batch shape, even filter length, mode and level, 2 and 3 axes',
 'Tests sample few shapes and compare against pywt on them.',
 [S,C1],[('_separable_conv_dwtn_',S),('_separable_conv_wavedecn',S),('_fswavedecn',S)],['fswavedec2','fswavedec3'])
prop('C09','Separable synthesis inverts separable analysis',
 'The separable 2-D and 3-D reconstruction applies the single-level 1-D synthesis along each axis to every a/d pair of bands, cropping an approximation that is longer than its details. For perfect-reconstruction filters it returns every analysed input (plus at most one trailing sample per odd axis), whatever the order of the keys in the dictionaries.',
 ['inputs','configurations'],'every coefficient structure of consistent shapes; every size, mode, level, filter bank',
 'Tests round-trip a few sizes.',
 [S,C1],[('_separable_conv_idwtn',S),('_separable_conv_waverecn',S),('_fswaverecn',S)],['fswaverec2','fswaverec3'])
prop('C10','Axes and batch dimensions: only the chosen axes are transformed',
 'For every transform, transforming the chosen axes of an n-dimensional tensor equals moving those axes to the end (in the given order), transforming every slice over the remaining axes independently, and moving the result axes back to their original positions. Negative and non-negative axis numbers mean the same axis, and the inverse transform with the same axes argument undoes it.',
 ['inputs','configurations'],'every tensor rank, every ordered choice of distinct axes (negative or not), every size including size-1 axes and batches',
 'Tests permute a few axes of a few ranks; size-1 dimensions and mixed signs are not enumerated.',
 [U,C1,C2,C3,S,ST,M1,M2,M3],[('_preprocess_coeffs/_postprocess_coeffs',U),('_swap_axes/_undo_swap_axes',U),('_fold_axes/_unfold_axes',U),('_coeff_tree_map',U)],['all transforms'])
prop('C11','Stationary analysis is the periodic a-trous filter bank',
 'The stationary transform returns level+1 tensors of the same shape as the input, where level i correlates the periodically continued approximation with the decomposition filters dilated by 2^(i-1), aligned as in pywt.swt(trim_approx=True, norm=False). The periodic continuation is exact even when the dilated filter wraps around the signal several times.',
 ['inputs','configurations'],'every signal length >=1, filter length, level and batch shape',
 'Tests use power-of-two lengths for which repeated wrapping happens to stay aligned.',
 [ST],[('_circular_pad',ST),('swt',ST)],['swt'])
prop('C12','Stationary synthesis inverts stationary analysis',
 'The inverse stationary transform averages the two periodic synthesis filterings per level with the matching dilation and alignment, and so returns the input of the forward stationary transform for every perfect-reconstruction filter bank. The output has the shape of the coefficients.',
 ['inputs','configurations'],'every coefficient list; every signal length, level, filter bank',
 'Tests use lengths 32 and 64 only.',
 [ST],[('iswt',ST),('_circular_pad',ST)],['iswt'])
prop('C13','Sparse convolution matrices act as the convolution they stand for',
 'The 1-D and 2-D convolution matrix builders return matrices whose product with the (column-wise flattened) signal equals the full, valid or same convolution with the filter, and the strided builders return exactly every stride-th output row (starting at the second for the shifted mode) in order. Shapes equal the corresponding output sizes.',
 ['inputs','configurations'],'every filter and signal size with filter no longer than the signal, every mode, stride >=1, non-square images and filters',
 'Tests compare a grid of sizes with scipy; 2-D cases are mostly square or rely on a picture that is not available.',
 [SM],[('construct_conv_matrix',SM),('construct_conv2d_matrix',SM),('construct_strided_conv_matrix',SM),('construct_strided_conv2d_matrix',SM)],[])
prop('C14','Sparse matrix helpers agree with their dense definitions',
 'The sparse Kronecker product, off-diagonal matrix, identity extension, row replacement and batched matrix products return the matrix their dense definition gives, with the right shape, data type and device, for all-zero and for non-square operands too. Operands are not modified.',
 ['inputs','configurations'],'every operand shape, sparsity pattern, offset, row index and batch size',
 'Tests sample small random matrices without zero operands or non-square replacement.',
 [SM],[('sparse_kron',SM),('sparse_diag',SM),('cat_sparse_identity_matrix',SM),('sparse_replace_row',SM),('batch_mm/_batch_dim_mm',SM)],[])
prop('C15','Orthogonalisation makes the boundary rows orthonormal and nothing else changes',
 'Both orthogonalisation methods replace exactly the requested rows by an orthonormal basis of the space these rows span and leave all other rows as they were. Rows are requested exactly when they have fewer nonzeros than a full filter row.',
 ['inputs','configurations'],'every matrix with linearly independent requested rows, every choice of rows',
 'Tests look at the product of a few wavelet matrices only.',
 [SM,M1],[('_orth_by_qr',SM),('_orth_by_gram_schmidt',SM),('_get_to_orthogonalize/orthogonalize',M1)],[])
prop('C16','1-D boundary wavelets: analysis and synthesis invert each other',
 'For an orthogonal wavelet the 1-D boundary-wavelet transform multiplies each even-length (padded if odd) approximation by an orthogonal matrix whose interior rows are the plain filter rows, halving the length per level and stopping before the signal gets shorter than the filter. The inverse object reconstructs the input (plus at most one padded trailing sample), and the exposed operator matrices equal the composed transform.',
 ['inputs','configurations'],'every signal length, level, mode for odd lengths, orthogonalisation method, orthogonal wavelet',
 'Tests sample a few lengths; odd inner lengths and early stopping are rarely reached.',
 [M1,SM],[('MatrixWavedec',M1),('MatrixWaverec',M1),('construct_boundary_a/s',M1)],['MatrixWavedec','MatrixWaverec'])
prop('C17','2-D boundary wavelets: analysis and synthesis invert each other',
 'The 2-D boundary-wavelet transform, separable or not, reconstructs every image of every size and parity (plus at most one padded trailing row/column), with band shapes halved per level. The detail triple is in the order horizontal, vertical, diagonal used by the other 2-D transforms, and the exposed operator matrices equal the composed transform.',
 ['inputs','configurations'],'every image size, level, separable flag, padding mode for odd sizes, orthogonalisation method',
 'The stable tests of the 2-D matrix code need a picture that cannot be downloaded; shapes are mostly square powers of two.',
 [M2,SM],[('MatrixWavedec2',M2),('MatrixWaverec2',M2),('_matrix_pad_2',M2)],['MatrixWavedec2','MatrixWaverec2'])
prop('C18','3-D boundary wavelets: analysis and synthesis invert each other',
 'The 3-D boundary-wavelet transform applies the 1-D boundary matrix along each of the three axes and labels the bands by the filter (a low, d high) applied along each transformed axis in order. Its inverse reconstructs every volume of every size and parity, apart from at most one padded trailing sample per axis.',
 ['inputs','configurations'],'every volume size, level, padding mode for odd sizes, orthogonalisation method',
 'Tests cover a few even cubes.',
 [M3,SM],[('MatrixWavedec3',M3),('MatrixWaverec3',M3),('_batch_dim_mm',SM)],['MatrixWavedec3','MatrixWaverec3'])
prop('C19','Reused transform objects behave like fresh ones',
 'The result of calling a boundary-wavelet transform or inverse object depends only on its constructor arguments and the current input, never on the sizes, levels, data types or devices it was called with before. The same holds for a wavelet packet object that is given new data.',
 ['histories','inputs'],'every sequence of calls with changing sizes, levels, batch shapes, data types on one object',
 'Tests reuse objects for a couple of sizes with explicit level and one data type; histories are unbounded.',
 [M1,M2,M3,PK],[('re_build logic in __call__',M1),('re_build logic in __call__',M2),('re_build logic in __call__',M3),('transform/_get_wavedec caches',PK)],['Matrix* __call__','WaveletPacket*.transform'],
 [('fwt_matrix_list/ifwt_matrix_list','matrices cached for the last input size',M1),('input_length/level','key of the cache',M1)])
prop('C20','Wavelet packet nodes are path-determined and reconstruction inverts the tree',
 'A packet node equals the repeated single-level transform of the data along its path, whatever the order in which nodes were read or initialised, for 1-D and 2-D trees, padding modes and boundary wavelets, any axes. Reconstruction from a full leaf level rebuilds every inner node and the data (up to one trailing padded sample), and after changing leaves it returns the synthesis of the changed leaves.',
 ['histories','inputs','configurations'],'every access order, path, maximum level, data shape, axis, mode',
 'Tests read nodes in one order for a few shapes.',
 [PK],[('__getitem__/_expand_node',PK),('reconstruct',PK),('_get_wavedec/_get_waverec',PK)],['WaveletPacket','WaveletPacket2D'],
 [('data','dictionary path -> coefficient tensor',PK)])
prop('C21','Packet level orders enumerate every node once in natural or frequency order',
 'For every level the natural order lists all paths lexicographically and the frequency order lists all paths by increasing frequency band (Gray code); the 2-D frequency order is the grid of row band by column band. Every path of the level occurs exactly once.',
 ['inputs'],'every level >=0 (>=1 for the 2-D frequency grid), both orders, 1-D and 2-D',
 'Tests compare a few levels with pywt.',
 [PK],[('get_level, _get_graycode_order',PK),('get_freq_order/get_natural_order',PK)],['get_level'])
prop('C22','Caller-owned data is never modified',
 'No transform, inverse, packet operation, matrix builder or loss changes the tensors, coefficient lists, dictionaries or tuples passed in by the caller: their structure, keys, shapes and values are the same after the call, also if the call raises. Passing the same arguments twice gives the same result.',
 ['inputs','histories'],'every public function and every accepted argument',
 'Tests rarely use an argument again after the call.',
 [U,C1,C2,C3,S,ST,SM,M1,M2,M3,PK],[('in-place operations on local copies only',SM),('fswaverec dictionaries',S),('MatrixWaverec3 dictionaries',M3)],['all public functions'])
prop('C23','Malformed input is rejected with an error, never silently transformed',
 'Unsupported data types, coefficients of mixed data type, too few dimensions, a wrong number of axes or repeated axes, unknown modes, orders or orthogonalisation methods, and coefficient structures of the wrong kind or with inconsistent shapes raise an error. Well-formed input is never rejected for these reasons.',
 ['inputs','configurations'],'every argument outside (and inside) the documented domain',
 'Tests try a few wrong arguments per function.',
 [U,C1,C2,C3,S,ST,M1,M2,M3,PK],[('_preprocess_coeffs checks',U),('_check_same_device_dtype',U),('_ensure_axes/_check_axes_argument',U),('shape checks in waverec2/3 and Matrix*',C2)],['all public functions'])
prop('C24','The continuous transform equals the scaled convolution of its definition',
 'For every scale the continuous transform returns -sqrt(scale) times the first difference of the full convolution of the signal with the integrated wavelet resampled at that scale, cropped centrally to the signal length, stacked over scales in the given order with the batch shape kept. The frequencies are scale-to-frequency values divided by the sampling period.',
 ['inputs','configurations'],'every signal length, list of scales, batch shape, wavelet, sampling period and precision',
 'Tests compare a few scales and lengths with pywt; FFT length reuse across scales depends on the whole scale sequence.',
 [CW],[('cwt',CW),('_integrate_wavelet',CW),('_next_fast_len',CW)],['cwt'])
prop('C25','Learnable-wavelet losses vanish exactly on the conditions they encode',
 'The alias-cancellation and perfect-reconstruction losses are the squared distances of the filter-bank product polynomials from zero and from twice the centred unit pulse, and the orthogonality losses the squared distances from double-shift orthonormality and time-reversed filters. Each loss is zero if and only if its condition holds.',
 ['inputs'],'every filter bank of any even length',
 'Tests evaluate the losses on a few pywt wavelets only.',
 [WL],[('alias_cancellation_loss',WL),('perfect_reconstruction_loss',WL),('rec_lo_orthogonality_loss, filt_bank_orthogonality_loss',WL)],['WaveletFilter losses'])
prop('C26','Results keep the data type and device of the input',
 'Every transform and inverse returns tensors with the data type and device of its input tensors, for every supported data type (the complex type of the same precision for the continuous transform with a complex wavelet), and uses filters in that type rather than a wider or narrower one. Sparse matrix builders return matrices of the data type and device asked for.',
 ['inputs','configurations'],'every transform, supported data type, device, mode and option',
 'Tests mostly use float64 on CPU.',
 [U,C1,C2,C3,S,ST,SM,M1,M2,M3,PK,CW],[('_get_filter_tensors',U),('dtype/device arguments of the builders',SM)],['all public functions'])
prop('C27','Omitted levels default to the deepest meaningful decomposition',
 'If no level is given, the convolution transforms use the largest level at which the shortest transformed axis still supports the filter (floor(log2(n/(L-1))), at least 0), the stationary transform the number of times two divides the length, and the packets the same bound as the convolution transform along the packet axes. All of these use the transformed axes and the real filter length only, never the batch dimensions.',
 ['inputs','configurations'],'every shape, choice of axes and wavelet',
 'Tests use a None level on few shapes, where batch dimensions do not matter.',
 [C1,C2,C3,S,ST,M1,M2,M3,PK],[('level is None branches',C1),('level is None branch',S),('transform',PK)],['all transforms'])
prop('C28','Transforms are differentiable with the adjoint as gradient',
 'Gradients of every convolution-based transform with respect to its input and to learnable filter taps equal the derivative of the mathematical transform.',
 ['inputs'],'every transform, input and filter bank',
 'Tests check that optimisation of one example converges.',
 [C1,C2,C3,WL],[('torch autograd through the tensor operations',C1)],[])
prop('C29','Floating-point results stay within rounding distance of the exact result',
 'In single and double precision every result differs from the exact real-arithmetic result by at most a small multiple of machine precision times the input norm.',
 ['inputs'],'every input, wavelet, level',
 'Tests compare with tolerance on samples.',
 [C1,M1,CW],[('torch floating point kernels',C1)],[])
os.makedirs('/verif',exist_ok=True)
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
