From 586cf69c7da43163c7b6293f387fc58fe82dc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 01/21] fix: keep repeated circular padding periodic

Padding a fraction of a period on one side before the other side was done
broke the periodicity later wraps relied on.
---
 src/ptwt/stationary_transform.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..8bf7f2b 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -33,24 +33,29 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     ):
         return F.pad(x, padding_dimensions, mode="circular")
 
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
-        # reduce every padding dimension to at maximum trailing dimension width
+    # repeat to pad whole periods until no padding dimension exceeds a period
+    while any(
+        padding_dimension > trailing_dimension
+        for padding_dimension in padding_dimensions
+    ):
+        # pad only whole periods, the result remains periodic and
+        # the circular wrap error will never be thrown
         reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
+            trailing_dimension if padding_dimension > trailing_dimension else 0
             for padding_dimension in padding_dimensions
         ]
-        # pad using reduced dimensions,
-        # which will never throw the circular wrap error
         x = F.pad(x, reduced_padding_dimensions, mode="circular")
         # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
+        # if any pad width still exceeds a period
         padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
+            padding_dimension - reduced
+            for padding_dimension, reduced in zip(
+                padding_dimensions, reduced_padding_dimensions
+            )
         ]
 
-    return x
+    # pad the remaining fractions of a period
+    return F.pad(x, padding_dimensions, mode="circular")
 
 
 def swt(
-- 
2.43.0


From 7b3a26743fc9d7d941890539990e7f264c0e7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 02/21] fix: drop the channel axis in a zero-level wavedec3

---
 src/ptwt/conv_transform_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..1e45f2b 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -119,7 +119,7 @@ def wavedec3(
         )
 
     result_lst: list[WaveletDetailDict] = []
-    res_lll = data
+    res_lll = data.squeeze(1)
     for _ in range(level):
         if len(res_lll.shape) == 4:
             res_lll = res_lll.unsqueeze(1)
-- 
2.43.0


From 8ee54bce3847c049253965fdbdc3c67dd0bc4163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 03/21] fix: do not write into the coefficient dicts in
 fswaverec

---
 src/ptwt/separable_conv_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..df9f216 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,8 +179,8 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        approx_key = "a" * max(map(len, keys))
+        approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
 
 
-- 
2.43.0


From 922fe6e37e83cea0c0267790d22bc6b34002fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/21] fix: do not write into the coefficient dicts in
 MatrixWaverec3

---
 src/ptwt/matmul_transform_3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..915faa7 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,7 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
-- 
2.43.0


From e5eb10f3a6c849fa45e560936e76a2a6d781fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 05/21] fix: preserve the dtype of an all-zero sparse_kron

---
 src/ptwt/sparse_math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..10f6413 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,9 +64,10 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
-            torch.zeros([1]),
+            torch.zeros([2, 0], dtype=torch.int64),
+            torch.zeros([0]),
             size=output_shape,
+            dtype=torch.result_type(sparse_tensor_a, sparse_tensor_b),
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From 3aa6fb0ccb85fcbfa23a3080f08e3f4671dd3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 06/21] fix: support non-square matrices when replacing rows

---
 src/ptwt/sparse_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 10f6413..ff89ce1 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -234,7 +234,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
@@ -291,7 +291,7 @@ def _orth_by_qr(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 4935a838891ff97a1c8e07542eab0c0bf5a51c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/21] fix: infer the matrix FWT level anew for every input
 size

The first input froze the level of an object created with level=None.
---
 src/ptwt/matmul_transform.py   | 7 ++++---
 src/ptwt/matmul_transform_2.py | 7 ++++---
 src/ptwt/matmul_transform_3.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..8b3d9ee 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # infer the level from the size of each input if no level is requested
+        self._infer_level = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -394,11 +396,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        if self._infer_level:
             wlen = len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..637e7e1 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        # infer the level from the size of each input if no level is requested
+        self._infer_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -483,13 +485,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        if self._infer_level:
             wlen = len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 915faa7..7a445c9 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # infer the level from the size of each input if no level is requested
+        self._infer_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -222,7 +224,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        if self._infer_level:
             wlen = len(self.wavelet)
             self.level = int(
                 np.min(
@@ -233,8 +235,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
-- 
2.43.0


From 274db3f80badb057b97a5943f455040a6ae4baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 08/21] fix: rebuild the FWT matrices if the dtype or device
 changes

The matrices were cached by input size only.
---
 src/ptwt/matmul_transform.py   | 12 ++++++++++++
 src/ptwt/matmul_transform_2.py | 12 ++++++++++++
 src/ptwt/matmul_transform_3.py | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 8b3d9ee..da1a51b 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -256,6 +256,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
 
         self.input_length: Optional[int] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[torch.Tensor] = []
         self.pad_list: list[bool] = []
         self.padded = False
@@ -402,6 +403,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_options = (input_signal.device, input_signal.dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -549,6 +555,7 @@ class MatrixWaverec(object):
         self.ifwt_matrix_list: list[torch.Tensor] = []
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
         self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -671,6 +678,11 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        matrix_options = (torch_device, torch_dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 637e7e1..065d838 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -333,6 +333,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -493,6 +494,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_options = (input_signal.device, input_signal.dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -628,6 +634,7 @@ class MatrixWaverec2(object):
         ] = []
         self.level: Optional[int] = None
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
 
         self.padded = False
 
@@ -774,6 +781,11 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        matrix_options = (torch_device, torch_dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 7a445c9..99ef982 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -125,6 +125,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -238,6 +239,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        matrix_options = (input_signal.device, input_signal.dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -327,6 +333,7 @@ class MatrixWaverec3(object):
         self.orthogonalization = orthogonalization
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_options: Optional[tuple[torch.device, torch.dtype]] = None
         self.level: Optional[int] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -444,6 +451,11 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        matrix_options = (torch_device, torch_dtype)
+        if self._matrix_options != matrix_options:
+            self._matrix_options = matrix_options
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From f0e54b0e0abceaf10379f0f93ba9cc4376e8ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 09/21] fix: let MatrixWaverec3 invert a zero-level
 MatrixWavedec3

---
 src/ptwt/matmul_transform_3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 99ef982..15c214d 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -434,6 +434,8 @@ class MatrixWaverec3(object):
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
             )
+        elif level == 0:
+            return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
         else:
             raise ValueError("Waverec3 expects dicts of tensors.")
 
-- 
2.43.0


From 02b0309f183f0e134973cccfc403022528691405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 10/21] fix: use the same packet names for separable 2d packets

The horizontal and vertical nodes were swapped if separable=True.
---
 src/ptwt/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..a9c37ff 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -602,7 +602,7 @@ class WaveletPacket2D(BaseDict):
             a_coeff, fsdict = fs_dict_data
             return (
                 a_coeff,
-                WaveletDetailTuple2d(fsdict["ad"], fsdict["da"], fsdict["dd"]),
+                WaveletDetailTuple2d(fsdict["da"], fsdict["ad"], fsdict["dd"]),
             )
 
         return _tuple_func
@@ -615,7 +615,7 @@ class WaveletPacket2D(BaseDict):
             # assert for type checking
             assert len(coeffs) == 2
             a, (h, v, d) = coeffs
-            return fsdict_func((a, {"ad": h, "da": v, "dd": d}))
+            return fsdict_func((a, {"da": h, "ad": v, "dd": d}))
 
         return _fsdict_func
 
-- 
2.43.0


From f6913e98268377e39c3f202bf0bc6c30e2b9fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 11/21] fix: allow sparse_diag to shift the diagonal out of the
 matrix

---
 src/ptwt/sparse_math.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index ff89ce1..aa31582 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -182,12 +182,8 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    if not torch.all(mask):
         diag_indices = diag_indices[:, mask]
         diagonal = diagonal[mask]
 
-- 
2.43.0


From 61c90c118cc88b71b5fe1ca4c205da6bc02a5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 12/21] fix: select rows of the full matrix in _orth_by_qr

The selection matrix was too narrow if the last row needed no work.
---
 src/ptwt/sparse_math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index aa31582..ade8e38 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -273,6 +273,7 @@ def _orth_by_qr(
     selection_matrix = torch.sparse_coo_tensor(
         selection_indices,
         torch.ones_like(rows_to_orthogonalize),
+        size=(len(rows_to_orthogonalize), matrix.shape[0]),
         dtype=matrix.dtype,
         device=matrix.device,
     )
-- 
2.43.0


From f9a75fd3feab48e026bf415108d33762892f375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 13/21] fix: support zero-level non-separable MatrixWavedec2
 calls

---
 src/ptwt/matmul_transform_2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 065d838..8e81f16 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -564,7 +564,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            # the last entry holds the size of the coarsest approximation
+            size = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, size[1], size[0]).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
-- 
2.43.0


From de64959eca762461e91c398bfb3a183b1d5a7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 14/21] fix: default level of a tensor wavelet uses its filter
 length

With a WaveletTensorTuple the default level was computed from the tuple
length (4) in the separable and matrix transforms, and wavedec2/wavedec3
raised because the tuple was read as one wavelet per axis.
---
 src/ptwt/conv_transform_2.py         | 3 ++-
 src/ptwt/conv_transform_3.py         | 5 ++---
 src/ptwt/matmul_transform.py         | 3 ++-
 src/ptwt/matmul_transform_2.py       | 3 ++-
 src/ptwt/matmul_transform_3.py       | 3 ++-
 src/ptwt/separable_conv_transform.py | 4 ++--
 6 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..f26ebd2 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_2d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -135,7 +136,7 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        level = pywt.dwt_max_level(min(data.shape[-2:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 1e45f2b..7d745a3 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_3d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -114,9 +115,7 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        level = pywt.dwt_max_level(min(data.shape[-3:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data.squeeze(1)
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index da1a51b..410a383 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -20,6 +20,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -398,7 +399,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self._infer_level:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 8e81f16..1eeb040 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -19,6 +19,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -487,7 +488,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self._infer_level:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 15c214d..ae02f17 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -15,6 +15,7 @@ from ._util import (
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -226,7 +227,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self._infer_level:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index df9f216..eaf32d9 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From 79843a587fc11c3ae88cb5e1dccdc6f294c8e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 15/21] fix: reading a packet node no longer overwrites an
 assigned sibling

Lazy expansion wrote all children of a node, so a child assigned by the
user was lost as soon as one of its siblings was read.
---
 src/ptwt/packets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a9c37ff..9b52bc7 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -312,8 +312,9 @@ class WaveletPacket(BaseDict):
     def _expand_node(self, path: str) -> None:
         data = self[path]
         res_lo, res_hi = self._get_wavedec(data.shape[self.axis])(data)
-        self.data[path + "a"] = res_lo
-        self.data[path + "d"] = res_hi
+        # keep nodes the user assigned before their siblings were read
+        self.data.setdefault(path + "a", res_lo)
+        self.data.setdefault(path + "d", res_hi)
 
     def __getitem__(self, key: str) -> torch.Tensor:
         """Access the coefficients in the wavelet packets tree.
@@ -533,10 +534,11 @@ class WaveletPacket2D(BaseDict):
         # assert for type checking
         assert len(result) == 2
         result_a, (result_h, result_v, result_d) = result
-        self.data[path + "a"] = result_a
-        self.data[path + "h"] = result_h
-        self.data[path + "v"] = result_v
-        self.data[path + "d"] = result_d
+        # keep nodes the user assigned before their siblings were read
+        self.data.setdefault(path + "a", result_a)
+        self.data.setdefault(path + "h", result_h)
+        self.data.setdefault(path + "v", result_v)
+        self.data.setdefault(path + "d", result_d)
 
     def _get_wavedec(self, shape: tuple[int, ...]) -> Callable[
         [torch.Tensor],
-- 
2.43.0


From ae325138dff38c49d87d2d145088c0831e7020af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 16/21] fix: fswaverec rejects coefficients of inconsistent
 shape

Bands larger than the diagonal detail, and oversized approximations, were
silently cut down to the shape of the detail.
---
 src/ptwt/separable_conv_transform.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index eaf32d9..d3395ba 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,6 +179,20 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
+        shape = level_dict[keys[0]].shape
+        for coeff in level_dict.values():
+            if coeff.shape != shape:
+                raise ValueError(
+                    "All coefficients on each level must have the same shape"
+                )
+        # only the analysis padding of the previous level may be cut off
+        excess = 0 if approx is coeffs[0] else 1
+        if approx.shape[0] != shape[0] or any(
+            not 0 <= a - d <= excess for a, d in zip(approx.shape[1:], shape[1:])
+        ):
+            raise ValueError(
+                "The approximation does not match the detail coefficients."
+            )
         approx_key = "a" * max(map(len, keys))
         approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
-- 
2.43.0


From 380cc3197f70139fef68b7209f28e98f8ae6f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 17/21] fix: MatrixWaverec3 rejects an approximation larger
 than its details

It was silently cut down to the shape of the detail coefficients.
---
 src/ptwt/matmul_transform_3.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index ae02f17..901f3c0 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -481,6 +481,15 @@ class MatrixWaverec3(object):
                     raise ValueError(
                         "All coefficients on each level must have the same shape"
                     )
+            # only the analysis padding of the previous level may be cut off
+            excess = 0 if c_pos == 0 else 1
+            if any(
+                not 0 <= a - d <= excess
+                for a, d in zip(lll.shape[-3:], coeff_dict["ddd"].shape[-3:])
+            ):
+                raise ValueError(
+                    "The approximation does not match the detail coefficients."
+                )
 
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
-- 
2.43.0


From eba5aff5f9aa1362999aa9e231ae0920eb1cde8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:52 +0000
Subject: [PATCH 18/21] fix: inverse transforms reject coefficients with
 different batch shapes

---
 src/ptwt/_util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..682a024 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -561,7 +561,12 @@ def _preprocess_coeffs(
         coeffs = _coeff_tree_map(coeffs, lambda x: x.unsqueeze(0))
     elif len(ds) > ndim + 1:
         # for all tensors in `coeffs`: fold leading dims to batch dim
-        coeffs = _coeff_tree_map(coeffs, lambda t: _fold_axes(t, ndim)[0])
+        def _fold_batch(t: torch.Tensor) -> torch.Tensor:
+            if list(t.shape[:-ndim]) != ds[:-ndim]:
+                raise ValueError("all coefficients must have the same batch shape")
+            return _fold_axes(t, ndim)[0]
+
+        coeffs = _coeff_tree_map(coeffs, _fold_batch)
 
     if add_channel_dim:
         # for all tensors in `coeffs`: add channel dim
-- 
2.43.0


From cff6425872d73c43501af277f7a873300ba284dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:07 +0000
Subject: [PATCH 19/21] fix: reject detail tuples that do not hold exactly
 three tensors

---
 src/ptwt/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 682a024..f7ce229 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -419,6 +419,10 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    f"Detail tuples must contain 3 tensors, got {len(element)}."
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From c118723b2eeca2a94ca6a7914606dd86370956da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:57 +0000
Subject: [PATCH 20/21] fix: list the root in the 2d frequency order of level
 zero

---
 src/ptwt/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index 9b52bc7..32530a2 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -744,6 +744,8 @@ class WaveletPacket2D(BaseDict):
         wp_natural_path = product(["a", "h", "v", "d"], repeat=level)
 
         def _get_graycode_order(level: int, x: str = "a", y: str = "d") -> list[str]:
+            if level == 0:
+                return [""]
             graycode_order = [x, y]
             for _ in range(level - 1):
                 graycode_order = [x + path for path in graycode_order] + [
-- 
2.43.0


From 69bc6906c6f1b60268c3abdc929c30659fbd729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:57 +0000
Subject: [PATCH 21/21] fix: compute the cwt in the data type of the input

---
 src/ptwt/continuous_transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..c5421d0 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -93,8 +93,13 @@ def cwt(
         int_psi = torch.tensor(int_psi, device=data.device)
         x = torch.tensor(x, device=data.device)
 
-    # convert int_psi, x to the same precision as the data
-    # x = np.asarray(x, dtype=data.cpu().numpy().real.dtype)
+    # convert int_psi to the same precision as the data
+    if data.is_floating_point():
+        int_psi = int_psi.to(
+            torch.promote_types(data.dtype, torch.complex32)
+            if int_psi.is_complex()
+            else data.dtype
+        )
 
     size_scale0 = -1
     fft_data = None
-- 
2.43.0

