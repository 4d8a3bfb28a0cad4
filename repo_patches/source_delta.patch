From e271efb3942cbd28a023dabe206771f5523053f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 01/26] fix: fswaverec2/3 no longer add the approximation to
 the caller's coefficient dicts

---
 src/ptwt/separable_conv_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..4833ea3 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,7 +179,8 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
+        # do not modify the coefficient dicts of the caller.
+        level_dict = {**level_dict, "a" * max(map(len, keys)): approx}
         approx = _separable_conv_idwtn(level_dict, wavelet)
     return approx
 
-- 
2.43.0


From 5cd4154b51551a65049545859640ebbe1d50d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/26] fix: MatrixWaverec3 no longer adds the approximation to
 the caller's coefficient dicts

---
 src/ptwt/matmul_transform_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..b493659 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,8 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            # do not modify the coefficient dicts of the caller.
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
-- 
2.43.0


From e323a810d79e1f8503a71ad4590967409a0b5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/26] fix: wavedec3 with zero levels no longer returns an
 extra channel axis

---
 src/ptwt/conv_transform_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..1e45f2b 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -119,7 +119,7 @@ def wavedec3(
         )
 
     result_lst: list[WaveletDetailDict] = []
-    res_lll = data
+    res_lll = data.squeeze(1)
     for _ in range(level):
         if len(res_lll.shape) == 4:
             res_lll = res_lll.unsqueeze(1)
-- 
2.43.0


From 999d5b0f7b44c5e9334e4b28eaac9e2729276e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 04/26] fix: non-separable MatrixWavedec2 no longer crashes if
 no level can be computed

---
 src/ptwt/matmul_transform_2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..ab64f35 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -557,7 +557,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            # the last size list entry is the size of the approximation
+            size = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, size[1], size[0]).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
-- 
2.43.0


From 04aecf2c791f120d73b77a6469fe6c9cab6145ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/26] fix: MatrixWavedec objects without a level compute it
 from the shape of each input

---
 src/ptwt/matmul_transform.py   | 7 ++++---
 src/ptwt/matmul_transform_2.py | 7 ++++---
 src/ptwt/matmul_transform_3.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..b198180 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # if no level is given, it is computed from the shape of each input.
+        self._level_from_input = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -394,11 +396,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        if self._level_from_input:
             wlen = len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index ab64f35..0b1efb2 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        # if no level is given, it is computed from the shape of each input.
+        self._level_from_input = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -483,13 +485,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        if self._level_from_input:
             wlen = len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index b493659..acc96c7 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # if no level is given, it is computed from the shape of each input.
+        self._level_from_input = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -222,7 +224,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        if self._level_from_input:
             wlen = len(self.wavelet)
             self.level = int(
                 np.min(
@@ -233,8 +235,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
-- 
2.43.0


From 0fc56a097f2f430d49d5f8dae4cc34fb664eb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/26] fix: Matrix transform objects rebuild their matrices if
 the dtype or device changes

---
 src/ptwt/_util.py              | 16 ++++++++++++++++
 src/ptwt/matmul_transform.py   | 11 +++++++++++
 src/ptwt/matmul_transform_2.py | 11 +++++++++++
 src/ptwt/matmul_transform_3.py | 11 +++++++++++
 4 files changed, 49 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..e7eba67 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -304,6 +304,22 @@ def _check_axes_argument(axes: Sequence[int]) -> None:
         raise ValueError("Cant transform the same axis twice.")
 
 
+def _is_same_device_dtype(
+    matrix_list: Sequence[Union[torch.Tensor, Sequence[torch.Tensor]]],
+    device: torch.device,
+    dtype: torch.dtype,
+) -> bool:
+    """Check if (nested) stored matrices match the given device and dtype."""
+    return all(
+        (
+            matrix.device == device and matrix.dtype == dtype
+            if isinstance(matrix, torch.Tensor)
+            else _is_same_device_dtype(matrix, device, dtype)
+        )
+        for matrix in matrix_list
+    )
+
+
 def _check_same_device(
     tensor: torch.Tensor, torch_device: torch.device
 ) -> torch.Tensor:
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index b198180..b57e47a 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -21,6 +21,7 @@ from ._util import (
     _ensure_axes,
     _get_filter_tensors,
     _is_orthogonalize_method_supported,
+    _is_same_device_dtype,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -402,6 +403,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if not _is_same_device_dtype(
+            self.fwt_matrix_list, input_signal.device, input_signal.dtype
+        ):
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -671,6 +677,11 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        if not _is_same_device_dtype(
+            self.ifwt_matrix_list, torch_device, torch_dtype
+        ):
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 0b1efb2..090b9ce 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -20,6 +20,7 @@ from ._util import (
     _ensure_axes,
     _get_filter_tensors,
     _is_orthogonalize_method_supported,
+    _is_same_device_dtype,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -493,6 +494,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if not _is_same_device_dtype(
+            self.fwt_matrix_list, input_signal.device, input_signal.dtype
+        ):
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -776,6 +782,11 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        if not _is_same_device_dtype(
+            self.ifwt_matrix_list, torch_device, torch_dtype
+        ):
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index acc96c7..e576929 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -16,6 +16,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _is_orthogonalize_method_supported,
+    _is_same_device_dtype,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -238,6 +239,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if not _is_same_device_dtype(
+            self.fwt_matrix_list, input_signal.device, input_signal.dtype
+        ):
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -444,6 +450,11 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        if not _is_same_device_dtype(
+            self.ifwt_matrix_list, torch_device, torch_dtype
+        ):
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From 6ba63f5149a9d45515eec2ac6819f486985f5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 07/26] fix: an exception during matrix construction no longer
 leaves a partial matrix list behind

---
 src/ptwt/matmul_transform.py   | 10 ++++++++--
 src/ptwt/matmul_transform_2.py | 14 ++++++++++----
 src/ptwt/matmul_transform_3.py | 10 ++++++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index b57e47a..96e3f14 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -315,7 +315,9 @@ class MatrixWavedec(BaseMatrixWaveDec):
     ) -> None:
         if self.level is None or self.input_length is None:
             raise AssertionError
+        # only store a complete list, construction may raise an exception.
         self.fwt_matrix_list = []
+        matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -351,10 +353,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 device=device,
                 dtype=dtype,
             )
-            self.fwt_matrix_list.append(an)
+            matrix_list.append(an)
             curr_length = curr_length // 2
 
         self.size_list.append(curr_length)
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
         """Compute the matrix FWT for the given input signal.
@@ -610,7 +613,9 @@ class MatrixWaverec(object):
     def _construct_synthesis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
+        # only store a complete list, construction may raise an exception.
         self.ifwt_matrix_list = []
+        matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.padded = False
         if self.level is None or self.input_length is None:
@@ -645,8 +650,9 @@ class MatrixWaverec(object):
                 device=device,
                 dtype=dtype,
             )
-            self.ifwt_matrix_list.append(sn)
+            matrix_list.append(sn)
             curr_length = curr_length // 2
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 090b9ce..215eda7 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -392,7 +392,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
     ) -> None:
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
+        # only store a complete list, construction may raise an exception.
         self.fwt_matrix_list = []
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -434,7 +436,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(
+                matrix_list.append(
                     (analysis_matrix_rows, analysis_matrix_cols)
                 )
             else:
@@ -446,10 +448,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(analysis_matrix_2d)
+                matrix_list.append(analysis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
         self.size_list.append((current_height, current_width))
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
         """Compute the FWT for the given input signal.
@@ -688,7 +691,9 @@ class MatrixWaverec2(object):
         device: Union[torch.device, str],
         dtype: torch.dtype,
     ) -> None:
+        # only store a complete list, construction may raise an exception.
         self.ifwt_matrix_list = []
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -727,7 +732,7 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(
+                matrix_list.append(
                     (synthesis_matrix_rows, synthesis_matrix_cols)
                 )
             else:
@@ -739,9 +744,10 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(synthesis_matrix_2d)
+                matrix_list.append(synthesis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(
         self,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index e576929..12b366f 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -140,7 +140,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
     ) -> None:
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
+        # only store a complete list, construction may raise an exception.
         self.fwt_matrix_list = []
+        matrix_list: list[list[torch.Tensor]] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -185,7 +187,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.fwt_matrix_list.append(analysis_matrics)
+            matrix_list.append(analysis_matrics)
 
             current_depth, current_height, current_width = (
                 current_depth // 2,
@@ -193,6 +195,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 current_width // 2,
             )
         self.size_list.append((current_depth, current_height, current_width))
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
         """Compute a separable 3d FWT using boundary wavelets.
@@ -346,7 +349,9 @@ class MatrixWaverec3(object):
         device: Union[torch.device, str],
         dtype: torch.dtype,
     ) -> None:
+        # only store a complete list, construction may raise an exception.
         self.ifwt_matrix_list = []
+        matrix_list: list[list[torch.Tensor]] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -389,12 +394,13 @@ class MatrixWaverec3(object):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.ifwt_matrix_list.append(synthesis_matrices)
+            matrix_list.append(synthesis_matrices)
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
+        self.ifwt_matrix_list = matrix_list
 
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
         done_dict = {}
-- 
2.43.0


From ea960c0b619080dfb4b36637ca9e9f794e5974f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 08/26] fix: swt and iswt wrap signals correctly if the dilated
 filter exceeds the signal length

---
 src/ptwt/stationary_transform.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..00d7816 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -33,24 +33,30 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     ):
         return F.pad(x, padding_dimensions, mode="circular")
 
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
+    # pad full periods until no padding dimension exceeds the trailing dimension,
+    # a partial period is padded last since it shifts the phase at its border.
+    while any(
+        padding_dimension > trailing_dimension
+        for padding_dimension in padding_dimensions
+    ):
         # reduce every padding dimension to at maximum trailing dimension width
         reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
+            trailing_dimension if padding_dimension > trailing_dimension else 0
             for padding_dimension in padding_dimensions
         ]
         # pad using reduced dimensions,
         # which will never throw the circular wrap error
         x = F.pad(x, reduced_padding_dimensions, mode="circular")
         # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
+        # if any pad width exceeds the trailing dimension
         padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
+            padding_dimension - reduced_padding_dimension
+            for padding_dimension, reduced_padding_dimension in zip(
+                padding_dimensions, reduced_padding_dimensions
+            )
         ]
 
-    return x
+    return F.pad(x, padding_dimensions, mode="circular")
 
 
 def swt(
-- 
2.43.0


From 0093d2d0ef40d34204a04911baa0e10b8ff3bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 09/26] fix: sparse_replace_row supports non-square matrices

---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..a72d7f3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -233,7 +233,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 4ccc582cf340136ac9fbab5735b33df287b58477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/26] fix: sparse_kron keeps the dtype of its inputs if one
 of them is zero

---
 src/ptwt/sparse_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index a72d7f3..0b693bf 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,9 +64,10 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
+            torch.zeros([2, 1], dtype=torch.long),
             torch.zeros([1]),
             size=output_shape,
+            dtype=torch.result_type(sparse_tensor_a, sparse_tensor_b),
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From ab5030ba2d281ab264529ecd92f56af64ce69b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 11/26] fix: sparse_diag no longer fails if no diagonal element
 is left in the matrix

---
 src/ptwt/sparse_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 0b693bf..e83c6eb 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -182,11 +182,11 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
+    if torch.any(diag_indices[0] >= rows):
         mask = diag_indices[0] < rows
         diag_indices = diag_indices[:, mask]
         diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
+    if torch.any(diag_indices[1] >= cols):
         mask = diag_indices[1] < cols
         diag_indices = diag_indices[:, mask]
         diagonal = diagonal[mask]
-- 
2.43.0


From aef913e28e5cf79f038839cc3a2638d477fe7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 12/26] fix: the automatic level supports WaveletTensorTuple
 and custom wavelet objects

---
 src/ptwt/conv_transform_2.py         | 2 +-
 src/ptwt/conv_transform_3.py         | 4 +---
 src/ptwt/matmul_transform.py         | 3 ++-
 src/ptwt/matmul_transform_2.py       | 3 ++-
 src/ptwt/matmul_transform_3.py       | 3 ++-
 src/ptwt/separable_conv_transform.py | 4 ++--
 6 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..19fbfb3 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -135,7 +135,7 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        level = pywt.dwt_max_level(min(data.shape[-2:]), dec_lo.shape[-1])
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 1e45f2b..9872e22 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -114,9 +114,7 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        level = pywt.dwt_max_level(min(data.shape[-3:]), dec_lo.shape[-1])
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data.squeeze(1)
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 96e3f14..e24c82b 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -20,6 +20,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
     _postprocess_coeffs,
@@ -401,7 +402,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self._level_from_input:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
         elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 215eda7..ce8a5e8 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -19,6 +19,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
     _postprocess_coeffs,
@@ -490,7 +491,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self._level_from_input:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 12b366f..db3e877 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -15,6 +15,7 @@ from ._util import (
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
+    _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
     _postprocess_coeffs,
@@ -229,7 +230,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self._level_from_input:
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 4833ea3..73e18b4 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From 6a20f601b4f63cde001452fdb69fa013cb4e0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 13/26] fix: cwt takes the square root of short integer scales
 in double precision

---
 src/ptwt/continuous_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..f10929e 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -124,7 +124,8 @@ def cwt(
         conv = ifft(fft_wav * fft_data, dim=-1)
         conv = conv[..., : data.shape[-1] + len(int_psi_scale) - 1]
 
-        coef = -np.sqrt(scale) * torch.diff(conv, dim=-1)
+        # numpy takes the root of short integers in half or single precision.
+        coef = -np.sqrt(float(scale)) * torch.diff(conv, dim=-1)
 
         # transform axis is always -1
         d = (coef.shape[-1] - data.shape[-1]) / 2.0
-- 
2.43.0


From 62d95dc94a82189e05ee7854faf33e60db7d6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 14/26] fix: packet reconstruct no longer overwrites
 reconstructed nodes if an inner node is missing

---
 src/ptwt/packets.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..eb8660f 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -215,14 +215,19 @@ class WaveletPacket(BaseDict):
         if self.maxlevel is None:
             self.maxlevel = pywt.dwt_max_level(self[""].shape[-1], self.wavelet.dec_len)
 
+        # check if any leaf is not available
+        # we need to check manually to avoid lazy init
+        for leaf in self.get_level(self.maxlevel, order="natural"):
+            if leaf not in self:
+                raise KeyError(f"Key {leaf} not found")
+
+        # the shapes of all inner nodes are required below. Expanding a missing
+        # node replaces its siblings, which must not happen to reconstructed ones.
+        for level in range(1, self.maxlevel):
+            self.initialize(self.get_level(level, order="natural"))
+
         for level in reversed(range(self.maxlevel)):
             for node in self.get_level(level):
-                # check if any children is not available
-                # we need to check manually to avoid lazy init
-                for child in self._filter_keys:
-                    if node + child not in self:
-                        raise KeyError(f"Key {node + child} not found")
-
                 data_a = self[node + "a"]
                 data_d = self[node + "d"]
                 rec = self._get_waverec(data_a.shape[self.axis])([data_a, data_d])
@@ -492,14 +497,19 @@ class WaveletPacket2D(BaseDict):
             min_transform_size = min(_swap_axes(self[""], self.axes).shape[-2:])
             self.maxlevel = pywt.dwt_max_level(min_transform_size, self.wavelet.dec_len)
 
+        # check if any leaf is not available
+        # we need to check manually to avoid lazy init
+        for leaf in WaveletPacket2D.get_natural_order(self.maxlevel):
+            if leaf not in self:
+                raise KeyError(f"Key {leaf} not found")
+
+        # the shapes of all inner nodes are required below. Expanding a missing
+        # node replaces its siblings, which must not happen to reconstructed ones.
+        for level in range(1, self.maxlevel):
+            self.initialize(WaveletPacket2D.get_natural_order(level))
+
         for level in reversed(range(self.maxlevel)):
             for node in WaveletPacket2D.get_natural_order(level):
-                # check if any children is not available
-                # we need to check manually to avoid lazy init
-                for child in self._filter_keys:
-                    if node + child not in self:
-                        raise KeyError(f"Key {node + child} not found")
-
                 data_a = self[node + "a"]
                 data_h = self[node + "h"]
                 data_v = self[node + "v"]
-- 
2.43.0


From 91e03fd5d92b6c82a75be3a87e1cf93109d7b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 15/26] fix: drop stored matrices before remembering a new
 input shape

An interrupt between the two statements left the matrices of the previous
shape in use for the new one.
---
 src/ptwt/matmul_transform.py   | 4 ++++
 src/ptwt/matmul_transform_2.py | 4 ++++
 src/ptwt/matmul_transform_3.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index e24c82b..dec6a50 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -398,6 +398,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         re_build = False
         if self.input_length != length:
+            # never combine the new shape with the old matrices
+            self.fwt_matrix_list = []
             self.input_length = length
             re_build = True
 
@@ -681,6 +683,8 @@ class MatrixWaverec(object):
         re_build = False
         if self.level != level or self.input_length != input_length:
             self.level = level
+            # never combine the new shape with the old matrices
+            self.ifwt_matrix_list = []
             self.input_length = input_length
             re_build = True
 
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index ce8a5e8..1758837 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -487,6 +487,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            # never combine the new shape with the old matrices
+            self.fwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
@@ -782,6 +784,8 @@ class MatrixWaverec2(object):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            # never combine the new shape with the old matrices
+            self.ifwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index db3e877..583654d 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -226,6 +226,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            # never combine the new shape with the old matrices
+            self.fwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
@@ -450,6 +452,8 @@ class MatrixWaverec3(object):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            # never combine the new shape with the old matrices
+            self.ifwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
-- 
2.43.0


From 4da465c4724df66ca7b8164db31837d99ae764ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 16/26] fix: change a packet tree only when the whole call
 succeeded

A failing or interrupted transform, expansion or reconstruction left a
mixture of the old and the new tree.
---
 src/ptwt/packets.py | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index eb8660f..c621ae4 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -170,10 +170,10 @@ class WaveletPacket(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             maxlevel = pywt.dwt_max_level(data.shape[self.axis], self.wavelet.dec_len)
-        self.maxlevel = maxlevel
+        # replace the tree only if the new data is valid
+        self.data, self.maxlevel = {"": data}, maxlevel
         return self
 
     def initialize(self, keys: Iterable[str]) -> None:
@@ -226,20 +226,23 @@ class WaveletPacket(BaseDict):
         for level in range(1, self.maxlevel):
             self.initialize(self.get_level(level, order="natural"))
 
+        # change the tree only if all nodes can be reconstructed
+        nodes = dict(self.data)
         for level in reversed(range(self.maxlevel)):
             for node in self.get_level(level):
-                data_a = self[node + "a"]
-                data_d = self[node + "d"]
+                data_a = nodes[node + "a"]
+                data_d = nodes[node + "d"]
                 rec = self._get_waverec(data_a.shape[self.axis])([data_a, data_d])
                 if level > 0:
-                    if rec.shape[self.axis] != self[node].shape[self.axis]:
+                    if rec.shape[self.axis] != nodes[node].shape[self.axis]:
                         assert (
-                            rec.shape[self.axis] == self[node].shape[self.axis] + 1
+                            rec.shape[self.axis] == nodes[node].shape[self.axis] + 1
                         ), "padding error, please open an issue on github"
                         rec = rec.swapaxes(self.axis, -1)[..., :-1].swapaxes(
                             -1, self.axis
                         )
-                self[node] = rec
+                nodes[node] = rec
+        self.data = nodes
         return self
 
     def _get_wavedec(
@@ -317,8 +320,7 @@ class WaveletPacket(BaseDict):
     def _expand_node(self, path: str) -> None:
         data = self[path]
         res_lo, res_hi = self._get_wavedec(data.shape[self.axis])(data)
-        self.data[path + "a"] = res_lo
-        self.data[path + "d"] = res_hi
+        self.data.update({path + "a": res_lo, path + "d": res_hi})
 
     def __getitem__(self, key: str) -> torch.Tensor:
         """Access the coefficients in the wavelet packets tree.
@@ -463,11 +465,11 @@ class WaveletPacket2D(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             min_transform_size = min(_swap_axes(data, self.axes).shape[-2:])
             maxlevel = pywt.dwt_max_level(min_transform_size, self.wavelet.dec_len)
-        self.maxlevel = maxlevel
+        # replace the tree only if the new data is valid
+        self.data, self.maxlevel = {"": data}, maxlevel
 
         return self
 
@@ -508,19 +510,21 @@ class WaveletPacket2D(BaseDict):
         for level in range(1, self.maxlevel):
             self.initialize(WaveletPacket2D.get_natural_order(level))
 
+        # change the tree only if all nodes can be reconstructed
+        nodes = dict(self.data)
         for level in reversed(range(self.maxlevel)):
             for node in WaveletPacket2D.get_natural_order(level):
-                data_a = self[node + "a"]
-                data_h = self[node + "h"]
-                data_v = self[node + "v"]
-                data_d = self[node + "d"]
+                data_a = nodes[node + "a"]
+                data_h = nodes[node + "h"]
+                data_v = nodes[node + "v"]
+                data_d = nodes[node + "d"]
                 transform_size = _swap_axes(data_a, self.axes).shape[-2:]
                 rec = self._get_waverec(transform_size)(
                     (data_a, WaveletDetailTuple2d(data_h, data_v, data_d))
                 )
                 if level > 0:
                     rec = _swap_axes(rec, self.axes)
-                    swapped_node = _swap_axes(self[node], self.axes)
+                    swapped_node = _swap_axes(nodes[node], self.axes)
                     if rec.shape[-1] != swapped_node.shape[-1]:
                         assert (
                             rec.shape[-1] == swapped_node.shape[-1] + 1
@@ -532,7 +536,8 @@ class WaveletPacket2D(BaseDict):
                         ), "padding error, please open an issue on GitHub"
                         rec = rec[..., :-1, :]
                     rec = _undo_swap_axes(rec, self.axes)
-                self[node] = rec
+                nodes[node] = rec
+        self.data = nodes
         return self
 
     def _expand_node(self, path: str) -> None:
@@ -543,10 +548,14 @@ class WaveletPacket2D(BaseDict):
         # assert for type checking
         assert len(result) == 2
         result_a, (result_h, result_v, result_d) = result
-        self.data[path + "a"] = result_a
-        self.data[path + "h"] = result_h
-        self.data[path + "v"] = result_v
-        self.data[path + "d"] = result_d
+        self.data.update(
+            {
+                path + "a": result_a,
+                path + "h": result_h,
+                path + "v": result_v,
+                path + "d": result_d,
+            }
+        )
 
     def _get_wavedec(self, shape: tuple[int, ...]) -> Callable[
         [torch.Tensor],
-- 
2.43.0


From cefdf4ab52ff2fd22b9be6de4faac933761266f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 17/26] fix: reject an axis given by its positive and its
 negative index

---
 src/ptwt/_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index e7eba67..7f3e0a9 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -368,6 +368,8 @@ def _get_transpose_order(
     axes: Sequence[int], data_shape: Sequence[int]
 ) -> tuple[list[int], list[int]]:
     axes = list(map(lambda a: a + len(data_shape) if a < 0 else a, axes))
+    # a negative and a positive index may name the same axis
+    _check_axes_argument(axes)
     all_axes = list(range(len(data_shape)))
     remove_transformed = list(filter(lambda a: a not in axes, all_axes))
     return remove_transformed, axes
-- 
2.43.0


From 0f7cdfc005e02adbb92b7fbe75443b8092792f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 18/26] fix: reject separable and 3d matrix coefficients of
 inconsistent shapes

---
 src/ptwt/_util.py                    | 14 ++++++++++++++
 src/ptwt/matmul_transform_3.py       |  2 ++
 src/ptwt/separable_conv_transform.py |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 7f3e0a9..585b548 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -299,6 +299,20 @@ def _check_if_tensor(array: Any) -> torch.Tensor:
     return array
 
 
+def _check_approximation_shape(
+    approx_shape: Sequence[int], detail_shape: Sequence[int]
+) -> None:
+    """Check if an approximation fits the details of its level.
+
+    Inversions of padded axes yield one entry more than the details have.
+    """
+    if approx_shape[0] != detail_shape[0] or any(
+        approx_len - detail_len not in (0, 1)
+        for approx_len, detail_len in zip(approx_shape, detail_shape, strict=True)
+    ):
+        raise ValueError("The approximation does not fit the shape of the details.")
+
+
 def _check_axes_argument(axes: Sequence[int]) -> None:
     if len(set(axes)) != len(axes):
         raise ValueError("Cant transform the same axis twice.")
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 583654d..46b9ce0 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -12,6 +12,7 @@ import torch
 from ._util import (
     AxisHint,
     _as_wavelet,
+    _check_approximation_shape,
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
@@ -489,6 +490,7 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
+            _check_approximation_shape(lll.shape, coeff.shape)
             # do not modify the coefficient dicts of the caller.
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 73e18b4..f5f53b4 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,6 +16,7 @@ import torch
 
 from ._util import (
     AxisHint,
+    _check_approximation_shape,
     _check_same_device_dtype,
     _get_len,
     _postprocess_coeffs,
@@ -179,6 +180,10 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
+        detail_shape = level_dict[keys[0]].shape
+        if any(coeff.shape != detail_shape for coeff in level_dict.values()):
+            raise ValueError("All coefficients on each level must have the same shape")
+        _check_approximation_shape(approx.shape, detail_shape)
         # do not modify the coefficient dicts of the caller.
         level_dict = {**level_dict, "a" * max(map(len, keys)): approx}
         approx = _separable_conv_idwtn(level_dict, wavelet)
-- 
2.43.0


From 879cf017e43e743ed6cb92a77ebd3c58b2698e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 19/26] fix: reject detail tuples with more than three tensors
 for all input shapes

---
 src/ptwt/_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 585b548..9c36985 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -451,6 +451,11 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    "Detail coefficients must be a 3-tuple of tensors, "
+                    f"but got {len(element)} elements."
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From 450080e59144b4fe5d0d36d47f6102826f09b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 20/26] fix: sparse_replace_row rejects rows outside the matrix

---
 src/ptwt/sparse_math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index e83c6eb..915d332 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -219,7 +219,7 @@ def sparse_replace_row(
 
     Raises:
         ValueError: if the size of the last axis of `matrix` and `row`
-            does not match.
+            does not match or if `row_index` is not within the matrix.
     """
     matrix = matrix.coalesce()
     if matrix.shape[-1] != row.shape[-1]:
@@ -227,6 +227,9 @@ def sparse_replace_row(
             "matrix and replacement row must share the same column number."
         )
 
+    if not 0 <= row_index < matrix.shape[0]:
+        raise ValueError("row_index must name one of the rows of the matrix.")
+
     # delete existing indices we dont want
     diag_indices = torch.arange(matrix.shape[0])
     diag = torch.ones_like(diag_indices)
-- 
2.43.0


From 4357894726b38093bf63601cd2303ddcdd760e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 21/26] fix: cat_sparse_identity_matrix no longer computes
 indices in the data type of the values

---
 src/ptwt/sparse_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 915d332..ba7e728 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -129,13 +129,13 @@ def cat_sparse_identity_matrix(
     x = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
+        dtype=torch.long,
         device=sparse_matrix.device,
     )
     y = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
+        dtype=torch.long,
         device=sparse_matrix.device,
     )
     extra_indices = torch.stack([x, y])
-- 
2.43.0


From 1158b15019bbcd3aca554f4d959951e72e200197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 22/26] fix: sparse_replace_row no longer keeps NaN of the
 replaced row

---
 src/ptwt/sparse_math.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index ba7e728..1f06afe 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -231,13 +231,11 @@ def sparse_replace_row(
         raise ValueError("row_index must name one of the rows of the matrix.")
 
     # delete existing indices we dont want
-    diag_indices = torch.arange(matrix.shape[0])
-    diag = torch.ones_like(diag_indices)
-    diag[row_index] = 0
-    removal_matrix = torch.sparse_coo_tensor(
-        torch.stack([diag_indices] * 2, 0),
-        diag,
-        size=(matrix.shape[0], matrix.shape[0]),
+    keep = matrix.indices()[0, :] != row_index
+    kept_rows = torch.sparse_coo_tensor(
+        matrix.indices()[:, keep],
+        matrix.values()[keep],
+        size=matrix.shape,
         device=matrix.device,
         dtype=matrix.dtype,
     )
@@ -250,8 +248,7 @@ def sparse_replace_row(
         device=matrix.device,
         dtype=matrix.dtype,
     )
-    result = torch.sparse.mm(removal_matrix, matrix) + addition_matrix
-    return cast(torch.Tensor, result)
+    return kept_rows + addition_matrix
 
 
 def _orth_by_qr(
-- 
2.43.0


From 29b672f0fc943cd73244e2336560bec47aec728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 23/26] fix: rec_lo_orthogonality_loss no longer depends on the
 default dtype

---
 src/ptwt/wavelets_learnable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/wavelets_learnable.py b/src/ptwt/wavelets_learnable.py
index 2aaad82..2c4feea 100644
--- a/src/ptwt/wavelets_learnable.py
+++ b/src/ptwt/wavelets_learnable.py
@@ -240,6 +240,7 @@ class SoftOrthogonalWavelet(ProductFilter, torch.nn.Module):
                         filt_len,
                     ],
                     device=self.dec_lo.device,
+                    dtype=self.dec_lo.dtype,
                 ),
             ],
             -1,
-- 
2.43.0


From 8130914e68e7957228fa096859eab0fc1116724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:05 +0000
Subject: [PATCH 24/26] fix: separable synthesis rejects detail dictionaries
 with unexpected keys

---
 src/ptwt/separable_conv_transform.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index f5f53b4..6b2c8a4 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -9,6 +9,7 @@ using torch.nn.functional.conv1d and it's transpose.
 
 from __future__ import annotations
 
+from itertools import product
 from typing import Optional, Union
 
 import numpy as np
@@ -178,14 +179,21 @@ def _separable_conv_waverecn(
         raise ValueError("All entries after approximation tensor must be dicts.")
 
     approx: torch.Tensor = coeffs[0]
+    ndim = approx.dim() - 1
+    approx_key = "a" * ndim
+    detail_keys = {"".join(key) for key in product("ad", repeat=ndim)} - {approx_key}
     for level_dict in coeffs[1:]:
-        keys = list(level_dict.keys())
-        detail_shape = level_dict[keys[0]].shape
+        if set(level_dict) != detail_keys:
+            raise ValueError(
+                f"Unexpected detail coefficient keys: {list(level_dict)}. "
+                f"Expected the keys {sorted(detail_keys)}."
+            )
+        detail_shape = level_dict["d" * ndim].shape
         if any(coeff.shape != detail_shape for coeff in level_dict.values()):
             raise ValueError("All coefficients on each level must have the same shape")
         _check_approximation_shape(approx.shape, detail_shape)
         # do not modify the coefficient dicts of the caller.
-        level_dict = {**level_dict, "a" * max(map(len, keys)): approx}
+        level_dict = {**level_dict, approx_key: approx}
         approx = _separable_conv_idwtn(level_dict, wavelet)
     return approx
 
-- 
2.43.0


From 47fa3a557e3d1f262d8e564846bdc4c22de9cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:05 +0000
Subject: [PATCH 25/26] fix: matrix transforms used in inference mode can
 record gradients later

---
 src/ptwt/_util.py              | 18 ++++++++++++++++++
 src/ptwt/matmul_transform.py   |  3 +++
 src/ptwt/matmul_transform_2.py |  3 +++
 src/ptwt/matmul_transform_3.py |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 9c36985..ba28bde 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -92,6 +92,24 @@ def _get_len(wavelet: Union[tuple[torch.Tensor, ...], str, Wavelet]) -> int:
         return len(_as_wavelet(wavelet))
 
 
+def _outside_inference_mode(
+    func: Callable[Param, RetType],
+) -> Callable[Param, RetType]:
+    """Create tensors that are kept for later calls as ordinary tensors.
+
+    Tensors created in :func:`torch.inference_mode` can not be used by a
+    later call that records gradients.
+    """
+
+    @functools.wraps(func)
+    def wrapper(*args: Param.args, **kwargs: Param.kwargs) -> RetType:
+        grad_enabled = torch.is_grad_enabled()
+        with torch.inference_mode(False), torch.set_grad_enabled(grad_enabled):
+            return func(*args, **kwargs)
+
+    return wrapper
+
+
 def _get_filter_tensors(
     wavelet: Union[Wavelet, str],
     flip: bool,
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index dec6a50..d6788fe 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -23,6 +23,7 @@ from ._util import (
     _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -311,6 +312,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
@@ -613,6 +615,7 @@ class MatrixWaverec(object):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 1758837..28c0352 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -22,6 +22,7 @@ from ._util import (
     _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -386,6 +387,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -689,6 +691,7 @@ class MatrixWaverec2(object):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 46b9ce0..1cc3f16 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -19,6 +19,7 @@ from ._util import (
     _get_len,
     _is_orthogonalize_method_supported,
     _is_same_device_dtype,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -135,6 +136,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -348,6 +350,7 @@ class MatrixWaverec3(object):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
-- 
2.43.0


From f6e40df4dcdadb09352a78dbc8d7ae12974f8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:55 +0000
Subject: [PATCH 26/26] fix: transform empty batches with the matrix transforms

MatrixWavedec2 and MatrixWaverec2 could not infer their sizes from
empty batches, and replicate padding needs a channel axis.
---
 src/ptwt/matmul_transform.py   |  5 +++--
 src/ptwt/matmul_transform_2.py | 17 +++++++++--------
 src/ptwt/matmul_transform_3.py |  5 +++--
 src/ptwt/sparse_math.py        |  5 ++++-
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index d6788fe..eadb8f7 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -390,11 +390,12 @@ class MatrixWavedec(BaseMatrixWaveDec):
         if input_signal.shape[-1] % 2 != 0:
             # odd length input
             input_signal = _fwt_pad(
-                input_signal,
+                # empty batches can only be padded with a channel axis
+                input_signal.unsqueeze(1),
                 wavelet=self.wavelet,
                 mode=self.odd_coeff_padding_mode,
                 padding=(0, 1),
-            )
+            ).squeeze(1)
 
         _, length = input_signal.shape
 
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 28c0352..76c181f 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -517,12 +517,13 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 padding_0 = (0, 1) if pad[0] else (0, 0)
                 padding_1 = (0, 1) if pad[1] else (0, 0)
 
+                # empty batches can only be padded with a channel axis
                 signal = _fwt_pad2(
-                    signal,
+                    signal.unsqueeze(1),
                     wavelet=self.wavelet,
                     mode=self.odd_coeff_padding_mode,
                     padding=padding_0 + padding_1,
-                )
+                ).squeeze(1)
             return signal
 
         split_list: list[WaveletDetailTuple2d] = []
@@ -543,7 +544,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
                 split_list.append(WaveletDetailTuple2d(lh, hl, hh))
         else:
-            ll = input_signal.transpose(-2, -1).reshape([batch_size, -1]).T
+            ll = input_signal.transpose(-2, -1).flatten(1).T
             for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
                 fwt_matrix = cast(torch.Tensor, fwt_matrix)
                 pad = self.pad_list[scale]
@@ -553,7 +554,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                         batch_size, size[1] - int(pad[0]), size[0] - int(pad[1])
                     ).transpose(2, 1)
                     ll_reshape = _add_padding(ll_reshape, pad)
-                    ll = ll_reshape.transpose(2, 1).reshape([batch_size, -1]).T
+                    ll = ll_reshape.transpose(2, 1).flatten(1).T
                 coefficients = torch.sparse.mm(fwt_matrix, ll)
                 # get the ll,
                 four_split = torch.split(
@@ -842,10 +843,10 @@ class MatrixWaverec2(object):
             else:
                 ll = torch.cat(
                     [
-                        ll.transpose(2, 1).reshape([batch_size, -1]),
-                        lh.transpose(2, 1).reshape([batch_size, -1]),
-                        hl.transpose(2, 1).reshape([batch_size, -1]),
-                        hh.transpose(2, 1).reshape([batch_size, -1]),
+                        ll.transpose(2, 1).flatten(1),
+                        lh.transpose(2, 1).flatten(1),
+                        hl.transpose(2, 1).flatten(1),
+                        hh.transpose(2, 1).flatten(1),
                     ],
                     -1,
                 )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 1cc3f16..bccb209 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -265,12 +265,13 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             padding_width = (0, 1) if pad_tuple.width else (0, 0)
             padding_height = (0, 1) if pad_tuple.height else (0, 0)
             padding_depth = (0, 1) if pad_tuple.depth else (0, 0)
+            # empty batches can only be padded with a channel axis
             lll = _fwt_pad3(
-                lll,
+                lll.unsqueeze(1),
                 wavelet=self.wavelet,
                 mode=self.odd_coeff_padding_mode,
                 padding=padding_width + padding_height + padding_depth,
-            )
+            ).squeeze(1)
 
             for dim, mat in enumerate(fwt_mats[::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 1f06afe..c45c404 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -611,7 +611,10 @@ def batch_mm(matrix: torch.Tensor, matrix_batch: torch.Tensor) -> torch.Tensor:
 
     # Stack the vector batch into columns. (b, n, k) -> (n, b, k) -> (n, b*k)
     vectors = matrix_batch.transpose(0, 1).reshape(matrix.shape[1], -1)
-    return matrix.mm(vectors).reshape(matrix.shape[0], batch_size, -1).transpose(1, 0)
+    result = matrix.mm(vectors)
+    # the batch may be empty
+    result = result.reshape(matrix.shape[0], batch_size, matrix_batch.shape[2])
+    return result.transpose(1, 0)
 
 
 def _batch_dim_mm(
-- 
2.43.0

