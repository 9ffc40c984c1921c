From 13d187f48411bf1b141d3a3c325b71b608ceb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 01/25] fix: fill the padded region in padding mode zeros

_fill_value_1d returned the padding function instead of calling it, which left
the padded samples uninitialised (and handed a function back as the index).
---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From 38df07385ee90bca715374e62de90deab7b7638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 02/25] fix: reserve the extra periodize element in
 Padder.pad_axis

Padder.forward keeps room for the element that periodize appends to signals of
odd length, pad_axis did not, so its output was one sample short or misplaced.
---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..e514976 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":  # odd signals are first extended by 1 element
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 56372f3ce3738855814a10ff4804eb7fdb396b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 03/25] fix: refuse to extend an empty axis instead of looping
 forever

Modes that extend the signal from its samples cannot pad an axis of length 0.
Mode circular and its relatives never terminated, others read padding back.
---
 torchimage/padding/generic_pad.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index e514976..ddbf238 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -157,6 +157,9 @@ class Padder:  # (nn.Module):
         if mode == "empty":
             return idx
 
+        if not callable(mode) and mode not in ("zeros", "constant") and idx[axis].stop <= idx[axis].start:
+            raise ValueError(f"padding mode {mode} requires at least 1 element at axis {axis}")
+
         # determine pad_func at each iteration
         if callable(mode):
             pad_func = mode
-- 
2.43.0


From 3128d917b03be527af8b0d0a7889cda253335d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 04/25] fix: reject axis indices outside the tensor with
 ValueError

The documented ValueError was never raised: integers were not checked at all (so
-3 on a 2-d tensor silently meant -1), sequences accepted x.ndim and raised
AssertionError otherwise.
---
 torchimage/utils/validation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..15c0f8d 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -1,5 +1,12 @@
 
 
+def _nonnegative_axes(x, axes):
+    axes = tuple(int(a) for a in axes)
+    if not all(-x.ndim <= a < x.ndim for a in axes):
+        raise ValueError(f"axes {axes} out of range for tensor with {x.ndim} dimensions")
+    return tuple(a if a >= 0 else x.ndim + a for a in axes)
+
+
 def check_axes(x, axes):
     """
     Checks if a list of axes is valid for a tensor or ndarray.
@@ -27,10 +34,9 @@ def check_axes(x, axes):
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
     elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
+        axes = _nonnegative_axes(x, (axes, ))
     else:
-        axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+        axes = _nonnegative_axes(x, axes)
     return axes
 
 
-- 
2.43.0


From 8fe7adde9760a9a6baec4fc62db7fdac4fd1564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 05/25] fix: evaluate polynomials with a single coefficient in
 poly1d

A constant polynomial has no weights, so y stayed None and y += bias failed.
---
 torchimage/misc/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..3f767a2 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -36,6 +36,8 @@ def poly1d(x: torch.Tensor, p: list or tuple):
             y.add_(xx, alpha=w)
         if i < len(weight) - 1:
             xx = xx * x
+    if y is None:  # constant polynomial
+        return torch.zeros_like(x) + bias
     y += bias
     return y
 
-- 
2.43.0


From f26a2241d3e53d31160c4147ef0d94947cf98e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 06/25] fix: let random_crop reach the last offset

The exclusive upper bound of randint was one too small: the last valid offset
was never drawn and a crop as large as the image failed.
---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From 614e2ed64f2f50014ba6c914eb5f3f33d5fc2ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 07/25] fix: support count_include_pad=False without a padder
 in AvgPoolNd

Without padding every window consists of original elements only, so both
settings agree; reading the missing padder raised AttributeError.
---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..af660d9 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From cf19dd81f9ecef9b771e3525680d617cc5730ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 08/25] fix: divisor shape of AvgPoolNd for axes that are not
 sorted

z is computed for the axes in sorted order, but its sizes were assigned as if it
followed the order given by the user, which failed or mixed up the axes.
---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index af660d9..d778053 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):  # dimension j of z belongs to the j-th smallest axis
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From f846828e339705a0ea848542771e8c2131a81f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 09/25] fix: do not truncate edge kernels when choosing the
 fast path

int() made (-1.5, 0, 1.5) look like (-1, 0, 1), so kernels that merely truncate
to a discrete one were replaced by it.
---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..0544ba0 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(float(k) for k in self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From f5b37e7e56864a28a1e7ca1f02d6ae757f8d7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 10/25] fix: default stride of an empty kernel

An empty kernel skips its axis, but its default stride of 0 made same padding
fail with ZeroDivisionError.
---
 torchimage/pooling/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index d3b8c56..79d40cc 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -115,7 +115,7 @@ class BasePoolNd(nn.Module):
             Processed stride
         """
         stride = NdSpec(stride, item_shape=[]).map(check_stride)
-        stride = NdSpec.apply(lambda s, ks: ks if s is None else s, stride, self.kernel_size)
+        stride = NdSpec.apply(lambda s, ks: max(ks, 1) if s is None else s, stride, self.kernel_size)
         return stride
 
     def to_filter(self, padder=None):
-- 
2.43.0


From 654f81d846fa780760e34189395e5a00050265c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 11/25] fix: allow a single level in MS_SSIM

With one weight there is no earlier level, so the score was still None when the
last level was combined with it.
---
 torchimage/metrics/ssim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..4bef015 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,16 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            last_score = ssim_score.clamp(self.eps) ** self.weights[-1]
         else:
-            final_score += ssim_score * self.weights[-1]
+            last_score = ssim_score * self.weights[-1]
+
+        if final_score is None:  # only 1 level
+            final_score = last_score
+        elif self.use_prod:
+            final_score *= last_score
+        else:
+            final_score += last_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From c357d3755abfe87cfc9ede02ef0b0eb02ceafec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 12/25] fix: type promotion in safe_power

A scalar was converted to the type of the other argument, so a fractional
exponent of an integer tensor was truncated (4 ** 0.5 gave 1) and so was a
fractional base with an integer exponent tensor.
---
 torchimage/misc/power.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..625ea42 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -41,15 +41,16 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=torch.result_type(x, exponent), device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=torch.result_type(x, exponent), device=x.device)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
+    x = x.to(torch.result_type(x, exponent))  # an integer base has a fractional power
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0


From 4a549efe724936ca87a8b69ad429fc7843963612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 13/25] fix: accept non-numeric numpy arrays as ragged arrays

The truth value of an array with several elements is undefined, so string and
object arrays raised ValueError although lists of the same content work.
---
 torchimage/utils/ragged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..eb5ff07 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -85,7 +85,7 @@ def get_ragged_ndarray(data, strict=True):
     if is_scalar(data):  # scalar
         return data, ()
 
-    if not data:  # empty array
+    if len(data) == 0:  # empty array
         return data, (0, )
 
     item_list = []
@@ -145,7 +145,7 @@ def _recursive_expand(arr, target_shape):
     if is_scalar(arr):  # scalar
         return arr, (), False
 
-    if not arr:  # empty array
+    if len(arr) == 0:  # empty array
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From d97f3dda7bcea87a14c063a5eb77ce8023fe6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 14/25] fix: unbatched input of BayerConv2d.forward_unshuffle

The channel dimension is -3 as in forward; a (c, h, w) input was given a batch
dimension of size c.
---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 4227a95..9f23fbd 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -106,7 +106,7 @@ class BayerConv2d(nn.Module):
 
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
-        y = torch.empty((x.shape[0], self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
+        y = torch.empty(x.shape[:-3] + (self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
         # maps a relative position (GR, R, etc.) to its absolute position tuple (e.g. (0, 1)) under this sensor
@@ -117,7 +117,7 @@ class BayerConv2d(nn.Module):
             pos_abs = str(r) + str(c)
             conv = self.conv_dict[pos_rel]
             pad = self.padding_dict[pos_abs]
-            y[:, slice(r * 2 + c, None, factor**2), ...] = conv(pad(x))
+            y[..., slice(r * 2 + c, None, factor**2), :, :] = conv(pad(x))
         return y
 
 
-- 
2.43.0


From a5809503d426484415f08c2716bf5b4b71609b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 15/25] fix: reject empty items inside ragged arrays that must
 be expanded

Expanding an empty list to a positive length is an error, which was only noticed
when all sibling lists were empty; [[], [1]] silently kept the empty item.
---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index eb5ff07..42fe662 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -146,6 +146,8 @@ def _recursive_expand(arr, target_shape):
         return arr, (), False
 
     if len(arr) == 0:  # empty array
+        if target_shape[0] > 0:
+            raise ValueError(f"Cannot expand 0-length dimension to nonzero-length {target_shape[0]}")
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 9ab3e791d4b3522ede731fbd1d96c2b47b8ae6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 16/25] fix: accept non-contiguous tensors in any_conv_1d

view cannot merge the axes of a transposed or strided tensor and raised
RuntimeError.
---
 torchimage/pooling/operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index d8c27bf..3a8789c 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -31,15 +31,15 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     big_shape = list(x.shape)
 
     if dim == -1 or dim == x.ndim - 1:
-        x = x.view(-1, 1, x.shape[-1])  # batch, in_channels, input width
+        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
         w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.view(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
         w = w.view(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
     big_shape[dim] = -1
-    x = x.view(*big_shape)
+    x = x.reshape(*big_shape)
     return x
 
-- 
2.43.0


From 5bc27e95ec1051c220a678a3d0a3b86a117b4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 17/25] fix: window size of SSIM blurs that leave an axis alone

---
 torchimage/metrics/ssim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 4bef015..40cf86f 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -91,7 +91,7 @@ class SSIM(nn.Module):
             Scaling factor for any sigma
         """
         if self.use_sample_covariance:
-            n_pixels = np.prod([self.blur.kernel_size[i] for i in range(len(axes))])
+            n_pixels = np.prod([max(self.blur.kernel_size[i], 1) for i in range(len(axes))])
             return n_pixels / (n_pixels - 1)
         else:
             return 1
-- 
2.43.0


From 2b5feccef7845fe9cfe827f3970b0888ac634e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 18/25] fix: overflow of the green mean of integer Bayer images

---
 torchimage/cfa/utils/bayer_to_rgb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/cfa/utils/bayer_to_rgb.py b/torchimage/cfa/utils/bayer_to_rgb.py
index 37b0c78..ccbd90b 100644
--- a/torchimage/cfa/utils/bayer_to_rgb.py
+++ b/torchimage/cfa/utils/bayer_to_rgb.py
@@ -66,7 +66,7 @@ def downsample_4c_bayer_to_rgb(x: torch.Tensor, sensor_alignment: str):
     check_4c_bayer(x)
     ret_list = [
         x[..., sa.index("R"), :, :],
-        (x[..., sa.index("G"), :, :] + x[..., sa.rindex("G"), :, :]) / 2,
+        x[..., sa.index("G"), :, :] / 2 + x[..., sa.rindex("G"), :, :] / 2,  # an integer sum could overflow
         x[..., sa.index("B"), :, :]
     ]
     return torch.stack(ret_list, dim=-3)
-- 
2.43.0


From bad2ffeca20742cc13f6d1bd05bb3c156d36cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 19/25] fix: reject odd heights and widths in BayerConv2d

---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 9f23fbd..0f1df2d 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -85,6 +85,7 @@ class BayerConv2d(nn.Module):
     def forward(self, x: torch.Tensor, sensor_alignment: str):
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
+        assert x.shape[-2] % 2 == x.shape[-1] % 2 == 0  # a Bayer array consists of 2 x 2 blocks
         y = torch.empty(x.shape[:-3] + (self.out_channels,) + x.shape[-2:], dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
@@ -106,6 +107,7 @@ class BayerConv2d(nn.Module):
 
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
+        assert x.shape[-2] % 2 == x.shape[-1] % 2 == 0  # a Bayer array consists of 2 x 2 blocks
         y = torch.empty(x.shape[:-3] + (self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
-- 
2.43.0


From 1401094c9dfd6887314563a551c691634affc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 20/25] fix: never add into the input in EdgeFilter.magnitude

---
 torchimage/filtering/edges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index 0544ba0..0c87f24 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -125,10 +125,10 @@ class EdgeFilter(nn.Module):
             if magnitude is None:
                 magnitude = c ** p if p != 1 else c
             else:
-                magnitude += c ** p if p != 1 else c
+                magnitude = magnitude + (c ** p if p != 1 else c)  # c may be x itself, so not in-place
 
         if epsilon != 0:
-            magnitude += epsilon
+            magnitude = magnitude + epsilon
 
         if p == 1:
             return magnitude
-- 
2.43.0


From 88d06eda5c30b4850bd82b0c47907692760d36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 21/25] fix: same_padding_width rounded in_size / stride
 through a float

---
 torchimage/padding/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchimage/padding/utils.py b/torchimage/padding/utils.py
index aeaab0a..500126a 100644
--- a/torchimage/padding/utils.py
+++ b/torchimage/padding/utils.py
@@ -2,7 +2,6 @@
 Private utility functions for padding
 """
 import torch
-from math import ceil
 
 
 def make_idx(*args, dim, ndim):
@@ -107,7 +106,7 @@ def same_padding_width(kernel_size, stride=1, in_size=None):
         if stride is None:
             stride = kernel_size
         # expected output tensor size at axis with same padding
-        out_size = ceil(in_size / stride)  # in_size == outsize with stride=1
+        out_size = -(-in_size // stride)  # ceil; in_size == outsize with stride=1
         pad_total = (out_size - 1) * stride + kernel_size - in_size
 
     pad_total = max(pad_total, 0)
-- 
2.43.0


From 88836df134aa75f1f8dad64921894d28a33ed157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 22/25] fix: random_crop draws its offsets on the generator's
 device, whatever the default device

---
 torchimage/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index f36136b..473197d 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,8 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator,
+                            device="cpu" if generator is None else generator.device).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From aaeb661ae292eeeb44eaf3f30194a64a133d9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 23/25] fix: random_crop indexes with a tuple instead of the
 deprecated list of slices

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 473197d..5418321 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -16,7 +16,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
                             device="cpu" if generator is None else generator.device).item()
         end = beg + length
         idx[a] = slice(beg, end)
-    return x[idx]
+    return x[tuple(idx)]
 
 
 def add_poisson_gauss_noise(x: torch.Tensor, k, sigma, *, generator: torch.Generator = None) -> torch.Tensor:
-- 
2.43.0


From 95fcd9c4bbf2e10f17e4b02c03be60428a546cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 24/25] fix: reject fractional kernels on integer tensors
 instead of truncating the weights

---
 torchimage/pooling/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index 79d40cc..aa7037a 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -10,6 +10,10 @@ from ..utils.validation import check_axes, check_stride
 
 
 def move_tensor(x: torch.Tensor, *, dtype, device):
+    if not (dtype.is_floating_point or dtype.is_complex) and any(float(v) % 1 != 0 for v in x):
+        # casting would silently truncate the weights (e.g. every weight of a mean kernel becomes 0)
+        raise ValueError(f"Cannot apply a kernel with fractional weights to a tensor of type {dtype}; "
+                         f"convert the tensor to a floating point type first")
     if torch.is_tensor(x):
         return x.clone().detach().to(dtype=dtype, device=device)
     return torch.tensor(x, dtype=dtype, device=device)
-- 
2.43.0


From f076f6f824eb8423674e5343930265ffef41a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 25/25] fix: reject padding widths in torch or numpy format
 that do not consist of pairs or exceed the dimensions

---
 torchimage/padding/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchimage/padding/utils.py b/torchimage/padding/utils.py
index 500126a..fcce33f 100644
--- a/torchimage/padding/utils.py
+++ b/torchimage/padding/utils.py
@@ -166,11 +166,15 @@ def pad_width_format(padding, source="numpy", target="torch", ndim=None):
 
     if source == "numpy" and target == "torch":
         padding = tuple(tuple(x) for x in padding)
+        if not all(len(x) == 2 for x in padding):
+            raise ValueError(f"numpy padding width must consist of pairs, got {padding}")
         padding = sum(padding[::-1], start=())
         return padding
     elif source == "torch" and target == "numpy":
         padding = tuple(padding)
         assert ndim is not None, "ndim not supplied for pad width conversion from torch to numpy"
+        if len(padding) % 2 != 0 or len(padding) > 2 * ndim:
+            raise ValueError(f"torch padding width must consist of at most {ndim} pairs, got {padding}")
         ndim_padded = len(padding) // 2
         return ((0, 0), ) * (ndim - ndim_padded) + tuple(padding[i:i + 2] for i in range(0, len(padding), 2))[::-1]
     else:
-- 
2.43.0

