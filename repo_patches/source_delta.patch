From 6bbfdb2f85a429f4fc95187d24bd50b191107614 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 01/38] fix: fill the border in padding mode "zeros"

_fill_value_1d returned the padding function instead of calling it, so the
border kept whatever torch.empty() held.
---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From d785f7a77b94eefc45cb6c213cf267e2cb19cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 02/38] fix: only use the discrete shortcut for edge kernels
 that are exactly discrete

Truncating the taps to int made fractional kernels such as (-1.9, 0.3, 1.5)
be treated as (-1, 0, 1).
---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..0544ba0 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(float(k) for k in self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From b4c0c536f1bd061ee89ce911c16890f7f2645470 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 03/38] fix: check_axes rejects out-of-range axes

A single int was never checked, axis == ndim was accepted in a sequence, and
numpy integers were not accepted as a single axis; the documentation promises
a ValueError for invalid axes.
---
 torchimage/utils/validation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..a38f67d 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -1,3 +1,4 @@
+from numbers import Integral
 
 
 def check_axes(x, axes):
@@ -26,11 +27,13 @@ def check_axes(x, axes):
         axes = tuple(range(x.ndim))
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
-    elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
     else:
+        if isinstance(axes, Integral):  # single axis index
+            axes = (axes, )
+        old_axes = axes
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+        if not all(0 <= a < x.ndim for a in axes):
+            raise ValueError(f"axes {old_axes} out of range for {x.ndim} dimensions")
     return axes
 
 
-- 
2.43.0


From 6a11ed6a93ef0ea6d23da53700724a64e5d958a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 04/38] fix: random_crop can return the last window

torch.randint excludes its upper bound, so the last offset was never drawn
and a crop of the full length raised.
---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From 521d41ce8864130f2a9e6e05bcd9bd78234aadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 05/38] fix: AvgPoolNd(count_include_pad=False) with axes that
 are not sorted

The element counts are computed in sorted axis order but were reshaped in the
given order.
---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..992f30f 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):  # z follows the sorted order of axes
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From d99b757fc224bafd260cd78dd02718a2e0704222 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 06/38] fix: AvgPoolNd(count_include_pad=False) without a
 padder

It raised an AttributeError on the missing padder; without padding every
element of a window is original.
---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 992f30f..901bfbe 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:  # or nothing is padded
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From 439d74b45333efc8dedb9b4ccd82ea4ad3522529 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 07/38] fix: poly1d with a single coefficient

The constant polynomial raised a TypeError (None += bias).
---
 torchimage/misc/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..49c3749 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -27,6 +27,8 @@ def poly1d(x: torch.Tensor, p: list or tuple):
     p = tuple(p)
     bias = p[-1]
     weight = p[:-1][::-1]  # change to ascending order
+    if not weight:  # constant polynomial
+        return bias * x ** 0
     y = None
     xx = x  # running x^i
     for i, w in enumerate(weight):
-- 
2.43.0


From 4c3fc4e58ded117d9f90977c50b627f37dc469cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 08/38] fix: MS_SSIM with a single level

With one weight the loop over the coarser scales is empty and None *= tensor
raised a TypeError.
---
 torchimage/metrics/ssim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..4bef015 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,16 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            last_score = ssim_score.clamp(self.eps) ** self.weights[-1]
         else:
-            final_score += ssim_score * self.weights[-1]
+            last_score = ssim_score * self.weights[-1]
+
+        if final_score is None:  # only 1 level
+            final_score = last_score
+        elif self.use_prod:
+            final_score *= last_score
+        else:
+            final_score += last_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From 5d1b619eea9b6491399cd38c2b626beebbb2f466 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 09/38] fix: Padder.pad_axis reserves the extra element of mode
 periodize

forward() does so for odd lengths; pad_axis returned one element less.
---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..e24ee62 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From e698ddaa68e5decd994098d8f66e2438acbe383a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 10/38] fix: BayerConv2d.forward_unshuffle on unbatched input

It prepended x.shape[0] (the channel count) as if it were a batch size; use
every leading dimension as forward() does.
---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 4227a95..9f23fbd 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -106,7 +106,7 @@ class BayerConv2d(nn.Module):
 
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
-        y = torch.empty((x.shape[0], self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
+        y = torch.empty(x.shape[:-3] + (self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
         # maps a relative position (GR, R, etc.) to its absolute position tuple (e.g. (0, 1)) under this sensor
@@ -117,7 +117,7 @@ class BayerConv2d(nn.Module):
             pos_abs = str(r) + str(c)
             conv = self.conv_dict[pos_rel]
             pad = self.padding_dict[pos_abs]
-            y[:, slice(r * 2 + c, None, factor**2), ...] = conv(pad(x))
+            y[..., slice(r * 2 + c, None, factor**2), :, :] = conv(pad(x))
         return y
 
 
-- 
2.43.0


From 2570ac8210c555a1bd7b192fdbc241f38ff99443 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 11/38] fix: any_conv_1d on non-contiguous tensors

view() fails for permuted or sliced inputs; reshape() copies when it has to.
---
 torchimage/pooling/operator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index d8c27bf..69a6433 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -31,15 +31,15 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     big_shape = list(x.shape)
 
     if dim == -1 or dim == x.ndim - 1:
-        x = x.view(-1, 1, x.shape[-1])  # batch, in_channels, input width
-        w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
+        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
+        w = w.reshape(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.view(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
-        w = w.view(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
+        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        w = w.reshape(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
     big_shape[dim] = -1
-    x = x.view(*big_shape)
+    x = x.reshape(*big_shape)
     return x
 
-- 
2.43.0


From ff4c49f50aef2850385947cdcce1ee902ba581e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 12/38] fix: ragged arrays given as non-numeric ndarrays

The truth value of an array with more than one element is ambiguous, so object
and string arrays raised instead of being traversed.
---
 torchimage/utils/ragged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..eb5ff07 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -85,7 +85,7 @@ def get_ragged_ndarray(data, strict=True):
     if is_scalar(data):  # scalar
         return data, ()
 
-    if not data:  # empty array
+    if len(data) == 0:  # empty array
         return data, (0, )
 
     item_list = []
@@ -145,7 +145,7 @@ def _recursive_expand(arr, target_shape):
     if is_scalar(arr):  # scalar
         return arr, (), False
 
-    if not arr:  # empty array
+    if len(arr) == 0:  # empty array
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 3c7f817088fc258f5a5d1876a6fb0066b0d4cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 13/38] fix: stride of an axis with an empty kernel

stride=None became 0 for empty kernels, and the same padder divided by it.
---
 torchimage/pooling/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index d3b8c56..79d40cc 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -115,7 +115,7 @@ class BasePoolNd(nn.Module):
             Processed stride
         """
         stride = NdSpec(stride, item_shape=[]).map(check_stride)
-        stride = NdSpec.apply(lambda s, ks: ks if s is None else s, stride, self.kernel_size)
+        stride = NdSpec.apply(lambda s, ks: max(ks, 1) if s is None else s, stride, self.kernel_size)
         return stride
 
     def to_filter(self, padder=None):
-- 
2.43.0


From 0da8508932f15a7632e984a8a737914316824e14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 14/38] fix: safe_power with integer tensors and fractional
 scalars or exponents

The scalar was truncated to the integer dtype of the tensor (4 ** 0.5 gave 1,
2.7 ** 2 gave 4), and integer bases of zero could not take epsilon; use the
usual type promotion.
---
 torchimage/misc/power.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..ab172ee 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -41,15 +41,16 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=torch.result_type(x, exponent), device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=torch.result_type(x, exponent), device=x.device)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
+    x = x.to(dtype=torch.result_type(x, exponent))  # the result is not an integer
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0


From b93150a8186ab704d235b9ba06094db625fa8289 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 15/38] fix: mean of the greens when downsampling integer Bayer
 images

The two green samples were added in the input's own dtype, so bright uint8
images wrapped around (200 and 200 averaged to 72).
---
 torchimage/cfa/utils/bayer_to_rgb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/cfa/utils/bayer_to_rgb.py b/torchimage/cfa/utils/bayer_to_rgb.py
index 37b0c78..30b6e30 100644
--- a/torchimage/cfa/utils/bayer_to_rgb.py
+++ b/torchimage/cfa/utils/bayer_to_rgb.py
@@ -66,7 +66,8 @@ def downsample_4c_bayer_to_rgb(x: torch.Tensor, sensor_alignment: str):
     check_4c_bayer(x)
     ret_list = [
         x[..., sa.index("R"), :, :],
-        (x[..., sa.index("G"), :, :] + x[..., sa.rindex("G"), :, :]) / 2,
+        # halve before adding: the sum of two greens can exceed the range of an integer dtype
+        x[..., sa.index("G"), :, :] / 2 + x[..., sa.rindex("G"), :, :] / 2,
         x[..., sa.index("B"), :, :]
     ]
     return torch.stack(ret_list, dim=-3)
-- 
2.43.0


From 5003d8bba0286281d147a80ed833d44b778c7acb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 16/38] fix: treat 0-dimensional non-numeric arrays as scalars

is_scalar promises that np.array(1) is a scalar, but every ndarray has __len__,
so np.array("text") and np.array(None) failed with "len() of unsized object".
---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index eb5ff07..d0641a7 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -18,6 +18,8 @@ def is_scalar(a) -> bool:
     """
     if isinstance(a, (list, tuple)):
         return False
+    if getattr(a, "ndim", None) == 0:
+        return True
     if hasattr(a, "__array__") and hasattr(a, "__len__"):  # np.array(1) is scalar
         return False
     return True
-- 
2.43.0


From 098406d084de6f0a53a26d0f766b9d580598edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 17/38] fix: keep nested broadcasts in
 get_ragged_ndarray(strict=False)

When the items of a level had equal depths only after something inside them
was broadcast, the original data was returned next to the broadcast shape,
e.g. [(1, (2, 3)), (4, (5, 6))] with shape (2, 2, -1).
---
 torchimage/utils/ragged.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index d0641a7..d445de8 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -92,8 +92,10 @@ def get_ragged_ndarray(data, strict=True):
 
     item_list = []
     item_shape_list = []
-    for item in data:
-        item, item_shape = get_ragged_ndarray(item, strict=strict)
+    modified = False
+    for old_item in data:
+        item, item_shape = get_ragged_ndarray(old_item, strict=strict)
+        modified = modified or item is not old_item
         item_list.append(item)
         item_shape_list.append(item_shape)
 
@@ -113,6 +115,8 @@ def get_ragged_ndarray(data, strict=True):
             item_shape_list = [(1, ) * (ndim - len(s)) + s for s in item_shape_list]
     else:
         ndim = next(iter(ndim_set))
+        if modified:
+            data = tuple(item_list)  # keep what was broadcast inside the items
 
     item_shape = [-1] * ndim
 
-- 
2.43.0


From e711127119adc3a15ba35ce22410c8b5a62e4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 18/38] fix: reject empty levels of a ragged array that cannot
 expand

An empty level beside a nonempty one was left empty, so [[], [1]] expanded to
items of length 2 gave [[], (1, 1)] instead of being rejected like [[], []].
---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index d445de8..d180e8d 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -152,6 +152,8 @@ def _recursive_expand(arr, target_shape):
         return arr, (), False
 
     if len(arr) == 0:  # empty array
+        if target_shape[0] > 0:
+            raise ValueError(f"Cannot expand 0-length dimension to nonzero-length {target_shape[0]}")
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 5314624e595f95991e3ffb34fa7f74e6ad6eee9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 19/38] fix: reject expanding a level longer than 1 to length 0

Only length-1 levels broadcast; [1, 2, 3] expanded to length 0 lost its data.
---
 torchimage/utils/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index d180e8d..56952a0 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -184,7 +184,7 @@ def _recursive_expand(arr, target_shape):
     # broadcast (expand) this dimension
     if target_shape[0] == -1 or target_shape[0] == len(arr):  # no need to expand
         return arr, tuple([len(arr)] + item_shape), modified
-    elif target_shape[0] == 0:
+    elif target_shape[0] == 0 and len(arr) == 1:
         shape = tuple([0] + item_shape)
         return np.empty(shape), shape, True
     elif len(arr) == 1:  # singleton dimension; shape[0] is positive int
-- 
2.43.0


From 577fcf43783280b048f6900e3feacc8ee88d8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 20/38] fix: result dtype of safe_power with a 0-dimensional
 operand

A fractional float64 scalar tensor as exponent turned a float32 tensor into
float64, unlike torch.pow and unlike safe_power with an integral exponent.
---
 torchimage/misc/power.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index ab172ee..9477a72 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -50,7 +50,8 @@ def safe_power(x, exponent, *, epsilon=1e-6):
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
-    x = x.to(dtype=torch.result_type(x, exponent))  # the result is not an integer
+    dtype = torch.result_type(x, exponent)  # before broadcasting, which hides 0-dimensional operands
+    x, exponent = x.to(dtype=dtype), exponent.to(dtype=dtype)  # the result is not an integer
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0


From 3c8edc1558b8d3d6596620a1af32881e4cb0ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 21/38] fix: BayerConv2d rejects mosaics with odd height or
 width

---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 9f23fbd..8d4bc59 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -85,6 +85,7 @@ class BayerConv2d(nn.Module):
     def forward(self, x: torch.Tensor, sensor_alignment: str):
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
+        assert x.shape[-2] % 2 == x.shape[-1] % 2 == 0, f"height and width must be divisible by 2, got {x.shape} instead"
         y = torch.empty(x.shape[:-3] + (self.out_channels,) + x.shape[-2:], dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
@@ -106,6 +107,7 @@ class BayerConv2d(nn.Module):
 
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
+        assert x.shape[-2] % 2 == x.shape[-1] % 2 == 0, f"height and width must be divisible by 2, got {x.shape} instead"
         y = torch.empty(x.shape[:-3] + (self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
-- 
2.43.0


From c3a92ec9c2198ce02218a4ec71e1369d41326651 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 22/38] fix: last_step_demosaic rejects odd mosaics and extra
 channels

---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 8d4bc59..0c4b424 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -6,7 +6,7 @@ import numpy as np
 import torch
 from torch import nn
 
-from ..utils.validation import check_sensor_alignment
+from ..utils.validation import check_sensor_alignment, check_1c_bayer
 
 relative_positions = "R", "B", "GR", "GB"
 absolute_positions = "00", "01", "10", "11"
@@ -131,7 +131,8 @@ def last_step_demosaic(x: torch.Tensor, y: torch.Tensor, sensor_alignment: str):
     # We assume that the color channels of y exactly follow such order
     sensor_alignment = check_sensor_alignment(sensor_alignment)
     beg_dict = get_sensor_beg_index(sensor_alignment)
-    assert x.shape[:-3] == y.shape[:-3] and x.shape[-2:] == y.shape[-2:]
+    check_1c_bayer(x)
+    assert y.shape == x.shape[:-3] + (2,) + x.shape[-2:]
 
     ret = torch.empty(x.shape[:-3] + (3,) + x.shape[-2:], dtype=x.dtype, device=x.device)
     for pos_rel in relative_positions:
-- 
2.43.0


From 71ffa8156e9df158189c093f9d7fe5ebc19ed237 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 23/38] fix: random_crop rejects sizes that do not match the
 axes

---
 torchimage/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchimage/random.py b/torchimage/random.py
index f36136b..46c9b68 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -7,11 +7,15 @@ from .utils.validation import check_axes
 def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = None):
     axes = check_axes(x, axes)
     size = NdSpec(size, item_shape=[])
+    if not size.is_item and len(size) != len(axes):
+        raise ValueError(f"Got {len(size)} crop sizes for {len(axes)} axes")
     idx = [slice(None)] * x.ndim
     for i, a in enumerate(axes):
         length = size[i]
         if length is None:
             continue
+        if not 0 <= length <= x.shape[a]:
+            raise ValueError(f"Crop size {length} does not fit axis {a} of length {x.shape[a]}")
         beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
-- 
2.43.0


From 6845c666498df4e6235f6e0d0c9855061e56f554 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 24/38] fix: Padder rejects unknown padding modes when it is
 constructed

---
 torchimage/padding/generic_pad.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index e24ee62..8457931 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -29,8 +29,9 @@ _other_padding_set = {
 
 
 def _check_padding_mode(mode):
-    return callable(mode) or mode in set().union(_stat_padding_set)\
-        .union(_other_padding_set).union(_padding_function_dict.keys())
+    if not (callable(mode) or mode in set().union(_stat_padding_set)
+            .union(_other_padding_set).union(_padding_function_dict.keys())):
+        raise ValueError(f"Unsupported padding mode {mode}")
 
 
 class Padder:  # (nn.Module):
-- 
2.43.0


From 45794b855b187a8cc38f1ce5c58ac7b13a16c03b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 25/38] fix: EdgeFilter.magnitude does not write to its input

---
 torchimage/filtering/edges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index 0544ba0..c6b03eb 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -125,10 +125,11 @@ class EdgeFilter(nn.Module):
             if magnitude is None:
                 magnitude = c ** p if p != 1 else c
             else:
-                magnitude += c ** p if p != 1 else c
+                # not in place: with empty kernels the first component is x itself
+                magnitude = magnitude + (c ** p if p != 1 else c)
 
         if epsilon != 0:
-            magnitude += epsilon
+            magnitude = magnitude + epsilon
 
         if p == 1:
             return magnitude
-- 
2.43.0


From 5cbba5d298278baffd07fadf3076eb7aa2acb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 26/38] fix: pooling modules do not write to their same padder
 in forward

The widths for one input were stored in the shared padder, so a module (or
modules sharing a padder) used by two threads at once, as in nn.DataParallel,
padded one input with the widths of another.
---
 torchimage/metrics/ssim.py    |  4 ++--
 torchimage/pooling/base.py    | 23 +++++++++++++++++++++--
 torchimage/pooling/uniform.py |  3 ++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 4bef015..6fba6a2 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -127,8 +127,8 @@ class SSIM(nn.Module):
         if not self.crop_border or self.blur.same_padder is None:
             return full
         idx = [slice(None)] * full.ndim  # new idx slice
-        pad_width = self.blur.same_padder.pad_width
-        # access last-used padding width
+        # same padding with stride 1, so the blurred input had the same shape
+        pad_width = self.blur._get_same_padder(in_shape=[full.shape[a] for a in content_axes]).pad_width
         for i, a in enumerate(content_axes):
             pad_before, pad_after = pad_width[i]
             idx[a] = slice(pad_before, full.shape[a]-pad_after)
diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index 79d40cc..172eb82 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -1,3 +1,4 @@
+import copy
 from abc import abstractmethod
 
 import torch
@@ -71,6 +72,25 @@ class BasePoolNd(nn.Module):
         else:
             raise ValueError(f"Unsupported padder input {same_padder} of type {type(same_padder)}")
 
+    def _get_same_padder(self, in_shape):
+        """
+        Same padder with the padding widths for a specific input
+
+        The bound padder itself isn't modified, such that it can be shared
+        by several modules and threads.
+
+        Parameters
+        ----------
+        in_shape : list of int
+            Size of the input tensor at each axis of interest
+
+        Returns
+        -------
+        padder : Padder
+        """
+        return copy.copy(self.same_padder).to_same(
+            kernel_size=self.kernel_size, stride=self.stride, in_shape=in_shape)
+
     def pad(self, x: torch.Tensor, axes):
         """
         Use the bound same padder to pad the input
@@ -91,8 +111,7 @@ class BasePoolNd(nn.Module):
         """
         axes = check_axes(x, axes)
         if self.same_padder is not None:
-            padder = self.same_padder.to_same(kernel_size=self.kernel_size, stride=self.stride,
-                                              in_shape=[x.shape[a] for a in axes])
+            padder = self._get_same_padder(in_shape=[x.shape[a] for a in axes])
             x = padder.forward(x, axes=axes)
         return x
 
diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 901bfbe..0ea032f 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -35,9 +35,10 @@ class AvgPoolNd(SeparablePoolNd):
             assert len(axes) == len(set(axes))  # axes must be unique
 
             x = super().forward(x, axes=axes)
+            padder = self._get_same_padder(in_shape=[input_shape[a] for a in axes])
             z = n_original_elements_nd(
                 in_size=[input_shape[axes[i]] for i in idx],
-                pad_width=[self.same_padder.pad_width[i] for i in idx],
+                pad_width=[padder.pad_width[i] for i in idx],
                 kernel_size=[self.kernel_size[i] for i in idx],
                 stride=[self.stride[i] for i in idx],
                 device=x.device, dtype=x.dtype
-- 
2.43.0


From 690272870724796c4f7baed92837413c15ddcf88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 27/38] fix: padding an empty axis raises instead of hanging or
 returning uninitialised memory

---
 torchimage/padding/generic_pad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index 8457931..cb25abc 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -158,6 +158,10 @@ class Padder:  # (nn.Module):
         if mode == "empty":
             return idx
 
+        if idx[axis].start == idx[axis].stop and not (callable(mode) or mode in ("zeros", "constant")):
+            # there is nothing to extend (same convention as numpy)
+            raise ValueError(f"Can't extend empty axis {axis} using padding mode {mode}")
+
         # determine pad_func at each iteration
         if callable(mode):
             pad_func = mode
-- 
2.43.0


From 73ef4a8c378179ec0a92637afdd93d27753a0557 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 28/38] fix: any_conv_1d accepts tensors with an empty batch
 dimension

---
 torchimage/pooling/operator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index 69a6433..67c4ed7 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -29,17 +29,18 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
 
     """
     big_shape = list(x.shape)
+    before = np.prod(x.shape[:dim], dtype=int)
+    after = np.prod(x.shape[dim:][1:], dtype=int)
 
-    if dim == -1 or dim == x.ndim - 1:
-        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
+    if dim == -1 or dim == x.ndim - 1 or after == 0:  # (an empty batch has no memory order)
+        x = x.reshape(before * after, 1, x.shape[dim])  # batch, in_channels, input width
         w = w.reshape(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        x = x.reshape(before, 1, x.shape[dim], after)
         w = w.reshape(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
-    big_shape[dim] = -1
+    big_shape[dim] = x.shape[2]
     x = x.reshape(*big_shape)
     return x
-
-- 
2.43.0


From 4ceb19149f9dc69f314b9a5b33734c6c25613ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 29/38] fix: Gaussian derivative kernels of high order and
 large radius do not overflow

---
 torchimage/pooling/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/gaussian.py b/torchimage/pooling/gaussian.py
index 6aa81d6..54b2351 100644
--- a/torchimage/pooling/gaussian.py
+++ b/torchimage/pooling/gaussian.py
@@ -36,7 +36,7 @@ def _gaussian_kernel1d(sigma, order, radius):
         Q_deriv = D + P
         for _ in range(order):
             q = Q_deriv.dot(q)
-        q = (x[:, None] ** exponent_range).dot(q)
+        q = (x[:, None].astype(float) ** exponent_range).dot(q)  # integer powers overflow
         return q * phi_x
 
 
-- 
2.43.0


From 50314d460fdb660dd6aaa4640216db0ab1c910af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 30/38] fix: AvgPoolNd(count_include_pad=False) ignores axes
 with an empty kernel

---
 torchimage/pooling/uniform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0ea032f..8be8edb 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -29,12 +29,13 @@ class AvgPoolNd(SeparablePoolNd):
             input_shape = x.shape
             axes = check_axes(x, axes)
 
-            z_old = np.prod([self.kernel_size[i] for i in range(len(axes))])
-
-            idx = np.argsort(axes)  # axes must be sorted
+            idx = [i for i in np.argsort(axes) if self.kernel_size[i] > 0]  # axes must be sorted
+            z_old = np.prod([self.kernel_size[i] for i in idx])
             assert len(axes) == len(set(axes))  # axes must be unique
 
             x = super().forward(x, axes=axes)
+            if not idx:  # every kernel is empty
+                return x
             padder = self._get_same_padder(in_shape=[input_shape[a] for a in axes])
             z = n_original_elements_nd(
                 in_size=[input_shape[axes[i]] for i in idx],
-- 
2.43.0


From b6e4dbcf0c10e234f305206aed05976ec5095446 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 31/38] fix: an empty reduce_axes reduces nothing in MSE, PSNR,
 SSIM and MS_SSIM

---
 torchimage/metrics/base.py | 4 ++--
 torchimage/metrics/ssim.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchimage/metrics/base.py b/torchimage/metrics/base.py
index 54c6fdd..f4afcf1 100644
--- a/torchimage/metrics/base.py
+++ b/torchimage/metrics/base.py
@@ -57,9 +57,9 @@ class BaseMetric(nn.Module):
 
     @staticmethod
     def _mean(x: torch.Tensor, axes):
-        return x.mean(dim=axes, keepdim=False)
+        return x.mean(dim=axes, keepdim=False) if axes else x  # dim=() reduces every axis in torch
 
     @staticmethod
     def _sum(x: torch.Tensor, axes):
-        return x.sum(dim=axes, keepdim=False)
+        return x.sum(dim=axes, keepdim=False) if axes else x
 
diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 6fba6a2..f71d19b 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -135,7 +135,8 @@ class SSIM(nn.Module):
         return full[tuple(idx)]
 
     def _reduce(self, x: torch.Tensor, content_axes: tuple, reduce_axes: tuple):
-        return self._crop_border(x, content_axes=content_axes).mean(dim=reduce_axes)
+        x = self._crop_border(x, content_axes=content_axes)
+        return x.mean(dim=reduce_axes) if reduce_axes else x  # dim=() reduces every axis in torch
 
     def forward(self, y_pred: torch.Tensor, y_true: torch.Tensor,
                 content_axes=slice(2, None), reduce_axes=slice(1, None), *, full=False):
@@ -316,7 +317,8 @@ class MS_SSIM(SSIM):
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-        final_score = final_score.mean(dim=reduce_axes, keepdim=False)
+        if reduce_axes:  # dim=() reduces every axis in torch
+            final_score = final_score.mean(dim=reduce_axes, keepdim=False)
 
         return final_score
 
-- 
2.43.0


From d6e55c744e393a0e02177d08a2bb96817b4ce1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 32/38] fix: padding an axis that is listed repeatedly pads the
 padded axis again

---
 torchimage/padding/generic_pad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index cb25abc..7dbca31 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -235,6 +235,12 @@ class Padder:  # (nn.Module):
         if self.ndim > 0:
             ndim_padded = min(ndim_padded, self.ndim)
 
+        if len(set(axes[-ndim_padded:])) < ndim_padded:
+            # an axis listed again extends what was padded before
+            for i in range(-ndim_padded, 0):
+                x = self.pad_axis(x, i=i, axis=axes[i])
+            return x
+
         old_shape_vec = np.array(x.shape, dtype=int)
         head_vec = np.zeros(x.ndim, dtype=int)  # equal to pad_before
         pad_after_vec = np.zeros(x.ndim, dtype=int)
-- 
2.43.0


From 7e6832bdb5aa7ae9b2e4965605c477ff1001b603 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 33/38] fix: Bayer convolution and demosaicing accept any
 number of batch dimensions

---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 0c4b424..ff372da 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -82,6 +82,15 @@ class BayerConv2d(nn.Module):
                 stride=2, padding=0, bias=self.bias
             )
 
+    @staticmethod
+    def _conv(conv, pad, x):
+        # torch's 2d layers accept at most 1 batch dimension
+        batch_shape = x.shape[:-3]
+        if len(batch_shape) > 1:
+            x = x.flatten(0, -4)
+        y = conv(pad(x))
+        return y.reshape(batch_shape + y.shape[-3:])
+
     def forward(self, x: torch.Tensor, sensor_alignment: str):
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
@@ -97,7 +106,7 @@ class BayerConv2d(nn.Module):
             pos_abs = str(r) + str(c)
             conv = self.conv_dict[pos_rel]
             pad = self.padding_dict[pos_abs]
-            y[..., r::2, c::2] = conv(pad(x))
+            y[..., r::2, c::2] = self._conv(conv, pad, x)
         return y
 
     def forward_unshuffle(self, x: torch.Tensor, sensor_alignment: str):
@@ -119,7 +128,7 @@ class BayerConv2d(nn.Module):
             pos_abs = str(r) + str(c)
             conv = self.conv_dict[pos_rel]
             pad = self.padding_dict[pos_abs]
-            y[..., slice(r * 2 + c, None, factor**2), :, :] = conv(pad(x))
+            y[..., slice(r * 2 + c, None, factor**2), :, :] = self._conv(conv, pad, x)
         return y
 
 
-- 
2.43.0


From 6925e025d0c91e2ce528a7839e1fccc6fe5c2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 34/38] fix: PSNR with a small numpy integer as max_value isn't
 computed in half precision

---
 torchimage/metrics/psnr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchimage/metrics/psnr.py b/torchimage/metrics/psnr.py
index ebd4402..b541a98 100644
--- a/torchimage/metrics/psnr.py
+++ b/torchimage/metrics/psnr.py
@@ -14,5 +14,7 @@ class PSNR(MSE):
     def forward(self, y_pred: torch.Tensor, y_true: torch.Tensor, reduce_axes=None):
         mse_score = super().forward(y_pred=y_pred, y_true=y_true, reduce_axes=reduce_axes)
         log_mse = torch.log10(mse_score + self.eps if self.eps > 0 else mse_score)
-        return 20 * np.log10(self.max_value) - 10 * log_mse
+        # numpy takes the logarithm of a small integer (e.g. np.uint8) in half precision
+        max_value = self.max_value if torch.is_tensor(self.max_value) else np.asarray(self.max_value, dtype=float)
+        return 20 * np.log10(max_value) - 10 * log_mse
 
-- 
2.43.0


From f755c549b687e8e2011f2ccfc0791935c0af0cce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 35/38] fix: constant padding accepts single and half precision
 numpy scalars

---
 torchimage/padding/pad_1d.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/torchimage/padding/pad_1d.py b/torchimage/padding/pad_1d.py
index a6b1695..589b697 100644
--- a/torchimage/padding/pad_1d.py
+++ b/torchimage/padding/pad_1d.py
@@ -70,6 +70,7 @@ x : torch.Tensor
     The same tensor after the padded values at ``dim`` are filled in.
 """
 
+import numpy as np
 import torch
 
 from .utils import make_idx, modify_idx
@@ -345,6 +346,11 @@ def zeros_1d(x, idx, dim):
     return x
 
 
+def _number(value):
+    # torch can't assign single and half precision numpy scalars
+    return value.item() if isinstance(value, np.generic) else value
+
+
 def constant_1d(x, idx, dim, before, after):
     head, tail = idx[dim].start, idx[dim].stop
 
@@ -352,10 +358,10 @@ def constant_1d(x, idx, dim, before, after):
         return modify_idx(*args, idx=idx, dim=dim)
 
     if head > 0:  # should pad before
-        x[f(head)] = before
+        x[f(head)] = _number(before)
 
     if tail < x.shape[dim]:  # should pad after
-        x[f(tail, None)] = after
+        x[f(tail, None)] = _number(after)
 
     return x
 
-- 
2.43.0


From 5a3f80eacc2497c1c9c50de0ea8917717392e057 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 36/38] fix: gaussian kernels from narrow numpy sigmas aren't
 computed in their precision

---
 torchimage/pooling/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchimage/pooling/gaussian.py b/torchimage/pooling/gaussian.py
index 54b2351..c28fa25 100644
--- a/torchimage/pooling/gaussian.py
+++ b/torchimage/pooling/gaussian.py
@@ -16,6 +16,7 @@ def _gaussian_kernel1d(sigma, order, radius):
     if order < 0:
         raise ValueError('order must be non-negative')
     exponent_range = np.arange(order + 1)
+    sigma = float(sigma)  # numpy scalars would keep their precision and range
     sigma2 = sigma * sigma
     x = np.arange(-radius, radius+1)
     phi_x = np.exp(-0.5 / sigma2 * x ** 2)
-- 
2.43.0


From cf7ce629dc73826abede9a0e13028511b686a494 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 37/38] fix: normalise smoothing kernels in double precision
 (float16/float32 arrays lost digits)

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index c6b03eb..07bad75 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -41,7 +41,7 @@ class EdgeFilter(nn.Module):
         self.smooth_kernel = NdSpec(smooth_kernel, item_shape=[-1])
         if normalize:
             def _reweight(kernel):
-                kernel = np.array(kernel)
+                kernel = np.array(kernel, dtype=float)  # half precision loses digits or overflows
                 kernel = kernel / kernel.sum()
                 return kernel.tolist()
 
-- 
2.43.0


From 3d575efab077834789e307fec0411dbb3d81a119 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 38/38] fix: pixels_per_degree computed in the precision and
 range of narrow numpy arguments

---
 torchimage/metrics/hdrvdp/pixels_per_degree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchimage/metrics/hdrvdp/pixels_per_degree.py b/torchimage/metrics/hdrvdp/pixels_per_degree.py
index 82f7086..b929c45 100644
--- a/torchimage/metrics/hdrvdp/pixels_per_degree.py
+++ b/torchimage/metrics/hdrvdp/pixels_per_degree.py
@@ -22,6 +22,10 @@ def pixels_per_degree(display_diagonal_mm, height_pix, width_pix, viewing_distan
     viewing_distance_m : float
         viewing distance in meters, e.g. 0.5
     """
+    # narrow numpy scalars would overflow or lose digits
+    display_diagonal_mm, viewing_distance_m = float(display_diagonal_mm), float(viewing_distance_m)
+    height_pix, width_pix = float(height_pix), float(width_pix)
+
     ar = width_pix / height_pix  # aspect ratio
 
     height_mm = (display_diagonal_mm ** 2 / (1 + ar ** 2)) ** .5
-- 
2.43.0

