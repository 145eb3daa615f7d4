From bb69a23f9d14d6b0ece59d4c30bfd9feb1a0a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 01/48] fix: make the affine relaxation of s-shaped activations
 sound

When a pre-activation bound is exactly 0, the constant bound and the tangent were
averaged, and the tangent was taken as a secant to the closest point of a grid:
both could exclude values of sigmoid/tanh/softsign.
---
 src/decomon/utils.py | 69 +++++++++-----------------------------------
 1 file changed, 14 insertions(+), 55 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..4c11167 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -554,7 +554,6 @@ def get_linear_hull_s_shape(
 
     z_value = K.cast(0.0, dtype=dtype)
     o_value = K.cast(1.0, dtype=dtype)
-    t_value = K.cast(2.0, dtype=dtype)
 
     # flatten
     shape = list(u_c.shape[1:])
@@ -573,7 +572,7 @@ def get_linear_hull_s_shape(
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-    alpha_u_1 = (o_value - alpha_u_0) * ((K.sign(l_c_flat) + o_value) / t_value)
+    alpha_u_1 = (o_value - alpha_u_0) * K.cast(K.greater_equal(l_c_flat, z_value), dtype=dtype)
 
     w_u_0 = coeff
     b_u_0 = -w_u_0 * l_c_flat + s_l
@@ -591,7 +590,7 @@ def get_linear_hull_s_shape(
     alpha_l_0 = K.where(
         K.greater_equal(s_l_prime, coeff), o_value + z_value * l_c_flat, z_value * l_c_flat
     )  # (None, n)
-    alpha_l_1 = (o_value - alpha_l_0) * ((K.sign(-u_c_flat) + o_value) / t_value)
+    alpha_l_1 = (o_value - alpha_l_0) * K.cast(K.less_equal(u_c_flat, z_value), dtype=dtype)
 
     w_l_0 = coeff
     b_l_0 = -w_l_0 * u_c_flat + s_u
@@ -628,39 +627,19 @@ def get_t_upper(
         the upper affine bounds in this subcase
     """
 
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: candidate tangent points t, between 0 and u (func is concave there)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1, 100)[None, None, :], dtype=u_c_flat.dtype) * u_c_reshaped  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
+    secant = (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
-
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )  # (None, n)
-
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    # step2: as long as the slope in t exceeds the one of the secant from the lower bound, t is before the tangent point,
+    # and the line of slope f_prime(t) going through (l, func(l)) is above func. We keep the tightest one.
+    w_u = K.min(K.where(K.greater_equal(s_p_t, secant), s_p_t, s_p_t[:, :, :1]), -1)  # (None, n)
+    b_u = -w_u * l_c_flat + s_l
 
     return [w_u, b_u]
 
@@ -685,38 +664,18 @@ def get_t_lower(
     Returns:
         the lower affine bounds in this subcase
     """
-    z_value = K.cast(0.0, dtype=u_c_flat.dtype)
-    o_value = K.cast(1.0, dtype=u_c_flat.dtype)
-
-    # step1: find t
+    # step1: candidate tangent points t, between l and 0 (func is convex there)
     u_c_reshaped = K.expand_dims(u_c_flat, -1)  # (None, n , 1)
     l_c_reshaped = K.expand_dims(l_c_flat, -1)  # (None, n,  1)
     t = K.cast(np.linspace(0, 1.0, 100)[None, None, :], dtype=u_c_flat.dtype) * l_c_reshaped  # (None, n , 100)
 
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
+    secant = (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
-
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    # step2: as long as the slope in t exceeds the one of the secant to the upper bound, t is after the tangent point,
+    # and the line of slope f_prime(t) going through (u, func(u)) is below func. We keep the tightest one.
+    w_l = K.min(K.where(K.greater_equal(s_p_t, secant), s_p_t, s_p_t[:, :, :1]), -1)  # (None, n)
+    b_l = -w_l * u_c_flat + s_u
 
     return [w_l, b_l]
-- 
2.43.0


From f59b9062773bb22b4f7b8f2e18e162059b9fa571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 02/48] fix: make the affine relaxation of softplus sound

The upper bound was the chord of softsign, and 0 for non positive inputs.
---
 src/decomon/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 4c11167..87184a9 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -213,10 +213,9 @@ def get_linear_hull_tanh(upper: Tensor, lower: Tensor, slope: Union[str, Slope],
 
 def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slope], **kwargs: Any) -> list[Tensor]:
     slope = Slope(slope)
-    # in case upper=lower, this cases are
-    # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    # softplus is convex: the upper bound is the chord between lower and upper
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -243,11 +242,10 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     else:
         raise ValueError(f"Unknown slope {slope}")
 
+    # softplus(x) >= max(x, 0)
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +255,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From fed7eb80fd351b279a7221a855dabb185c994a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 03/48] fix: bound softmax(x) instead of softmax(-x), with a
 sound relaxation of 1/x

---
 src/decomon/layers/activations.py | 10 +++++++---
 src/decomon/layers/utils.py       |  9 +++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..ef2932e 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -468,10 +467,15 @@ def softmax(
         raise NotImplementedError()
     mode = ForwardMode(mode)
     ibp = get_ibp(mode)
+    outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
+    if not ibp:
+        # constant bounds are needed to keep a positive lower bound on the denominator
+        inputs = outputs_spec.get_fullinputs_from_inputsformode(inputs)[:7]
+        mode = ForwardMode.HYBRID
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -498,7 +502,7 @@ def softmax(
         u_c = K.minimum(u_c, o_value)
         l_c = K.maximum(l_c, z_value)
 
-    return inputs_outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
+    return outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
 
 
 def group_sort_2(
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..bb15c36 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,18 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # x -> 1/x is decreasing: the largest value is reached for the lower bound of x
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 3d78392080934dee83fe298117371270de613c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 04/48] fix: bound |x| instead of x in abs

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index bb15c36..fc1fe70 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -900,15 +900,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From 7b28928f7a9ab9994071d2a5132f2167cb463b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 05/48] fix: keep sub-boxes distinct for multi-dimensional
 inputs and multi-output models

refine_boxes collapsed the boxes of multi-dimensional inputs, get_range_box mixed the
outputs of sub-boxes and refine_box failed to draw its first split.
---
 src/decomon/wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..fc7c74e 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,8 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        u_out = np.max(np.reshape(u_out, [-1, n_split] + list(u_out.shape[1:])), 1)
+        l_out = np.min(np.reshape(l_out, [-1, n_split] + list(l_out.shape[1:])), 1)
     return u_out, l_out
 
 
@@ -763,7 +763,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
@@ -881,7 +881,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From d3f8217a03d61a747210018f51e4858f49a84f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 06/48] fix: give every sub-box the labels of its box in
 refine_box

---
 src/decomon/wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index fc7c74e..3a9942a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -860,12 +860,15 @@ def refine_box(
                 return results.reshape((n_x, n_split, -1))
 
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
+            # every sub-box has the labels of the box it belongs to
             results = func(
                 decomon_model,
                 x_min=x_min_split,
                 x_max=x_max_split,
-                source_labels=source_labels,
-                target_labels=target_labels,
+                source_labels=np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0),
+                target_labels=None
+                if target_labels is None
+                else np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0),
                 batch_size=batch_size,
             )
 
-- 
2.43.0


From 287f29f002b2e3d24f3622863ac8ff5542824cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 07/48] fix: take the target labels into account in
 check_adv_box

---
 src/decomon/wrapper.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 3a9942a..bd73a8b 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -341,16 +341,12 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         return np.concatenate(
             [
@@ -415,7 +411,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From d1f6f2e8fb6e4f154010385ae96d3e4c3b1a7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 08/48] fix: make get_adv_noise work for any model, and use the
 dual norm of the l2 ball

---
 src/decomon/wrapper.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index bd73a8b..0b66282 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -946,7 +946,7 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps = decomon_model.perturbation_domain.eps
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -965,7 +965,7 @@ def get_adv_noise(
 
     if target_labels is not None:
         if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
+            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
         target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
 
     if batch_size > 0:
@@ -978,16 +978,12 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
         else:
-            target_labels_list = [target_labels] * (len(x_reshaped) // batch_size + r)
+            target_labels_list = [None] * (len(x_reshaped) // batch_size + r)
 
         results = [
             get_adv_noise(
@@ -1066,7 +1062,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1084,9 +1080,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From 8d083bef72164e136986bdfb28f5b11067d68e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 09/48] fix: support non square kernels in get_toeplitz

---
 src/decomon/backward_layers/utils_conv.py | 38 ++++++++++++-----------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..b89832e 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -58,38 +58,39 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     _, w_out, h_out, c_out = output_shape
 
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_size = list(kernel_filter.shape[:2])
+    filter_area = filter_size[0] * filter_size[1]
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
     diag_patches = extract_patches(
         diag,
-        size=[filter_size, filter_size],
+        size=filter_size,
         strides=list(conv_layer.strides),
         dilation_rate=list(conv_layer.dilation_rate),
         padding=conv_layer.padding,
     )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_area, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (filter_size[0], filter_size[1], c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_area, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_area)
 
     # element-wise multiplication is only compatible with float32
     diag_patches_ = K.cast(diag_patches_, "float32")
     kernel = K.cast(kernel, "float32")
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,1,1,1,1,c_in, c_out, filter_area)
+    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_area)
+    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter_area)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
@@ -127,28 +128,29 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
         output_shape = output[-1].shape
     _, c_out, w_out, h_out = output_shape
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_size = list(kernel_filter.shape[:2])
+    filter_area = filter_size[0] * filter_size[1]
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(diag, filter_size, [1, 1], [1, 1], padding=conv_layer.padding)
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_area, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (filter_size[0], filter_size[1], c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_area, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
+    ]  # (1,1,c_in, c_out, filter_area)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_area)
+    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_area)
+    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter_area)
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
-- 
2.43.0


From 29cffbb8796a5fe92ed8f8fb78e5671096561899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 10/48] fix: order the toeplitz matrix of channels_first
 convolutions as their data, with their strides

---
 src/decomon/backward_layers/utils_conv.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index b89832e..f8b53e1 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -133,7 +133,14 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, filter_size, [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(
+        diag,
+        size=filter_size,
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",  # format of diag, not of the layer
+    )
 
     diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_area, c_in))
 
@@ -155,7 +162,9 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
 
+    w = K.transpose(w, (2, 0, 1, 5, 3, 4))  # (c_in, w_in, h_in, c_out, w_out, h_out)
+
     if flatten:
-        return K.reshape(w, (w_in * h_in * c_in, w_out * h_out * c_out))
+        return K.reshape(w, (c_in * w_in * h_in, c_out * w_out * h_out))
     else:
         return w
-- 
2.43.0


From a5112f32d8818df5dc46bd8327daa83672ea2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 11/48] fix: make the finetuned upper bound over a ball an
 upper bound

---
 src/decomon/core.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..522933c 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -621,13 +621,13 @@ def get_lower_ball(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kw
 
 
 def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_lower" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_lower" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_lower"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -672,13 +672,13 @@ def get_lower_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
 
 
 def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Tensor, **kwargs: Any) -> Tensor:
-    if "finetune_upper" in kwargs and "upper" in kwargs or "lower" in kwargs:
+    if "finetune_upper" in kwargs and ("upper" in kwargs or "lower" in kwargs):
         alpha = kwargs["finetune_upper"]
         # assume alpha is the same shape as w, minus the batch dimension
         n_shape = len(w.shape) - 2
         z_value = K.cast(0.0, dtype=w.dtype)
 
-        if "upper" and "lower" in kwargs:
+        if "upper" in kwargs and "lower" in kwargs:
             upper = kwargs["upper"]  # flatten vector
             lower = kwargs["lower"]  # flatten vector
 
@@ -691,7 +691,7 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1) + K.sum(
                 K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1
             )
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -699,11 +699,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             upper = kwargs["upper"]  # flatten vector
             upper_reshaped = np.reshape(upper, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
-            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
+            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.maximum(z_value, w_alpha_bar) * upper_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
@@ -711,11 +711,11 @@ def get_upper_ball_finetune(x_0: Tensor, eps: float, p: float, w: Tensor, b: Ten
             lower = kwargs["lower"]  # flatten vector
             lower_reshaped = np.reshape(lower, [1, -1] + [1] * n_shape)
 
-            w_alpha = K.maximum(z_value, w) * alpha[None] + K.minimum(z_value, w)
-            w_alpha_bar = K.maximum(z_value, w) * (1 - alpha[None])
+            w_alpha = K.minimum(z_value, w) * alpha[None] + K.maximum(z_value, w)
+            w_alpha_bar = K.minimum(z_value, w) * (1 - alpha[None])
 
             score_box = K.sum(K.minimum(z_value, w_alpha_bar) * lower_reshaped, 1)
-            score_ball = get_lower_ball(x_0, eps, p, w_alpha, b)
+            score_ball = get_upper_ball(x_0, eps, p, w_alpha, b)
 
             return score_box + score_ball
 
-- 
2.43.0


From 23f73f22954a3f5f3e9fb2417ae83cc67f385f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 12/48] fix: compute the chord slope of 1/x without
 cancellation

---
 src/decomon/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index fc1fe70..28dd6bb 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -219,7 +219,8 @@ def frac_pos(
 
     if affine:
         # x -> 1/x is decreasing: the largest value is reached for the lower bound of x
-        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        # slope of the chord, (1/u - 1/l)/(u - l) = -1/(u*l), which stays stable when u and l are close
+        w_u_0 = -u_c_out * l_c_out
         b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
-- 
2.43.0


From 8391cb728adf206b69ecb858ee6dffc413508855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 13/48] fix: index the windows of non square max pooling

---
 src/decomon/layers/maxpooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index c6998c2..11a0b23 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -87,7 +87,7 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         for i in range(self.pool_size[0]):
             for j in range(self.pool_size[1]):
-                self.filters[i, j, 0, i * self.pool_size[0] + j] = 1
+                self.filters[i, j, 0, i * self.pool_size[1] + j] = 1
 
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
-- 
2.43.0


From 0bd87aac6fba8101df54dbff911c4b33c524e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 14/48] fix: precise max pooling of padded and channels_first
 inputs

---
 src/decomon/layers/maxpooling.py | 147 ++++++++++++++++---------------
 1 file changed, 76 insertions(+), 71 deletions(-)

diff --git a/src/decomon/layers/maxpooling.py b/src/decomon/layers/maxpooling.py
index 11a0b23..8c0d889 100644
--- a/src/decomon/layers/maxpooling.py
+++ b/src/decomon/layers/maxpooling.py
@@ -92,69 +92,62 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         self.filters_w = self.filters[None]
         self.strides_w = (1,) + self.strides
 
+        # the windows are extracted from channels_last data, whose padding (if any) is explicit (see _prepare_windows)
         def conv_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
+            return K.cast(
+                K.expand_dims(
+                    K.conv(
+                        x,
+                        self.filters,
+                        strides=list(self.strides),
+                        padding="valid",
+                        data_format="channels_last",
                     ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters,
-                            strides=list(self.strides),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
-                    ),
-                    self.dtype,
-                )
+                    -2,
+                ),
+                self.dtype,
+            )
 
         def conv_w_(x: BackendTensor) -> BackendTensor:
-            if self.data_format in [None, "channels_last"]:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        -2,
-                    ),
-                    self.dtype,
-                )
-            else:
-                return K.cast(
-                    K.expand_dims(
-                        K.conv(
-                            x,
-                            self.filters_w,
-                            strides=list(self.strides_w),
-                            padding=self.padding,
-                            data_format=self.data_format,
-                        ),
-                        1,
+            return K.cast(
+                K.expand_dims(
+                    K.conv(
+                        x,
+                        self.filters_w,
+                        strides=list(self.strides_w),
+                        padding="valid",
+                        data_format="channels_last",
                     ),
-                    self.dtype,
-                )
+                    -2,
+                ),
+                self.dtype,
+            )
 
         self.internal_op = conv_
         self.internal_op_w = conv_w_
 
+    def _prepare_windows(self, x: BackendTensor) -> BackendTensor:
+        """Put the channels last and replicate the borders where the windows overlap the padding.
+
+        The replicated values belong to the same window, hence they do not modify its maximum.
+
+        """
+        n_batch_axes = len(x.shape) - 3
+        if self.data_format == "channels_first":
+            x = K.moveaxis(x, n_batch_axes, -1)
+        if self.padding == "same":
+            for i in range(2):
+                n, k, stride = x.shape[n_batch_axes + i], self.pool_size[i], self.strides[i]
+                n_pad = max((-(-n // stride) - 1) * stride + k - n, 0)
+                indices = np.clip(np.arange(n + n_pad) - n_pad // 2, 0, n - 1)
+                x = K.take(x, indices, axis=n_batch_axes + i)
+        return x
+
+    def _restore_data_format(self, x: BackendTensor, n_batch_axes: int) -> BackendTensor:
+        if self.data_format == "channels_first":
+            x = K.moveaxis(x, -1, n_batch_axes)
+        return x
+
     def _pooling_function_fast(
         self,
         inputs: list[BackendTensor],
@@ -193,32 +186,31 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
         )
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
-        input_shape = self.inputs_outputs_spec.get_kerasinputshape(inputs)
-        n_split = input_shape[-1]
+        def op(y: BackendTensor) -> BackendTensor:
+            y = self._prepare_windows(y)
+            return K.concatenate([self.internal_op(elem) for elem in K.split(y, y.shape[-1], -1)], -2)
+
+        def op_w(w: BackendTensor) -> BackendTensor:
+            w = self._prepare_windows(w)
+            return K.concatenate([self.internal_op_w(elem) for elem in K.split(w, w.shape[-1], -1)], -2)
 
         if self.dc_decomp:
-            h_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(h, n_split, -1)],
-                -2,
-            )
-            g_out = K.concatenate(
-                [self.internal_op(elem) for elem in K.split(g, n_split, -1)],
-                -2,
-            )
+            h_out = op(h)
+            g_out = op(g)
         else:
             h_out, g_out = empty_tensor, empty_tensor
 
         if self.ibp:
-            u_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(u_c, n_split, -1)], -2)
-            l_c_out = K.concatenate([self.internal_op(elem) for elem in K.split(l_c, n_split, -1)], -2)
+            u_c_out = op(u_c)
+            l_c_out = op(l_c)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            b_u_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_u, n_split, -1)], -2)
-            b_l_out = K.concatenate([self.internal_op(elem) for elem in K.split(b_l, n_split, -1)], -2)
-            w_u_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_u, n_split, -1)], -2)
-            w_l_out = K.concatenate([self.internal_op_w(elem) for elem in K.split(w_l, n_split, -1)], -2)
+            b_u_out = op(b_u)
+            b_l_out = op(b_l)
+            w_u_out = op_w(w_u)
+            w_l_out = op_w(w_l)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
@@ -226,9 +218,22 @@ class DecomonMaxPooling2D(DecomonLayer, MaxPooling2D):
             [x, u_c_out, w_u_out, b_u_out, l_c_out, w_l_out, b_l_out, h_out, g_out]
         )
 
-        return max_(
+        outputs = max_(
             outputs, axis=-1, dc_decomp=self.dc_decomp, mode=self.mode, perturbation_domain=self.perturbation_domain
         )
+        x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = self.inputs_outputs_spec.get_fullinputs_from_inputsformode(
+            outputs, compute_ibp_from_affine=False
+        )
+        if self.ibp:
+            u_c, l_c = self._restore_data_format(u_c, 1), self._restore_data_format(l_c, 1)
+        if self.affine:
+            w_u, w_l = self._restore_data_format(w_u, 2), self._restore_data_format(w_l, 2)
+            b_u, b_l = self._restore_data_format(b_u, 1), self._restore_data_format(b_l, 1)
+        if self.dc_decomp:
+            h, g = self._restore_data_format(h, 1), self._restore_data_format(g, 1)
+        return self.inputs_outputs_spec.extract_outputsformode_from_fulloutputs(
+            [x, u_c, w_u, b_u, l_c, w_l, b_l, h, g]
+        )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         if self.fast:
-- 
2.43.0


From 9a1bb30793f3b4def86c7434a3ba687490a531ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 15/48] fix: order the bounds of channels_first Flatten as its
 outputs

---
 src/decomon/backward_layers/backward_layers.py | 11 ++++++++++-
 src/decomon/layers/decomon_layers.py           |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..98ba914 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -453,7 +453,16 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+
+        shape = list(inputs[-1].shape[1:])
+        if self.layer.data_format == "channels_first" and len(shape) > 1:
+            # same ordering as keras, which puts the channels last before flattening
+            n = w_u_out.shape[-1]
+            w_u_out = K.reshape(K.moveaxis(K.reshape(w_u_out, [-1, n] + shape), 2, -1), (-1, n, n))
+            w_l_out = K.reshape(K.moveaxis(K.reshape(w_l_out, [-1, n] + shape), 2, -1), (-1, n, n))
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..5c4b00f 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -745,6 +745,9 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self.data_format == "channels_first" and len(w_u.shape) > 3:
+                # same ordering as keras, which puts the channels last before flattening
+                w_u, w_l = K.moveaxis(w_u, 2, -1), K.moveaxis(w_l, 2, -1)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
-- 
2.43.0


From ff7737fe64918f78bf8e3b9344069fb9dd7e70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 16/48] fix: permute the outputs, not the inputs, in
 BackwardPermute

---
 src/decomon/backward_layers/backward_layers.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 98ba914..69a24ea 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -516,19 +516,14 @@ class BackwardPermute(BackwardLayer):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
-        # w_u_out (None, n_in, n_out)
+        # w_u_out (None, n_in, n_out): the permutation reorders the outputs
         y = inputs[-1]
-        n_dim = w_u_out.shape[1]
-        n_out = w_u_out.shape[-1]
+        n = w_u_out.shape[-1]
         shape = list(y.shape[1:])
 
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
-
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
-        w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
-        w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
+        dims = [0, 1] + [dim + 1 for dim in self.dims]
+        w_u_out = K.reshape(K.transpose(K.reshape(w_u_out, [-1, n] + shape), dims), (-1, n, n))
+        w_l_out = K.reshape(K.transpose(K.reshape(w_l_out, [-1, n] + shape), dims), (-1, n, n))
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-- 
2.43.0


From 959c4324aa02e7298fab3b4816b8ed52c3c72ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 17/48] fix: permute the weights of Dot operands consistently
 with their values, Concatenate along any negative axis

---
 src/decomon/layers/decomon_merge_layers.py | 2 +-
 src/decomon/layers/utils.py                | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..cf5aae4 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -432,7 +432,7 @@ class DecomonConcatenate(DecomonMerge, Concatenate):
             return Concatenate.call(self, inputs)
 
         self.op = func
-        if self.axis == -1:
+        if self.axis < 0:
             self.op_w = self.op
         else:
             self.op_w = Concatenate(axis=self.axis + 1)
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 28dd6bb..bd159a5 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -561,10 +561,12 @@ def permute_dimensions(
     if len(input_shape) <= 2:
         # not enough dim to permute
         return inputs
+    axis = axis % len(input_shape)
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
+    # the weights have one more dimension (the inputs of the model) between the batch and the other ones
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    index_w = tuple(np.insert(np.delete(index_w_np, axis + 1), axis_perm + 1, axis + 1))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From b54a4bb336c522e7870d31c2bd33251a42def4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 18/48] fix: keep the output dimension of the Dot of two
 vectors

---
 src/decomon/layers/decomon_merge_layers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index cf5aae4..73b0802 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -609,17 +609,20 @@ class DecomonDot(DecomonMerge, Dot):
         dtype = x.dtype
         empty_tensor = self.inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
+        # as in keras, the dot product of two vectors has one output
+        keepdims = n_0 + n_1 == 0
+
         if self.ibp:
-            u_c_out = K.sum(u_c, 1)
-            l_c_out = K.sum(l_c, 1)
+            u_c_out = K.sum(u_c, 1, keepdims=keepdims)
+            l_c_out = K.sum(l_c, 1, keepdims=keepdims)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
         if self.affine:
-            w_u_out = K.sum(w_u, 2)
-            b_u_out = K.sum(b_u, 1)
-            w_l_out = K.sum(w_l, 2)
-            b_l_out = K.sum(b_l, 1)
+            w_u_out = K.sum(w_u, 2, keepdims=keepdims)
+            b_u_out = K.sum(b_u, 1, keepdims=keepdims)
+            w_l_out = K.sum(w_l, 2, keepdims=keepdims)
+            b_l_out = K.sum(b_l, 1, keepdims=keepdims)
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 740eabd768af0a9d7f5b4b1acdc7ce917b3684d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 19/48] fix: bound over the box of constant bounds in
 Convert2BackwardMode, whatever the domain

---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..5d1afa0 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -71,13 +71,16 @@ class Convert2BackwardMode(Layer):
 
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
+            perturbation_domain = self.perturbation_domain
         else:
+            # only constant bounds on the inputs are available: they form a box, whatever the domain
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
+            perturbation_domain = BoxDomain()
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From a4938b7a4d381cfdf3b01c0bacd9c693edb1983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 20/48] fix: bound every output of a model, with affine bounds
 wrt its input

---
 src/decomon/models/backward_cloning.py | 66 ++++++++++++--------------
 src/decomon/models/convert.py          | 13 +++--
 src/decomon/models/forward_cloning.py  | 12 ++---
 src/decomon/models/utils.py            | 56 +++++++++++++++++++++-
 4 files changed, 99 insertions(+), 48 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..44e7f45 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union
 import keras
 import keras.ops as K
 from keras.config import floatx
-from keras.layers import Concatenate, Lambda, Layer
+from keras.layers import Lambda, Layer
 from keras.models import Model
 from keras.src.ops.node import Node
 from keras.src.utils.python_utils import to_list
@@ -27,10 +27,11 @@ from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious
 from decomon.models.forward_cloning import OutputMapDict
 from decomon.models.utils import (
-    Convert2Mode,
+    convert_output_mode,
     ensure_functional_model,
     get_depth_dict,
     get_input_dim,
+    get_output_nodes,
 )
 from decomon.types import BackendTensor, Tensor
 
@@ -366,35 +367,31 @@ def crown_model(
     # print('step1', time_1-zero_time)
     # retrieve output nodes
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
     fuse_layer = None
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                # compute with crown
-                output_crown, fuse_layer = crown_(
-                    node=node,
-                    ibp=ibp,
-                    affine=affine,
-                    input_map=input_map,
-                    layer_fn=layer_fn,
-                    backward_bounds=back_bounds,
-                    backward_map=backward_map,
-                    joint=joint,
-                    fuse=fuse,
-                    perturbation_domain=perturbation_domain,
-                    output_map=crown_map,
-                    fuse_layer=fuse_layer,
-                )
-                # time_2 = time.process_time()
-                # print('step2', time_2-time_1)
-                if fuse:
-                    # import pdb; pdb.set_trace()
-                    output += to_list(set_mode_layer(input_tensors + output_crown))
-                else:
-                    output = output_crown
+    # the outputs can be at any depth, in any order
+    for node in get_output_nodes(model):
+        # compute with crown
+        output_crown, fuse_layer = crown_(
+            node=node,
+            ibp=ibp,
+            affine=affine,
+            input_map=input_map,
+            layer_fn=layer_fn,
+            backward_bounds=back_bounds,
+            backward_map=backward_map,
+            joint=joint,
+            fuse=fuse,
+            perturbation_domain=perturbation_domain,
+            output_map=crown_map,
+            fuse_layer=fuse_layer,
+        )
+        # time_2 = time.process_time()
+        # print('step2', time_2-time_1)
+        if fuse:
+            # import pdb; pdb.set_trace()
+            output += to_list(set_mode_layer(input_tensors + output_crown))
+        else:
+            output = output_crown
 
     return input_tensors, output, backward_map, None
 
@@ -451,13 +448,12 @@ def convert_backward(
     input_tensors, output, backward_map, toto = result
     mode_from = get_mode(ibp, affine)
     mode_to = get_mode(final_ibp, final_affine)
-    output = Convert2Mode(
+    output = convert_output_mode(
+        output,
+        input_tensors=input_tensors,
         mode_from=mode_from,
         mode_to=mode_to,
         perturbation_domain=perturbation_domain,
         input_dim=input_dim,
-    )(output)
-    if mode_to != mode_from and mode_from == ForwardMode.IBP:
-        f_input = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))
-        output[0] = f_input([input_tensors[1], input_tensors[0]])
+    )
     return input_tensors, output, backward_map, toto
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..84dc541 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -17,10 +17,10 @@ from decomon.models.forward_cloning import (
 )
 from decomon.models.models import DecomonModel
 from decomon.models.utils import (
-    Convert2Mode,
     ConvertMethod,
     FeedDirection,
     check_model2convert_inputs,
+    convert_output_mode,
     ensure_functional_model,
     get_direction,
     get_ibp_affine_from_method,
@@ -159,9 +159,14 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
-        output = Convert2Mode(
-            mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
-        )(output)
+        output = convert_output_mode(
+            output,
+            input_tensors=input_tensors,
+            mode_from=mode_from,
+            mode_to=mode_to,
+            perturbation_domain=perturbation_domain,
+            input_dim=input_dim,
+        )
 
     # build decomon model
     return input_tensors, output, layer_map, forward_map
diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..675d022 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -11,7 +11,6 @@ from typing import Any, Optional, Union
 import keras
 from keras.layers import InputLayer, Layer
 from keras.models import Model
-from keras.src.utils.python_utils import to_list
 
 from decomon.core import BoxDomain, PerturbationDomain, Slope
 from decomon.layers.convert import to_decomon
@@ -22,6 +21,7 @@ from decomon.models.utils import (
     get_depth_dict,
     get_inner_layers,
     get_input_dim,
+    get_output_nodes,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
 )
@@ -217,12 +217,8 @@ def convert_forward_functional_model(
             output_map[id(node)] = wrap_outputs_from_layer_in_list(output)
 
     output = []
-    output_nodes = dico_nodes[0]
-    # the ordering may change
-    output_names = [tensor._keras_history.operation.name for tensor in to_list(model.output)]
-    for output_name in output_names:
-        for node in output_nodes:
-            if node.operation.name == output_name:
-                output += output_map[id(node)]
+    # the outputs can be at any depth, in any order
+    for node in get_output_nodes(model):
+        output += output_map[id(node)]
 
     return input_tensors, output, layer_map, output_map, layer2layer_map
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..dd3fbab 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -17,6 +17,7 @@ from keras.layers import (
 )
 from keras.src import Functional
 from keras.src.ops.node import Node
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -272,6 +273,12 @@ def get_depth_dict(model: Model) -> dict[int, list[Node]]:
     return dico_nodes
 
 
+def get_output_nodes(model: Model) -> list[Node]:
+    """Get the node producing each output of the model, in the order of the outputs."""
+    histories = [tensor._keras_history for tensor in to_list(model.output)]
+    return [history.operation._inbound_nodes[history.node_index] for history in histories]
+
+
 def get_inner_layers(model: Model) -> int:
     count = 0
     for layer in model.layers:
@@ -312,6 +319,13 @@ class Convert2Mode(Layer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
+        # convert the bounds of each output of the model
+        outputs: list[BackendTensor] = []
+        for inputs_by_output in self.inputs_outputs_spec_from.split_inputsformode_to_merge(inputs):
+            outputs += self.call_on_one_output(inputs_by_output)
+        return outputs
+
+    def call_on_one_output(self, inputs: list[BackendTensor]) -> list[BackendTensor]:
         compute_ibp_from_affine = self.mode_from == ForwardMode.AFFINE and self.mode_to != ForwardMode.AFFINE
         tight = self.mode_from == ForwardMode.HYBRID and self.mode_to != ForwardMode.AFFINE
         compute_dummy_affine = self.mode_from == ForwardMode.IBP and self.mode_to != ForwardMode.IBP
@@ -321,7 +335,11 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            if self.input_dim > 0:
+                # null weights wrt the input of the model
+                w = K.repeat(K.expand_dims(K.zeros_like(l_c), 1), self.input_dim, axis=1)
+            else:
+                w = K.zeros_like(BatchedIdentityLike()(l_c))
             w_u = w
             b_u = u_c
             w_l = w
@@ -332,6 +350,12 @@ class Convert2Mode(Layer):
         )
 
     def compute_output_shape(self, input_shape: list[tuple[Optional[int], ...]]) -> list[tuple[Optional[int], ...]]:
+        output_shapes: list[tuple[Optional[int], ...]] = []
+        for input_shape_by_output in self.inputs_outputs_spec_from.split_inputsformode_to_merge(input_shape):
+            output_shapes += self.compute_one_output_shape(input_shape_by_output)
+        return output_shapes
+
+    def compute_one_output_shape(self, input_shape: list[tuple[Optional[int], ...]]) -> list[tuple[Optional[int], ...]]:
         (
             x_shape,
             u_c_shape,
@@ -343,6 +367,11 @@ class Convert2Mode(Layer):
             h_shape,
             g_shape,
         ) = self.inputs_outputs_spec_from.get_fullinputshapes_from_inputshapesformode(input_shape)
+        if self.mode_from == ForwardMode.IBP and self.mode_to != ForwardMode.IBP:
+            x_shape = (u_c_shape[0], 2) + tuple(u_c_shape[1:])
+            if self.input_dim > 0:
+                w_u_shape = (u_c_shape[0], self.input_dim) + tuple(u_c_shape[1:])
+                w_l_shape = w_u_shape
         return self.inputs_outputs_spec_to.extract_inputshapesformode_from_fullinputshapes(
             [x_shape, u_c_shape, w_u_shape, b_u_shape, l_c_shape, w_l_shape, b_l_shape, h_shape, g_shape]
         )
@@ -355,6 +384,31 @@ class Convert2Mode(Layer):
         return config
 
 
+def convert_output_mode(
+    output: list[keras.KerasTensor],
+    input_tensors: list[keras.KerasTensor],
+    mode_from: ForwardMode,
+    mode_to: ForwardMode,
+    perturbation_domain: PerturbationDomain,
+    input_dim: int = -1,
+) -> list[keras.KerasTensor]:
+    """Convert the outputs of a decomon model from one mode to another."""
+    output = Convert2Mode(
+        mode_from=mode_from, mode_to=mode_to, perturbation_domain=perturbation_domain, input_dim=input_dim
+    )(output)
+    if mode_from == ForwardMode.IBP and mode_to != ForwardMode.IBP:
+        # the affine bounds are wrt the input of the model, only known through its constant bounds
+        u_c, l_c = input_tensors
+        if isinstance(perturbation_domain, BallDomain):
+            x = Lambda(lambda z: (z[0] + z[1]) / 2.0)([l_c, u_c])
+        else:
+            x = Lambda(lambda z: Concatenate(1)([z[0][:, None], z[1][:, None]]))([l_c, u_c])
+        nb_tensors = InputsOutputsSpec(mode=mode_to, perturbation_domain=perturbation_domain).nb_tensors
+        for i in range(0, len(output), nb_tensors):
+            output[i] = x
+    return output
+
+
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         return model
-- 
2.43.0


From 084d04a3e4f067077b02035ea69bf1890a392517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 21/48] fix: do not modify the final softmax of the original
 model

---
 src/decomon/layers/utils.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index bd159a5..a5af0ff 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -7,6 +7,7 @@ from keras.config import epsilon
 from keras.constraints import Constraint
 from keras.initializers import Initializer
 from keras.layers import Layer
+from keras.src.utils.python_utils import to_list
 
 from decomon.core import (
     BallDomain,
@@ -407,23 +408,36 @@ def softmax_to_linear(model: keras.Model) -> tuple[keras.Model, bool]:
     Returns:
         model without the softmax
     """
-    layer = model.layers[-1]
-    # check that layer is not an instance of the object Softmax
-    if isinstance(layer, keras.layers.Softmax):
-        model_normalize = keras.models.Model(model.get_input_at(0), keras.layers.Activation("linear")(layer.input))
-
-        return model_normalize, True
+    # do not modify the original layers: replace the final softmax by new linear activations
+    outputs = []
+    has_softmax = False
+    for output in to_list(model.output):
+        history = output._keras_history
+        layer = history.operation
+        if isinstance(layer, (keras.layers.Softmax, keras.layers.Activation)) and is_softmax(layer):
+            output = keras.layers.Activation("linear", dtype=layer.dtype)(
+                layer._inbound_nodes[history.node_index].input_tensors[0]
+            )
+            has_softmax = True
+        outputs.append(output)
+    if has_softmax:
+        return keras.models.Model(model.inputs, outputs if len(outputs) > 1 else outputs[0]), True
 
-    if hasattr(layer, "activation"):
-        if not layer.get_config()["activation"] == "softmax":
-            return model, False
-        layer.get_config()["activation"] = "linear"
+    # softmax embedded in the last layer
+    layer = model.layers[-1]
+    if hasattr(layer, "activation") and is_softmax(layer):
         layer.activation = keras.activations.get("linear")
         return model, True
 
     return model, False
 
 
+def is_softmax(layer: Layer) -> bool:
+    if isinstance(layer, keras.layers.Softmax):
+        return True
+    return layer.get_config().get("activation") == "softmax"
+
+
 def linear_to_softmax(model: keras.Model) -> tuple[keras.Model, bool]:
     model.layers[-1].activation = keras.activations.get("softmax")
     return model
-- 
2.43.0


From 9f8620ecb5b8c51b274cfa35d81ab2929e7ae4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 22/48] fix: keep the names of the layers of the original model

---
 src/decomon/models/forward_cloning.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 675d022..8533165 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -146,6 +146,7 @@ def convert_forward_functional_model(
     output_map: Optional[OutputMapDict] = None,
     layer_map: Optional[LayerMapDict] = None,
     layer2layer_map: Optional[dict[int, list[Layer]]] = None,
+    names: Optional[set[str]] = None,
 ) -> tuple[list[keras.KerasTensor], list[keras.KerasTensor], LayerMapDict, OutputMapDict, dict[int, list[Layer]]]:
     if softmax_to_linear:
         model, has_softmax = softmax_2_linear(model)
@@ -164,6 +165,8 @@ def convert_forward_functional_model(
         layer_map = {}
     if layer2layer_map is None:
         layer2layer_map = {}
+    if names is None:
+        names = set()
     output: list[keras.KerasTensor] = input_tensors
     for depth in keys:
         nodes = dico_nodes[depth]
@@ -194,6 +197,7 @@ def convert_forward_functional_model(
                     softmax_to_linear=softmax_to_linear,
                     count=count,
                     layer2layer_map=layer2layer_map,
+                    names=names,
                 )
                 count = count + get_inner_layers(layer)
                 layer_map.update(layer_map_submodel)
@@ -207,8 +211,12 @@ def convert_forward_functional_model(
                 else:
                     converted_layers = layer_fn(layer)
                     layer2layer_map[id(layer)] = converted_layers
+                    for converted_layer in converted_layers:
+                        # ensure unique names, but keep the names of the original layers if possible
+                        if converted_layer is not layer or layer.name in names:
+                            converted_layer.name = f"{converted_layer.name}_{count}"
+                        names.add(converted_layer.name)
                 for converted_layer in converted_layers:
-                    converted_layer.name = f"{converted_layer.name}_{count}"
                     count += 1
                     output = converted_layer(prepare_inputs_for_layer(output))
                     if len(converted_layers) > 1:
-- 
2.43.0


From 6e6ac02bf87f3b10aa1104670d318c4280fe86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 23/48] fix: take the changes of domain of a converted model
 into account everywhere

---
 src/decomon/models/models.py |  3 +++
 src/decomon/models/utils.py  | 44 ++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..bc68001 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -69,6 +69,9 @@ class DecomonModel(keras.Model):
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
+                for attribute in vars(layer).values():
+                    if isinstance(attribute, InputsOutputsSpec):
+                        attribute.perturbation_domain = self.perturbation_domain
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index dd3fbab..a6e2114 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -86,6 +86,30 @@ def check_model2convert_inputs(model: Model) -> None:
         raise ValueError("The model must have a flattened input to be converted.")
 
 
+class BallToBox(Layer):
+    """Constant upper and lower bounds of the points of a ball.
+
+    The ball is read at each call so that changing the domain of a model is taken into account.
+
+    """
+
+    def __init__(self, perturbation_domain: BallDomain, **kwargs: Any):
+        super().__init__(**kwargs)
+        self.perturbation_domain = perturbation_domain
+
+    def call(self, inputs: BackendTensor) -> list[BackendTensor]:
+        radius = K.cast(self.perturbation_domain.eps, dtype=inputs.dtype)
+        return [inputs + radius, inputs - radius]
+
+    def compute_output_shape(self, input_shape: tuple[Optional[int], ...]) -> list[tuple[Optional[int], ...]]:
+        return [input_shape, input_shape]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"perturbation_domain": self.perturbation_domain})
+        return config
+
+
 def get_input_tensors(
     model: Model,
     perturbation_domain: PerturbationDomain,
@@ -119,25 +143,11 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
+        if ibp:
+            u_c_tensor, l_c_tensor = BallToBox(perturbation_domain, dtype=z_tensor.dtype)(z_tensor)
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From f515cb53d840aaa93e58951239824c1045db6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 24/48] fix: encode the labels given as classes in the
 adversarial scores

---
 src/decomon/wrapper.py | 63 +++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 0b66282..1873c4a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,31 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
+def prepare_labels(labels: LabelType, n_batch: int, n_classes: int) -> np.typing.NDArray[np.int_]:
+    """Encode labels by one boolean (0 or 1) by sample and by class.
+
+    Args:
+        labels: either a single class, or for each sample
+            - either one boolean by class,
+            - or one or several classes (less than the number of classes).
+        n_batch: number of samples
+        n_classes: number of classes
+
+    Returns:
+        array of shape (n_batch, n_classes)
+    """
     if isinstance(labels, (int, np.int_)):
         labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
-    elif not isinstance(labels, np.ndarray):
-        labels = np.array(labels).reshape((n_batch, -1))
-    else:
-        labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+    labels = np.reshape(labels, (n_batch, -1)).astype("int_")
+    if labels.shape[1] == n_classes:
+        return labels
+    encoded_labels = np.zeros((n_batch, n_classes), dtype=np.int_)
+    np.put_along_axis(encoded_labels, labels, 1, axis=1)
+    return encoded_labels
+
+
+def _get_n_classes(model: DecomonModel) -> int:
+    return int(np.prod(model.output_shape[-1][1:]))
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +118,10 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    n_classes = _get_n_classes(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_classes)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, n_classes)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -311,18 +329,10 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
-
+    n_classes = _get_n_classes(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_classes)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_classes)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -857,14 +867,15 @@ def refine_box(
 
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
             # every sub-box has the labels of the box it belongs to
+            n_classes = _get_n_classes(decomon_model)
             results = func(
                 decomon_model,
                 x_min=x_min_split,
                 x_max=x_max_split,
-                source_labels=np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0),
+                source_labels=np.repeat(prepare_labels(source_labels, n_x, n_classes), n_split, axis=0),
                 target_labels=None
                 if target_labels is None
-                else np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0),
+                else np.repeat(prepare_labels(target_labels, n_x, n_classes), n_split, axis=0),
                 batch_size=batch_size,
             )
 
@@ -959,14 +970,10 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    n_classes = _get_n_classes(decomon_model)
+    source_labels = prepare_labels(source_labels, n_batch, n_classes)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, n_classes)
 
     if batch_size > 0:
         # split
-- 
2.43.0


From f9af76b0f14ade0e19519f45552aaf5151be9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 25/48] fix: bound over the actual ball of the model when eps
 is negative

---
 src/decomon/wrapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 1873c4a..0676b0c 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -689,6 +689,10 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    # use the actual domain of the model (unchanged if eps is negative)
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
@@ -957,7 +961,9 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    # use the actual domain of the model (unchanged if eps is negative)
     eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
-- 
2.43.0


From bd5905019687f0216dea84c93f2939b554a4b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 26/48] fix: split and sort of bounds crashed with keras 3

---
 src/decomon/layers/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index a5af0ff..725de1a 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -701,19 +701,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
@@ -781,7 +781,7 @@ def sort(
     empty_tensor_list = [empty_tensor] * n
 
     # what about splitting elements
-    op_split = lambda x: K.split(x, n, axis=axis)
+    op_split = lambda x: list(K.split(x, n, axis=axis))
     if ibp:
         u_c_list = op_split(u_c)
         l_c_list = op_split(l_c)
@@ -789,9 +789,9 @@ def sort(
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_u_list = list(K.split(w_u, n, axis=axis + 1))
         b_u_list = op_split(b_u)
-        w_l_list = K.split(w_l, n, axis=axis + 1)
+        w_l_list = list(K.split(w_l, n, axis=axis + 1))
         b_l_list = op_split(b_l)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
-- 
2.43.0


From 65c78773a5cb8c466004e755a0b3a998690c6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:09 +0000
Subject: [PATCH 27/48] fix: functions on bounds with a negative axis other
 than -1

---
 src/decomon/layers/utils.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 725de1a..ee20fe4 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -175,8 +175,8 @@ def sum(
         u_c_out, l_c_out = empty_tensor, empty_tensor
 
     if affine:
-        if axis == -1:
-            axis_w = -1
+        if axis < 0:
+            axis_w = axis
         else:
             axis_w = axis + 1
         w_u_out = K.sum(w_u, axis=axis_w)
@@ -308,7 +308,7 @@ def max_(
         b_u_tmp = b_u_list[0] + 0 * (b_u_list[0])
         b_l_tmp = b_l_list[0] + 0 * (b_l_list[0])
 
-        if axis == -1:
+        if axis < 0:
             w_u_list = K.split(w_u, max_dim, axis)
             w_l_list = K.split(w_l, max_dim, axis)
         else:
@@ -381,7 +381,7 @@ def max_(
     if mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
         b_u_out = K.squeeze(b_u_out, axis)
         b_l_out = K.squeeze(b_l_out, axis)
-        if axis == -1:
+        if axis < 0:
             w_u_out = K.squeeze(w_u_out, axis)
             w_l_out = K.squeeze(w_l_out, axis)
         else:
@@ -642,10 +642,10 @@ def broadcast(
             u_c = K.expand_dims(u_c, axis)
             l_c = K.expand_dims(l_c, axis)
 
-    if axis != -1:
-        axis_w = axis + 1
+    if axis < 0:
+        axis_w = axis
     else:
-        axis_w = -1
+        axis_w = axis + 1
 
     if affine:
         for _ in range(n):
@@ -685,11 +685,8 @@ def split(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    axis = axis % len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -710,10 +707,8 @@ def split(
         b_u_list = K.split(b_u, n, axis=axis)
         b_l_list = K.split(b_l, n, axis=axis)
 
-        if axis != -1:
-            axis += 1
-        w_u_list = K.split(w_u, n, axis=axis)
-        w_l_list = K.split(w_l, n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_l_list = K.split(w_l, n, axis=axis + 1)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
@@ -770,11 +765,8 @@ def sort(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
-        n = input_shape[-1]
-        axis = len(input_shape) - 1
-    else:
-        n = input_shape[axis]
+    axis = axis % len(input_shape)
+    n = input_shape[axis]
     if n is None:
         raise ValueError(f"Dimension {axis} corresponding to `axis` cannot be None")
 
@@ -1026,7 +1018,7 @@ def expand_dims(
     dtype = x.dtype
     empty_tensor = inputs_outputs_spec.get_empty_tensor(dtype=dtype)
 
-    if axis == -1:
+    if axis < 0:
         axis_w = axis
     else:
         axis_w = axis + 1
-- 
2.43.0


From fd3e9b20a61e048791466cf5701f35df165a5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 28/48] fix: BackwardAverage with more than 2 inputs dropped
 some of them

---
 src/decomon/backward_layers/backward_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..6a87a1a 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -228,7 +228,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
-- 
2.43.0


From f47a47615debcf8367acb94a52c309b4a4423cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 29/48] fix: backward_minimum bounded the maximum of its inputs

---
 src/decomon/backward_layers/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..04dda8e 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -379,13 +379,15 @@ def backward_minimum(
 
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
-    w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
+    # min(x, y) = -max(-x, -y)
+    inputs_0 = minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain)
+    inputs_1 = minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain)
     bounds_0, bounds_1 = backward_maximum(
         inputs_0,
         inputs_1,
-        w_u_out,
+        -w_u_out,
         b_u_out,
-        w_l_out,
+        -w_l_out,
         b_l_out,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -396,8 +398,9 @@ def backward_minimum(
     w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0 = bounds_0
     w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1 = bounds_1
 
-    bounds_0 = backward_minus(w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0)
-    bounds_1 = backward_minus(w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1)
+    # bounds according to the inputs, and not to their opposites
+    bounds_0 = [-w_u_out_0, b_u_out_0, -w_l_out_0, b_l_out_0]
+    bounds_1 = [-w_u_out_1, b_u_out_1, -w_l_out_1, b_l_out_1]
 
     return [bounds_0, bounds_1]
 
-- 
2.43.0


From 2b1cb117895029fb9438632bc583d12dfe8d014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 30/48] fix: backward_multiply mixed up the dimensions of its
 inputs

---
 src/decomon/backward_layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 04dda8e..2232548 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -544,7 +544,7 @@ def backward_multiply(
     n = int(np.prod(u_c_0.shape[1:]))
     n_shape = [-1, n]
     # broadcast dimensions if needed
-    n_out = len(w_u_out.shape[1:])
+    n_out = len(w_u_out.shape[2:])
     for _ in range(n_out):
         n_shape += [1]
     a_u_0 = K.reshape(u_c_1, n_shape)
-- 
2.43.0


From 6c04491af6b6c9df8dbd335fa4ed58a057cb4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 31/48] fix: share the weights of batch normalisation layers

---
 src/decomon/layers/decomon_layers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 5c4b00f..6ca9236 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -812,9 +812,21 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
-        super().build(input_shape)
+        if self.shared and hasattr(self, "moving_mean"):
+            # the weights are those of the original layer, see share_weights()
+            self._reduction_axes = list(range(len(input_shape[-1])))
+            del self._reduction_axes[self.axis]
+            self.built = True
+        else:
+            super().build(input_shape)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
 
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for weight_name in self.keras_weights_names:
+            setattr(self, weight_name, getattr(layer, weight_name))
+
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
 
-- 
2.43.0


From 0f8a523ca192a701de62bc3ac8a3b25abc2bcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 32/48] fix: bound the linear combinations of the outputs in
 forward conversions

---
 src/decomon/models/backward_cloning.py | 15 ++++---
 src/decomon/models/convert.py          |  8 +++-
 src/decomon/models/crown.py            | 60 ++++++++++++++++++++++++++
 3 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 44e7f45..f9f8154 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -396,6 +396,15 @@ def crown_model(
     return input_tensors, output, backward_map, None
 
 
+def get_full_back_bounds(back_bounds: list[keras.KerasTensor]) -> list[keras.KerasTensor]:
+    """Add the missing bias to the coefficients of linear combinations of the outputs."""
+    if len(back_bounds) == 1:
+        C = back_bounds[0]
+        bias = K.zeros_like(C[:, 0])
+        back_bounds = [C, bias] * 2
+    return back_bounds
+
+
 def convert_backward(
     model: Model,
     input_tensors: list[keras.KerasTensor],
@@ -423,11 +432,7 @@ def convert_backward(
         forward_map = {}
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
-    if len(back_bounds):
-        if len(back_bounds) == 1:
-            C = back_bounds[0]
-            bias = K.zeros_like(C[:, 0])
-            back_bounds = [C, bias] * 2
+    back_bounds = get_full_back_bounds(back_bounds)
     result = crown_model(
         model=model,
         input_tensors=input_tensors,
diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 84dc541..fa624c7 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -8,7 +8,8 @@ from keras.models import Model
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
 from decomon.layers.convert import to_decomon
-from decomon.models.backward_cloning import convert_backward
+from decomon.models.backward_cloning import convert_backward, get_full_back_bounds
+from decomon.models.crown import CombineOutputs
 from decomon.models.forward_cloning import (
     LayerMapDict,
     OutputMapDict,
@@ -159,6 +160,11 @@ def convert(
         # check final_ibp and final_affine
         mode_from = get_mode(ibp, affine)
         mode_to = get_mode(final_ibp, final_affine)
+        if len(back_bounds):
+            # bounds of the linear combinations of the outputs
+            if len(model.outputs) > 1:
+                raise NotImplementedError()
+            output = CombineOutputs(mode=mode_from)(output + get_full_back_bounds(back_bounds))
         output = convert_output_mode(
             output,
             input_tensors=input_tensors,
diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 5d1afa0..55d1e91 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -137,6 +137,66 @@ class MergeWithPrevious(Layer):
         return config
 
 
+class CombineOutputs(Layer):
+    """Bounds of linear combinations of the outputs of a model, given the bounds of these outputs.
+
+    The inputs of the layer are the bounds of the outputs (w.r.t. `mode`), and 4 tensors:
+    the coefficients and the bias of the combinations, for the upper bound then for the lower bound.
+
+    """
+
+    def __init__(self, mode: Union[str, ForwardMode], **kwargs: Any):
+        super().__init__(**kwargs)
+        self.mode = ForwardMode(mode)
+
+    def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
+        bounds = inputs[:-4]
+        w_b_u, b_b_u, w_b_l, b_b_l = inputs[-4:]
+        n_out = w_b_u.shape[1]
+        if self.mode == ForwardMode.IBP:
+            u_c, l_c = bounds
+        elif self.mode == ForwardMode.AFFINE:
+            x, w_u, b_u, w_l, b_l = bounds
+        else:
+            x, u_c, w_u, b_u, l_c, w_l, b_l = bounds
+
+        if self.mode != ForwardMode.AFFINE:
+            z_value = K.cast(0.0, dtype=w_b_u.dtype)
+            u_c, l_c = K.reshape(u_c, (-1, n_out)), K.reshape(l_c, (-1, n_out))
+            u_c, l_c = (
+                batch_dot(u_c, K.maximum(w_b_u, z_value), (-1, -2))
+                + batch_dot(l_c, K.minimum(w_b_u, z_value), (-1, -2))
+                + b_b_u,
+                batch_dot(l_c, K.maximum(w_b_l, z_value), (-1, -2))
+                + batch_dot(u_c, K.minimum(w_b_l, z_value), (-1, -2))
+                + b_b_l,
+            )
+        if self.mode == ForwardMode.IBP:
+            return [u_c, l_c]
+
+        w_u, w_l = [K.reshape(w, (-1, w.shape[1], n_out)) for w in (w_u, w_l)]
+        b_u, b_l = [K.reshape(b, (-1, n_out)) for b in (b_u, b_l)]
+        w_u, b_u, w_l, b_l = merge_with_previous([w_u, b_u, w_l, b_l, w_b_u, b_b_u, w_b_l, b_b_l])
+        if self.mode == ForwardMode.AFFINE:
+            return [x, w_u, b_u, w_l, b_l]
+        return [x, u_c, w_u, b_u, l_c, w_l, b_l]
+
+    def compute_output_shape(self, input_shape: list[tuple[Optional[int], ...]]) -> list[tuple[Optional[int], ...]]:
+        b_shape = input_shape[-1]
+        if self.mode == ForwardMode.IBP:
+            return [b_shape] * 2
+        x_shape = input_shape[0]
+        w_shape = (x_shape[0], x_shape[-1], b_shape[-1])
+        if self.mode == ForwardMode.AFFINE:
+            return [x_shape] + [w_shape, b_shape] * 2
+        return [x_shape] + [b_shape, w_shape, b_shape] * 2
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"mode": self.mode})
+        return config
+
+
 def merge_with_previous_compute_output_shape(
     input_shapes: list[tuple[Optional[int], ...]]
 ) -> list[tuple[Optional[int], ...]]:
-- 
2.43.0


From 36432f78990a189ffb5c7bbb8ad79e0b7ad05daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 33/48] fix: give the constant bounds their shape back in crown
 conversions

---
 src/decomon/models/backward_cloning.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index f9f8154..3e23ed9 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union
 import keras
 import keras.ops as K
 from keras.config import floatx
-from keras.layers import Lambda, Layer
+from keras.layers import Lambda, Layer, Reshape
 from keras.models import Model
 from keras.src.ops.node import Node
 from keras.src.utils.python_utils import to_list
@@ -216,6 +216,17 @@ def crown_(
             return backward_bounds, fuse_layer
 
 
+def reshape_constant_bounds(
+    bounds: list[keras.KerasTensor], node: Node, ibp: bool, affine: bool
+) -> list[keras.KerasTensor]:
+    """Give back to (flattened) constant bounds the shape of the output of the node."""
+    outputs = node.output_tensors
+    if affine or not ibp or len(outputs) > 1 or len(outputs[0].shape) < 3:
+        return bounds
+    reshape_layer = Reshape(outputs[0].shape[1:], dtype=bounds[0].dtype)
+    return [reshape_layer(bound) for bound in bounds]
+
+
 def get_input_nodes(
     model: Model,
     dico_nodes: dict[int, list[Node]],
@@ -276,7 +287,7 @@ def get_input_nodes(
                         if set_mode_layer is None:
                             set_mode_layer = Convert2BackwardMode(get_mode(ibp, affine), perturbation_domain)
                         output_crown = set_mode_layer(input_tensors + output_crown)
-                        output += to_list(output_crown)
+                        output += reshape_constant_bounds(to_list(output_crown), parent, ibp=ibp, affine=affine)
                         # crown_map[id(parent)]=output_crown_
 
                 input_map[id(node)] = output
-- 
2.43.0


From a8ad6b9dbc7c1f28fd0de9086ecab7999da351cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 34/48] fix: freeze the variables of converted models with
 keras 3

---
 .../backward_layers/backward_layers.py        | 67 +++----------------
 src/decomon/backward_layers/core.py           | 17 +----
 src/decomon/keras_utils.py                    | 35 ++++++++++
 src/decomon/layers/core.py                    | 18 +----
 src/decomon/layers/decomon_layers.py          | 44 ++----------
 src/decomon/models/models.py                  | 25 +++++++
 6 files changed, 79 insertions(+), 127 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 69a24ea..3a3ef32 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -63,7 +63,6 @@ class BackwardDense(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         if len(inputs) == 0:
@@ -107,27 +106,12 @@ class BackwardDense(BackwardLayer):
         if self.layer.kernel is None:
             raise RuntimeError("self.layer.kernel cannot be None when calling self.build()")
         self.kernel = self.layer.kernel
-        self._trainable_weights = [self.kernel]
         if self.use_bias:
             if self.layer.bias is None:
                 raise RuntimeError("self.layer.bias cannot be None when calling self.build()")
             self.bias = self.layer.bias
-            self._trainable_weights.append(self.bias)
         self.built = True
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardConv2D(BackwardLayer):
     """Backward  LiRPA of Conv2D"""
@@ -164,7 +148,6 @@ class BackwardConv2D(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def get_affine_components(self, inputs: list[BackendTensor]) -> tuple[BackendTensor, BackendTensor]:
         """Express the implicit affine matrix of the convolution layer.
@@ -214,19 +197,6 @@ class BackwardConv2D(BackwardLayer):
         weight_, bias_ = self.get_affine_components(inputs)
         return [weight_, bias_] * 2
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardActivation(BackwardLayer):
     def __init__(
@@ -253,8 +223,6 @@ class BackwardActivation(BackwardLayer):
         self.slope = Slope(slope)
         self.finetune = finetune
         self.finetune_param: list[keras.Variable] = []
-        if self.finetune:
-            self.frozen_alpha = False
         self.grid_finetune: list[keras.Variable] = []
         self.frozen_grid = False
 
@@ -401,34 +369,21 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
-            self.frozen_alpha = False
+    @property
+    def finetune_variables(self) -> list[keras.Variable]:
+        return [getattr(self, name) for name in ("alpha_b_u", "alpha_b_l") if hasattr(self, name)]
+
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        grid_ids = {id(v) for v in self.grid_finetune}
+        frozen = [v for v in super().frozen_variables if id(v) not in grid_ids]
+        return frozen + (list(self.grid_finetune) if self.frozen_grid else [])
 
     def freeze_grid(self) -> None:
-        if len(self.grid_finetune) and not self.frozen_grid:
-            self._trainable_weights = self._trainable_weights[2:]
-            self.frozen_grid = True
+        self.frozen_grid = True
 
     def unfreeze_grid(self) -> None:
-        if len(self.grid_finetune) and self.frozen_grid:
-            self._trainable_weights = self.grid_finetune + self._trainable_weights
-            self.frozen_grid = False
+        self.frozen_grid = False
 
 
 class BackwardFlatten(BackwardLayer):
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 99baf27..5c32e31 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -1,7 +1,6 @@
 from abc import ABC, abstractmethod
 from typing import Any, Optional, Union
 
-import keras
 import numpy as np
 from keras.layers import InputLayer, Layer, Wrapper
 
@@ -14,13 +13,13 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
+from decomon.keras_utils import Freezable
 from decomon.layers.core import DecomonLayer
 from decomon.types import BackendTensor
 
 
-class BackwardLayer(ABC, Wrapper):
+class BackwardLayer(Freezable, ABC, Wrapper):
     layer: Layer
-    _trainable_weights: list[keras.Variable]
 
     def __init__(
         self,
@@ -128,17 +127,5 @@ class BackwardLayer(ABC, Wrapper):
 
         return [w_shape, b_shape, w_shape, b_shape]
 
-    def freeze_weights(self) -> None:
-        pass
-
-    def unfreeze_weights(self) -> None:
-        pass
-
-    def freeze_alpha(self) -> None:
-        pass
-
-    def unfreeze_alpha(self) -> None:
-        pass
-
     def reset_finetuning(self) -> None:
         pass
diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 681f359..43f43b0 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -73,6 +73,41 @@ def is_symbolic_tensor(x: Tensor) -> bool:
     return None in x.shape
 
 
+class Freezable:
+    """Mixin for layers whose variables can be temporarily excluded from the trainable ones.
+
+    The variables themselves are left unchanged, as they can be shared with other layers (e.g. the original keras layer).
+
+    """
+
+    variables: list[keras.Variable]
+    frozen_weights: bool = False
+    frozen_alpha: bool = False
+
+    @property
+    def finetune_variables(self) -> list[keras.Variable]:
+        """Fine-tuning parameters of the layer."""
+        return []
+
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        """Variables of the layer currently excluded from the trainable ones."""
+        alpha_ids = {id(v) for v in self.finetune_variables}
+        return [v for v in self.variables if (self.frozen_alpha if id(v) in alpha_ids else self.frozen_weights)]
+
+    def freeze_weights(self) -> None:
+        self.frozen_weights = True
+
+    def unfreeze_weights(self) -> None:
+        self.frozen_weights = False
+
+    def freeze_alpha(self) -> None:
+        self.frozen_alpha = True
+
+    def unfreeze_alpha(self) -> None:
+        self.frozen_alpha = False
+
+
 def get_weight_index(layer: Layer, weight: keras.Variable) -> int:
     """Get weight index among layer tracked weights
 
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 86ef87c..7051951 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -12,15 +12,13 @@ from decomon.core import (
     get_affine,
     get_ibp,
 )
-from decomon.keras_utils import check_if_single_shape, reset_layer
+from decomon.keras_utils import Freezable, check_if_single_shape, reset_layer
 from decomon.types import BackendTensor
 
 
-class DecomonLayer(ABC, Layer):
+class DecomonLayer(Freezable, ABC, Layer):
     """Abstract class that contains the common information of every implemented layers for Forward LiRPA"""
 
-    _trainable_weights: list[keras.Variable]
-
     @property
     @abstractmethod
     def original_keras_layer_class(self) -> type[Layer]:
@@ -221,18 +219,6 @@ class DecomonLayer(ABC, Layer):
         """
         raise NotImplementedError()
 
-    def freeze_weights(self) -> None:
-        pass
-
-    def unfreeze_weights(self) -> None:
-        pass
-
-    def freeze_alpha(self) -> None:
-        pass
-
-    def unfreeze_alpha(self) -> None:
-        pass
-
     def reset_finetuning(self) -> None:
         pass
 
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 6ca9236..e080d5c 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -272,18 +272,6 @@ class DecomonConv2D(DecomonLayer, Conv2D):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonDense(DecomonLayer, Dense):
     """Forward LiRPA implementation of Dense layers.
@@ -522,18 +510,6 @@ class DecomonDense(DecomonLayer, Dense):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonActivation(DecomonLayer, Activation):
     """Forward LiRPA implementation of Activation layers.
@@ -621,6 +597,10 @@ class DecomonActivation(DecomonLayer, Activation):
             )
             return output
 
+    @property
+    def finetune_variables(self) -> list[keras.Variable]:
+        return [getattr(self, name) for name in ("beta_u_f", "beta_l_f") if hasattr(self, name)]
+
     def reset_finetuning(self) -> None:
         if self.finetune and self.mode != ForwardMode.IBP:
             if self.activation_name != "linear":
@@ -630,22 +610,6 @@ class DecomonActivation(DecomonLayer, Activation):
                     self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
                     self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
 
-    def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
-            self.frozen_alpha = True
-
-    def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
-            self.frozen_alpha = False
-
 
 class DecomonFlatten(DecomonLayer, Flatten):
     """Forward LiRPA implementation of Flatten layers.
diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index bc68001..21ef092 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -13,6 +13,7 @@ from decomon.core import (
     Option,
     PerturbationDomain,
 )
+from decomon.keras_utils import Freezable
 from decomon.models.utils import ConvertMethod
 
 
@@ -73,6 +74,30 @@ class DecomonModel(keras.Model):
                     if isinstance(attribute, InputsOutputsSpec):
                         attribute.perturbation_domain = self.perturbation_domain
 
+    @property
+    def trainable_weights(self) -> list[keras.Variable]:
+        return self._exclude_frozen(super().trainable_weights)
+
+    @property
+    def trainable_variables(self) -> list[keras.Variable]:
+        return self._exclude_frozen(super().trainable_variables)
+
+    @property
+    def non_trainable_weights(self) -> list[keras.Variable]:
+        trainable_ids = {id(v) for v in self.trainable_weights}
+        return [v for v in self.weights if id(v) not in trainable_ids]
+
+    @property
+    def non_trainable_variables(self) -> list[keras.Variable]:
+        trainable_ids = {id(v) for v in self.trainable_variables}
+        return [v for v in self.variables if id(v) not in trainable_ids]
+
+    def _exclude_frozen(self, variables: list[keras.Variable]) -> list[keras.Variable]:
+        frozen_ids = {
+            id(v) for layer in self.layers if isinstance(layer, Freezable) for v in layer.frozen_variables
+        }
+        return [v for v in variables if id(v) not in frozen_ids]
+
     def freeze_weights(self) -> None:
         for layer in self.layers:
             if hasattr(layer, "freeze_weights"):
-- 
2.43.0


From e7a3b9167bf6499a354c48ff9d0eb7fdc9d29d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 35/48] fix: reset the fine-tuning parameters of converted
 models

---
 src/decomon/backward_layers/backward_layers.py | 8 ++++++++
 src/decomon/layers/decomon_layers.py           | 9 ++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 3a3ef32..2c4d7c4 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -373,6 +373,14 @@ class BackwardActivation(BackwardLayer):
     def finetune_variables(self) -> list[keras.Variable]:
         return [getattr(self, name) for name in ("alpha_b_u", "alpha_b_l") if hasattr(self, name)]
 
+    def reset_finetuning(self) -> None:
+        for variable in self.finetune_variables:
+            alpha = np.ones(variable.shape)
+            if len(alpha.shape) == 2:
+                # grid domain
+                alpha[1:] = 0.0
+            variable.assign(alpha)
+
     @property
     def frozen_variables(self) -> list[keras.Variable]:
         grid_ids = {id(v) for v in self.grid_finetune}
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index e080d5c..9ef3b05 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -602,13 +602,8 @@ class DecomonActivation(DecomonLayer, Activation):
         return [getattr(self, name) for name in ("beta_u_f", "beta_l_f") if hasattr(self, name)]
 
     def reset_finetuning(self) -> None:
-        if self.finetune and self.mode != ForwardMode.IBP:
-            if self.activation_name != "linear":
-                if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
-                else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+        for variable in self.finetune_variables:
+            variable.assign(np.ones(variable.shape))
 
 
 class DecomonFlatten(DecomonLayer, Flatten):
-- 
2.43.0


From 9cec9a1d4c964bbd5e9a7e4a30035957525c245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 36/48] fix: predict in graph mode, where the batch size is
 unknown

---
 src/decomon/backward_layers/backward_layers.py | 15 +++++++--------
 src/decomon/keras_utils.py                     |  8 +++-----
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 2c4d7c4..ea5c27c 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -71,10 +71,11 @@ class BackwardDense(BackwardLayer):
         y = inputs[-1]
         flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:-1]))
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
-        batchsize = y.shape[0]
+        # zeros with the batch size of the inputs, as it can be unknown
+        zero_batch = K.zeros_like(K.reshape(y, (-1, int(np.prod(y.shape[1:]))))[:, :1])
 
         # kernel reshaped: diagonal by blocks, with original kernel on the diagonal, `flatten_inputdim_wo_last_dim` times
-        #                  repeated batchsize times
+        #                  repeated for each element of the batch
         zero_block = K.zeros_like(self.kernel)
         kernel_diag_by_block = K.concatenate(
             [
@@ -85,13 +86,11 @@ class BackwardDense(BackwardLayer):
             ],
             axis=-2,
         )
-        w = K.repeat(kernel_diag_by_block[None], batchsize, axis=0)
+        w = kernel_diag_by_block[None] + zero_batch[:, :, None]
         if self.use_bias:
-            b = K.repeat(
-                K.reshape(K.repeat(self.bias[None], flatten_inputdim_wo_last_dim, axis=0), (1, -1)), batchsize, axis=0
-            )
+            b = K.reshape(K.repeat(self.bias[None], flatten_inputdim_wo_last_dim, axis=0), (1, -1)) + zero_batch
         else:
-            b = K.zeros((batchsize, flatten_outputdim), dtype=self.dtype)
+            b = K.zeros((1, flatten_outputdim), dtype=self.dtype) + zero_batch
 
         return [w, b, w, b]
 
@@ -562,7 +561,7 @@ class BackwardBatchNormalization(BackwardLayer):
 
         # reshape w
         w_b = K.reshape(
-            K.reshape(BatchedIdentityLike()(K.reshape(y, (-1, n_out))), tuple(y.shape) + (-1,))
+            K.reshape(BatchedIdentityLike()(K.reshape(y, (-1, n_out))), (-1,) + tuple(y.shape[1:]) + (n_out,))
             * K.reshape(w, shape + [1]),
             (-1, n_out, n_out),
         )
diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 43f43b0..4514d61 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -22,10 +22,8 @@ class BatchedIdentityLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        input_shape = x.shape
-        identity_tensor = K.identity(input_shape[-1], dtype=x.dtype)
-        n_repeat = int(np.prod(input_shape[:-1]))
-        return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(input_shape) + (-1,))
+        # no need for the batch size, as it can be unknown
+        return K.expand_dims(K.zeros_like(x), -1) + K.identity(x.shape[-1], dtype=x.dtype)
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
@@ -50,7 +48,7 @@ class BatchedDiagLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        return K.concatenate([K.diag(K.ravel(w_part))[None] for w_part in K.split(x, len(x), axis=0)], axis=0)
+        return K.expand_dims(x, -1) * K.identity(x.shape[-1], dtype=x.dtype)
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
-- 
2.43.0


From 629954e61b651d5c7de5c6d2aced536cafcf4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 37/48] fix: fine-tuning parameters of activations of
 multidimensional inputs

---
 src/decomon/backward_layers/backward_layers.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index ea5c27c..996598c 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -264,20 +264,20 @@ class BackwardActivation(BackwardLayer):
                     self.finetune_param.append(self.alpha_b_l)
 
             else:
+                # same shape as the bounds of the activation inputs
+                alpha_shape = tuple(input_shape[-1][1:])
                 self.alpha_b_l = self.add_weight(
-                    shape=(input_dim,),
+                    shape=alpha_shape,
                     initializer="ones",
                     name="alpha_l_b",
                     regularizer=None,
                     constraint=ClipAlpha(),
                 )
-                alpha_b_l = np.ones((input_dim,))
-                # alpha_b_l[0] = 1
-                self.alpha_b_l.assign(alpha_b_l)
+                self.alpha_b_l.assign(np.ones(alpha_shape))
 
                 if self.activation_name[:4] != "relu":
                     self.alpha_b_u = self.add_weight(
-                        shape=(input_dim,),
+                        shape=alpha_shape,
                         initializer="ones",
                         name="alpha_u_b",
                         regularizer=None,
@@ -375,8 +375,7 @@ class BackwardActivation(BackwardLayer):
     def reset_finetuning(self) -> None:
         for variable in self.finetune_variables:
             alpha = np.ones(variable.shape)
-            if len(alpha.shape) == 2:
-                # grid domain
+            if isinstance(self.perturbation_domain, GridDomain):
                 alpha[1:] = 0.0
             variable.assign(alpha)
 
-- 
2.43.0


From c3fca3889356ee00408b26ca1aaf19f4a04986ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 38/48] fix: bounds, optimizer and sub-boxes of the tuning
 wrappers

---
 src/decomon/wrapper_with_tuning.py | 38 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index c7af68a..f3f2170 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -5,7 +5,7 @@ import numpy as np
 import numpy.typing as npt
 from keras.optimizers import Adam
 
-from decomon.metrics.loss import get_upper_loss
+from decomon.metrics.loss import get_lower_loss, get_upper_loss
 from decomon.models.models import DecomonModel
 from decomon.wrapper import get_lower_box, get_upper_box, refine_boxes
 
@@ -42,15 +42,22 @@ def get_upper_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
+        n_split = x_min.shape[1]
         # reshape
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
 
+        upper = get_upper_box_tuning(
+            decomon_model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+
+        return np.max(np.reshape(upper, [-1, n_split] + list(upper.shape[1:])), 1)
+
+    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
     input_dim = np.prod(input_shape)
@@ -84,11 +91,11 @@ def get_upper_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-        upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
 
         # reset alpha
         model.reset_finetuning()
@@ -128,15 +135,22 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
+        n_split = x_min.shape[1]
         # reshape
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
 
+        lower = get_lower_box_tuning(
+            decomon_model, decomon_model_concat, x_min, x_max, batch_size=batch_size, lr=lr, epochs=epochs
+        )
+
+        return np.min(np.reshape(lower, [-1, n_split] + list(lower.shape[1:])), 1)
+
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
     input_dim = np.prod(input_shape)
@@ -170,14 +184,14 @@ def get_lower_box_tuning(
         model.freeze_weights()
 
         # create loss
-        loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        loss_lower = get_lower_loss(model)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
 
-        decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
+        decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
 
         # reset alpha
         model.reset_finetuning()
 
-        return np.minimum(baseline_upper, upper)
+        return np.maximum(baseline_lower, lower)
-- 
2.43.0


From 87a4070069a58771e83ef95fc22941845d8436cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 39/48] fix: build formal metric models on the outputs of
 converted models

---
 src/decomon/metrics/metric.py | 64 +++++++++++++++++------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/decomon/metrics/metric.py b/src/decomon/metrics/metric.py
index 45b600d..51da85a 100644
--- a/src/decomon/metrics/metric.py
+++ b/src/decomon/metrics/metric.py
@@ -239,6 +239,33 @@ class AdversarialScore(AdversarialCheck):
         return adv_score
 
 
+def _build_metric_model(metric_class: type[MetricLayer], decomon_model: DecomonModel) -> keras.Model:
+    """Plug a metric layer on the outputs of a decomon model
+
+    Args:
+        metric_class: metric layer to be computed
+        decomon_model
+
+    Returns:
+        model taking as inputs the ones of decomon_model and the one-hot encoded labels
+
+    """
+    layer = metric_class(
+        ibp=decomon_model.ibp,
+        affine=decomon_model.affine,
+        mode=MetricMode.FORWARD,
+        perturbation_domain=decomon_model.perturbation_domain,
+    )
+    outputs = decomon_model.outputs
+    z_tensor = outputs[0] if decomon_model.affine else decomon_model.inputs[0]
+    bounds = outputs[1:] if decomon_model.affine else outputs
+    y_out = Input(outputs[-1].shape[1:])
+
+    # x is not used by the metric layers
+    score = layer([z_tensor, z_tensor] + list(bounds) + [y_out])
+    return Model(list(decomon_model.inputs) + [y_out], score)
+
+
 def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     """automatic design on a Keras  model which predicts a certificate of adversarial robustness
 
@@ -250,16 +277,7 @@ def build_formal_adv_check_model(decomon_model: DecomonModel) -> keras.Model:
     """
     # check type and that backward pass is available
 
-    perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialCheck(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
-
-    adv_score = layer(output + [y_out])
-    adv_model = Model(input + [y_out], adv_score)
-    return adv_model
+    return _build_metric_model(AdversarialCheck, decomon_model)
 
 
 def build_formal_adv_model(decomon_model: DecomonModel) -> keras.Model:
@@ -273,16 +291,7 @@ def build_formal_adv_model(decomon_model: DecomonModel) -> keras.Model:
     """
     # check type and that backward pass is available
 
-    perturbation_domain = decomon_model.perturbation_domain
-    layer = AdversarialScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
-
-    adv_score = layer(output + [y_out])
-    adv_model = Model(input + [y_out], adv_score)
-    return adv_model
+    return _build_metric_model(AdversarialScore, decomon_model)
 
 
 class UpperScore(MetricLayer):
@@ -338,7 +347,7 @@ class UpperScore(MetricLayer):
             upper_affine = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
             upper_score = K.minimum(upper_ibp, upper_affine)
         elif not self.ibp and self.affine:
-            _, _, w_u_f, b_u_f = inputs[:6]
+            _, _, w_u_f, b_u_f = inputs[:4]
             upper_score = self.linear_upper(z_tensor, y_tensor, w_u_f, b_u_f)
         elif self.ibp and not self.affine:
             _, _, u_c, l_c = inputs[:4]
@@ -365,16 +374,7 @@ def build_formal_upper_model(decomon_model: DecomonModel) -> keras.Model:
     """
     # check type and that backward pass is available
 
-    perturbation_domain = decomon_model.perturbation_domain
-    layer = UpperScore(decomon_model.ibp, decomon_model.affine, decomon_model.mode, perturbation_domain)
-    output = decomon_model.output
-    input = decomon_model.input
-    n_out = decomon_model.output[0].shape[1:]
-    y_out = Input(n_out)
-
-    upper_score = layer(output + [y_out])
-    upper_model = Model(input + [y_out], upper_score)
-    return upper_model
+    return _build_metric_model(UpperScore, decomon_model)
 
 
 def _get_ibp_score(
@@ -392,7 +392,7 @@ def _get_ibp_score(
 
     score_u = (
         l_c_reshaped * target_tensor
-        - K.expand_dims(K.min(u_c_reshaped * source_tensor, -1), -1)
+        - K.expand_dims(K.min(u_c_reshaped + 1e6 * (1 - source_tensor), -1), -1)
         - 1e6 * (1 - target_tensor)
     )
 
-- 
2.43.0


From 67b2231ec9faac8208233339847e3cb1e8e63184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 40/48] fix: robust losses over balls and without softmax

---
 src/decomon/metrics/loss.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..a7f2ddf 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
@@ -602,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -626,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From 5761f16bf99abb8f82518458ac7cc6f1ca6a5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 41/48] fix: pass the perturbation domain to the sum of the
 categorical cross-entropy

In hybrid mode the constant bounds of the sum of exponentials were recomputed
from its affine bounds as if the domain were a box.
---
 src/decomon/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/metrics/utils.py b/src/decomon/metrics/utils.py
index 3cc9a7e..957f68f 100644
--- a/src/decomon/metrics/utils.py
+++ b/src/decomon/metrics/utils.py
@@ -19,7 +19,7 @@ def categorical_cross_entropy(
         perturbation_domain = BoxDomain()
     outputs = exp(inputs, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 2: sum
-    outputs = sum(outputs, axis=-1, mode=mode)
+    outputs = sum(outputs, axis=-1, mode=mode, perturbation_domain=perturbation_domain, dc_decomp=dc_decomp)
     # step 3: log
     outputs = log(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     outputs = expand_dims(outputs, dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain, axis=-1)
-- 
2.43.0


From 808a0c6de4f277aab09543d076b012a74442bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 42/48] fix: refuse to merge inputs of different ranks

Keras aligns them on their batch axis, whereas the bounds were broadcast
along it.
---
 src/decomon/layers/decomon_merge_layers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 73b0802..5f8eae8 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -85,6 +85,8 @@ class DecomonMerge(DecomonLayer):
         n_comp = self.nb_tensors
         input_shape_y = input_shape[n_comp - 1 :: n_comp]
         self.original_keras_layer_class.build(self, input_shape_y)
+        if getattr(self, "_reshape_required", False):
+            raise NotImplementedError("Merging inputs of different ranks is not implemented.")
 
 
 class DecomonAdd(DecomonMerge, Add):
-- 
2.43.0


From e9c5d81c4fc16b6964bbd544666aa7fde1e300c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 43/48] fix: refuse the models redefining call()

Their layers were converted as if call() was the one of keras.
---
 src/decomon/models/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index a6e2114..40c8900 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -421,8 +421,12 @@ def convert_output_mode(
 
 def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
+        if type(model).call is not Functional.call:
+            raise NotImplementedError("Decomon model not available for functional models redefining `call()`.")
         return model
     elif isinstance(model, Sequential):
+        if type(model).call is not Sequential.call:
+            raise NotImplementedError("Decomon model not available for sequential models redefining `call()`.")
         model = Model(model.inputs, model.outputs)
         assert isinstance(model, Functional)  # should be the case after passage in Model.__init__()
         return model
-- 
2.43.0


From 7030c68daaf07f85145fc0b05bc9304118179adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 44/48] fix: refuse the layers with LoRA enabled

Their low-rank update was ignored by the bounds.
---
 src/decomon/layers/convert.py | 2 ++
 src/decomon/models/utils.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/decomon/layers/convert.py b/src/decomon/layers/convert.py
index 4b39d0c..8fa133d 100644
--- a/src/decomon/layers/convert.py
+++ b/src/decomon/layers/convert.py
@@ -95,6 +95,8 @@ def _to_decomon_wo_input_init(
     if hasattr(layer, "built"):
         if not layer.built:
             raise ValueError(f"the layer {layer.name} has not been built yet")
+    if getattr(layer, "lora_enabled", False):
+        raise NotImplementedError("Not implemented for layers with LoRA enabled.")
     decomon_class_name = f"Decomon{class_name}"
     config_layer = layer.get_config()
     config_layer["name"] = layer.name + "_decomon"
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index 40c8900..ac5d499 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -196,6 +196,8 @@ def wrap_outputs_from_layer_in_list(
 
 
 def split_activation(layer: Layer) -> list[Layer]:
+    if getattr(layer, "lora_enabled", False):
+        raise NotImplementedError("Not implemented for layers with LoRA enabled.")
     # get activation
     config = layer.get_config()
     activation = config.pop("activation", None)
-- 
2.43.0


From 4dd063807f70f2fd0a09e724e9305b230c3ce594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 45/48] fix: refuse the models starting inside another one

Keras keeps the layers before their input in the graph of such models, and
they were converted too.
---
 src/decomon/models/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index ac5d499..5917301 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -10,6 +10,7 @@ from keras.layers import (
     Concatenate,
     Flatten,
     Input,
+    InputLayer,
     Lambda,
     Layer,
     Maximum,
@@ -425,6 +426,8 @@ def ensure_functional_model(model: Model) -> Functional:
     if isinstance(model, Functional):
         if type(model).call is not Functional.call:
             raise NotImplementedError("Decomon model not available for functional models redefining `call()`.")
+        if not all(isinstance(x._keras_history.operation, InputLayer) for x in model.inputs):
+            raise NotImplementedError("Decomon model not available for models starting inside another one.")
         return model
     elif isinstance(model, Sequential):
         if type(model).call is not Sequential.call:
-- 
2.43.0


From ca428a8f518a3bb739820398a16fe71ba85f0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 46/48] fix: slope in the configuration of DecomonActivation

A layer rebuilt from its configuration had the default slope.
---
 src/decomon/layers/decomon_layers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 9ef3b05..8b7e370 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -546,6 +546,11 @@ class DecomonActivation(DecomonLayer, Activation):
         self.activation = activations.get(activation)
         self.activation_name = activation
 
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"slope": self.slope})
+        return config
+
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
         if self.finetune and self.mode in [ForwardMode.HYBRID, ForwardMode.AFFINE]:
             shape = input_shape[-1][1:]
-- 
2.43.0


From eaa3829e812941cfb095486e576e5edf352ae88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 47/48] fix: rebuild the domain of a wrapped decomon layer

The configuration of a backward layer serializes the decomon layer it wraps,
whose domain remained a dictionary once rebuilt.
---
 src/decomon/core.py        | 4 ++++
 src/decomon/layers/core.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 522933c..b50a180 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -45,6 +45,10 @@ class PerturbationDomain(ABC):
             "opt_option": self.opt_option,
         }
 
+    @classmethod
+    def from_config(cls, config: dict[str, Any]) -> "PerturbationDomain":
+        return cls(**config)
+
     def get_x_input_shape_wo_batchsize(self, original_input_dim: int) -> tuple[int, ...]:
         n_comp_x = self.get_nb_x_components()
         if n_comp_x == 1:
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 7051951..5e4b180 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -3,6 +3,7 @@ from typing import Any, Optional, Union
 
 import keras
 from keras.layers import Layer
+from keras.utils import deserialize_keras_object
 
 from decomon.core import (
     BoxDomain,
@@ -48,6 +49,9 @@ class DecomonLayer(Freezable, ABC, Layer):
 
         if perturbation_domain is None:
             perturbation_domain = BoxDomain()
+        elif isinstance(perturbation_domain, dict):
+            # serialized domain, in the configuration of a layer wrapped by another one
+            perturbation_domain = deserialize_keras_object(perturbation_domain)
         self.inputs_outputs_spec = InputsOutputsSpec(
             dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain
         )
-- 
2.43.0


From ac73f70659d9554d4f41d512a10329d0fd44fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 48/48] fix: keep the precision of the kernel in the matrix of
 a convolution

get_toeplitz cast the kernel to float32: with floatx float64 the backward
relaxation of a convolution was not the convolution, hence bounds which
excluded values of the network.
---
 src/decomon/backward_layers/utils_conv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index f8b53e1..b7ec0a0 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -83,9 +83,8 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_area)
 
-    # element-wise multiplication is only compatible with float32
-    diag_patches_ = K.cast(diag_patches_, "float32")
-    kernel = K.cast(kernel, "float32")
+    # keep the precision of the kernel
+    diag_patches_ = K.cast(diag_patches_, kernel.dtype)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
     # kernel shape: (1,1,1,1,1,c_in, c_out, filter_area)
-- 
2.43.0

