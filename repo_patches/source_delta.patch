From bcb7043fba829fc63271d302981ccf32229a45f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:55 +0000
Subject: [PATCH 01/17] fix: record Sequential's feature maps in forward, not
 through hooks of its layers

The forward hooks were closures over the first owner of the layers. A deep copy
recorded into the original's list (and raised IndexError itself), the model could
not be pickled, a layer used twice recorded every call twice (silently wrong
products), jvp and jmp grew the list without bound, and a forward pass that
raised left a half-filled list behind.
---
 nnj/sequential.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..213b35f 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,19 +20,15 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
-        if self.add_hooks:
-            self.feature_maps = [x]
+        feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
+            feature_maps.append(val.detach())
             x = val
+        if self.add_hooks:
+            self.feature_maps = feature_maps
         return x
 
     @torch.no_grad()
-- 
2.43.0


From 4a5432eec22865edcbd4138d53213bf49ce7bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 02/17] fix: Sequential products use the feature maps of their
 own input

When the caller passed val, vjp, mjp, jTmjp and jmjTp trusted the feature maps of
the most recent forward pass, whatever input, weights or thread that pass was
for, and silently returned products for the wrong point.
---
 nnj/sequential.py | 61 +++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 213b35f..5160537 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -21,15 +21,18 @@ class Sequential(AbstractJacobian, nn.Sequential):
         if self.add_hooks:
             self.feature_maps = []
 
-    def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
-        feature_maps = [x.detach()]
+    def _compute_feature_maps(self, x: Tensor) -> List[Tensor]:
+        """Returns the input, followed by the output of each layer"""
+        feature_maps = [x]
         for module in self._modules.values():
-            val = module(x)
-            feature_maps.append(val.detach())
-            x = val
+            feature_maps.append(module(feature_maps[-1]))
+        return feature_maps
+
+    def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
+        feature_maps = self._compute_feature_maps(x)
         if self.add_hooks:
-            self.feature_maps = feature_maps
-        return x
+            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
+        return feature_maps[-1]
 
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
@@ -134,8 +137,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -144,8 +147,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             for k in range(len(self._modules_list)):
                 # propagate through the input
                 matrix = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="input",
                     from_diag=from_diag if k == 0 else diag_backprop,
@@ -178,8 +181,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 # propagate through the input
                 if jmjTp is not None:
                     jmjTp = self._modules_list[k].jmjTp(
-                        self.feature_maps[k],
-                        self.feature_maps[k + 1],
+                        feature_maps[k],
+                        feature_maps[k + 1],
                         jmjTp,
                         wrt="input",
                         from_diag=diag_backprop,
@@ -190,8 +193,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 if self._modules_list[k]._n_params == 0:
                     continue
                 jmjTp_from_layer = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix[k_with_params],
                     wrt="weight",
                     from_diag=from_diag,
@@ -225,21 +228,21 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
 
         # backward pass
         vs = []
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
+                v_k = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="weight")
                 if v_k is not None:
                     vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                 if k == 0:
                     break
             # backpropagate through the input
-            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
+            vector = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="input")
         if wrt == "weight":
             return torch.cat(vs, dim=1) if len(vs) > 0 else None
         elif wrt == "input":
@@ -260,8 +263,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -270,13 +273,13 @@ class Sequential(AbstractJacobian, nn.Sequential):
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                m_k = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="weight")
+                m_k = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="weight")
                 if m_k is not None:
                     ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                 if k == 0:
                     break
             # backpropagate through the input
-            matrix = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input")
+            matrix = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="input")
         if wrt == "weight":
             return torch.cat(ms, dim=2) if len(ms) > 0 else None
         elif wrt == "input":
@@ -298,8 +301,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
@@ -309,8 +312,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             # backpropagate through the weight
             if wrt == "weight":
                 m_k = self._modules_list[k].jTmjp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="weight",
                     from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
@@ -324,8 +327,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     break
             # backpropagate through the input
             matrix = self._modules_list[k].jTmjp(
-                self.feature_maps[k],
-                self.feature_maps[k + 1],
+                feature_maps[k],
+                feature_maps[k + 1],
                 matrix,
                 wrt="input",
                 from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
-- 
2.43.0


From 52eccff955035c1d47a63b9bff41df0b7263d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 03/17] fix: MaxPool2d products use the maxima of their own
 input

With val given, the products read the indexes that the most recent forward pass,
possibly on another input, another place in the model or another thread, left on
the layer.
---
 nnj/maxpool2d.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..b6e45f7 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -13,8 +13,9 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         self._n_params = 0
         self.idx = None
 
-    def forward(self, input: Tensor):
-        val, idx = F.max_pool2d(
+    def _pool(self, input: Tensor) -> Tuple[Tensor, Tensor]:
+        """Returns the pooled input and the indexes of the maxima"""
+        return F.max_pool2d(
             input,
             self.kernel_size,
             self.stride,
@@ -23,6 +24,9 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             self.ceil_mode,
             return_indices=True,
         )
+
+    def forward(self, input: Tensor):
+        val, idx = self._pool(input)
         self.idx = idx
         return val
 
@@ -98,7 +102,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
             matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
-            idx = self.idx.reshape(-1)
+            idx = self._pool(x)[1].reshape(-1)
             matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
@@ -170,7 +174,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b * c2, h2 * w2)
+            idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
             vector_J[arange_repeated, idx] = vector
@@ -208,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
+            idx = self._pool(x)[1].reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
@@ -256,7 +260,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1), h2 * w2 * h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
+                idx = self._pool(x)[1].reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
                 idx_col = idx.unsqueeze(1).expand(-1, c1, -1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 idx_row = (
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
@@ -292,7 +296,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b * c2, h2 * w2)
+                idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-- 
2.43.0


From 35a8231c99945d9574402238cfe02fc092178f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:51 +0000
Subject: [PATCH 04/17] fix: MaxPool2d products with overlapping windows, and
 jmp with any number of columns

Windows that overlap can have the same maximum: the products assigned the
contributions of such windows over each other instead of adding them.
---
 nnj/maxpool2d.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index b6e45f7..3f7c469 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -100,10 +100,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self._pool(x)[1].reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
@@ -177,7 +177,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            # overlapping windows can share their maximum
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -216,7 +217,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            # overlapping windows can share their maximum
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -267,7 +269,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                # overlapping windows can share their maximum
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -300,7 +303,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                # overlapping windows can share their maximum
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From de3ea3ffc08a639a5dc94551858e6268632ba8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:06 +0000
Subject: [PATCH 05/17] fix: products of Conv2d, MaxPool2d, Upsample and L2Norm
 keep the input's dtype

Identities, weights and buffers were allocated in the default dtype: with a
float64 model the products raised, or were silently rounded to float32.
---
 nnj/conv2d.py    | 10 +++++-----
 nnj/l2norm.py    |  2 +-
 nnj/maxpool2d.py |  8 ++++----
 nnj/upsample.py  | 10 +++++-----
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..f9387a3 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..edf8c2d 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -38,7 +38,7 @@ class L2Norm(AbstractJacobian, nn.Module):
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
             jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 3f7c469..a9bb305 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -48,7 +48,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -176,7 +176,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             # overlapping windows can share their maximum
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
@@ -216,7 +216,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self._pool(x)[1].reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             # overlapping windows can share their maximum
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
@@ -268,7 +268,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
                 # overlapping windows can share their maximum
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..297579a 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +219,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +268,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From 50dc0f9599be9f95498c64c6406cc79377158913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 06/17] fix: transpose the left Jacobian in the generic jTmjp
 with a diagonal metric or result

Layers that inherit jTmjp and whose Jacobian is not symmetric got J M J (or an
error, if it is not square) instead of J^T M J unless both metric and result were full.
---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 03f969d362c08316c595af7045752a149b66bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 07/17] fix: set_weight copies the vector and refuses one of
 the wrong length

The parameters were views of the caller's vector: changing it in place changed the
model, and an optimizer step on the model changed the vector. A vector too short
raised after some of the parameters had been set, one too long was accepted.
---
 nnj/abstract_jacobian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..0f96f95 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -243,4 +243,8 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        n_params = sum(parameter.numel() for parameter in self.parameters())
+        if weight.numel() != n_params:
+            raise ValueError(f"Expected a weight vector with {n_params} elements, got {weight.numel()}")
+        # the parameters become views of the vector: give them a vector that the caller does not hold
+        torch.nn.utils.vector_to_parameters(weight.detach().clone(), self.parameters())
-- 
2.43.0


From 8cafa55f6a608a4d23c333842e4e06260be13394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 08/17] fix: Linear's Jacobian with respect to the input is not
 a view of the weight

It changed under the caller's feet with every in-place update of the weight, and
changing it changed the model.
---
 nnj/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index fc19c8a..7d6b6a5 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -21,7 +21,7 @@ class Linear(nn.Linear, AbstractJacobian):
         """Returns the Jacobian matrix"""
         b, c1 = x.shape
         if wrt == "input":
-            return self.weight.unsqueeze(0).expand(b, *self.weight.shape)
+            return self.weight.clone().unsqueeze(0).expand(b, *self.weight.shape)
         elif wrt == "weight":
             if val is None:
                 val = self.forward(x)
-- 
2.43.0


From 4228e9b3cdf9136fafcff3aaa44311a493e2508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 09/17] fix: Sequential keeps its layer list and parameter
 count in step with edits

append, insert, item assignment and deletion changed the forward pass, but the
products went on with the layers that the container was built from.
---
 nnj/sequential.py     | 16 ++++++++--------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5160537..bf06ffc 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,18 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
-
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    @property
+    def _modules_list(self) -> List[nn.Module]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules.values())
+
     def _compute_feature_maps(self, x: Tensor) -> List[Tensor]:
         """Returns the input, followed by the output of each layer"""
         feature_maps = [x]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..d879ca7 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From 40cc8e39795ae6afffda9fd31509383b8124b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 10/17] fix: SkipConnection without parameters, with val given
 to jacobian, or with the identity metric

The products with respect to the weight of a parameterless SkipConnection raised
instead of returning None, jacobian took the whole output for that of the inner
part, and None as metric (the identity) only worked on one dimensional data.
---
 nnj/skipconnection.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index d879ca7..2839b9e 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -26,9 +26,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         x: Tensor,
         val: Union[Tensor, None] = None,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None, wrt=wrt)
+        if jac is None:  # non parametric
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -51,13 +53,15 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
         b = x.shape[0]
         l = x[0].numel()
         jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        if jvp is None:  # non parametric
+            return None
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -71,7 +75,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -80,6 +84,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        if jmp is None:  # non parametric
+            return None
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -96,7 +102,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
@@ -105,6 +111,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
             val = self.forward(x)
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
+        if matrix is None and wrt == "input":
+            matrix = torch.ones_like(x).reshape(b, l1)
+            from_diag = True
         jmjTp = self._F.jmjTp(
             x,
             None if val is None else val[:, l1:],
@@ -114,6 +123,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             to_diag=to_diag,
             diag_backprop=diag_backprop,
         )
+        if jmjTp is None:  # non parametric
+            return None
         if wrt == "input":
             if to_diag:
                 if from_diag:
@@ -196,7 +207,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
-- 
2.43.0


From ed5d80b5d671a68a606a7e9f1677233fb80da8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 11/17] fix: the identity metric on image shaped data in
 Sequential.jmjTp and Conv2d.jTmjp

None as metric became a diagonal in the shape of the image, which the products
do not accept, instead of a flat one.
---
 nnj/conv2d.py     | 2 +-
 nnj/sequential.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index f9387a3..b7692c7 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/sequential.py b/nnj/sequential.py
index bf06ffc..74c3a07 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -141,7 +141,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val = feature_maps[-1]
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
-- 
2.43.0


From f040aebb98446f6cab8a8b1ea39333ea6d2c7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:58 +0000
Subject: [PATCH 12/17] fix: accept the default aggregate_batch of the log
 likelihoods

"return all", the documented default, failed the assertion; None, which passed it,
made every method return None.
---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..d97f603 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,7 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 239d83afee12dd5c4b297b9ce1b8d2314aa4656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:58 +0000
Subject: [PATCH 13/17] fix: aggregate the full ggn of a Sequential, and
 LogBernoulli's ggn on several positions

With metric_shape="full" a Sequential returns one block per layer, which torch.sum
and torch.mean do not take. The number of positions was a float, which reshape
does not take.
---
 nnj/log_likelihoods.py | 43 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index d97f603..8de29d7 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -1,4 +1,4 @@
-from typing import Literal, Optional, Tuple, Union
+from typing import List, Literal, Optional, Tuple, Union
 
 import torch
 from torch import nn, Tensor
@@ -23,6 +23,18 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate_metric(self, metric: Union[torch.Tensor, List, None]) -> Union[torch.Tensor, List, None]:
+        if metric is None:  # non parametric model
+            return None
+        if isinstance(metric, list):  # block diagonal, one block for each layer
+            return [self._aggregate_metric(block) for block in metric]
+        if self.aggregate_batch == "return all":
+            return metric
+        elif self.aggregate_batch == "sum":
+            return torch.sum(metric, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(metric, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -70,7 +82,7 @@ class LogGaussian(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List, None]:
         b = x.shape[0]
         val = model(x)
 
@@ -85,12 +97,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -143,7 +150,7 @@ class LogBinaryBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List, None]:
         b = x.shape[0]
         val = model(x)
 
@@ -161,12 +168,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -221,11 +223,11 @@ class LogBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, List, None]:
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
@@ -253,9 +255,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
-- 
2.43.0


From a0a7ed43a89c69899f7f6a8dc382569e92e7387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 14/17] fix: Bernoulli gradients and ggn are finite for large
 logits

exp overflows for logits above 88 (float32), and the probabilities became nan,
while the log likelihood itself was computed safely.
---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 8de29d7..78e6d25 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -132,7 +132,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -154,7 +154,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -202,9 +202,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -229,9 +227,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From a005c99b953d99873a4ac8b263ca2a907b0aa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 15/17] fix: convert_to_nnj keeps the options and the nested
 layers of the model

It dropped the stride, padding and dilation of convolutions and pools, the options
of Upsample and Softplus and every layer inside a nested Sequential, and raised on
layers without bias.
---
 nnj/utils.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6a818f0 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -10,24 +10,51 @@ from nnj.sequential import Sequential
 def convert_to_nnj(sequential: Sequential) -> Sequential:
     model = []
     for layer in sequential:
-        if layer.__class__.__name__ == "Linear":
+        if layer.__class__.__name__ == "Sequential":
+            nnj_layer = convert_to_nnj(layer)
+        elif layer.__class__.__name__ == "Linear":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
+            )
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = getattr(nnj, layer.__class__.__name__)(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+            )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = getattr(nnj, layer.__class__.__name__)(
+                beta=layer.beta,
+                threshold=layer.threshold,
             )
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
-- 
2.43.0


From a470adc250fe856fad29b6141ab62527f2213a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 16/17] fix: get_weight reads weights that are not contiguous
 in memory

---
 nnj/abstract_jacobian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 0f96f95..74372d8 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -236,7 +236,8 @@ class AbstractJacobian:
         """
         Returns the weight of the module.
         """
-        return torch.nn.utils.parameters_to_vector(self.parameters())
+        # a parameter need not be contiguous in memory (channels last, for example), so it cannot be viewed flat
+        return torch.cat([parameter.reshape(-1) for parameter in self.parameters()])
 
     @torch.no_grad()
     def set_weight(self, weight: Tensor) -> None:
-- 
2.43.0


From 4a7ac03529d5eb396b58d85057228eab8d874636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:27 +0000
Subject: [PATCH 17/17] fix: the Jacobian of L2Norm is that of its forward
 pass, epsilon included

---
 nnj/l2norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index edf8c2d..328e497 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,7 +37,9 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
+            # the derivative of the norm is x / norm, without the epsilon; at the origin x is zero and so is the product
+            norm_derivative = torch.einsum("b,bi->bi", 1.0 / norm.clamp_min(torch.finfo(x.dtype).tiny), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, norm_derivative)
             jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
-- 
2.43.0

