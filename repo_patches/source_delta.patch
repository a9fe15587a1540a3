From 737a046cfabd3b95c70877354f7cc9b2f84a3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 01/32] fix: load the deserialized state dict into the wrapped
 PyTorch model

---
 thinc/shims/pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..15d8ddf 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -254,5 +254,6 @@ def default_deserialize_torch_model(
     filelike = BytesIO(state_bytes)
     filelike.seek(0)
     state_dict = torch.load(filelike, map_location=device, weights_only=weights_only)
+    model.load_state_dict(state_dict)
     model.to(device)
     return model
-- 
2.43.0


From 485c5b22c413ad969826d86bd95213e398f6cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/32] fix: restore scoped settings when the body of the
 context manager raises

---
 thinc/model.py         | 33 ++++++++++++++++++---------------
 thinc/shims/pytorch.py |  8 +++++---
 thinc/util.py          | 22 +++++++++++++++-------
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
@@ -355,19 +357,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 15d8ddf..09285d4 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -188,9 +188,11 @@ class PyTorchShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict(state_dict)
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..8144fd4 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,13 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        try:
+            f.close()
+        finally:
+            os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -605,8 +609,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
@@ -615,8 +621,10 @@ def use_nvtx_range(message: str, id_color: int = -1):
     ranges can be used as markers in CUDA profiling."""
     if has_cupy:
         cupy.cuda.nvtx.RangePush(message, id_color)
-        yield
-        cupy.cuda.nvtx.RangePop()
+        try:
+            yield
+        finally:
+            cupy.cuda.nvtx.RangePop()
     else:
         yield
 
-- 
2.43.0


From d99abb408843e983cb2fc61f0f75c7e425c11dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/32] fix: serialize the model before truncating the file in
 Model.to_disk

---
 thinc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..5ae11f8 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -567,9 +567,10 @@ class Model(Generic[InT, OutT]):
         """Serialize the model to disk. Most models will serialize to a single
         file, which should just be the bytes contents of model.to_bytes().
         """
+        bytes_data = self.to_bytes()
         path = Path(path) if isinstance(path, str) else path
         with path.open("wb") as file_:
-            file_.write(self.to_bytes())
+            file_.write(bytes_data)
 
     def to_dict(self) -> Dict:
         """Serialize the model to a dict representation.
-- 
2.43.0


From 8ab7ccdfb8e22eff664bb6e2c69e794739876253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/32] fix: don't drop items when the minibatch size is not a
 whole number

---
 thinc/backends/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..4b7834e 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -187,7 +187,8 @@ class Ops:
         output = []
         i = 0
         while i < length:
-            output.append(next(sizes))
+            # Schedules may yield floats, but only whole items can be sliced.
+            output.append(int(next(sizes)))
             i += output[-1]
         return output
 
-- 
2.43.0


From 6d2a0cfa1879649b1def2ed17931975f17f59279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 05/32] fix: don't reshuffle the batches of a minibatch
 iteration in progress

---
 thinc/backends/ops.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 4b7834e..34f9aad 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -115,13 +115,14 @@ class Ops:
         # trickery worthwhile: instead of being an actual generator, we
         # return our SizedGenerator object, which provides a __len__.
         def _iter_items():
-            if shuffle:
-                numpy.random.shuffle(indices)
+            # Each iteration needs its own order: the index array is shared with
+            # any other iteration that may still be in progress.
+            order = numpy.random.permutation(indices) if shuffle else indices
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                queue.append(self._get_batch(sequence, indices[i : i + size]))
+                queue.append(self._get_batch(sequence, order[i : i + size]))
                 if len(queue) >= buffer:
                     yield from queue
                     queue = []
@@ -154,13 +155,14 @@ class Ops:
         indices = numpy.arange(len(sequence))
 
         def _iter_items():
-            if shuffle:
-                numpy.random.shuffle(indices)
+            # Each iteration needs its own order: the index array is shared with
+            # any other iteration that may still be in progress.
+            order = numpy.random.permutation(indices) if shuffle else indices
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                idx_batch = indices[i : i + size]
+                idx_batch = order[i : i + size]
                 queue.append([])
                 for sequence in sequences:
                     queue[-1].append(self._get_batch(sequence, idx_batch))
-- 
2.43.0


From 70640c95858d77a8623552007cf73d6383a1ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/32] fix: don't add in place to arrays that belong to a
 sublayer or to the caller

---
 thinc/layers/add.py         | 4 ++--
 thinc/layers/concatenate.py | 2 +-
 thinc/layers/residual.py    | 8 ++++----
 thinc/layers/tuplify.py     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..b60e67c 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = dX + callback(dY)
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..3884928 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -84,7 +84,7 @@ def _array_forward(
             dY = model.ops.as_contig(d_output[:, start : start + width])
             gradient = bwd(dY)
             if add_gradients:
-                dX += gradient
+                dX = dX + gradient
             elif add_gradients_data:
                 dX.data += gradient.data
             start += width
diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..642d6d9 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -33,8 +33,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         elif isinstance(d_output, Ragged):
             return Ragged(d_output.data + dX.data, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -44,8 +45,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     elif isinstance(X, Ragged):
         return Ragged(X.data + Y.data, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
         return X + Y, backprop
 
diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..1de40d7 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -41,7 +41,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = dX + dx
         return dX
 
     return tuple(Ys), backprop_tuplify
-- 
2.43.0


From 7c9b4d3991524d51b965894366792698220e36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/32] fix: don't apply the embedding dropout mask to the
 caller's gradient in place

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From 698f42f7238bc98df1442985133d5b187aaf1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 08/32] fix: support an empty batch in the backward pass of
 HashEmbed

---
 thinc/layers/hashembed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..bad5413 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,16 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = len(ids)
+    drop_mask = None
+    if nN == 0:
+        keys = model.ops.alloc2i(0, 4)
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
-- 
2.43.0


From cdb73f3ad8c8c347066ff0ca58a4ea790cfdc301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 09/32] fix: don't run the wrapped layer of with_cpu in
 training mode during prediction

---
 thinc/layers/with_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 39e5965..69cafe8 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -22,7 +22,7 @@ def with_cpu(layer: Model, ops: Ops) -> Model:
 
 
 def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
-    cpu_outputs, backprop = model.layers[0].begin_update(_to_cpu(X))
+    cpu_outputs, backprop = model.layers[0](_to_cpu(X), is_train)
     gpu_outputs = _to_device(model.ops, cpu_outputs)
 
     def with_cpu_backprop(d_outputs):
-- 
2.43.0


From f89d3b78a355dace93f7d7428eb299430c20c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 10/32] fix: don't reuse a buffered RAdam step size for other
 beta values

---
 thinc/optimizers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..16e5a97 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -119,7 +119,7 @@ class Optimizer(object):
     L2: Schedule
     use_radam: bool
     L2_is_weight_decay: bool
-    _radam_buffer: List[List[Optional[FloatsXd]]]
+    _radam_buffer: List[List[Any]]
     _step: int
     _last_score: Optional[Tuple[int, float]]
 
@@ -324,10 +324,12 @@ class Optimizer(object):
 
         state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        # The schedules may give other betas for another step or parameter.
+        buffer_key = (state["step"], beta1, beta2)
+        if buffer_key == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = buffer_key
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From 48f9c5d9a5c37493c1722aed2717d68595c2af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 11/32] fix: keep node references when copying a model

---
 thinc/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index 5ae11f8..a7c5a8b 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -525,6 +525,11 @@ class Model(Generic[InT, OutT]):
         )
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
+        for name in self.ref_names:
+            ref = self.maybe_get_ref(name)
+            if ref is not None:
+                ref = copied if ref is self else cast("Model", seen.get(id(ref)))
+            copied.set_ref(name, ref)
         return cast(SelfT, copied)
 
     def to_gpu(self, gpu_id: int) -> None:  # pragma: no cover
-- 
2.43.0


From 85fa975d219f9458d9fdad01f762516d6808a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 12/32] fix: keep the accumulated gradients of a wrapped
 PyTorch model when copying it

---
 thinc/shims/pytorch.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 09285d4..cafb8cb 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -196,6 +196,17 @@ class PyTorchShim(Shim):
         else:
             yield
 
+    def copy(self):
+        copied = super().copy()
+        # PyTorch drops the gradients of parameters when they are deep-copied.
+        if self._model is not None:
+            for param, copied_param in zip(
+                self._model.parameters(), copied._model.parameters()
+            ):
+                if param.grad is not None:
+                    copied_param.grad = param.grad.clone()
+        return copied
+
     def to_device(self, device_type: str, device_id: int):  # pragma: no cover
         if device_type == "cpu":
             self._model.cpu()
-- 
2.43.0


From bb37550a50cb4b9a09f4df3ab452a699c8da1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 13/32] fix: don't unscale the gradients of earlier batches
 again in mixed-precision training

---
 thinc/shims/pytorch.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index cafb8cb..215eb28 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -139,6 +139,14 @@ class PyTorchShim(Shim):
                 grads.kwargs["grad_tensors"], inplace=True
             )
 
+            # The gradients of earlier batches are unscaled already: set them aside.
+            accumulated = []
+            if self._grad_scaler._enabled:
+                for param in self._model.parameters():
+                    if param.grad is not None:
+                        accumulated.append((param, param.grad))
+                        param.grad = None
+
             torch.autograd.backward(*grads.args, **grads.kwargs)
 
             # Unscale weights and check for overflows during backprop.
@@ -151,6 +159,9 @@ class PyTorchShim(Shim):
                     grad_tensors.append(torch_data.grad)
             found_inf = self._grad_scaler.unscale(grad_tensors)
 
+            for param, grad in accumulated:
+                param.grad = grad if param.grad is None else grad + param.grad
+
             # If there was an over/underflow, return zeroed-out gradients.
             if found_inf:
                 grad_get = lambda x: x.grad.zero_() if x.grad is not None else x.grad
-- 
2.43.0


From 066cda3d625a75cbd84015732d4cb0657d516e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 14/32] fix: give a copied shim an id of its own

---
 thinc/shims/shim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index ef88408..c353b08 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -50,7 +50,12 @@ class Shim:  # pragma: no cover
         yield
 
     def copy(self):
-        return copy.deepcopy(self)
+        copied = copy.deepcopy(self)
+        # Optimizers and use_params tell the parameters of shims apart by this id.
+        with Shim.global_id_lock:
+            Shim.global_id += 1
+            copied.id = Shim.global_id
+        return copied
 
     def to_device(self, device_type: str, device_id: int):
         raise NotImplementedError
-- 
2.43.0


From b49897edbb7462fb7e2e97adf78574e4f0f2989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 15/32] fix: detach the parameters of a copied TorchScript
 model from the original

---
 thinc/shims/pytorch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 215eb28..2f02ad6 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -214,6 +214,10 @@ class PyTorchShim(Shim):
             for param, copied_param in zip(
                 self._model.parameters(), copied._model.parameters()
             ):
+                # Deep-copied TorchScript parameters stay attached to the graph of
+                # the original, and would pass their gradients on to it.
+                if not copied_param.is_leaf:
+                    copied_param.detach_().requires_grad_(param.requires_grad)
                 if param.grad is not None:
                     copied_param.grad = param.grad.clone()
         return copied
-- 
2.43.0


From f115a59315d71988b094e17f363fff10921db707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 16/32] fix: index Ragged arrays with empty sequences

---
 thinc/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..3c1dad4 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1215,7 +1215,8 @@ class Ragged:
         else:
             # There must be a way to do this "properly" :(. Sigh, hate numpy.
             xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
+            # Slice the data directly: empty sequences must keep the row width.
+            data = xp.vstack([self.data[starts[int(i)] : ends[int(i)]] for i in index])
             return Ragged(data.reshape(self.data_shape), self.lengths[index])
 
     def _get_starts_ends(self) -> Ints1d:
-- 
2.43.0


From b6e47950b748064f9d9c66f3a52a096a4635d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:38 +0000
Subject: [PATCH 17/32] fix: don't expose unfinished Ragged offsets to other
 threads

---
 thinc/types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 3c1dad4..c74809d 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1222,9 +1222,11 @@ class Ragged:
     def _get_starts_ends(self) -> Ints1d:
         if self.starts_ends is None:
             xp = get_array_module(self.lengths)
-            self.starts_ends = xp.empty(self.lengths.size + 1, dtype="i")
-            self.starts_ends[0] = 0
-            self.lengths.cumsum(out=self.starts_ends[1:])
+            starts_ends = xp.empty(self.lengths.size + 1, dtype="i")
+            starts_ends[0] = 0
+            self.lengths.cumsum(out=starts_ends[1:])
+            # Assign the finished array only: another thread may already use it.
+            self.starts_ends = starts_ends
         return self.starts_ends
 
     def _get_starts(self) -> Ints1d:
-- 
2.43.0


From 23d54b42be2f6131a73addd146ce2effab39b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 18/32] fix: let with_debug run the copy when a model is copied

---
 thinc/layers/with_debug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_debug.py b/thinc/layers/with_debug.py
index 21790e4..0db427b 100644
--- a/thinc/layers/with_debug.py
+++ b/thinc/layers/with_debug.py
@@ -26,7 +26,7 @@ def with_debug(
 
     def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
         on_forward(model, X, is_train)
-        layer_Y, layer_callback = orig_forward(layer, X, is_train=is_train)
+        layer_Y, layer_callback = orig_forward(model, X, is_train=is_train)
 
         def backprop(dY: Any) -> Any:
             on_backprop(dY)
@@ -37,7 +37,7 @@ def with_debug(
     def init(model: Model, X: Any, Y: Any) -> None:
         on_init(model, X, Y)
         if orig_init is not None:
-            orig_init(layer, X, Y)
+            orig_init(model, X, Y)
 
     layer.replace_callbacks(forward, init=init)
 
-- 
2.43.0


From 3ce41fd9b008b97a1a10166039d960050fe6c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 19/32] fix: don't scale the caller's output gradients in place
 in mixed-precision training

---
 thinc/shims/pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 2f02ad6..c882fcb 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -134,9 +134,10 @@ class PyTorchShim(Shim):
             # locally in this shim. Scaling the loss by a factor, scales the gradients
             # by the same factor (see the chain rule). Therefore, we scale the gradients
             # backprop'ed through the succeeding layer to get the same effect as loss
-            # scaling.
+            # scaling. They may share memory with the caller's gradients, so they must
+            # not be scaled in place.
             grads.kwargs["grad_tensors"] = self._grad_scaler.scale(
-                grads.kwargs["grad_tensors"], inplace=True
+                grads.kwargs["grad_tensors"]
             )
 
             # The gradients of earlier batches are unscaled already: set them aside.
-- 
2.43.0


From 03c2d5522d05a95737fcc37901f4e384603e0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 20/32] fix: zero the gradient after an update even if it was
 not finite

gradient *= 0 leaves NaN where the gradient was inf or NaN, so that it was
added to the gradient of every later batch.
---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 16e5a97..8c375c8 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -268,7 +268,7 @@ class Optimizer(object):
             raise NotImplementedError  # TODO: error message
         else:
             weights -= lr_scale * self.learn_rate(self.step, **schedule_args) * gradient
-        gradient *= 0
+        gradient.fill(0)
         if self.L2(self.step, **schedule_args) != 0 and self.L2_is_weight_decay:
             weights -= (
                 lr_scale
-- 
2.43.0


From 861d0cc290171e0369d8408e3a551b0b8dde0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 21/32] fix: compounding schedule overflowed at large steps

compound ** step raised OverflowError (e.g. after 3895 steps at 1.2) instead
of staying at the stop value.
---
 thinc/schedules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thinc/schedules.py b/thinc/schedules.py
index 2f99a53..e75f769 100644
--- a/thinc/schedules.py
+++ b/thinc/schedules.py
@@ -1,5 +1,6 @@
 """Generators that provide different rates, schedules, decays or series."""
 import itertools
+import math
 from dataclasses import dataclass
 from typing import Any, Callable, Dict, Generator, Generic, Optional, Tuple, TypeVar
 
@@ -150,7 +151,12 @@ def _compounding_schedule(schedule: Schedule, step: int, **kwargs) -> float:
     stop = schedule.attrs["stop"]
     compound = schedule.attrs["compound"]
     t = schedule.attrs["t"]
-    return _clip(start * (compound ** (step + t)), start, stop)
+    try:
+        value = start * (compound ** (step + t))
+    except OverflowError:
+        # Far beyond the stop value, unless there is nothing to compound.
+        value = start * math.inf if start else start
+    return _clip(value, start, stop)
 
 
 def _clip(value: float, start: float, stop: float) -> float:
-- 
2.43.0


From 400e70f24f2ebc7ecd4619c03ef1fa9209fa98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:29 +0000
Subject: [PATCH 22/32] fix: indexing a Ragged with negative, open or stepped
 indices and 3d data

Open-ended slices raised a TypeError, negative integers and slices that start
in the negative selected the wrong rows, and a single sequence of higher-
dimensional data lost its shape.
---
 thinc/types.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index c74809d..699fe76 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1202,16 +1202,22 @@ class Ragged:
         starts = self._get_starts()
         ends = self._get_ends()
         if isinstance(index, int):
-            s = starts[index]
-            e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
-        elif isinstance(index, slice):
+            index = range(len(self))[index]
+            data = self.data[starts[index] : ends[index]]
+            return Ragged(
+                data.reshape(self.data_shape), self.lengths[index : index + 1]
+            )
+        if isinstance(index, slice) and index.step not in (None, 1):
+            index = range(len(self))[index]
+        if isinstance(index, slice):
             lengths = self.lengths[index]
             if len(lengths) == 0:
                 return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
+            start = starts[index][0]
             end = ends[index][-1]
             return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
+        elif len(index) == 0:
+            return Ragged(self.data[0:0].reshape(self.data_shape), self.lengths[0:0])
         else:
             # There must be a way to do this "properly" :(. Sigh, hate numpy.
             xp = get_array_module(self.data)
-- 
2.43.0


From 2a6a36bf0d48e261975c5c9cb82c64a330428764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 23/32] fix: don't modify the caller's truths in
 CategoricalCrossentropy

---
 thinc/loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..86c796e 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -129,7 +129,8 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
+            # Not in place: the truths may be the caller's array.
+            truths = truths * negatives_mask
             truths[truths == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
-- 
2.43.0


From 67fdbdf5ba3bf6e7b05123f31d0c5b57de74c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 24/32] fix: relu, mish and adam ignored the strides of their
 operands

---
 thinc/backends/numpy_ops.pyx | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..38d7919 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -144,9 +144,13 @@ class NumpyOps(Ops):
 
         cdef size_t size = Y.size
         cdef float* dX_ptr
-        cdef const float* Y_ptr = <const float*>Y.data
+        cdef const float* Y_ptr
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if inplace and not dY.flags.c_contiguous:
+            return super().backprop_relu(dY, Y, inplace)
+        elif dY.dtype == "float32" and Y.dtype == "float32":
+            Y = self.as_contig(Y)
+            Y_ptr = <const float*>Y.data
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
@@ -222,7 +226,9 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if inplace and not X.flags.c_contiguous:
+            return super().mish(X, threshold, inplace=inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
@@ -238,11 +244,15 @@ class NumpyOps(Ops):
 
         cdef np.ndarray dX
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if inplace and not dY.flags.c_contiguous:
+            return super().backprop_mish(dY, X, threshold, inplace)
+        elif dY.dtype == "float32" and X.dtype == "float32":
+            X = self.as_contig(X)
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
         elif dY.dtype == "float64" and X.dtype == "float64":
+            X = self.as_contig(X)
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<double*>dX.data, <double*>X.data, <int>X.size, <double>threshold)
             return dX
@@ -526,6 +536,14 @@ class NumpyOps(Ops):
         _check_compatible_shape(weights, mom1)
         _check_compatible_shape(weights, mom2)
 
+        arrays = (weights, gradient, mom1, mom2)
+        if not all(x.flags.c_contiguous for x in arrays):
+            contig = [self.as_contig(x) for x in arrays]
+            self.adam(*contig, beta1, beta2, eps, learn_rate, mod_rate)
+            for x, updated in zip(arrays, contig):
+                x[:] = updated
+            return arrays
+
         cdef CBlas cblas = self.cblas()
         _adam_momentum(cblas, <float*>gradient.data, <float*>mom1.data, <float*>mom2.data,
             weights.shape[0], beta1, beta2, eps, learn_rate)
@@ -1121,4 +1139,4 @@ cdef inline np.ndarray _inplace_or_copy(np.ndarray X, inplace):
     if inplace:
         return X
     else:
-        return numpy.array(X)
+        return numpy.array(X, order="C")
-- 
2.43.0


From eb8f66c477c5ff7bdbcf968d630029567de42020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 25/32] fix: write the result of gemm to an output array that
 is not contiguous

---
 thinc/backends/numpy_ops.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 38d7919..bbce8b6 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -97,6 +97,7 @@ class NumpyOps(Ops):
             msg = "Shape mismatch for blis.gemm: (%d, %d), (%d, %d)"
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
+        cdef np.ndarray dest = out
         if out is not None:
             out = self.as_contig(out)
         else:
@@ -123,12 +124,18 @@ class NumpyOps(Ops):
         else:
             raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{out.dtype}'")
 
+        if dest is not None and dest is not out:
+            dest[:] = out
+            return dest
         return out
 
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if inplace and not X.flags.c_contiguous:
+            # The C kernels ignore strides.
+            return super().relu(X, inplace=inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
-- 
2.43.0


From 086a9a0fde7dfb9b8e7541b38ff34868c3f79dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 26/32] fix: LSTM backward pass overwrote its operands, and the
 LSTM ignored strides

---
 thinc/backends/numpy_ops.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bbce8b6..d1616f4 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -663,6 +663,9 @@ def lstm_forward_training(CBlas cblas,
     np.ndarray X, np.ndarray lengths
 ):
     xp = numpy
+    # The C code ignores strides.
+    X = xp.ascontiguousarray(X, dtype="f")
+    lengths = xp.ascontiguousarray(lengths, dtype="i")
     depth = c_init.shape[0]
     dirs = c_init.shape[1]
     nO = c_init.shape[2]
@@ -801,6 +804,8 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     cdef np.ndarray Wx, Wh, bias
     cdef np.ndarray dWx, dWh, d_bias
     cdef np.ndarray dYid
+    # It is updated in place below.
+    dY = xp.array(dY, dtype="f", order="C")
     Y, G, C, X = fwd_state
     cdef int depth = C.shape[0]
     cdef int dirs = C.shape[1]
@@ -824,13 +829,15 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
             layer_params, params_i = _split_weights(params, i, nO, n_inputs, params_i)
             layer_params = _transpose_weights(layer_params)
             all_layer_params[-1].append((layer_params, params_i))
+    # The splits can be views, which must not alias the weights.
+    grad_params = xp.array(params)
     params_i = 0
     all_layer_grads = []
     for i in range(depth):
         all_layer_grads.append([])
         n_inputs = nI if i == 0 else (nO * dirs)
         for d in range(dirs):
-            layer_grads, params_i = _split_weights(params, i, nO, n_inputs, params_i)
+            layer_grads, params_i = _split_weights(grad_params, i, nO, n_inputs, params_i)
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
-- 
2.43.0


From 73e121d4f9223f9fd24444685ab684563a62dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 27/32] fix: SparseLinear ignored the strides and types of its
 inputs

---
 thinc/layers/sparselinear.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..5d000d0 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -5,6 +5,8 @@ from libc.stdint cimport int32_t, uint32_t, uint64_t
 
 from typing import Callable, Optional, Tuple
 
+import numpy
+
 from ..backends import CupyOps, NumpyOps
 from ..config import registry
 from ..model import Model
@@ -86,6 +88,10 @@ def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray leng
     cdef np.ndarray b = model.get_param("b")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
+    # The C code ignores strides and types.
+    keys = numpy.ascontiguousarray(keys, dtype="uint64")
+    values = numpy.ascontiguousarray(values, dtype="float32")
+    lengths = numpy.ascontiguousarray(lengths, dtype="int32")
     scores += b
     set_scoresC(<float*>scores.data,
         <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
-- 
2.43.0


From 595868db7649f228108b66c7acd8946da8599063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 28/32] fix: remove and replace nodes in trees with unset
 references

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index a7c5a8b..44a284c 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -435,7 +435,7 @@ class Model(Generic[InT, OutT]):
         tree = set(self.walk())
         for node in tree:
             for name in node.ref_names:
-                ref = node.get_ref(name)
+                ref = node.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
                     node.set_ref(name, None)
 
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From 946622cd887992df4d371120cec966619f8cfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 29/32] fix: wrap the root of a model only once in
 wrap_model_recursive

---
 thinc/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 44a284c..fbbd7fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -889,7 +889,9 @@ def wrap_model_recursive(model: Model, wrapper: Callable[[Model], _ModelT]) -> _
     """Recursively wrap a model and its submodules. The model is updated
     in-place."""
     for node in list(model.walk()):
-        model.replace_node(node, wrapper(node))
+        # The root is wrapped once, below.
+        if node is not model:
+            model.replace_node(node, wrapper(node))
 
     return wrapper(model)
 
-- 
2.43.0


From 7ed39f36c66908d4c2390f1eeaf1a0ba76a4d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:55 +0000
Subject: [PATCH 30/32] fix: add up the gradients of list, Ragged and Padded
 inputs in concatenate and add

---
 thinc/layers/add.py         |  4 ++--
 thinc/layers/concatenate.py | 16 ++++------------
 thinc/util.py               | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index b60e67c..d5e1794 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
 from ..config import registry
 from ..model import Model
 from ..types import ArrayXd, XY_XY_OutT
-from ..util import get_width
+from ..util import get_width, sum_gradients
 
 InT = TypeVar("InT", bound=Any)
 OutT = TypeVar("OutT", bound=ArrayXd)
@@ -42,7 +42,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX = dX + callback(dY)
+            dX = sum_gradients(dX, callback(dY))
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index 3884928..5a73c59 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -15,7 +15,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ragged, XY_XY_OutT
-from ..util import get_width
+from ..util import get_width, sum_gradients
 from .noop import noop
 
 NUMPY_OPS = NumpyOps()
@@ -76,17 +76,9 @@ def _array_forward(
         dY = model.ops.as_contig(d_output[:, : widths[0]])
         dX = callbacks[0](dY)
         start = widths[0]
-        add_gradients = hasattr(dX, "__add__") or hasattr(dX, "__iadd__")
-        add_gradients_data = hasattr(dX, "data") and (
-            hasattr(dX.data, "__add__") or hasattr(dX.data, "__iadd__")
-        )
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
-            gradient = bwd(dY)
-            if add_gradients:
-                dX = dX + gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            dX = sum_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -109,7 +101,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = sum_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +121,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = sum_gradients(dX, bwd(dY))
             start += width
         return dX
 
diff --git a/thinc/util.py b/thinc/util.py
index 8144fd4..fbf99e2 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -318,6 +318,25 @@ def get_width(
         raise ValueError(err)
 
 
+def sum_gradients(dX: Any, gradient: Any) -> Any:
+    """Add up two gradients of the same input, which may be an array, a list of
+    arrays, a Ragged or a Padded. The gradients are not modified. A layer that
+    has no gradient for its input may return None or an empty list.
+    """
+    if isinstance(dX, list) and isinstance(gradient, list):
+        if len(dX) != len(gradient):
+            return dX + gradient
+        return [sum_gradients(x, g) for x, g in zip(dX, gradient)]
+    elif isinstance(dX, Ragged):
+        return Ragged(dX.data + gradient.data, dX.lengths)
+    elif isinstance(dX, Padded):
+        return Padded(dX.data + gradient.data, dX.size_at_t, dX.lengths, dX.indices)
+    elif hasattr(dX, "__add__"):
+        return dX + gradient
+    else:
+        return dX
+
+
 def assert_tensorflow_installed() -> None:  # pragma: no cover
     """Raise an ImportError if TensorFlow is not installed."""
     template = "TensorFlow support requires {pkg}: pip install thinc[tensorflow]\n\nEnable TensorFlow support with thinc.api.enable_tensorflow()"
-- 
2.43.0


From 4501ff64d802e1da52e1ba1829f1e67746a4f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:55 +0000
Subject: [PATCH 31/32] fix: reshape the gradient, not the layer's input to
 backprop, in with_reshape

---
 thinc/layers/with_reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..5f64185 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -32,7 +32,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
 
     def backprop(dY: InT) -> InT:
         reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        return model.ops.reshape3(Y2d_backprop(reshaped), *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From 5a531f6f482a73d32341ec6b55d2edc7b1af0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:23 +0000
Subject: [PATCH 32/32] fix: split the gradient by items, not by columns, in
 with_flatten

---
 thinc/layers/with_flatten.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..6784a1a 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,8 +31,10 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
-        return dXnest
+        # The gradient may be a list, so it has to be sliced rather than split.
+        starts = [0, *splits]
+        ends = [*splits, len(Xflat)]
+        return [dXflat[start:end] for start, end in zip(starts, ends)]
 
     return Ynest, backprop
 
@@ -49,5 +51,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X) if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        model.layers[0].ops.xp.concatenate(Y) if Y is not None else None,
     )
-- 
2.43.0

