From db2eebb24f6f162dd13398897c3c6d3e6a9f29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 01/36] fix: numpy edge padding keeps the dtype and the shape
 of empty arrays

---
 ein/backend/numpy_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..e301bb6 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -90,12 +90,13 @@ INSTANCE = NumpyBackend()
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
+    shape = tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads))
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        return numpy.zeros(shape, target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(shape, target.dtype)
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From b60ef5bfc29d4f91ca80776fc53d10f751151c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 02/36] fix: in-place operations only reuse buffers of the
 result's scalar kind

---
 ein/codegen/phi_to_yarr.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..358ceed 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -546,12 +546,11 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
             case yarr.BinaryElementwise(kind, first, second, None):
                 # This logic is really shaky and interacts with optimisations to the number of axis manipulation calls.
                 # Should have more in-depth analysis on what broadcasting might occur
-                rank = expr.type.single.rank
-                rank1, rank2 = first.type.single.rank, second.type.single.rank
-                if rank:
-                    if rank == rank1 and isinstance(first, TEMPORARIES):
+                # The type has to match too, as e.g. comparisons may not be written into a float buffer
+                if expr.type.single.rank:
+                    if expr.type == first.type and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
-                    if rank == rank2 and isinstance(second, TEMPORARIES):
+                    if expr.type == second.type and isinstance(second, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 1)
         return expr
 
-- 
2.43.0


From f352f0551bcaafbe9b06198ce6187cd932e87d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 03/36] fix: do not lower sums with terms independent of a
 counter to einsum

---
 ein/codegen/phi_to_yarr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 358ceed..28e2ea7 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -96,6 +96,10 @@ def transform(
 
                         def go_product(*args: phi.Expr) -> Axial | None:
                             for counter, size in dot.contract.items():
+                                # A factor independent of a contracted counter is summed repeatedly,
+                                # but Einsum only sums over axes present in the operands.
+                                if all(counter not in op.free_symbols for op in args):
+                                    return None
                                 for operand in args:
                                     if not would_be_memory_considerate_axis(
                                         operand, counter, size, size_class
-- 
2.43.0


From 35fca78d2bf225881dd750801e51f5fad7545910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 04/36] fix: a fold whose elements mention the accumulator is
 not an axis reduction

---
 ein/codegen/phi_to_yarr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 28e2ea7..5415d7f 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -393,10 +393,13 @@ def match_reduction_by_body(
     for typ, kind in red.items():
         if isinstance(body, typ):
             first, second = body.operands
-            if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
-            elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+            for accumulated, elem in ((first, second), (second, first)):
+                if (
+                    isinstance(accumulated, phi.Store)
+                    and accumulated.symbol == acc
+                    and acc not in elem.free_symbols
+                ):
+                    return elem, kind
     return None
 
 
-- 
2.43.0


From 221db2732905fd9ac27ee227233ad59c705c7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 05/36] fix: align fold accumulators with axes only found in
 the initialiser

---
 ein/codegen/phi_to_yarr.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 5415d7f..92fd505 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -171,11 +171,14 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
-                    body_,
-                    index_sizes,
-                    var_axes | {acc: init._axes},
-                )._axes
+                acc_axes = axial._alignment(
+                    go(
+                        body_,
+                        index_sizes,
+                        var_axes | {acc: init._axes},
+                    )._axes,
+                    init._axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -190,7 +193,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
-- 
2.43.0


From f262dadc15da1fc1c6c43ac6a2a3b225519d05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 06/36] fix: repeat record components along the axes they do
 not depend on

---
 ein/codegen/axial.py       | 8 +++++---
 ein/codegen/phi_to_yarr.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..2776c56 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,14 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 92fd505..7a471b7 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -281,7 +281,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From 966ef8111fd177c5f17514ef22ca78c2ffc37cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 07/36] fix: axis reductions accept an initialiser carrying
 axes

---
 ein/codegen/phi_to_yarr.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 7a471b7..23886e3 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -431,11 +431,18 @@ def match_reduction(
         size_class,
     )
     vec = go(vec_expr)
-    reduced = yarr.ReduceAxis(kind, vec.positional_axis(0), vec.expr)
+    reduced = Axial(
+        vec._axes, yarr.ReduceAxis(kind, vec.positional_axis(0), vec.expr)
+    )
+    # The initialiser might be a variable that carries axes (e.g. of an outer fold)
+    initial = go(init)
+    axes = axial._alignment(vec._axes, initial._axes)
     reduced_with_init = yarr.BinaryElementwise(
-        yarr.REDUCE_UNDERLYING[kind], go(init).normal, reduced
+        yarr.REDUCE_UNDERLYING[kind],
+        initial.aligned(axes, leftpad=False),
+        reduced.aligned(axes, leftpad=False),
     )
-    return Axial(vec._axes, reduced_with_init)
+    return Axial(axes, reduced_with_init)
 
 
 def match_summation(expr: phi.Fold) -> tuple[Variable, phi.Expr] | None:
-- 
2.43.0


From ff97865b94aa1c450c8a34134fdda9333ec09792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 08/36] fix: clipped shifted accesses with bounds outside of
 the array, over empty axes, or carrying axes

---
 ein/codegen/array_indexing.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..b6fdf12 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -1,6 +1,6 @@
 from dataclasses import dataclass
 from functools import cache
-from typing import Callable, Self, TypeAlias, TypeVar
+from typing import Callable, Optional, Self, TypeAlias, TypeVar
 
 from ein.codegen import yarr
 from ein.midend.size_classes import SizeEquivalence, _dim_of
@@ -85,19 +85,18 @@ def transform_get(
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
                 return Axial(axes, target.expr)
-            if use_slice_pads:
-                zero = Builder.const(0).expr
-                size = index_sizes[index]
-                dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+            bounds = [go(e) if e is not None else None for e in (shift, low, high)]
+            # Bounds may still depend on indices through variables (like fold accumulators),
+            # in which case they differ along an axis and no single slice suffices.
+            if use_slice_pads and not any(e._axes for e in bounds if e is not None):
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
-                        go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
-                        size,
+                        *(e.normal if e is not None else None for e in bounds),
+                        index_sizes[index],
+                        go(dim).normal,
                     ),
                 )
     item = go(item_)
@@ -116,23 +115,28 @@ def _put_at(n: int, p: int, x: T) -> tuple[T | None, ...]:
 def pad_slice_get(
     target: yarr.Expr,
     axis: int,
-    shift_: yarr.Expr,
-    low_: yarr.Expr,
-    high_: yarr.Expr,
+    shift_: Optional[yarr.Expr],
+    low_: Optional[yarr.Expr],
+    high_: Optional[yarr.Expr],
     size_: yarr.Expr,
+    dim_: yarr.Expr,
 ) -> yarr.Expr:
     rank = target.type.single.rank
     assert 0 <= axis < rank
     assert all(
         e.type.single == PrimitiveArrayType(0, int)
-        for e in (shift_, low_, high_, size_)
+        for e in (shift_, low_, high_, size_, dim_)
+        if e is not None
     )
     zero, one = Builder.const(0), Builder.const(1)
 
-    shift = Builder(shift_)
-    low = Builder(low_)
-    high = Builder(high_)
     size = Builder(size_)
+    dim = Builder(dim_)
+    last = (dim - one).max(zero)
+    shift = Builder(shift_) if shift_ is not None else zero
+    # Accesses are clamped into the array, hence so are the bounds of the clip
+    low = Builder(low_).max(zero).min(last) if low_ is not None else zero
+    high = Builder(high_).max(zero).min(last) if high_ is not None else last
 
     # We want to compute an array b such that
     #  b[i] = a[min(max(i + shift, low), high)]
@@ -141,7 +145,9 @@ def pad_slice_get(
     # (where indexing is along the selected axis)
     start = shift.max(low).min(high)
     stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    # An empty array or range yields an empty slice
+    stop = stop.min(dim).min(start + size)
+    left = (low - shift).max(zero).min(size - (stop - start))
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From f1af952119b5d1e5f16e0236dbd879899685d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 09/36] fix: accessing an empty axis is not an error

---
 ein/backend/jax_backend.py   | 14 ++++++++++++++
 ein/backend/numpy_backend.py | 14 ++++++++++++++
 ein/backend/torch_backend.py | 17 ++++++++++++++++-
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..9f6dc3e 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -68,6 +68,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        target = never_empty(target, (axis,))
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -76,6 +77,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
         SLICE_NONE = slice(None)
+        target = never_empty(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -161,6 +165,16 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 INSTANCE = JaxBackend()
 
 
+def never_empty(target: jnp.ndarray, axes: Sequence[int]) -> jnp.ndarray:
+    # Accessing empty axes is fine (e.g. when guarded), but yields arbitrary elements
+    if all(target.shape[axis] for axis in axes):
+        return target
+    shape = list(target.shape)
+    for axis in axes:
+        shape[axis] = shape[axis] or 1
+    return jnp.zeros(shape, target.dtype)
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], jnp.ndarray | tuple[jnp.ndarray, ...]]:
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index e301bb6..e836d0b 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -49,6 +49,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        target = never_empty(target, (axis,))
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -57,6 +58,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
         SLICE_NONE = slice(None)
+        target = never_empty(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -87,6 +91,16 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
 INSTANCE = NumpyBackend()
 
 
+def never_empty(target: numpy.ndarray, axes: Sequence[int]) -> numpy.ndarray:
+    # Accessing empty axes is fine (e.g. when guarded), but yields arbitrary elements
+    if all(target.shape[axis] for axis in axes):
+        return target
+    shape = list(target.shape)
+    for axis in axes:
+        shape[axis] = shape[axis] or 1
+    return numpy.zeros(shape, target.dtype)
+
+
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..1ccc02b 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -66,12 +66,17 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        target = never_empty(target, (axis,))
+        item = torch.clip(item, 0, target.shape[axis] - 1)
+        return torch.gather(target, axis, item)
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
         SLICE_NONE = slice(None)
+        target = never_empty(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -106,6 +111,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def never_empty(tensor, axes):
+    # Accessing empty axes is fine (e.g. when guarded), but yields arbitrary elements
+    if all(tensor.shape[axis] for axis in axes):
+        return tensor
+    shape = list(tensor.shape)
+    for axis in axes:
+        shape[axis] = shape[axis] or 1
+    return tensor.new_zeros(shape)
+
+
 def squeeze_axes(tensor, axes):
     for axis in axes:
         tensor = tensor.squeeze(axis)
-- 
2.43.0


From aaa35481f08af7c8cc423a6fcb83d299f289c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 10/36] fix: torch gather broadcasts its arguments

---
 ein/backend/torch_backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 1ccc02b..dddfa3c 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -68,6 +68,12 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     ) -> torch.Tensor:
         target = never_empty(target, (axis,))
         item = torch.clip(item, 0, target.shape[axis] - 1)
+        # Unlike in other backends, gathering doesn't broadcast its arguments
+        shapes = [list(target.shape), list(item.shape)]
+        for i, (n, k) in enumerate(zip(target.shape, item.shape)):
+            if i != axis:
+                shapes[0][i] = shapes[1][i] = k if n == 1 else n
+        target, item = (arr.expand(sh) for arr, sh in zip((target, item), shapes))
         return torch.gather(target, axis, item)
 
     def take(
-- 
2.43.0


From 5656b3299c857f0cfd1661bccaeaa9fe7ac76d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 11/36] fix: torch edge padding of any rank, dtype and axis

---
 ein/backend/torch_backend.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index dddfa3c..a594536 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -95,15 +94,17 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
+        for axis, (left, right) in enumerate(pads):
+            left, right = int(left), int(right)
+            if not (left or right):
+                continue
+            n = target.shape[axis]
+            target = never_empty(target, (axis,))
+            edges = torch.arange(-left, n + right, device=target.device)
+            target = target.index_select(
+                axis, torch.clip(edges, 0, target.shape[axis] - 1)
             )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
-- 
2.43.0


From 41d3839fb7f52da5a41e68b49d837f883cb2f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 12/36] fix: the jax backend does not print slices

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 9f6dc3e..b2143a1 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -87,7 +87,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From 5e610bc612c89db2b8f2b4308370161a09d02c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 13/36] fix: arrays with negative strides on the torch backend

---
 ein/backend/torch_backend.py | 13 +++++++++----
 ein/frontend/functions.py    |  5 ++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index a594536..338c2f8 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -35,9 +35,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def constant(self, value: Value) -> torch.Tensor:
         if isinstance(value.value, torch.Tensor):
             return value.value
-        array = value.array
-        ret = torch.from_numpy(array)
-        return ret
+        return from_numpy(value.array)
 
     def preprocess_bound(self, target: torch.Tensor) -> torch.Tensor:
         return target
@@ -118,6 +116,13 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def from_numpy(array):
+    # Torch doesn't support negative strides
+    if any(stride < 0 for stride in array.strides):
+        array = array.copy()
+    return torch.from_numpy(array)
+
+
 def never_empty(tensor, axes):
     # Accessing empty axes is fine (e.g. when guarded), but yields arbitrary elements
     if all(tensor.shape[axis] for axis in axes):
@@ -191,7 +196,7 @@ def interpret(
 ) -> torch.Tensor | tuple[torch.Tensor, ...]:
     return stage(program)(
         {
-            var: torch.from_numpy(numpy.asarray(arr))
+            var: from_numpy(numpy.asarray(arr))
             if not isinstance(arr, torch.Tensor)
             else arr
             for var, arr in env.items()
diff --git a/ein/frontend/functions.py b/ein/frontend/functions.py
index 1e3c5ee..052b0a8 100644
--- a/ein/frontend/functions.py
+++ b/ein/frontend/functions.py
@@ -56,11 +56,10 @@ class Function:
         return self._interpret(args, backend="numpy")
 
     def torch(self, *args: ndarray | _TorchTensor) -> _TorchTensor:
-        import torch
+        from ein.backend.torch_backend import from_numpy
 
         args = tuple(
-            arg if isinstance(arg, _TorchTensor) else torch.from_numpy(arg)
-            for arg in args
+            arg if isinstance(arg, _TorchTensor) else from_numpy(arg) for arg in args
         )
         return self._interpret(args, backend="torch")
 
-- 
2.43.0


From 56812f5f67a86ed0744a5ae558e820b99ac7ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 14/36] fix: minimum and maximum over an empty axis give the
 initialiser

---
 ein/backend/jax_backend.py   |  3 ++-
 ein/backend/numpy_backend.py |  3 ++-
 ein/backend/torch_backend.py | 11 ++++++++++-
 ein/codegen/yarr.py          |  5 +++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index b2143a1..d48b5e0 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -189,7 +189,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index e836d0b..ce04c8c 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -152,7 +152,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = yarr.REDUCE_KINDS[kind].reduce
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 338c2f8..08cfeb5 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -160,7 +160,16 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+
+                def call_reduce(env: Env) -> torch.Tensor:
+                    arg = target(env)
+                    if not arg.shape[axis]:
+                        shape = arg.shape[:axis] + arg.shape[axis + 1 :]
+                        return arg.new_full(shape, initial)
+                    return call(arg, axis=axis)
+
+                return call_reduce
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).to(dtype)
diff --git a/ein/codegen/yarr.py b/ein/codegen/yarr.py
index fd025ec..a202462 100644
--- a/ein/codegen/yarr.py
+++ b/ein/codegen/yarr.py
@@ -758,6 +758,11 @@ REDUCE_KINDS: dict[Any, Any] = {
     ReduceAxis.Kind.minimum: numpy.minimum,
     ReduceAxis.Kind.maximum: numpy.maximum,
 }
+REDUCE_IDENTITY: dict[Any, float] = {
+    ReduceAxis.Kind.add: 0.0,
+    ReduceAxis.Kind.minimum: float("+inf"),
+    ReduceAxis.Kind.maximum: float("-inf"),
+}
 REDUCE_UNDERLYING: dict[Any, Any] = {
     ReduceAxis.Kind.add: BinaryElementwise.Kind.add,
     ReduceAxis.Kind.minimum: BinaryElementwise.Kind.minimum,
-- 
2.43.0


From e9a1133d0ae66adf22d97c63e396905e8e139dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 15/36] fix: folds with a negative count run no steps in the
 interpreter

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..ad0e4f0 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -25,7 +25,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
                 )
             )
         case phi.Fold(counter, size, acc_v, init, body):
-            n = int(_interpret(size, env).array)
+            n = max(int(_interpret(size, env).array), 0)
             env[acc_v] = _interpret(init, env)
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
-- 
2.43.0


From b34e42cf174198e64a7ecb58d93ae87a67b17531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 16/36] fix: empty vectors keep the shape and type of their
 elements in the interpreter

---
 ein/backend/naive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ad0e4f0..33e4af9 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -15,14 +15,15 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
     operands: tuple[Expr, ...]
     match expr:
         case phi.Vec(index, size, body):
-            evaluated_size = int(_interpret(size, env).array)
+            evaluated_size = max(int(_interpret(size, env).array), 0)
+            # An empty vector still has elements of some shape and type
             return Value(
                 numpy.array(
                     [
                         _interpret(body, env | {index: Value(numpy.array(i))}).array
-                        for i in range(evaluated_size)
+                        for i in range(max(evaluated_size, 1))
                     ]
-                )
+                )[:evaluated_size]
             )
         case phi.Fold(counter, size, acc_v, init, body):
             n = max(int(_interpret(size, env).array), 0)
@@ -50,7 +51,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             tt = _interpret(target, env).array
             it = _interpret(item, env).array
             if not tt.size:
-                return Value(numpy.empty(tt.shape[1:], tt.dtype))
+                return Value(numpy.zeros(tt.shape[1:], tt.dtype))
             return Value(numpy.take(tt, it, axis=0, mode="clip"))
         case phi.Concat(first, second):
             return Value(
-- 
2.43.0


From 6719bbe4e7d9ce4e18d8063a6727c84926dabd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 17/36] fix: raising to the zeroth power terminates

---
 ein/frontend/ndarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..eb5c638 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -303,6 +303,9 @@ class Scalar(_Array):
             if power < 0:
                 return (1.0 / self) ** (-power)
 
+            if power == 0:
+                return cast(Scalar, wrap(1 if self.expr.type == ScalarType(int) else 1.0))
+
             def go(k: int) -> Scalar:
                 if k == 1:
                     return self
-- 
2.43.0


From 8b52ccc4b50bb5afee4e6dc35a538e24fb8e5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 18/36] fix: dictionary records may use any keys

---
 ein/frontend/layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..f32e7a1 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -92,11 +92,7 @@ def build_layout(obj, f) -> Layout:
 def fold_layout(layout, args, atom, vec, merge):
     def get(name):
         def do(x):
-            return (
-                getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
-                else x[name]
-            )
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
@@ -129,7 +125,7 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
-- 
2.43.0


From 03dbb9c8caa7edac340e10f18a6908c8df775813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 19/36] fix: reject indexing with non-integers

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From e44261a997ac0973ad2c7b62a39b325688cabbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 20/36] fix: compare the layout of the fold body with its
 initialiser

---
 ein/frontend/comprehension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..cb541e5 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,7 +161,7 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
         raise ValueError(
             f"Expected initialiser and fold body layouts to match, "
-- 
2.43.0


From ab552ffea1ec72266494fac8ea6e08e5a156af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 21/36] fix: substitution renames the symbols bound in the copy
 it makes

---
 ein/midend/substitution.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index c2a19c0..e89f7df 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -1,12 +1,22 @@
+import dataclasses
 from functools import cache
 from typing import Mapping
+from weakref import WeakKeyDictionary
 
 from ein.symbols import Symbol
 from ein.term import Term
 
+# Remembers how bound symbols were renamed, so that equal substitutions yield equal terms
+_renamings: WeakKeyDictionary[Symbol, dict[frozenset, Symbol]] = WeakKeyDictionary()
+
 
 def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
     relevant_symbols = set(subs)
+    renamed: dict[Symbol, Symbol] = {}
+
+    def rename(symbol: Symbol) -> Symbol:
+        known = _renamings.setdefault(symbol, {})
+        return known.setdefault(frozenset(subs.items()), type(symbol)())
 
     @cache
     def go(t: Term) -> Term:
@@ -15,6 +25,17 @@ def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
         symbol = t.unwrap_symbol()
         if symbol is not None and symbol in subs:
             return subs[symbol]
-        return t.map(go)
+        # The original and the copy may occur in one program, and there each symbol is bound only once
+        for captured in t.captured_symbols:
+            renamed[captured] = rename(captured)
+            relevant_symbols.add(captured)
+        return dataclasses.replace(
+            t.map(go),
+            **{
+                name: renamed[value]
+                for name, value in t._fields
+                if isinstance(value, Symbol) and value in renamed
+            },
+        )
 
     return go(term)
-- 
2.43.0


From c3504b0084e5230960a6c6928df31771bc4618c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 22/36] fix: nested vectors of records

---
 ein/midend/structs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..9475363 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -27,12 +27,15 @@ F = TypeVar("F")
 
 def _soa_transform_type(type_: Type) -> Type:
     match type_:
-        case Vector(Pair(first, second)):
-            return Pair(
-                _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
-            )
         case Vector(elem):
-            return Vector(_soa_transform_type(elem))
+            elem = _soa_transform_type(elem)
+            match elem:
+                case Pair(first, second):
+                    return Pair(
+                        _soa_transform_type(Vector(first)),
+                        _soa_transform_type(Vector(second)),
+                    )
+            return Vector(elem)
         case Pair(first, second):
             return Pair(_soa_transform_type(first), _soa_transform_type(second))
         case Scalar():
-- 
2.43.0


From 21670c1e53172d9cc5f2b544833bd8bdca45daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 23/36] fix: summing with a negative count gives the
 initialiser

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 23886e3..f4493be 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -425,6 +425,9 @@ def match_reduction(
         return None
     index = Index()
     with_counter_axis = cast(phi.Expr, substitute(elem, {counter: phi.at(index)}))
+    if counter not in elem.free_symbols:
+        # Unless it is the size of an axis, the count might be negative
+        size = phi.Max((size, phi.Const(phi.Value(0))))
     vec_expr = phi.Vec(index, size, with_counter_axis)
     update_size_classes(
         vec_expr,
-- 
2.43.0


From 74a1c1446eeb633c0ecaee9deaa1c1b1e27946ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:20 +0000
Subject: [PATCH 24/36] fix: clipped accesses to a variable already carrying
 the index

---
 ein/codegen/array_indexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index b6fdf12..aad1ad3 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,8 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        # The target might also carry the index through a variable
+        if index not in target_.free_indices and index not in target._axes:
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 57baef05c949b8e3d5bf597b2a7928d8660b8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 25/36] fix: gathers and pads of empty arrays on the jax
 backend

---
 ein/backend/jax_backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index d48b5e0..4583385 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -69,6 +69,11 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
         target = never_empty(target, (axis,))
+        shape = jnp.broadcast_shapes(
+            target.shape[:axis] + (1,) + target.shape[axis + 1 :], item.shape
+        )
+        if 0 in shape:
+            return jnp.zeros(shape, target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -90,6 +95,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        if 0 in target.shape:
+            shape = [n + left + right for n, (left, right) in zip(target.shape, pads)]
+            return jnp.zeros(shape, target.dtype)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
-- 
2.43.0


From 3fb1463cc0ba0d9d2d5275863b035a031f2ff7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 26/36] fix: sizes cast to float on the jax backend

---
 ein/backend/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 4583385..cba4f1c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -201,7 +201,7 @@ def stage_in_array(
                 return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
-                return lambda env: target(env).astype(dtype)
+                return lambda env: jnp.asarray(target(env)).astype(dtype)
             case yarr.UnaryElementwise(kind, target_):
                 target = go(target_)
                 call = ELEMENTWISE[kind]
-- 
2.43.0


From de95bc603867fdc52958915382d59e2632c0827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 27/36] fix: static sizes inside of folds on the jax backend

---
 ein/backend/jax_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index cba4f1c..9b63253 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -118,7 +118,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             def jax_body(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
-                ret = body(env)
+                # Sizes in the body that depend on no loop variable need to stay static
+                with jax.ensure_compile_time_eval():
+                    ret = body(env)
                 del env[acc_var], env[index_var]
                 return ret
 
-- 
2.43.0


From e6b233a2e9b8b319e8e94a92339a1b03093d1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:58 +0000
Subject: [PATCH 28/36] fix: align reduction bodies with the axes of the
 reduced values

---
 ein/codegen/phi_to_yarr.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index f4493be..c5636eb 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -203,17 +203,29 @@ def transform(
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
                 pre_transformed = transformed.copy()
-                axes = go(
-                    xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
-                )._axes
+                axes = axial._alignment(
+                    go(
+                        xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
+                    )._axes,
+                    some_axes,
+                )
                 transformed.clear()
                 transformed.update(pre_transformed)
 
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
                 #   (their outermost axis is reduced, so this inserted axis corresponds to it)
-                xy_axes = (*axes, Index())
-                xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                batch = Index()
+                xy_axes = (*axes, batch)
+                x_expr = yarr.Var(
+                    x, init_.type.primitive_type.with_rank_delta(+len(xy_axes))
+                )
+                batch_size = yarr.Dim(
+                    len(axes), axial.untuple_maybe_singleton(x_expr, 0)
+                )
+                xy_index_sizes = index_sizes | {batch: batch_size}
+                xy = go(xy_, xy_index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                xy_expr = xy.aligned(xy_axes, repeats=xy_index_sizes)
 
                 # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
@@ -226,7 +238,7 @@ def transform(
                 )
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(init_expr, x, y, xy_expr, vecs_expr, len(axes)),
                 )
 
             case phi.Get(target_, item_):
-- 
2.43.0


From 6176f3cbbfc6d12d70fbfc529bec11d15ba75ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:25 +0000
Subject: [PATCH 29/36] fix: contract empty operands on the torch backend

---
 ein/backend/torch_backend.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 08cfeb5..4c7c515 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -19,6 +19,7 @@ from .array_backend import AbstractArrayBackend
 
 try:
     import torch
+    import torch.backends.opt_einsum
 except ImportError:
 
     class MagicGetter:
@@ -110,7 +111,14 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        def einsum(*args: torch.Tensor) -> torch.Tensor:
+            if all(arg.numel() for arg in args):
+                return torch.einsum(subs, *args)
+            # Contraction paths cannot be optimised when operands are empty
+            with torch.backends.opt_einsum.flags(enabled=False):
+                return torch.einsum(subs, *args)
+
+        return einsum
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From d0c006a2eac97d5a3a40c1519b88a4bbff0bfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:37 +0000
Subject: [PATCH 30/36] fix: dividing a vector by a scalar is a type error, not
 infinite recursion

---
 ein/frontend/ndarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index eb5c638..cf54e61 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -291,7 +291,7 @@ class Scalar(_Array):
         return self * Scalar(phi.Reciprocal((wrap(other).expr,)))
 
     def __rtruediv__(self, other: ScalarLike) -> "Scalar":
-        return cast(Scalar, wrap(other) / self)
+        return Scalar(wrap(other).expr) / self
 
     def __mod__(self, other: ScalarLike) -> "Scalar":
         return Scalar(phi.Modulo((self.expr, wrap(other).expr)))
-- 
2.43.0


From e673be0530b345f4d7ae266aed1c268ce91881a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 31/36] fix: sum over the size of a row inside of a
 comprehension

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index c5636eb..ac8424d 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -435,6 +435,9 @@ def match_reduction(
     elem, kind = red
     if not would_be_memory_considerate_axis(elem, counter, size, size_class):
         return None
+    if size.free_indices:
+        # Axes may not have an index-dependent size, unlike folds (e.g. a size of a row)
+        return None
     index = Index()
     with_counter_axis = cast(phi.Expr, substitute(elem, {counter: phi.at(index)}))
     if counter not in elem.free_symbols:
-- 
2.43.0


From 365848f5a23c2ab227d7358f3d41ebabbdea6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 32/36] fix: torch backend transposes arrays without axes

---
 ein/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 4c7c515..1ec6fb5 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -53,7 +53,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def transpose(
         self, target: torch.Tensor, permutation: tuple[int, ...]
     ) -> torch.Tensor:
-        return target.permute(*permutation)
+        return target.permute(permutation)
 
     def squeeze(self, target: torch.Tensor, axes: tuple[int, ...]) -> torch.Tensor:
         return squeeze_axes(target, axes)
-- 
2.43.0


From 8e7a1e543624eaa029e1ef64b5688fa4e702b8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 33/36] fix: print constants which are torch or jax arrays

---
 ein/debug/pprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 47ede5c..7345e2f 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -150,7 +150,7 @@ def _pretty_reduce(
 def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
     match expr:
         case phi.Const(value):
-            value = numpy.array(value.array).tolist()
+            value = value.any_array.tolist()
             return Line(str(value))
         case phi.Store(symbol, _):
             return Line(str(symbol))
@@ -251,7 +251,7 @@ def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
 def _pretty_yarr(expr: yarr.Expr, par: bool) -> Repr:
     match expr:
         case yarr.Const(value):
-            value = numpy.array(value.array).tolist()
+            value = value.any_array.tolist()
             return Line(str(value))
         case yarr.Var(var, _):
             return Line(str(var))
-- 
2.43.0


From eff89ea6336bf1cb8272c4ef3368794b7420d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:27 +0000
Subject: [PATCH 34/36] fix: draw and print host functions without a name

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index b25d292..a215358 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -626,7 +626,7 @@ class Extrinsic(AbstractExpr):
 
     @property
     def debug(self) -> tuple[dict[str, Any], set[Expr]]:
-        return {"fun": self.fun.__name__}, {*self.operands}
+        return {"fun": getattr(self.fun, "__name__", repr(self.fun))}, {*self.operands}
 
     @cached_property
     def type(self) -> Type:
-- 
2.43.0


From 6736376c952d3eb9775f95abb627af3ae58ce1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:34 +0000
Subject: [PATCH 35/36] fix: a failing evaluation leaves the environment as it
 was

Backends bind loop and let variables in the environment dictionary while
they run, and take them out again only when evaluation succeeds.
---
 ein/frontend/ndarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index cf54e61..eb7595c 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -117,7 +117,7 @@ class _Array:
         env: dict[Variable, numpy.ndarray | _TorchTensor] | None = None,
         backend: Backend | str = DEFAULT_BACKEND,
     ) -> numpy.ndarray:
-        env = env if env is not None else {}
+        env = dict(env) if env is not None else {}
         if not self.expr.free_symbols <= set(env):
             raise ValueError(
                 f"Cannot evaluate array, as it depends on free variables: {self.expr.free_symbols}"
-- 
2.43.0


From 67faef3bb3cf48915fae8176e7fa32f1bb318cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:29 +0000
Subject: [PATCH 36/36] fix: hoist expressions that use hoisted bindings

A loop-invariant expression stayed in its loop when it used a shared
(let-bound) expression from the same loop, and was evaluated once per
iteration: move code until nothing can be moved any more.
---
 ein/midend/lining.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ein/midend/lining.py b/ein/midend/lining.py
index 8930878..65027af 100644
--- a/ein/midend/lining.py
+++ b/ein/midend/lining.py
@@ -136,8 +136,12 @@ def outline(program: Term) -> Term:
     program = _apply_insertions(program, _bind_common_subexpressions(program))
     check(program, tree=True)
     # Extract loop-independent expressions out of containing loops into a wrapping binding
-    program = _apply_insertions(program, _loop_invariant_code_motion(program))
-    check(program, tree=True)
+    #  - which might make expressions using that binding independent of the loop as well
+    while insertions := _loop_invariant_code_motion(program):
+        program = _apply_insertions(program, insertions)
+        check(program, tree=True)
+        program = inline(program, only_renames=True)
+        check(program, tree=True)
     program = inline(program, only_renames=True)
     check(program, tree=True)
     return program
-- 
2.43.0

