From 0e526c3e1c910253f513c2a87a3175feaa965604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:24 +0000
Subject: [PATCH 01/28] fix: place golden-section midpoint inside the interval

The first midpoint was (upper - lower) / (phi + 1), without adding lower, so it fell
outside the interval whenever lower was not zero.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From 7060ffa580faf279614689fc2476c2beafab0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:24 +0000
Subject: [PATCH 02/28] fix: correct sign of the Hestenes-Stiefel and Dai-Yuan
 betas

Both formulas are written for the negative gradient in their usual reference. They are
called with gradients, for which the denominator has no minus sign.
---
 optimistix/_solver/nonlinear_cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..d9a8ecf 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -52,7 +52,7 @@ def hestenes_stiefel(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     [`optimistix.NonlinearCGDescent`][]."""
     grad_diff = (grad**ω - grad_prev**ω).ω
     numerator = tree_dot(grad, grad_diff)
-    denominator = -tree_dot(y_diff_prev, grad_diff)
+    denominator = tree_dot(y_diff_prev, grad_diff)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0


From fdfad6ea30126a03917546054c9481d551eefd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:00 +0000
Subject: [PATCH 03/28] fix: take Nelder-Mead best and worst vertices from the
 updated simplex

The indices refer to the updated simplex but were applied to the previous one, so a newly
found best vertex was returned as the vertex it had replaced.
---
 optimistix/_solver/nelder_mead.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..0626f79 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
@@ -404,7 +404,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             y0_simplex = False
 
         if y0_simplex:
-            out = simplex
+            out = new_simplex
         else:
             out = best
 
-- 
2.43.0


From 58ba6ffe5e33b1c8f64a8d938b1ea01ed3db20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:00 +0000
Subject: [PATCH 04/28] fix: return the user's aux from the first Nelder-Mead
 step

The first step evaluates the function on the whole simplex but returned an aux of zeros.
Return the aux of the best vertex whenever the simplex is re-evaluated.
---
 optimistix/_solver/nelder_mead.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 0626f79..ce19d3d 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -356,17 +356,18 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             # compute f_simplex, return simplex
             simplex = tree_where(first_pass, simplex, shrink_simplex)
             unwrapped_simplex = jtu.tree_map(lambda _, x: x[...], y, simplex)
-            f_simplex, _ = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
-            return f_simplex, simplex
+            f_simplex, aux = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
+            aux = jtu.tree_map(lambda x: x[jnp.argmin(f_simplex)], aux)
+            return f_simplex, simplex, aux
 
         def update_simplex(best, new_vertex, simplex, first_pass):
             simplex = jtu.tree_map(
                 lambda _, a, b: a.at[worst_index].set(b), best, simplex, new_vertex
             )
             f_simplex = state.f_simplex.at[worst_index].set(f_new_vertex)
-            return f_simplex, simplex
+            return f_simplex, simplex, aux
 
-        f_new_simplex, new_simplex = lax.cond(
+        f_new_simplex, new_simplex, aux = lax.cond(
             shrink,
             shrink_simplex,
             update_simplex,
-- 
2.43.0


From e4a1c9f827a627e56e6cf3cc35456e7b17ec59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:00 +0000
Subject: [PATCH 05/28] fix: count the dimension of an explicit Nelder-Mead
 simplex from one vertex

The dimension was counted over all but one vertex, so every valid simplex with more than
one unknown was rejected.
---
 optimistix/_solver/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index ce19d3d..ccc884a 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -131,7 +131,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     for each leaf"
                 )
             size = jtu.tree_reduce(
-                lambda x, y: x + y, jtu.tree_map(lambda x: x[1:].size, y)
+                lambda x, y: x + y, jtu.tree_map(lambda x: x[0].size, y)
             )
             if n_vertices != size + 1:
                 raise ValueError(
-- 
2.43.0


From 3d61e2470c61327231dc5e6aef513a529c4ffed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:37 +0000
Subject: [PATCH 06/28] fix: count Nelder-Mead reflections and outer
 contractions correctly

Accepted reflections were also counted as outer contractions, and actual outer
contractions were not counted at all.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index ccc884a..83c09c6 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -257,8 +257,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     expand = f_vertex < f_best
                     inner_contract = f_vertex > f_worst
                     contract = f_vertex > f_second_worst
-                    outer_contract = jnp.invert(expand | contract)
-                    reflect = (f_vertex > f_best) & (f_vertex < f_second_worst)
+                    outer_contract = contract & jnp.invert(inner_contract)
+                    reflect = jnp.invert(expand | contract)
                     contract_const = jnp.where(inner_contract, in_const, out_const)
                     #
                     # NOTE: Throughout, we use worst + const * search_direction, not
-- 
2.43.0


From 1e1437593036721c082e9c362c32fea20df8edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:06 +0000
Subject: [PATCH 07/28] fix: record where a best-so-far solver's function was
 evaluated

The loss was paired with the incoming y of each step. Golden-section search and
Nelder-Mead evaluate the function elsewhere, so the returned value did not belong to the
best loss and aux. Carry the evaluated y alongside the output instead.
---
 optimistix/_solver/best_so_far.py | 37 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/optimistix/_solver/best_so_far.py b/optimistix/_solver/best_so_far.py
index c2cb405..e0d9e9c 100644
--- a/optimistix/_solver/best_so_far.py
+++ b/optimistix/_solver/best_so_far.py
@@ -27,11 +27,11 @@ class _BestSoFarState(eqx.Module, Generic[Y, Aux, SolverState]):
 
 def _auxmented(fn, y, args):
     out, aux = fn(y, args)
-    return out, (out, aux)
+    return out, (y, out, aux)
 
 
 class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
-    solver: AbstractVar[AbstractIterativeSolver[Y, Out, tuple[Out, Aux], Any]]
+    solver: AbstractVar[AbstractIterativeSolver[Y, Out, tuple[Y, Out, Aux], Any]]
 
     @abc.abstractmethod
     def _to_loss(self, y: Y, f: Out) -> Scalar: ...
@@ -61,8 +61,15 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         aux = tree_full_like(aux_struct, 0)
         loss = jnp.array(jnp.inf)
         auxmented_fn = eqx.Partial(_auxmented, fn)
+        y_struct = jax.eval_shape(lambda: y)
         state = self.solver.init(
-            auxmented_fn, y, args, options, f_struct, (f_struct, aux_struct), tags
+            auxmented_fn,
+            y,
+            args,
+            options,
+            f_struct,
+            (y_struct, f_struct, aux_struct),
+            tags,
         )
         return _BestSoFarState(best_y=y, best_aux=aux, best_loss=loss, state=state)
 
@@ -76,12 +83,14 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         tags: frozenset[object],
     ) -> tuple[Y, _BestSoFarState, Aux]:
         auxmented_fn = eqx.Partial(_auxmented, fn)
-        new_y, new_state, (f, new_aux) = self.solver.step(
+        # Not every solver evaluates `fn` at its incoming `y`, so keep track of where it
+        # was evaluated.
+        new_y, new_state, (y_eval, f, new_aux) = self.solver.step(
             auxmented_fn, y, args, options, state.state, tags
         )
-        loss = self._to_loss(y, f)
+        loss = self._to_loss(y_eval, f)
         pred = loss < state.best_loss
-        best_y = tree_where(pred, y, state.best_y)
+        best_y = tree_where(pred, y_eval, state.best_y)
         best_aux = tree_where(pred, new_aux, state.best_aux)
         best_loss = jnp.where(pred, loss, state.best_loss)
         new_state = _BestSoFarState(
@@ -123,10 +132,10 @@ class BestSoFarMinimiser(  # pyright: ignore
     copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractMinimiser[Y, tuple[Scalar, Aux], Any]
+    solver: AbstractMinimiser[Y, tuple[Y, Scalar, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractMinimiser[Y, tuple[Scalar, Aux], Any]):
+    def __init__(self, solver: AbstractMinimiser[Y, tuple[Y, Scalar, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Scalar) -> Scalar:
@@ -161,11 +170,11 @@ class BestSoFarLeastSquares(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractLeastSquaresSolver[Y, Out, tuple[Out, Aux], Any]
+    solver: AbstractLeastSquaresSolver[Y, Out, tuple[Y, Out, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
     def __init__(
-        self, solver: AbstractLeastSquaresSolver[Y, Out, tuple[Out, Aux], Any]
+        self, solver: AbstractLeastSquaresSolver[Y, Out, tuple[Y, Out, Aux], Any]
     ):
         self.solver = solver
 
@@ -201,10 +210,10 @@ class BestSoFarRootFinder(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractRootFinder[Y, Out, tuple[Out, Aux], Any]
+    solver: AbstractRootFinder[Y, Out, tuple[Y, Out, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractRootFinder[Y, Out, tuple[Out, Aux], Any]):
+    def __init__(self, solver: AbstractRootFinder[Y, Out, tuple[Y, Out, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Out) -> Scalar:
@@ -239,10 +248,10 @@ class BestSoFarFixedPoint(  # pyright: ignore
     makes a copy of the best `y` seen, and returns that.
     """
 
-    solver: AbstractFixedPointSolver[Y, tuple[Y, Aux], Any]
+    solver: AbstractFixedPointSolver[Y, tuple[Y, Y, Aux], Any]
 
     # Explicitly declare to keep pyright happy.
-    def __init__(self, solver: AbstractFixedPointSolver[Y, tuple[Y, Aux], Any]):
+    def __init__(self, solver: AbstractFixedPointSolver[Y, tuple[Y, Y, Aux], Any]):
         self.solver = solver
 
     def _to_loss(self, y: Y, f: Y) -> Scalar:
-- 
2.43.0


From 633feb0f912a548d47e44dd38675083adda21d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:08 +0000
Subject: [PATCH 08/28] fix: allow single-precision fixed points when double
 precision is enabled

The initial error of FixedPointIteration was always created in the default dtype, so a
float32 y0 failed with a loop carry mismatch under jax_enable_x64.
---
 optimistix/_solver/fixed_point.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/fixed_point.py b/optimistix/_solver/fixed_point.py
index d9bad8b..e92b839 100644
--- a/optimistix/_solver/fixed_point.py
+++ b/optimistix/_solver/fixed_point.py
@@ -46,8 +46,9 @@ class FixedPointIteration(AbstractFixedPointSolver[Y, Aux, _FixedPointState]):
         aux_struct: PyTree[jax.ShapeDtypeStruct],
         tags: frozenset[object],
     ) -> _FixedPointState:
-        del fn, y, args, options, f_struct, aux_struct
-        return _FixedPointState(jnp.array(jnp.inf))
+        del fn, args, options, f_struct, aux_struct
+        dtype = jax.eval_shape(self.norm, y).dtype
+        return _FixedPointState(jnp.array(jnp.inf, dtype=dtype))
 
     def step(
         self,
@@ -65,7 +66,10 @@ class FixedPointIteration(AbstractFixedPointSolver[Y, Aux, _FixedPointState]):
         error = (y**ω - new_y**ω).ω
         with jax.numpy_dtype_promotion("standard"):
             scale = (self.atol + self.rtol * ω(new_y).call(jnp.abs)).ω
-            new_state = _FixedPointState(self.norm((error**ω / scale**ω).ω))
+            relative_error = self.norm((error**ω / scale**ω).ω)
+        new_state = _FixedPointState(
+            relative_error.astype(state.relative_error.dtype)
+        )
         return new_y, new_state, aux
 
     def terminate(
-- 
2.43.0


From 735df978337733513c5a2708a6708c7c74c7bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:08 +0000
Subject: [PATCH 09/28] fix: allow single-precision best-so-far solves when
 double precision is enabled

The initial best loss was always created in the default dtype, so a float32 y0 failed
with a loop carry mismatch under jax_enable_x64.
---
 optimistix/_solver/best_so_far.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/best_so_far.py b/optimistix/_solver/best_so_far.py
index e0d9e9c..f83465f 100644
--- a/optimistix/_solver/best_so_far.py
+++ b/optimistix/_solver/best_so_far.py
@@ -59,7 +59,8 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         tags: frozenset[object],
     ) -> _BestSoFarState:
         aux = tree_full_like(aux_struct, 0)
-        loss = jnp.array(jnp.inf)
+        loss_struct = jax.eval_shape(self._to_loss, y, f_struct)
+        loss = jnp.array(jnp.inf, dtype=loss_struct.dtype)
         auxmented_fn = eqx.Partial(_auxmented, fn)
         y_struct = jax.eval_shape(lambda: y)
         state = self.solver.init(
-- 
2.43.0


From 2bdfc62b41c0dbfed56145437d877f777aa1a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:08 +0000
Subject: [PATCH 10/28] fix: allow single-precision Nelder-Mead when double
 precision is enabled

Function values in the state were created in the default dtype, so a float32 y0 failed
under jax_enable_x64.
---
 optimistix/_solver/nelder_mead.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 83c09c6..4a0ecbd 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -186,16 +186,16 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             simplex=simplex,
             f_simplex=f_simplex,
             best=(
-                jnp.array(0.0),
+                jnp.array(0.0, dtype=f_struct.dtype),
                 jtu.tree_map(lambda x: x[0], simplex),
                 jnp.array(0, dtype=jnp.int32),
             ),
             worst=(
-                jnp.array(0.0),
+                jnp.array(0.0, dtype=f_struct.dtype),
                 jtu.tree_map(lambda x: x[0], simplex),
                 jnp.array(0, dtype=jnp.int32),
             ),
-            second_worst_val=jnp.array(0.0),
+            second_worst_val=jnp.array(0.0, dtype=f_struct.dtype),
             stats=stats,
             result=RESULTS.successful,
             first_pass=jnp.array(True),
@@ -227,7 +227,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
 
         def init_step(state):
             simplex = state.simplex
-            f_new_vertex = jnp.array(jnp.inf)
+            f_new_vertex = jnp.array(jnp.inf, dtype=state.f_simplex.dtype)
             return (
                 state,
                 simplex,
@@ -321,7 +321,11 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             #
             (new_vertex, (f_new_vertex, aux), stats), _ = lax.scan(
                 eval_new_vertices,
-                (reflection, (jnp.array(0.0), state.aux), state.stats),
+                (
+                    reflection,
+                    (jnp.array(0.0, dtype=state.f_simplex.dtype), state.aux),
+                    state.stats,
+                ),
                 jnp.arange(2),
             )
             return (state, state.simplex, new_vertex, f_new_vertex, stats, aux)
-- 
2.43.0


From 31020b56ee3d74db9e8cfe0b9bcdcdf44a7b5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:35 +0000
Subject: [PATCH 11/28] fix: allow single-precision L-BFGS when double
 precision is enabled

The history buffers were created in the default dtype, so a float32 y0 failed under
jax_enable_x64.
---
 optimistix/_solver/limited_memory_bfgs.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/optimistix/_solver/limited_memory_bfgs.py b/optimistix/_solver/limited_memory_bfgs.py
index f90ee4f..4ca80b0 100644
--- a/optimistix/_solver/limited_memory_bfgs.py
+++ b/optimistix/_solver/limited_memory_bfgs.py
@@ -271,7 +271,7 @@ def _lbfgs_hessian_operator_fn(
         [
             [
                 jnp.diag(sqrt_diag),
-                jnp.zeros((state.history_length, state.history_length)),
+                jnp.zeros_like(J),
             ],
             [-state.y_diff_grad_diff_cross_inner / sqrt_diag[jnp.newaxis], J],
         ]
@@ -296,7 +296,9 @@ def _lbfgs_hessian_operator_fn(
 
 
 def _batched_tree_zeros_like(y, batch_dimension):
-    return jtu.tree_map(lambda y: jnp.zeros((batch_dimension, *y.shape)), y)
+    return jtu.tree_map(
+        lambda y: jnp.zeros((batch_dimension, *y.shape), dtype=y.dtype), y
+    )
 
 
 class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
@@ -314,13 +316,14 @@ class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
         # We're using pyright: ignore on the returned f_info and state because their
         # types depend on the value of `use_inverse`. See
         # https://github.com/patrick-kidger/optimistix/pull/135#discussion_r2155452558
+        dtype = jax.eval_shape(tree_dot, y, grad).dtype
         if self.use_inverse:
             state = _LBFGSInverseHessianUpdateState(
                 index_start=jnp.array(0),
                 history_length=self.history_length,
                 y_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 grad_diff_history=_batched_tree_zeros_like(y, self.history_length),
-                inner_history=jnp.zeros(self.history_length),
+                inner_history=jnp.zeros(self.history_length, dtype=dtype),
             )
             operator = lx.FunctionLinearOperator(
                 lambda y: _lbfgs_inverse_hessian_operator_fn(y, state),
@@ -336,10 +339,10 @@ class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
                 y_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 grad_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 y_diff_grad_diff_cross_inner=jnp.zeros(
-                    (self.history_length, self.history_length)
+                    (self.history_length, self.history_length), dtype=dtype
                 ),
-                y_diff_grad_diff_inner=jnp.ones(self.history_length),
-                y_diff_cross_inner=jnp.eye(self.history_length),
+                y_diff_grad_diff_inner=jnp.ones(self.history_length, dtype=dtype),
+                y_diff_cross_inner=jnp.eye(self.history_length, dtype=dtype),
             )
             operator = lx.FunctionLinearOperator(
                 lambda y: _lbfgs_hessian_operator_fn(y, state),
-- 
2.43.0


From 86007face1f1840071192a2b8ddc7af3249ff8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:35 +0000
Subject: [PATCH 12/28] fix: allow single-precision damped Newton when double
 precision is enabled

The damping follows the dtype of the search's step size, which is the default one. With a
float32 y0 under jax_enable_x64 the resulting linear systems had mismatched dtypes.
---
 optimistix/_solver/levenberg_marquardt.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index d97498e..e9e82be 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -11,7 +11,7 @@ from equinox.internal import ω
 from jaxtyping import Array, Float, PyTree, Scalar, ScalarLike
 
 from .._custom_types import Aux, Out, Y
-from .._misc import default_verbose, max_norm, tree_full_like, two_norm
+from .._misc import default_verbose, max_norm, tree_dtype, tree_full_like, two_norm
 from .._root_find import AbstractRootFinder, root_find
 from .._search import AbstractDescent, FunctionInfo
 from .._solution import RESULTS
@@ -27,7 +27,9 @@ class _Damped(eqx.Module):
     def __call__(self, y: PyTree[Array]):
         residual = self.operator.mv(y)
         with jax.numpy_dtype_promotion("standard"):
-            damped = jtu.tree_map(lambda yi: jnp.sqrt(self.damping) * yi, y)
+            damped = jtu.tree_map(
+                lambda yi: (jnp.sqrt(self.damping) * yi).astype(yi.dtype), y
+            )
         return residual, damped
 
 
@@ -57,6 +59,7 @@ def damped_newton_step(
     lm_param = jnp.where(pred, 1 / safe_step_size, jnp.finfo(step_size.dtype).max)
     lm_param = cast(Array, lm_param)
     if isinstance(f_info, FunctionInfo.EvalGradHessian):
+        lm_param = lm_param.astype(tree_dtype(f_info.grad))
         operator = f_info.hessian + lm_param * lx.IdentityLinearOperator(
             f_info.hessian.in_structure()
         )
@@ -182,7 +185,7 @@ class IndirectDampedNewtonDescent(
         return _IndirectDampedNewtonDescentState(
             f_info=tree_full_like(f_info_struct, 0, allow_static=True),
             newton=y,
-            newton_norm=jnp.array(0.0),
+            newton_norm=tree_full_like(jax.eval_shape(self.trust_region_norm, y), 0),
             result=RESULTS.successful,
         )
 
@@ -210,7 +213,8 @@ class IndirectDampedNewtonDescent(
         # A simple, heuristic way around this is to scale the trust region `step_size`
         # so that a `step_size` of `1` corresponds to the full length of the Newton
         # step (anything greater than `1` will still accept the Newton step.)
-        scaled_step_size = state.newton_norm * step_size
+        dtype = state.newton_norm.dtype
+        scaled_step_size = state.newton_norm * step_size.astype(dtype)
 
         def comparison_fn(lambda_i: Scalar, _):
             step, _ = damped_newton_step(1 / lambda_i, state.f_info, self.linear_solver)
@@ -221,7 +225,7 @@ class IndirectDampedNewtonDescent(
                 fn=comparison_fn,
                 has_aux=False,
                 solver=self.root_finder,
-                y0=jnp.asarray(self.lambda_0),
+                y0=jnp.asarray(self.lambda_0, dtype),
                 options=dict(lower=1e-5),
                 max_steps=32,
                 throw=False,
-- 
2.43.0


From 3898723ea2eedaf2d279b44ada4e353aca012df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:06 +0000
Subject: [PATCH 13/28] fix: allow single-precision dogleg when double
 precision is enabled

The norms in the descent state and the step size were in the default dtype. With a
float32 y0 under jax_enable_x64 this failed with mismatched branch dtypes.
---
 optimistix/_solver/dogleg.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..2bd8c13 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -2,6 +2,7 @@ from collections.abc import Callable
 from typing import Any, cast, Generic
 
 import equinox as eqx
+import jax
 import jax.lax as lax
 import jax.numpy as jnp
 import lineax as lx
@@ -58,11 +59,12 @@ class DoglegDescent(
     ) -> _DoglegDescentState:
         # Dummy values; unused
         del f_info_struct
+        norm_struct = jax.eval_shape(self.trust_region_norm, y)
         return _DoglegDescentState(
             newton=y,
             cauchy=y,
-            newton_norm=jnp.array(0.0),
-            cauchy_norm=jnp.array(0.0),
+            newton_norm=tree_full_like(norm_struct, 0),
+            cauchy_norm=tree_full_like(norm_struct, 0),
             result=RESULTS.successful,
         )
 
@@ -119,7 +121,8 @@ class DoglegDescent(
         # A simple, heuristic way around this is to scale the trust region `step_size`
         # so that a `step_size` of `1` corresponds to the full length of the Newton
         # step (anything greater than `1` will still accept the Newton step.)
-        scaled_step_size = state.newton_norm * step_size
+        dtype = state.newton_norm.dtype
+        scaled_step_size = state.newton_norm * jnp.asarray(step_size, dtype)
 
         def accept_scaled_cauchy(cauchy, newton):
             """Scale and return the Cauchy step."""
@@ -170,13 +173,16 @@ class DoglegDescent(
                 t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
                 result = RESULTS.successful
             else:
-                root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
+                root_find_options = {
+                    "lower": jnp.array(1.0, dtype),
+                    "upper": jnp.array(2.0, dtype),
+                }
                 root_sol = root_find(
                     lambda t, _: (
                         self.trust_region_norm(interpolate(t)) - scaled_step_size
                     ),
                     self.root_finder,
-                    y0=jnp.array(1.5),
+                    y0=jnp.array(1.5, dtype),
                     options=root_find_options,
                     throw=False,
                 )
-- 
2.43.0


From 97394e337318014c650ecda20ffd42ea46d17042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:32 +0000
Subject: [PATCH 14/28] fix: use the norm option of compat.minimize

The documented option was accepted and then ignored.
---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0


From b40587dc5084eb7344d19d39d7182e1f82e0b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:32 +0000
Subject: [PATCH 15/28] fix: accept a root at an endpoint of the bisection
 interval

With an increasing function whose root is exactly at lower, or a decreasing one whose
root is exactly at upper, bisection raised that the root is not contained in the
interval. The mirrored cases were accepted.
---
 optimistix/_solver/bisection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/bisection.py b/optimistix/_solver/bisection.py
index 85858a6..1144285 100644
--- a/optimistix/_solver/bisection.py
+++ b/optimistix/_solver/bisection.py
@@ -146,9 +146,9 @@ class Bisection(AbstractRootFinder[Scalar, Scalar, Aux, _BisectionState]):
                     args=args,
                 )
             else:
-                lower_neg = lower_val < 0
-                upper_neg = upper_val < 0
-                root_not_contained = lower_neg == upper_neg
+                # A root at either endpoint is contained; NaNs never are.
+                root_contained = jnp.sign(lower_val) * jnp.sign(upper_val) <= 0
+                root_not_contained = jnp.invert(root_contained)
                 flip = eqx.error_if(
                     flip,
                     root_not_contained,
-- 
2.43.0


From 3f9df7264a3b454eb5ddbea4978fdbbeddc38d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:51 +0000
Subject: [PATCH 16/28] fix: use the stable branch of the dogleg quadratic
 formula

The two algebraically equal formulas were selected the wrong way round, which cancels
catastrophically. For some radii the interpolated step was far outside the trust region.
---
 optimistix/_solver/dogleg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 2bd8c13..580dcc8 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -170,7 +170,7 @@ class DoglegDescent(
                 # use slightly different formulas when `b >=` and `b < 0`.
                 # See https://github.com/fortran-lang/stdlib/issues/674 for a number of
                 # references.
-                t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
+                t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)
                 result = RESULTS.successful
             else:
                 root_find_options = {
-- 
2.43.0


From 5b1a081399cd6ea57076fcd26ecdd7729231f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 17/28] fix: differentiate root finds by minimisation through
 the root function

root_find (and fixed_point) given a minimiser applied the implicit function
theorem to the gradient of the norm of the residual, which is not
differentiable at a root. Derivatives of the solution were silently wrong, or
the linear solve failed. Use the root function itself, as for least-squares
solvers.
---
 optimistix/_root_find.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/optimistix/_root_find.py b/optimistix/_root_find.py
index 4efe33a..d2c551a 100644
--- a/optimistix/_root_find.py
+++ b/optimistix/_root_find.py
@@ -10,7 +10,7 @@ from ._adjoint import AbstractAdjoint, ImplicitAdjoint
 from ._custom_types import Aux, Fn, MaybeAuxFn, Out, SolverState, Y
 from ._iterate import AbstractIterativeSolver, iterative_solve
 from ._least_squares import AbstractLeastSquaresSolver
-from ._minimise import AbstractMinimiser, minimise
+from ._minimise import AbstractMinimiser
 from ._misc import inexact_asarray, NoneAux, OutAsArray, tree_full_like
 from ._solution import Solution
 
@@ -36,6 +36,19 @@ def _to_minimise_fn(root_fn, norm, y, args):
     return norm(root), (root, aux)
 
 
+# As `_rewrite_fn`, but for `_to_minimise_fn`: the implicit function theorem applies to
+# the root function itself, not to its norm (which is not differentiable at the root).
+def _rewrite_minimise_fn(root, _, inputs):
+    minimise_fn, _, _, args, *_ = inputs
+    del inputs
+    _, (f_val, _) = minimise_fn(root, args)
+    return f_val
+
+
+if _rewrite_minimise_fn.__globals__["__name__"].startswith("jaxtyping"):
+    _rewrite_minimise_fn = _rewrite_minimise_fn.__wrapped__  # pyright: ignore[reportFunctionMemberAccess]
+
+
 def _to_lstsq_fn(root_fn, y, args):
     root, aux = root_fn(y, args)
     return root, (root, aux)
@@ -177,19 +190,29 @@ def root_find(
     fn = OutAsArray(fn)
 
     if isinstance(solver, AbstractMinimiser):
-        del tags
-        sol = minimise(
-            eqx.Partial(_to_minimise_fn, fn, solver.norm),
+        y0 = jtu.tree_map(inexact_asarray, y0)
+        minimise_fn = eqx.Partial(_to_minimise_fn, fn, solver.norm)
+        minimise_fn = eqx.filter_closure_convert(minimise_fn, y0, args)  # pyright: ignore
+        minimise_fn = cast(Fn[Y, Out, Aux], minimise_fn)
+        f_struct, aux_struct = minimise_fn.out_struct  # pyright: ignore[reportFunctionMemberAccess]
+        if options is None:
+            options = {}
+
+        sol = iterative_solve(
+            minimise_fn,
             _MinimToRoot(solver),  # pyright: ignore
             y0,
             args,
             options,
-            has_aux=True,
             max_steps=max_steps,
             adjoint=adjoint,
             throw=throw,
+            tags=tags,
+            f_struct=f_struct,
+            aux_struct=aux_struct,
+            rewrite_fn=_rewrite_minimise_fn,
         )
-        _, aux = sol.aux
+        _, aux = sol.aux  # pyright: ignore[reportGeneralTypeIssues]
         sol = eqx.tree_at(lambda s: s.aux, sol, aux)
         return sol
     elif isinstance(solver, AbstractLeastSquaresSolver):
-- 
2.43.0


From 61d72efb012dff3556ec7f03e1378f601e4e0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:09 +0000
Subject: [PATCH 18/28] fix: do not apply the Hessian tags of least_squares to
 the Jacobian

The tags of least_squares describe the Hessian of the sum of squares. They were
also attached to the Jacobian of the residuals inside Gauss-Newton-like
solvers, so a valid tag raised an error for non-square problems and could give
wrong steps for square ones. Use them for differentiation only.
---
 optimistix/_iterate.py       | 7 ++++++-
 optimistix/_least_squares.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/optimistix/_iterate.py b/optimistix/_iterate.py
index 7b1c94e..72b3005 100644
--- a/optimistix/_iterate.py
+++ b/optimistix/_iterate.py
@@ -288,6 +288,7 @@ def iterative_solve(
     f_struct: PyTree[jax.ShapeDtypeStruct],
     aux_struct: PyTree[jax.ShapeDtypeStruct],
     rewrite_fn: Callable,
+    solver_tags: frozenset[object] | None = None,
 ) -> Solution[Y, Aux]:
     """Compute the iterates of an iterative numerical method.
 
@@ -324,6 +325,8 @@ def iterative_solve(
         output of `fn`. Keyword only argument.
     - `aux_struct`: A pytree of `jax.ShapeDtypeStruct`s of the same shape as the
         auxiliary data returned by `fn`. Keyword only argument.
+    - `solver_tags`: The tags passed to `solver`, if these should differ from those
+        used to differentiate the solve. Defaults to `tags`. Keyword only argument.
 
     **Returns:**
 
@@ -339,7 +342,9 @@ def iterative_solve(
 
     f_struct = jtu.tree_map(eqxi.Static, f_struct)
     aux_struct = jtu.tree_map(eqxi.Static, aux_struct)
-    inputs = fn, solver, y0, args, options, max_steps, f_struct, aux_struct, tags
+    if solver_tags is None:
+        solver_tags = tags
+    inputs = fn, solver, y0, args, options, max_steps, f_struct, aux_struct, solver_tags
     (
         out,
         (
diff --git a/optimistix/_least_squares.py b/optimistix/_least_squares.py
index 6d3a6c9..1dd8d33 100644
--- a/optimistix/_least_squares.py
+++ b/optimistix/_least_squares.py
@@ -132,4 +132,6 @@ def least_squares(
             f_struct=f_struct,
             aux_struct=aux_struct,
             rewrite_fn=_rewrite_fn,
+            # `tags` describe the Hessian; least-squares solvers use the Jacobian.
+            solver_tags=frozenset(),
         )
-- 
2.43.0


From 22fe2f33ad1b9de69beb40ac50402d5b06babd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:42 +0000
Subject: [PATCH 19/28] fix: keep nonfinite batch members from failing indirect
 damped Newton

Under vmap the search for the damping parameter is evaluated for every batch
member, used or not. A member with nonfinite function information made it
raise an error for the whole batch, even with throw=False.
---
 optimistix/_solver/levenberg_marquardt.py | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index e9e82be..446ae90 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -11,7 +11,14 @@ from equinox.internal import ω
 from jaxtyping import Array, Float, PyTree, Scalar, ScalarLike
 
 from .._custom_types import Aux, Out, Y
-from .._misc import default_verbose, max_norm, tree_dtype, tree_full_like, two_norm
+from .._misc import (
+    default_verbose,
+    max_norm,
+    tree_dtype,
+    tree_full_like,
+    tree_where,
+    two_norm,
+)
 from .._root_find import AbstractRootFinder, root_find
 from .._search import AbstractDescent, FunctionInfo
 from .._solution import RESULTS
@@ -214,10 +221,24 @@ class IndirectDampedNewtonDescent(
         # so that a `step_size` of `1` corresponds to the full length of the Newton
         # step (anything greater than `1` will still accept the Newton step.)
         dtype = state.newton_norm.dtype
-        scaled_step_size = state.newton_norm * step_size.astype(dtype)
+        # Only do a root-find if we have a small step size, and our Newton step was
+        # successful.
+        do_root_solve = (state.result == RESULTS.successful) & (step_size < 1)
+        # Under `vmap` then the root-find is evaluated even when it is not used. Make
+        # sure that it never sees nonfinite values, as these raise an error when
+        # differentiating a linear solve.
+        newton_norm = jnp.where(do_root_solve, state.newton_norm, 0)
+        scaled_step_size = newton_norm * step_size.astype(dtype)
+        dynamic_f_info, static_f_info = eqx.partition(
+            state.f_info, eqx.is_inexact_array
+        )
+        dynamic_f_info = tree_where(
+            do_root_solve, dynamic_f_info, tree_full_like(dynamic_f_info, 0)
+        )
+        f_info = eqx.combine(dynamic_f_info, static_f_info)
 
         def comparison_fn(lambda_i: Scalar, _):
-            step, _ = damped_newton_step(1 / lambda_i, state.f_info, self.linear_solver)
+            step, _ = damped_newton_step(1 / lambda_i, f_info, self.linear_solver)
             return self.trust_region_norm(step) - scaled_step_size
 
         def reject_newton():
@@ -231,16 +252,13 @@ class IndirectDampedNewtonDescent(
                 throw=False,
             ).value
             y_diff, result = damped_newton_step(
-                1 / lambda_out, state.f_info, self.linear_solver
+                1 / lambda_out, f_info, self.linear_solver
             )
             return y_diff, result
 
         def accept_newton():
             return state.newton, state.result
 
-        # Only do a root-find if we have a small step size, and our Newton step was
-        # successful.
-        do_root_solve = (state.result == RESULTS.successful) & (step_size < 1)
         neg_y_diff, new_result = lax.cond(do_root_solve, reject_newton, accept_newton)
         return (-(neg_y_diff**ω)).ω, new_result
 
-- 
2.43.0


From 0889eae1648547c1876e333f1750a2f141e5e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:42 +0000
Subject: [PATCH 20/28] fix: do not raise from dogleg when there is no
 intersection to find

With a trust region norm other than the two-norm, the dogleg descent finds an
intersection with a root finder. It raised an error for nonfinite inputs, and
under vmap for batch members that do not need the intersection.
---
 optimistix/_solver/dogleg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 580dcc8..e2627e5 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -177,9 +177,15 @@ class DoglegDescent(
                     "lower": jnp.array(1.0, dtype),
                     "upper": jnp.array(2.0, dtype),
                 }
+                # If there is no intersection then this branch's result is not used, or
+                # has nonfinite inputs. Use a placeholder that has a root, as the root
+                # finder may raise an error otherwise.
+                has_root = (state.cauchy_norm <= scaled_step_size) & (step_size < 1)
                 root_sol = root_find(
-                    lambda t, _: (
-                        self.trust_region_norm(interpolate(t)) - scaled_step_size
+                    lambda t, _: jnp.where(
+                        has_root,
+                        self.trust_region_norm(interpolate(t)) - scaled_step_size,
+                        t - 1.5,
                     ),
                     self.root_finder,
                     y0=jnp.array(1.5, dtype),
-- 
2.43.0


From 727cf74f0439dba36c838fac197f87cd54003157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:14 +0000
Subject: [PATCH 21/28] fix: do not let rounding hide the dogleg intersection

With a trust-region norm other than the two-norm, a Cauchy step whose length equals
the trust radius could, through rounding, look as if it lay outside of it, and the
bisection then raised an error.
---
 optimistix/_solver/dogleg.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index e2627e5..18c452b 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -181,12 +181,17 @@ class DoglegDescent(
                 # has nonfinite inputs. Use a placeholder that has a root, as the root
                 # finder may raise an error otherwise.
                 has_root = (state.cauchy_norm <= scaled_step_size) & (step_size < 1)
+
+                def radius_gap(t, _):
+                    gap = self.trust_region_norm(interpolate(t)) - scaled_step_size
+                    # We have an intersection, so don't let rounding error at the ends
+                    # of the interval say otherwise.
+                    gap = jnp.where(t <= 1, jnp.minimum(gap, 0), gap)
+                    gap = jnp.where(t >= 2, jnp.maximum(gap, 0), gap)
+                    return jnp.where(has_root, gap, t - 1.5)
+
                 root_sol = root_find(
-                    lambda t, _: jnp.where(
-                        has_root,
-                        self.trust_region_norm(interpolate(t)) - scaled_step_size,
-                        t - 1.5,
-                    ),
+                    radius_gap,
                     self.root_finder,
                     y0=jnp.array(1.5, dtype),
                     options=root_find_options,
-- 
2.43.0


From bd9894e67914fd1bfea06d1da329b9f9222958d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:14 +0000
Subject: [PATCH 22/28] fix: do not accept uphill steps when no reduction is
 predicted

The trust-region searches assume that the predicted reduction is negative. If the model
predicted an increase (for example after overshooting the Newton step) then steps
increasing the objective were accepted.
---
 optimistix/_solver/trust_region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/trust_region.py b/optimistix/_solver/trust_region.py
index 15d171d..5f2b608 100644
--- a/optimistix/_solver/trust_region.py
+++ b/optimistix/_solver/trust_region.py
@@ -93,7 +93,8 @@ class _AbstractTrustRegion(AbstractSearch[Y, _FnInfo, _FnEvalInfo, _TrustRegionS
         f_min = f_info.as_min()
         f_min_eval = f_eval_info.as_min()
         f_min_diff = f_min_eval - f_min  # This number is probably negative
-        accept = f_min_diff <= self.low_cutoff * predicted_reduction
+        # If the model does not predict a reduction then do not allow increases in `fn`.
+        accept = f_min_diff <= self.low_cutoff * jnp.minimum(predicted_reduction, 0)
         good = f_min_diff < self.high_cutoff * predicted_reduction
         good = good & (predicted_reduction < 0)
 
-- 
2.43.0


From 645f795bb9e70eaca4216cdbb730d907d93e9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:14 +0000
Subject: [PATCH 23/28] fix: allow Optax optimisers that take no extra
 arguments

Transformations such as optax.scale(...) raised a TypeError, as they do not accept the
value, grad and value_fn arguments.
---
 optimistix/_solver/optax.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optimistix/_solver/optax.py b/optimistix/_solver/optax.py
index 6628cfd..86d7d43 100644
--- a/optimistix/_solver/optax.py
+++ b/optimistix/_solver/optax.py
@@ -56,6 +56,11 @@ class OptaxMinimiser(AbstractMinimiser[Y, Aux, _OptaxState]):
             `(str, jax.Array)` providing a human-readable name and its corresponding
             value.
         """
+        import optax
+
+        # We always pass `value`, `grad` and `value_fn`, which not every optimiser takes.
+        if isinstance(optim, optax.GradientTransformation):
+            optim = optax.with_extra_args_support(optim)
         # See https://github.com/deepmind/optax/issues/577: Optax has an issue in which
         # it doesn't use pytrees correctly.
         self.optim = eqxi.closure_to_pytree(optim)
-- 
2.43.0


From 6d8252329361eba23f8d915b2c123250d7cc8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 24/28] fix: OptaxMinimiser raised for optimisers using an
 exponential-decay schedule

---
 optimistix/_solver/optax.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/optax.py b/optimistix/_solver/optax.py
index 86d7d43..2db894a 100644
--- a/optimistix/_solver/optax.py
+++ b/optimistix/_solver/optax.py
@@ -63,7 +63,12 @@ class OptaxMinimiser(AbstractMinimiser[Y, Aux, _OptaxState]):
             optim = optax.with_extra_args_support(optim)
         # See https://github.com/deepmind/optax/issues/577: Optax has an issue in which
         # it doesn't use pytrees correctly.
-        self.optim = eqxi.closure_to_pytree(optim)
+        try:
+            self.optim = eqxi.closure_to_pytree(optim)
+        except ValueError:
+            # Some Optax schedules have unassigned closure variables, which cannot be
+            # converted.
+            self.optim = optim
         self.rtol = rtol
         self.atol = atol
         self.norm = norm
-- 
2.43.0


From 40d09f5f4f9e46588a7458e6b54dfa4ab962c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:19 +0000
Subject: [PATCH 25/28] fix: least-squares solves raised for residuals that
 themselves solve a system

On the first step the search was handed a Jacobian filled with zeros. Applying
it fails when the residual involves a linear solve, as any nested solve does.
Hand it the Jacobian of the point just evaluated instead.
---
 optimistix/_solver/gauss_newton.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/gauss_newton.py b/optimistix/_solver/gauss_newton.py
index 8dcd7f3..458c1b5 100644
--- a/optimistix/_solver/gauss_newton.py
+++ b/optimistix/_solver/gauss_newton.py
@@ -259,11 +259,18 @@ class AbstractGaussNewton(AbstractLeastSquaresSolver[Y, Out, Aux, _GaussNewtonSt
         jac = eqx.combine(dynamic, static)
         f_eval_info = eqx.tree_at(lambda f: f.jac, f_eval_info, jac)
 
+        # On the first step `state.f_info` is filled with zeros, and it need not be
+        # possible to evaluate its Jacobian, e.g. if `fn` involves a linear solve.
+        dynamic, static = eqx.partition(state.f_info, eqx.is_array)
+        dynamic_eval = eqx.filter(f_eval_info, eqx.is_array)
+        dynamic = tree_where(state.first_step, dynamic_eval, dynamic)
+        search_f_info = eqx.combine(dynamic, static)
+
         step_size, accept, search_result, search_state = self.search.step(
             state.first_step,
             y,
             state.y_eval,
-            state.f_info,
+            search_f_info,
             f_eval_info,
             state.search_state,
         )
-- 
2.43.0


From e472ec4ea2b0c971e3be14a1dd7a5c668bb9f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:44 +0000
Subject: [PATCH 26/28] fix: mask the Jacobian's output, not its leaves, in
 batched indirect damping

Under vmap the damping root-find also runs for batch members that do not use
it, so it has to be given a finite problem. Setting the leaves of the Jacobian
operator to zero does not give the zero operator: they may be divided by, as in
the derivative of a logarithm, and the whole batch then raised.
---
 optimistix/_solver/levenberg_marquardt.py | 46 +++++++++++++++++++----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index 446ae90..bae4cc9 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -8,7 +8,7 @@ import jax.numpy as jnp
 import jax.tree_util as jtu
 import lineax as lx
 from equinox.internal import ω
-from jaxtyping import Array, Float, PyTree, Scalar, ScalarLike
+from jaxtyping import Array, Bool, Float, PyTree, Scalar, ScalarLike
 
 from .._custom_types import Aux, Out, Y
 from .._misc import (
@@ -86,6 +86,42 @@ def damped_newton_step(
     return linear_sol.value, RESULTS.promote(linear_sol.result)
 
 
+class _ZeroUnless(eqx.Module):
+    pred: Bool[Array, ""]
+    operator: lx.AbstractLinearOperator
+
+    def __call__(self, y: PyTree[Array]):
+        out = self.operator.mv(y)
+        return tree_where(self.pred, out, tree_full_like(out, 0))
+
+
+def _zero_unless(
+    pred: Bool[Array, ""],
+    f_info: FunctionInfo.EvalGradHessian | FunctionInfo.ResidualJac,
+) -> FunctionInfo.EvalGradHessian | FunctionInfo.ResidualJac:
+    # Note that zeroing the leaves of an operator need not give the zero operator: for
+    # example they may be divided by. So it is the output which is zeroed.
+    if isinstance(f_info, FunctionInfo.EvalGradHessian):
+        hessian = f_info.hessian
+        psd = lx.is_positive_semidefinite(hessian)
+        tags = lx.positive_semidefinite_tag if psd else ()
+        return FunctionInfo.EvalGradHessian(
+            f_info.f,
+            tree_where(pred, f_info.grad, tree_full_like(f_info.grad, 0)),
+            lx.FunctionLinearOperator(
+                _ZeroUnless(pred, hessian), hessian.in_structure(), tags
+            ),
+        )
+    elif isinstance(f_info, FunctionInfo.ResidualJac):
+        residual, jac = f_info.residual, f_info.jac
+        return FunctionInfo.ResidualJac(
+            tree_where(pred, residual, tree_full_like(residual, 0)),
+            lx.FunctionLinearOperator(_ZeroUnless(pred, jac), jac.in_structure()),
+        )
+    else:
+        return f_info
+
+
 class _DampedNewtonDescentState(eqx.Module):
     f_info: FunctionInfo.EvalGradHessian | FunctionInfo.ResidualJac
 
@@ -229,13 +265,7 @@ class IndirectDampedNewtonDescent(
         # differentiating a linear solve.
         newton_norm = jnp.where(do_root_solve, state.newton_norm, 0)
         scaled_step_size = newton_norm * step_size.astype(dtype)
-        dynamic_f_info, static_f_info = eqx.partition(
-            state.f_info, eqx.is_inexact_array
-        )
-        dynamic_f_info = tree_where(
-            do_root_solve, dynamic_f_info, tree_full_like(dynamic_f_info, 0)
-        )
-        f_info = eqx.combine(dynamic_f_info, static_f_info)
+        f_info = _zero_unless(do_root_solve, state.f_info)
 
         def comparison_fn(lambda_i: Scalar, _):
             step, _ = damped_newton_step(1 / lambda_i, f_info, self.linear_solver)
-- 
2.43.0


From 710281e40dcecbe4f342a7d1498b5c7fbe59608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:27 +0000
Subject: [PATCH 27/28] fix: Cauchy point search never ended when a coordinate
 had no bound in its way

---
 optimistix/_solver/cauchy_point.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/cauchy_point.py b/optimistix/_solver/cauchy_point.py
index dcf2172..8da0547 100644
--- a/optimistix/_solver/cauchy_point.py
+++ b/optimistix/_solver/cauchy_point.py
@@ -117,7 +117,9 @@ def _find_cauchy_point(
         is_cauchy = stop_at_previous | jnp.invert(skip_to_next)
 
         point = _point(y, grad, optimal_intercept, lower, upper)
-        more_to_try = jnp.any(state.intercepts > next_intercept)
+        more_to_try = jnp.any(
+            jnp.isfinite(state.intercepts) & (state.intercepts > next_intercept)
+        )
 
         return _CauchyState(
             intercepts=intercepts,
-- 
2.43.0


From a9432c72220bd58960847b7b5962bdfe9afb14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:01 +0000
Subject: [PATCH 28/28] fix: Cauchy point search passed over bounds, depending
 on the order of the coordinates

---
 optimistix/_solver/cauchy_point.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/optimistix/_solver/cauchy_point.py b/optimistix/_solver/cauchy_point.py
index 8da0547..3a600c5 100644
--- a/optimistix/_solver/cauchy_point.py
+++ b/optimistix/_solver/cauchy_point.py
@@ -54,15 +54,11 @@ def _boundary_intercepts(y: Y, lower: Y, upper: Y, grad: Y):
 
 
 def _next_intercept(intercepts, previous_intercept):
-    """The next intercept is the first finite intercept that is larger than the
-    previous one. We're inverting that and taking the argmin to get the first
-    element for which this condition evaluates to True.
+    """The next intercept is the smallest intercept that is larger than the previous
+    one.
     """
-    candidates = jnp.invert(intercepts > previous_intercept)
-    candidates = jnp.where(
-        jnp.isfinite(intercepts), candidates, jnp.ones_like(candidates)
-    )
-    return intercepts[jnp.argmin(candidates)]
+    candidates = jnp.where(intercepts > previous_intercept, intercepts, jnp.inf)
+    return jnp.min(candidates)
 
 
 def _point(y, grad, intercept, lower, upper):
-- 
2.43.0

