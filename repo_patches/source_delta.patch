From 24d05912e15435112db3ea5c75011c0cb4a7b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:09 +0000
Subject: [PATCH 01/13] fix: Do not reuse CHOLMOD's symbolic analysis across
 sparsity patterns

The analysis was cached per solver object. Solver objects are captured by
jit-compiled solves, so a second graph with the same shapes but different
connectivity was factorized with the first graph's pattern. The result was
silently wrong, infinite or NaN. Add the sparsity pattern to the cache key.
---
 jaxfg/sparse/_linear_solve.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..2ddb21f 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,8 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
+    - The symbolic analysis is cached, with one entry for each solver and sparsity
+      pattern.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -75,17 +75,22 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
         # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        cache_key = (
+            object.__hash__(self),
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if cache_key not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
         # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From 241d335b28a1dbb6cd7b7a1bcb51f445327ea164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:20 +0000
Subject: [PATCH 02/13] fix: Keep the old residual vector when a trust region
 step is rejected

The Levenberg-Marquardt and dogleg solvers kept the assignments and cost of
the previous iterate after a rejected step, but stored the residual vector
of the rejected proposal. The next step and its quality were then computed
from residuals that did not belong to the current assignments.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..9b4b468 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..393b58e 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
-- 
2.43.0


From c710ea808c9cced5b1918c6d75d4a7fd892b1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:30 +0000
Subject: [PATCH 03/13] fix: Use the infinity norm in the gradient termination
 criterion

The criterion is documented as an infinity norm, but took the maximum of the
signed differences. Solves stopped early whenever every parameter moved in
the positive direction.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From 5c03a4025f5c27fec16f10550bfd9235d7daf7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:41 +0000
Subject: [PATCH 04/13] fix: Weight Huber Jacobians and residuals consistently

Jacobians are whitened using the residual vector after Huber weighting, but
the weight was computed as if it was the unweighted one. Jacobian rows of
outliers were scaled differently from their residuals, so solvers did not
converge to a minimum of the Huber cost.
---
 jaxfg/noises/_huber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..9e9d260 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -47,5 +47,7 @@ class HuberWrapper(NoiseModelBase):
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            # The input is already Huber-weighted: when the unweighted norm is `n`, its
+            # norm is `sqrt(delta * n)` and the weight is `sqrt(delta / n)`.
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0


From 9588c81e88d5df5b81125cf7b04f39133e2624e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:52 +0000
Subject: [PATCH 05/13] fix: Sum duplicate coordinates in
 SparseCooMatrix.as_dense()

Matrix-vector products and the scipy conversion sum entries that share a
coordinate, as is usual for COO matrices. as_dense() kept only one of them.
Duplicates occur when a factor is connected to the same variable twice.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From e7c38c9d674fc489faca67f8240c3d82004195ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:02 +0000
Subject: [PATCH 06/13] fix: Keep the storage order when factorizing for
 marginal covariances

CHOLMOD applies a fill-reducing permutation by default, which was ignored
when indexing into the factor. Covariances were assigned to the wrong
variables for most graphs with three or more variables.
---
 jaxfg/experimental/_sparse_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..701380f 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -39,7 +39,8 @@ class SparseCovariance:
             .tocsc(copy=False)
         )
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            # Rows and columns should stay in the order of our storage layout.
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From f45cf1d397af466ac157b13f63a29cec29618e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 07/13] fix: Resolve storage layout mismatches in
 manifold_retract()

Deltas were matched with values by position inside each variable type, so
they were applied to the wrong variables when the two layouts order their
variables differently. This also made FixedIterationGaussNewtonSolver
diverge when the initial assignments were not in the order of the graph.
---
 jaxfg/core/_variable_assignments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..371ee27 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,11 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From 7aa69d76fa1df77e6d9c24cfd75d04a37006b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:24 +0000
Subject: [PATCH 08/13] fix: Accept include_constants and avoid overflow in
 compute_joint_nll()

Passing include_constants explicitly failed because the flag was traced.
The log-determinants were taken of a product that overflows or underflows
for high-dimensional or very precise factors, giving an infinite result.
---
 jaxfg/core/_stacked_factor_graph.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index f7ed223..fee4f63 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -175,7 +175,7 @@ class StackedFactorGraph:
     def compute_joint_nll(
         self,
         assignments: VariableAssignments,
-        include_constants: bool = False,
+        include_constants: jdc.Static[bool] = False,
     ) -> jnp.ndarray:
         """Compute the joint negative log-likelihood density associated with a set of
         variable assignments. Assumes Gaussian noise models.
@@ -198,23 +198,22 @@ class StackedFactorGraph:
         for stacked_factor in self.factor_stacks:
             noise_model = stacked_factor.factor.noise_model
             if isinstance(noise_model, noises.Gaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.linalg.det(
-                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
-                        )
-                    )
+                cov_determinants = (
+                    -2.0
+                    * jnp.linalg.slogdet(
+                        cast(noises.Gaussian, noise_model).sqrt_precision_matrix
+                    )[1]
                 )
             elif isinstance(noise_model, noises.DiagonalGaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.prod(
+                cov_determinants = -2.0 * jnp.sum(
+                    jnp.log(
+                        jnp.abs(
                             cast(
                                 noises.DiagonalGaussian, noise_model
-                            ).sqrt_precision_diagonal,
-                            axis=-1,
+                            ).sqrt_precision_diagonal
                         )
-                    )
+                    ),
+                    axis=-1,
                 )
             else:
                 assert False, f"Joint NLL not supported  for {type(noise_model)}"
-- 
2.43.0


From 38e7a0362667a28a866dbd97c3eb45a90b266b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:06 +0000
Subject: [PATCH 09/13] fix: reject residuals that do not fit the dimension of
 a Gaussian noise model

The einsum in Gaussian.whiten_residual_vector() broadcasts axes of size one.
A one-dimensional residual was silently accepted by a noise model of any
dimension. Check the shapes, as DiagonalGaussian does.
---
 jaxfg/noises/_gaussians.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaxfg/noises/_gaussians.py b/jaxfg/noises/_gaussians.py
index 55386a1..fc9664a 100644
--- a/jaxfg/noises/_gaussians.py
+++ b/jaxfg/noises/_gaussians.py
@@ -28,6 +28,8 @@ class Gaussian(NoiseModelBase):
 
     @overrides
     def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
+        # Size-1 axes would otherwise be broadcast by einsum.
+        assert residual_vector.shape == (self.get_residual_dim(),)
         return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)
 
     @overrides
@@ -36,6 +38,7 @@ class Gaussian(NoiseModelBase):
         jacobian: hints.Array,
         residual_vector: hints.Array,  # Unused
     ) -> hints.Array:
+        assert jacobian.shape[:-1] == (self.get_residual_dim(),)
         return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)
 
 
-- 
2.43.0


From 048fc4bf040b1bc94c2db54cfa353a90fc3f816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:24 +0000
Subject: [PATCH 10/13] fix: avoid NaN gradients of Huber-wrapped residuals
 that are zero

The gradient of a norm is undefined at zero, and the NaN propagated through
jnp.where() even though the quadratic branch was selected. Gradients of the
cost with respect to assignments or factor parameters became NaN as soon as
one Huber-wrapped factor was met exactly.
---
 jaxfg/noises/_huber.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index 9e9d260..4a938b6 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -24,11 +24,18 @@ class HuberWrapper(NoiseModelBase):
     def get_residual_dim(self) -> int:
         return self.wrapped.get_residual_dim()
 
+    def _compute_norm(self, residual_vector: hints.Array) -> hints.Array:
+        # The gradient of a norm is undefined for zero vectors, and the NaNs would
+        # propagate through `jnp.where()`.
+        return jnp.linalg.norm(
+            jnp.where(jnp.sum(residual_vector**2) > 0.0, residual_vector, 1e-12)
+        )
+
     @overrides
     def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
         residual_vector = self.wrapped.whiten_residual_vector(residual_vector)
 
-        residual_norm = jnp.linalg.norm(residual_vector)
+        residual_norm = self._compute_norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             residual_vector,
@@ -43,7 +50,7 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
-        residual_norm = jnp.linalg.norm(residual_vector)
+        residual_norm = self._compute_norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-- 
2.43.0


From f234737ffea72bf9c79a6c871ea7e1258b0eedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:49 +0000
Subject: [PATCH 11/13] fix: store integer initial values as floats

Assignments made only from integer values had an integer storage vector, so
set_value() and manifold_retract() silently truncated what they stored.
---
 jaxfg/core/_variable_assignments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 371ee27..99c7c76 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -78,6 +78,8 @@ class VariableAssignments:
             ],
             axis=0,
         )
+        # Integer storage would truncate values that are set or retracted later.
+        storage = storage.astype(jnp.result_type(storage, float))
         assert storage.shape == (storage_layout.dim,)
 
         return VariableAssignments(storage=storage, storage_layout=storage_layout)
-- 
2.43.0


From b05d168d4692d40e7a094c2b81fc0961ab54f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:49 +0000
Subject: [PATCH 12/13] fix: keep fractions when multiplying a sparse matrix by
 an integer vector

The product took the type of the vector, so an integer vector truncated it.
---
 jaxfg/sparse/_sparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..f2ed754 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,9 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(
+                self.shape[0], dtype=jnp.result_type(self.values, other)
+            )
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From ee42796d3ad93cb373c3e54e71274ac00da01bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:48 +0000
Subject: [PATCH 13/13] fix: recover covariances of larger graphs without deep
 recursion

Chains of a few hundred dimensions exceeded Python's recursion limit.
---
 jaxfg/experimental/_sparse_covariance.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index 701380f..f221fa8 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -96,6 +96,22 @@ class SparseCovariance:
         if indices in self._value_cache:
             return self._value_cache[indices]
 
+        # Compute the entries that this one depends on first. Recursing into chains of
+        # them would exceed Python's recursion limit in larger graphs
+        pending: List[Tuple[int, int]] = [indices]
+        while len(pending) > 0:
+            pair = pending[-1]
+            rows = self.L.indices[self.L.indptr[pair[0]] : self.L.indptr[pair[0] + 1]]
+            missing = [
+                (min(i, pair[1]), max(i, pair[1])) for i in rows if i != pair[0]
+            ]
+            missing = [p for p in missing if p not in self._value_cache]
+            pending.extend(missing)
+            if len(missing) == 0:
+                pending.pop()
+                if pair != indices:
+                    self[pair]
+
         # Compute covariance value from square-root information matrix
         value: float
 
-- 
2.43.0

