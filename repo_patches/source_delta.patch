From d2bdeaab5cc99729ac60f10e32318bbe2df18a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 01/18] fix: parallel shooting passed the control to the
 equations of motion

With n_cpus > 1 every arc was propagated with (y, u, p, const), while the
compiled derivative and quadrature functions take (y, p, const), as the serial
path passes them. Every parallel solve therefore failed with a TypeError.
---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..8f27cac 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,7 +284,7 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-- 
2.43.0


From af603c3a8ccb8d4e3ef16bb0ffdf53e8b2bf76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 02/18] fix: grid continuations reused the previous run's grid

productspace and sparse_product appended the grid of a new run behind the grid
of the previous one, so a step used a second time walked the old points.
---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..c2eb8a6 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -346,6 +346,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -437,6 +438,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From cd5acaae86fca39f82ad60ad0f00552de30e92ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 03/18] fix: bisection step kept the divisions of its previous
 run

The number of cases grows with every division but was not restored on reset, so
a step used a second time started from a finer grid than the one requested.
---
 beluga/continuation/continuation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index c2eb8a6..fc9f81b 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -240,6 +240,12 @@ class BisectionStrategy(ManualStrategy):
         self.division_ctr = 0
         self.orig_num_cases = initial_num_cases
 
+    def reset(self):
+        """Resets the internal step counter to zero and drops the cases added by divisions"""
+        super(BisectionStrategy, self).reset()
+        self._num_cases = self.orig_num_cases
+        self.division_ctr = 0
+
     def next(self, ignore_last_step=False):
         """Generator class to create BVPs for the continuation step iterations
 
-- 
2.43.0


From 290e00a16c192a6497ca0d909a3e24c40fdb22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 04/18] fix: a static guess was modified by the solve that used
 it

The mapping to the boundary value problem works in place, so the trajectory the
user supplied came back in BVP form and a second solve with it failed.
---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 7dc94ccaf4578c942fc3add5b684f468486c17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 05/18] fix: diverged trajectories could be picked as the
 nearest guess

A solver that reports convergence as a numpy bool never satisfies `is False`, so
its diverged trajectories were treated as converged ones.
---
 beluga/continuation/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index fc9f81b..cca951f 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -97,7 +97,7 @@ class ContinuationStrategy(abc.ABC):
     def get_closest_gamma(self, const):
         norms = []
         for traj in self.gammas:
-            if traj.converged is False:
+            if not traj.converged:
                 norms.append(9e99)
             else:
                 norms.append(gamma_norm(traj.const, const))
-- 
2.43.0


From 63e933df4997f1ea36d4209887071b0fb0c929f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 06/18] fix: a continuation with a single case never left its
 starting point

With num_cases of 1, the default of the manual strategy, the only case was the
starting value, and the step ended without having solved for its target.
---
 beluga/continuation/continuation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index cca951f..9d7e4d4 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -205,6 +205,9 @@ class ManualStrategy(ContinuationStrategy):
                                                         np.log10(self.vars[var_name].target),
                                                         self._num_cases)
 
+            # The last case is the target itself, also if it is the only case or subject to roundoff in the spacing
+            self.vars[var_name].steps[-1] = self.vars[var_name].target
+
     def set(self, name, target, param_type):
         """
         Sets the target value for the specified parameter
-- 
2.43.0


From 0bebaef077aa1aba3987ef190fab4dc5db6f4bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:24 +0000
Subject: [PATCH 07/18] fix: a failing solve leaked its worker pool and its
 algorithm

The pool was created before the arguments were checked and closed only when
everything succeeded, so every failed solve left its worker processes running
and the algorithm open.
---
 beluga/beluga.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..a53dfd7 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -113,10 +113,6 @@ def solve(
     """
     if n_cpus < 1:
         raise ValueError('Number of cpus must be greater than 1.')
-    if n_cpus > 1:
-        pool = pathos.multiprocessing.Pool(processes=n_cpus)
-    else:
-        pool = None
 
     if ocp is None:
         raise NotImplementedError('\"ocp\" must be defined.')
@@ -177,20 +173,27 @@ def solve(
     """
     Main continuation process
     """
+    if n_cpus > 1:
+        pool = pathos.multiprocessing.Pool(processes=n_cpus)
+    else:
+        pool = None
+
     time0 = time.time()
-    continuation_set = run_continuation_set(bvp_algorithm, steps, solinit, bvp, pool, autoscale)
+    try:
+        continuation_set = run_continuation_set(bvp_algorithm, steps, solinit, bvp, pool, autoscale)
+    finally:
+        # Release the workers and the algorithm however the continuation ends
+        if pool is not None:
+            pool.close()
+        bvp_algorithm.close()
     total_time = time.time() - time0
     logger.info('Continuation process completed in %0.4f seconds.\n' % total_time)
-    bvp_algorithm.close()
 
     """
     Post processing and output
     """
     out = postprocess_continuations(continuation_set, ocp_map_inverse)
 
-    if pool is not None:
-        pool.close()
-
     if save_sols or (isinstance(save_sols, str)):
         if isinstance(save_sols, str):
             filename = save_sols
-- 
2.43.0


From 94b6d19afa6012567787d58d7efe7644b33141bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:45 +0000
Subject: [PATCH 08/18] fix: a failed or interrupted save destroyed the results
 saved before

The file was truncated before the new results were serialised and written, so a
full disk, an object that cannot be pickled, an interrupt or a crash left an
unreadable file in place of the previous results. Write the new results to a
temporary file next to it and rename it over the old one once it is on disk.
---
 beluga/utils/storage.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/beluga/utils/storage.py b/beluga/utils/storage.py
index f71d169..ac786ab 100644
--- a/beluga/utils/storage.py
+++ b/beluga/utils/storage.py
@@ -1,3 +1,7 @@
+import contextlib
+import os
+import uuid
+
 import cloudpickle as pickle
 
 
@@ -14,8 +18,27 @@ def save(sol_set=None, ocp=None, bvp=None, filename='data.beluga'):
     if bvp is not None:
         save_dict['bvp'] = bvp
 
-    with open(filename, 'wb') as file:
-        pickle.dump(save_dict, file)
+    data = pickle.dumps(save_dict)
+
+    filename = os.path.realpath(filename)
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        # Devices and pipes cannot be replaced
+        with open(filename, 'wb') as file:
+            file.write(data)
+        return
+
+    # Results saved earlier under this name are replaced only once the new ones are complete on disk
+    temp_name = '{}.{}.tmp'.format(filename, uuid.uuid4().hex)
+    try:
+        with open(temp_name, 'wb') as file:
+            file.write(data)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temp_name, filename)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_name)
+        raise
 
 
 def load(filename):
-- 
2.43.0


From b7fb0c135bdeb970c01ac8fb38b42e944f7d53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:52 +0000
Subject: [PATCH 09/18] fix: shooting judged convergence by something else than
 its solution

fsolve was judged by the residual of the initial guess, the scipy root solvers
by their own flag alone (and the array-valued residual then raised in the
message), and the constrained minimisers by the constant cost, whatever was left
of the boundary conditions. Use the residual at the point that is returned.
---
 beluga/numeric/bvp_solvers/Shooting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 8f27cac..d46044c 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -680,7 +680,7 @@ class Shooting(BaseAlgorithm):
             opt = minimize(cost, x_init, method=self.algorithm, tol=self.tolerance, constraints=constraint,
                            options={'maxiter': self.max_iterations})
 
-            err = opt.fun
+            err = np.linalg.norm(_constraint_function_wrapper(opt.x))**2
             x_init = opt.x
             n_iter = opt.nit
             converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
@@ -688,14 +688,14 @@ class Shooting(BaseAlgorithm):
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)**2
             x_init = opt.x
             n_iter = -1
-            converged = opt.success
+            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            err = np.linalg.norm(_constraint_function_wrapper(x))**2
             x_init = x
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
-- 
2.43.0


From f62aec0cbeb81513bffe893ea7af02e6457fc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:52 +0000
Subject: [PATCH 10/18] fix: shooting called a trajectory converged that breaks
 off early

When the integration of an arc stops before the end of the arc, the boundary
conditions are evaluated at the point where it stopped. A solution that meets
them there covers only a part of the problem's interval.
---
 beluga/numeric/bvp_solvers/Shooting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index d46044c..e7fb0e8 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -761,6 +761,10 @@ class Shooting(BaseAlgorithm):
                 gamma_set[ii].q[0] = q
         gamma_set = _gamma_maker(pick_deriv, pick_quad, gamma_set, parameter_guess, sol, prop, pool, n_quads)
 
+        # An arc whose propagation broke off does not reach the point where its end conditions apply
+        if any(gamma.t[-1] != t_end for gamma, t_end in zip(gamma_set, tn[1:])):
+            converged = False
+
         if err < self.tolerance and converged:
             if n_iter == -1:
                 message = "Converged in an unknown number of iterations."
-- 
2.43.0


From bd6fa2dc5b72187f57df9eed164e2e2bbc7de60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:12 +0000
Subject: [PATCH 11/18] fix: constants of motion had the units of the
 Hamiltonian instead of the cost

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..f9c1f59 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,8 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.costates):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        # The constant of motion is the momentum conjugate to the shifted coordinate
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From 99c375bbe007eb91cdca3c801633146a3ae30c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 12/18] fix: collocation called a trajectory converged whose
 residual is not a number

---
 beluga/numeric/bvp_solvers/SPBVP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..7f13541 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -120,8 +120,11 @@ class SPBVP(BaseAlgorithm):
             sol.dynamical_parameters = np.array([])
             sol.nondynamical_parameters = np.array([])
 
-        sol.converged = opt['success']
-        out = BVPResult(sol=sol, success=opt['success'], message=opt['message'], rms_residuals=opt['rms_residuals'],
+        # scipy takes an interval whose residual is not a number for a solved one
+        converged = bool(opt['success'] and np.all(np.isfinite(opt['rms_residuals'])))
+
+        sol.converged = converged
+        out = BVPResult(sol=sol, success=converged, message=opt['message'], rms_residuals=opt['rms_residuals'],
                         niter=opt['niter'])
 
         return out
-- 
2.43.0


From 41179fd45ca1ba4b18e74fe8953f526bf11aeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 13/18] fix: diffyg guess mapping misplaced the costate of time
 and failed on a second restart or control

---
 beluga/numeric/data_classes/trajectory_mappers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..74e7505 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -251,6 +251,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
 
     def map(self, sol: Solution, control_costate: Union[float, np.ndarray] = 0.) -> Solution:
         idx_u_list = []
+        dual_u = []
 
         for idx_u, (idx_y, u) in enumerate(sorted(zip(self.control_idxs, sol.u.T))):
             sol.y = np.insert(sol.y, idx_y, u, axis=1)
@@ -262,14 +263,12 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
-            if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
-            else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
+            dual_u.append(costate_insert)
 
             idx_u_list.append(idx_u)
 
+        sol.dual_u = np.array(dual_u)
         sol.u = np.delete(sol.u, idx_u_list, axis=1)
         return sol
 
-- 
2.43.0


From f4d62f40d350a02cd60d7136271aaba15f450484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:59 +0000
Subject: [PATCH 14/18] fix: reduced problems refused trajectories whose empty
 quadratures have another length

---
 beluga/numeric/data_classes/trajectory_mappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 74e7505..34a3a9e 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -309,7 +309,9 @@ class MF(SolMapper):
         elif self.remove_symmetry_dict['location'] == 'costates':
             sol.dual = np.delete(sol.dual, np.s_[self.remove_symmetry_dict['index']], axis=1)
 
-        sol.q = np.column_stack((sol.q, qval))
+        # A trajectory without quadratures may come with any empty array
+        q = sol.q if np.size(sol.q) > 0 else np.empty((len(sol.t), 0))
+        sol.q = np.column_stack((q, qval))
 
         return sol
 
-- 
2.43.0


From 391e96e5d18178672711cd5078e5349dc2f5881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 15/18] fix: tables could not be defined with NumPy releases
 without np.float

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From 86cd6e4c6e9de62e894c0a4000f002cf110db261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 16/18] fix: derivatives of custom functions and tables were
 mixed up or unusable unless every argument was one symbol of its own

---
 beluga/symbolic/special_functions/custom_functions.py | 7 ++++---
 beluga/symbolic/special_functions/tables.py           | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..91bf843 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -106,13 +106,14 @@ class CustomFunction(Function):
         total_order = sum(order)
 
         post = '_'
-        for arg_k, order_k in zip(arg_list, order):
+        # Name arguments by position: the same expression may be given for several of them and need not be an identifier
+        for k, order_k in enumerate(order):
             if order_k == 0:
                 pass
             elif order_k == 1:
-                post += 'd' + str(arg_k)
+                post += 'd' + str(k) + '_'
             else:
-                post += 'd' + str(arg_k) + str(order_k)
+                post += 'd' + str(k) + '_' + str(order_k)
 
         if total_order == 0:
             pre = ''
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..e49a8d5 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -62,10 +62,11 @@ class SymTable(SymTableMeta):
             post = ''
         elif order == 1:
             pre = 'd'
-            post = '_d' + arg_name
+            post = '_d0'
         else:
+            # The argument is not part of the name, as it need not be an identifier
             pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
+            post = '_d0' + str(order)
         return pre + table_name + post
 
 
-- 
2.43.0


From 684dd5d3970d14423df15bf5a2c2fcb3d7d796b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 17/18] fix: quantities could not be arguments of custom
 functions and tables

---
 .../special_functions/custom_functions.py     | 34 +++++++------------
 beluga/symbolic/special_functions/tables.py   | 23 +++++--------
 2 files changed, 22 insertions(+), 35 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 91bf843..755e572 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,17 +44,8 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
-        return obj
+    # Everything but the arguments belongs to the class, as SymPy rebuilds the function from its arguments alone
+    base_name, base_func, eval_func, local_compiler, order = None, None, None, None, None
 
     def __deepcopy__(self, memodict=None):
         return self
@@ -64,10 +55,10 @@ class CustomFunctionMeta(Function):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
+            return CustomFunction(self.base_name, self.base_func, self.args,
                                   order=tuple(order), local_compiler=self.local_compiler)
         else:
             raise ArgumentIndexError(self, argindex)
@@ -82,16 +73,17 @@ class CustomFunction(Function):
             order = ([0 for _ in range(len(arg_list))])
 
         name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        if type(base_func) is not CPUDispatcher:
+            base_func = jit_compile_func(base_func, arg_list)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+        return type(name, (CustomFunctionMeta,), {
+            'nargs': (len(arg_list),), 'base_name': name, 'base_func': staticmethod(base_func),
+            'eval_func': staticmethod(eval_func), 'local_compiler': local_compiler, 'order': order})(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index e49a8d5..5101ae6 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,13 +22,9 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
+    # Everything but the argument belongs to the class, as SymPy rebuilds the function from its argument alone
+    nargs = (1,)
+    table, table_func, local_compiler, order = None, None, None, 0
 
     @property
     def _diff_wrt(self):
@@ -47,13 +43,12 @@ class SymTableMeta(Function):
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
         name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+        return type(name, (SymTableMeta,), {
+            'nargs': (1,), 'table': table, 'table_func': staticmethod(table_func),
+            'local_compiler': local_compiler, 'order': order})(arg)
 
     @staticmethod
     def construct_name(table_name, arg_name, order):
-- 
2.43.0


From a86f8b6e759f385e9b0bb1922f7d59ca9ad7509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:42 +0000
Subject: [PATCH 18/18] fix: tables read beyond their data at the right end and
 outside their range

---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 5101ae6..b9606a0 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -98,10 +98,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        last = len(data_x) - 1
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -109,7 +110,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -117,7 +118,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -125,7 +126,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0

