From e0ec51fcb4a2a3316ef3b4452393d1c142bcb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 01/22] fix: return the residual of the solution from
 get_gmres_solution

---
 src/dxss/gmres.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..f26359e 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,6 +101,10 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # `ksp.buildResidual` is only valid inside a running solve: for GMRES it adds the
+    # Krylov correction to the initial guess, but `x` already holds it by now.
+    r = A_shell.createVecLeft()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)  # r = b - A x
 
     return (x, r)
-- 
2.43.0


From b82641da8ba03c337770fee8191137fd3ec55fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 02/22] fix: release the Krylov workspace, operator and
 preconditioner when get_gmres_solution ends

---
 src/dxss/gmres.py | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index f26359e..f3ed57c 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from contextlib import ExitStack
+
 from petsc4py import PETSc
 
 
@@ -54,9 +56,48 @@ def get_gmres_solution(
 
     # Create a PETSc shell matrix of appropriate global size (N x N)
     A_shell = PETSc.Mat().createPython(N, context)  # noqa: N806 | convention for matrix
+
+    # petsc4py does not free PETSc objects when they go out of scope but only queues
+    # them. So release the Krylov workspace and the references to `A` and `pre`
+    # explicitly in any case, and free what the traceback of an earlier failed call,
+    # which refers to the vectors its callbacks had been given, left in the queue.
+    PETSc.garbage_cleanup(A_shell.getComm())
+    with ExitStack() as always, ExitStack() as on_failure:
+        always.callback(A_shell.destroy)
+        always.callback(A_shell.setPythonContext, None)
+        solution = _solve(
+            A_shell,
+            b,
+            pre,
+            maxsteps,
+            tol,
+            restart,
+            printrates,
+            reltol,
+            always,
+            on_failure,
+        )
+        on_failure.pop_all()
+        return solution
+
+
+def _solve(  # noqa: PLR0913 | needs all the arguments of `get_gmres_solution`
+    A_shell,  # noqa: N803 | convention for matrix
+    b,
+    pre,
+    maxsteps,
+    tol,
+    restart,
+    printrates,
+    reltol,
+    always: ExitStack,
+    on_failure: ExitStack,
+):
+    """Do the work of `get_gmres_solution`, registering what has to be destroyed."""
     A_shell.setUp()
 
     ksp = PETSc.KSP()
+    always.callback(ksp.destroy)
     ksp.create(comm=A_shell.getComm())
     ksp.setOperators(A_shell)  # set the linear operator(s) for the KSP object
 
@@ -74,8 +115,10 @@ def get_gmres_solution(
 
     # Prepare shell preconditioner
     pc = ksp.pc
+    always.callback(pc.destroy)
     pc.setType(pc.Type.PYTHON)
     pc.setPythonContext(pre)
+    always.callback(pc.setPythonContext, None)
     pc.setUp()
 
     petsc_opts = PETSc.Options()
@@ -91,6 +134,7 @@ def get_gmres_solution(
     ksp.setConvergenceHistory()
 
     x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning
+    on_failure.callback(x.destroy)
 
     ksp.solve(b, x)  # attempt to iterate to convergence
     ksp_reason = ksp.getConvergedReason()  # check for convergence
@@ -104,6 +148,7 @@ def get_gmres_solution(
     # `ksp.buildResidual` is only valid inside a running solve: for GMRES it adds the
     # Krylov correction to the initial guess, but `x` already holds it by now.
     r = A_shell.createVecLeft()
+    on_failure.callback(r.destroy)
     A_shell.mult(x, r)
     r.aypx(-1.0, b)  # r = b - A x
 
-- 
2.43.0


From ecbaa0de17f47bff39b0201579b2d067eba535d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 03/22] fix: interpolate the caller's fitted data-domain
 indicator instead of zeroing it

---
 src/dxss/space_time.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..58096e5 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,10 +146,9 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
-        else:
-            self.omega.indicator_function = self.omega.indicator_function
+            indicator_function = fem.Function(q_ind)
+            indicator_function.interpolate(omega.indicator_function)
+            self.omega = DataDomain(indicator_function, fitted=True)
 
         # FESpaces
         self.fes = None
-- 
2.43.0


From bbd7390cfcb8f45d238d1a7521b456ed42bd7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 04/22] fix: keep the space-time system assembled with and
 without precond apart

---
 src/dxss/space_time.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 58096e5..23e06dd 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -178,6 +178,9 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        # SpaceTime, block lower triangular variant used for preconditioning
+        self.spacetime_bilinear_form_precond = None
+        self.spacetime_matrix_precond = None
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -706,6 +709,13 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
+        if precond:
+            if not self.spacetime_matrix_precond:
+                (
+                    self.spacetime_matrix_precond,
+                    self.spacetime_bilinear_form_precond,
+                ) = self.setup_spacetime_matrix(self.fes, precond)
+            return self.spacetime_matrix_precond
         if not self.spacetime_matrix:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
@@ -717,6 +727,9 @@ class SpaceTime:
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
+        if precond:
+            self.get_spacetime_matrix(precond)
+            return self.spacetime_bilinear_form_precond
         if not self.spacetime_bilinear_form:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
-- 
2.43.0


From df4fd2c4e67865de7ca5c7b2013f2ca35833951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 05/22] fix: call SpaceTime.q_op from pre_twolvl

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 23e06dd..88b6208 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1453,7 +1453,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From cafd944772f6add8271e34d6ae6d21a83e2f53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 06/22] fix: set up every slab operator whatever is called
 first and after a failed set-up

---
 src/dxss/space_time.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 88b6208..9d06fad 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -211,6 +211,7 @@ class SpaceTime:
         self.vec_coupling2 = None
         self.u1_0_pre = None
         self.u2_0_pre = None
+        self.b_rhs_pre = None
         self.vec_0_bnd_in = None
         self.vec_0_bnd_out = None
 
@@ -845,11 +846,8 @@ class SpaceTime:
         A_coupling = assemble_matrix(bfi_coupling, bcs=[])  # noqa: N806
         A_coupling.assemble()
 
+        self.vec_coupling1, self.vec_coupling2 = A_coupling.createVecs()
         self.coupling_matrix_between_slices = A_coupling
-        (
-            self.vec_coupling1,
-            self.vec_coupling2,
-        ) = self.coupling_matrix_between_slices.createVecs()
 
     def setup_scaled_mass_matrix_between_slices(self):
         u0_bnd = ufl.TrialFunctions(self.fes_slab_bnd)
@@ -869,11 +867,8 @@ class SpaceTime:
         M_bnd = assemble_matrix(bfi_m, bcs=[])  # noqa: N806
         M_bnd.assemble()
 
+        self.vec_0_bnd_in, self.vec_0_bnd_out = M_bnd.createVecs()
         self.scaled_mass_matrix_between_slices = M_bnd
-        (
-            self.vec_0_bnd_in,
-            self.vec_0_bnd_out,
-        ) = self.scaled_mass_matrix_between_slices.createVecs()
 
     def setup_slab_matrix(self, with_jumps=True):  # noqa: C901, PLR0912, PLR0915
         # TODO: this function is too complex (complexity 19) and has too many
@@ -1104,29 +1099,33 @@ class SpaceTime:
                 self.SlabBfiFirstSlab = bfi_pre
                 self.SlabMatFirstSlab = A_pre
         else:
+            self.vec_slab1, self.vec_slab2 = A_pre.createVecs()
             self.slab_bilinear_form_no_dg_jumps = bfi_pre
             self.slab_matrix_no_dg_jumps = A_pre
-            self.vec_slab1, self.vec_slab2 = A_pre.createVecs()
             if not self.well_posed:
                 self.SlabBfiFirstSlab = bfi_pre
                 self.SlabMatFirstSlab = A_pre
 
-    def get_slab_bfi(self):
-        if not self.slab_bilinear_form:
+    def setup_missing_slab_matrices(self):
+        if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
+
+    def get_slab_bfi(self):
+        self.setup_missing_slab_matrices()
         return self.slab_bilinear_form
 
     def get_slab_matrix(self):
-        if not self.slab_matrix:
-            self.setup_slab_matrix(with_jumps=True)
-            self.setup_slab_matrix(with_jumps=False)
+        self.setup_missing_slab_matrices()
         return self.slab_matrix
 
     def get_slab_bfi_first_slab(self):
+        self.setup_missing_slab_matrices()
         return self.SlabBfiFirstSlab
 
     def get_slab_matrix_first_slab(self):
+        self.setup_missing_slab_matrices()
         return self.SlabMatFirstSlab
 
     def set_solver_first_slab(self, solver):
@@ -1339,11 +1338,9 @@ class SpaceTime:
             coupling_idx_qstar += self.otime.qstar + 1
 
     def prepare_precondition_gmres(self):
-        if not self.slab_matrix:
-            self.setup_slab_matrix(with_jumps=True)
+        self.setup_missing_slab_matrices()
+        if not self.b_rhs_pre:
             self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
-            self.setup_slab_matrix(with_jumps=False)
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
         if not self.SpaceTimeRhs:
-- 
2.43.0


From 52fd9d0c05f3c4892395f9646f526713ba516e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 07/22] fix: include initial-data and forward jump terms in
 apply_spacetime_matrix

---
 src/dxss/space_time.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 9d06fad..7776c77 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1144,6 +1144,12 @@ class SpaceTime:
         self.coupling_matrix_between_slices.mult(vec_in, vec_out)
 
     def apply_spacetime_matrix(self, vec_in, vec_out):
+        if self.jumps_in_fw_problem:
+            # the jump terms coupling the dual variables are not part of the slab
+            # and coupling matrices used below
+            self.get_spacetime_matrix().mult(vec_in, vec_out)
+            return
+
         vec_out.array[:] = 0.0
 
         int_idx_q = 0
@@ -1159,10 +1165,12 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
 
-            self.slab_matrix_no_dg_jumps_multiply(
-                self.vec_slab1,
-                self.vec_slab2,
-            )  # multiplication with slab matrix
+            # multiplication with slab matrix
+            if n == 0:
+                # includes the initial data terms if the problem is well posed
+                self.SlabMatFirstSlab.mult(self.vec_slab1, self.vec_slab2)
+            else:
+                self.slab_matrix_no_dg_jumps_multiply(self.vec_slab1, self.vec_slab2)
 
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
-- 
2.43.0


From 298937946093d31be79e0c712e31ef567ce2b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 08/22] fix: do not overwrite the initial data when measuring
 or writing errors

---
 src/dxss/space_time.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 7776c77..096f528 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1477,10 +1477,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1848,8 +1848,8 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end_array = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end_array = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1869,8 +1869,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end_array)
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end_array)
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 0c7341edc420c36260cfe1170c564ec83892514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 09/22] fix: do not lose error samples on slab boundaries to
 rounding

---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 096f528..4b71e89 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1492,6 +1492,8 @@ class SpaceTime:
         int_idx = 0
 
         total_error_l2l2_dt = 0
+        # sample points on slab boundaries must not be lost to rounding
+        tol = 1e-10 * delta_t
 
         for n in range(self.N):
             t_n = n * delta_t
@@ -1536,7 +1538,7 @@ class SpaceTime:
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                if t_n - tol <= t_sample <= t_n + delta_t + tol:
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From b0198b5011a94e4a290e949e2faf352a9fec44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 10/22] fix: prolongate and restrict each variable in its own
 finite element space

---
 src/dxss/space_time.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 4b71e89..e8765a4 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -248,8 +248,8 @@ class SpaceTime:
         self.dofmap_node_coarse = None
         self.fes_node_fine = None
         self.dofmap_node_fine = None
-        self.u_node_fine = None
-        self.u_node_coarse = None
+        self.u_nodes_fine = None
+        self.u_nodes_coarse = None
 
     def setup_spacetime_finite_elements(self):
         # Full Space-time system
@@ -1396,8 +1396,18 @@ class SpaceTime:
             self.fes_coarse.sub(0).sub(0).collapse()
         )
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
-        self.u_node_fine = fem.Function(self.fes_node_fine)
-        self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # primal and dual variables may be of different order in space
+        u_node_fine = fem.Function(self.fes_node_fine)
+        u_node_coarse = fem.Function(self.fes_node_coarse)
+        z_node_fine = fem.Function(self.fes.sub(2).sub(0).collapse()[0])
+        z_node_coarse = fem.Function(self.fes_coarse.sub(2).sub(0).collapse()[0])
+        self.u_nodes_fine = [u_node_fine, u_node_fine, z_node_fine, z_node_fine]
+        self.u_nodes_coarse = [
+            u_node_coarse,
+            u_node_coarse,
+            z_node_coarse,
+            z_node_coarse,
+        ]
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1425,13 +1435,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    self.u_nodes_coarse[j].x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    self.u_nodes_fine[j].interpolate(self.u_nodes_coarse[j])
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = self.u_nodes_fine[j].x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1442,13 +1452,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    self.u_nodes_fine[j].x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    self.u_nodes_coarse[j].interpolate(self.u_nodes_fine[j])
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = self.u_nodes_coarse[j].x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From f1599ea7f2c4073a0680be81cae8f6536a6bb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 11/22] fix: carry an unfitted data-domain indicator over to
 the coarse mesh

---
 src/dxss/space_time.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e8765a4..310d715 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -366,10 +366,16 @@ class SpaceTime:
 
         if afes == self.fes:
             omega_ind = self.omega.indicator_function
-        else:
+        elif isinstance(self.omega.indicator_function, fem.Function):
             q_ind = fem.FunctionSpace(afes.mesh, ("DG", 0))
             omega_ind = fem.Function(q_ind)
             omega_ind.interpolate(self.omega.indicator_function)
+        else:
+            # unfitted indicator given by an expression in the spatial coordinates
+            omega_ind = ufl.replace(
+                self.omega.indicator_function,
+                {self.x: ufl.SpatialCoordinate(afes.mesh)},
+            )
 
         # retrieve stabilization parameter
         gamma_data = self.stabilisation_terms["data"]
-- 
2.43.0


From a5ae40ffde4f0bb27411178c638b5b2a4806d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 12/22] fix: solve the space-time system instead of overwriting
 its right-hand side with zero

The direct branch of solve_problem passed KSP.solve its arguments in the wrong order.
---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From ae97e5413a5bb9142424044c221bdfa479548da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 13/22] fix: fall back to PETSc LU when PyPardiso cannot load
 its library

Importing pypardiso raises OSError when the MKL library is found but cannot be loaded.
---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 848c8c6..28642fe 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -24,7 +24,7 @@ try:
     import pypardiso
 
     SOLVER_TYPE = "pypardiso"
-except ImportError:
+except (ImportError, OSError):  # OSError: MKL library not found or unusable
     pypardiso = None
     SOLVER_TYPE = "petsc-LU"
 import resource
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index e26db7f..2221bcc 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -23,7 +23,7 @@ try:
     import pypardiso
 
     SOLVER_TYPE = "pypardiso"
-except ImportError:
+except (ImportError, OSError):  # OSError: MKL library not found or unusable
     pypardiso = None
     SOLVER_TYPE = "petsc-LU"
 import resource
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9fcb1c9..a7ac719 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -25,7 +25,7 @@ try:
     import pypardiso
 
     SOLVER_TYPE = "pypardiso"
-except ImportError:
+except (ImportError, OSError):  # OSError: MKL library not found or unusable
     pypardiso = None
     SOLVER_TYPE = "petsc-LU"
 
-- 
2.43.0


From db93f9e2818003b758fef9608729475516985d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 14/22] fix: raise when the LU factorisation of a system fails

Otherwise the direct solve of the whole system returned an infinite vector without notice.
---
 src/dxss/solve_1d.py | 1 +
 src/dxss/solve_2d.py | 1 +
 src/dxss/solve_3d.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 28642fe..e4f2ab8 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -38,6 +38,7 @@ def get_lu_solver(msh, mat):
     solver.setOperators(mat)
     solver.setType(PETSc.KSP.Type.PREONLY)
     solver.getPC().setType(PETSc.PC.Type.LU)
+    solver.setErrorIfNotConverged(True)  # raise if the factorisation fails
     return solver
 
 
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 2221bcc..f647fc4 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -37,6 +37,7 @@ def get_lu_solver(msh, mat):
     solver.setOperators(mat)
     solver.setType(PETSc.KSP.Type.PREONLY)
     solver.getPC().setType(PETSc.PC.Type.LU)
+    solver.setErrorIfNotConverged(True)  # raise if the factorisation fails
     return solver
 
 
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index a7ac719..4ae38ef 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -41,6 +41,7 @@ def get_lu_solver(msh, mat):
     solver.setOperators(mat)
     solver.setType(PETSc.KSP.Type.PREONLY)
     solver.getPC().setType(PETSc.PC.Type.LU)
+    solver.setErrorIfNotConverged(True)  # raise if the factorisation fails
     return solver
 
 
-- 
2.43.0


From c280f46416ec95193fa814ed84e2de2abd427118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 15/22] fix: let the inclusion and bottom-data builders accept
 sequential nodes

The check was inverted, so get_mesh_inclusion, get_mesh_inclusion_square and
get_mesh_bottom_data raised for every mesh; the second also called the
undefined ufl_mesh_from_gmsh.
---
 src/dxss/meshes.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..ead840f 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,9 +491,9 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
-        raise RuntimeError(msg)  # TODO: check
+        raise RuntimeError(msg)
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
@@ -623,9 +623,9 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
-        raise RuntimeError(msg)  # TODO: check
+        raise RuntimeError(msg)
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
@@ -728,9 +726,9 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
-        raise RuntimeError(msg)  # TODO: check
+        raise RuntimeError(msg)
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
-- 
2.43.0


From efd4e03de82ee4189831b66818e9204e57390912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 16/22] fix: make get_mesh_inclusion_square work with its
 default arguments

With eta equal to y_r the part of the target above eta is empty, and gmsh
refuses to create a rectangle of zero height.
---
 src/dxss/meshes.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index ead840f..9511454 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,12 +555,11 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
+            # gmsh rejects a rectangle of zero height
+            target_dom_plus = (
+                [(2, gmsh.model.occ.addRectangle(x_l, eta, 0, x_r - x_l, y_r - eta))]
+                if y_r != eta
+                else []
             )
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
@@ -570,7 +569,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 [
                     (2, target_dom_minus),
                     (2, mu_inner),
-                    (2, target_dom_plus),
+                    *target_dom_plus,
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0


From aa256d95d32e2b9b142a889995a239afc82a239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 17/22] fix: do not build on a gmsh session left open by an
 earlier call

A builder that failed, get_3d_mesh_data_all_around always, and two others on
ranks other than 0 left gmsh initialised, so that the next call found the old
model and failed on its entity tags.
---
 src/dxss/meshes.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 9511454..b5b327b 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -19,13 +19,20 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def initialize_gmsh():
+    """Start an empty gmsh session, ending one left open by a failed call."""
+    if gmsh.isInitialized():
+        gmsh.finalize()
+    gmsh.initialize()
+
+
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
     # a **lot** of code overlap with this function.
     #
     # - PLR0915 Too many statements
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
     proc = MPI.COMM_WORLD.rank
     bnd_marker = 1
@@ -78,7 +85,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -127,7 +134,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # suppression.
     #
     # - PLR0915 Too many statements
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
     proc = MPI.COMM_WORLD.rank
     bnd_marker = 1
@@ -231,7 +238,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
 
 def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
     proc = MPI.COMM_WORLD.rank
     bnd_marker = 1
@@ -323,7 +330,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
 
 def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)
     proc = MPI.COMM_WORLD.rank
     bnd_marker = 1
@@ -382,7 +389,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -434,7 +441,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
 def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     cell_type = CellType.triangle
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.model.add("inclm")
     gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)
     bnd_marker = 1
@@ -537,7 +544,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
     cell_type = CellType.triangle
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.model.add("inclm")
     gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)
     bnd_marker = 1
@@ -661,7 +668,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
     cell_type = CellType.triangle
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.model.add("inclm")
     gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)
 
@@ -763,7 +770,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
 def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
     proc = MPI.COMM_WORLD.rank
     bnd_marker = 1
@@ -866,7 +873,7 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
 def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
     # if proc == 0:
     gdim = 3
-    gmsh.initialize()
+    initialize_gmsh()
     gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
     # We create one cube for each subdomain
 
@@ -916,6 +923,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From 2a66e590e9613d6a5fb1b7185366ba5434ea9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 18/22] fix: pass the topology to compute_incident_entities in
 every mesh hierarchy

dolfinx 0.7 takes the topology instead of the mesh; only
get_mesh_data_all_around did this.
---
 src/dxss/meshes.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index b5b327b..55aa7ee 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -230,7 +230,14 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
@@ -320,7 +327,14 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -431,7 +445,14 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
-- 
2.43.0


From 7a42e3457519e1f7fa09cda2ab2c4d4e1fff2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 19/22] fix: let the other ranks wait until rank 0 has written
 the mesh files

Nothing kept them from opening missing, incomplete or stale mesh.xdmf and
mt.xdmf while rank 0 was still meshing or writing.
---
 src/dxss/meshes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 55aa7ee..877547c 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -108,6 +108,8 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # the other ranks must not open the files before they are complete
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -210,6 +212,8 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # the other ranks must not open the files before they are complete
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -309,6 +313,8 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # the other ranks must not open the files before they are complete
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
     with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
@@ -426,6 +432,8 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # the other ranks must not open the files before they are complete
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -858,6 +866,8 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # the other ranks must not open the files before they are complete
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
-- 
2.43.0


From 82dff634a4efb1d47afc5e6b0d3a6a5b65dadf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 20/22] fix: accept the empty gmsh model of the ranks other
 than 0

The inclusion and bottom-data builders looked up the type of the first element,
which exists on rank 0 only, so the other ranks raised and rank 0 was left
waiting for them in create_mesh.
---
 src/dxss/meshes.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 877547c..57971fc 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -532,7 +532,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         raise RuntimeError(msg)
     x = points[srt]
 
-    element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -540,13 +543,11 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # there are no elements on ranks other than 0
+    element_tags, node_tags = gmsh.model.mesh.getElementsByType(gmsh_cell_id)
+    cells = node_tags.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -663,7 +664,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         raise RuntimeError(msg)
     x = points[srt]
 
-    element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -671,13 +675,11 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # there are no elements on ranks other than 0
+    element_tags, node_tags = gmsh.model.mesh.getElementsByType(gmsh_cell_id)
+    cells = node_tags.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -766,7 +768,10 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
         raise RuntimeError(msg)
     x = points[srt]
 
-    element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -774,13 +779,11 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # there are no elements on ranks other than 0
+    element_tags, node_tags = gmsh.model.mesh.getElementsByType(gmsh_cell_id)
+    cells = node_tags.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
-- 
2.43.0


From bee6ee4ab9a959382064652f89edb78e8e6ba9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 21/22] fix: leave no hole in get_mesh_inclusion_square around
 a smaller target

With eta below 1.5 nothing was meshed between the target and the rectangle
cut out for it; the other branch already adds the remainder. Meshes whose
target fills the rectangle are unchanged.
---
 src/dxss/meshes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 57971fc..fca568c 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -600,6 +600,8 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
             )
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
+            # what the target leaves free of the rectangle cut out above
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.15 + eta)
             gmsh.model.occ.synchronize()
             gmsh.model.occ.fragment(
                 [(2, 3)],
@@ -608,6 +610,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                     (2, mu_inner),
                     *target_dom_plus,
                     (2, remainder_top),
+                    (2, remainder),
                 ],
             )
 
-- 
2.43.0


From 4316589f2e5f2fc9e68c4e8a35593d09fa8c467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 22/22] fix: let an error that is not a number show in the
 largest sampled error

---
 src/dxss/space_time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 310d715..e5e5dc2 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1606,12 +1606,12 @@ class SpaceTime:
 
             int_idx += self.otime.q + 1
 
-        print("L-infty-L2 error u = ", max(l2_error_at_samples))
-        print("L-infty-L2 error u_t = ", max(l2_error_dt_at_samples))
+        print("L-infty-L2 error u = ", np.max(l2_error_at_samples))
+        print("L-infty-L2 error u_t = ", np.max(l2_error_dt_at_samples))
         print("L2-L2 error u_t = ", sqrt(total_error_l2l2_dt))
 
-        err_dict["L-infty-L2-error-u"] = max(l2_error_at_samples)
-        err_dict["L-infty-L2-error-ut"] = max(l2_error_dt_at_samples)
+        err_dict["L-infty-L2-error-u"] = np.max(l2_error_at_samples)
+        err_dict["L-infty-L2-error-ut"] = np.max(l2_error_dt_at_samples)
         err_dict["L2-L2-error-u_t"] = sqrt(total_error_l2l2_dt)
 
         return err_dict
-- 
2.43.0

