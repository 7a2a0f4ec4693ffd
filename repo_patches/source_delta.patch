From 26e69d7f3e55856bfc3a6cbda390a9ad4f4e7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:25 +0000
Subject: [PATCH 01/25] fix: OSQPMatrix_get_csc returned a matrix with swapped
 dimensions and one entry too many (MKL)

---
 algebra/mkl/matrix.c | 37 +------------------------------------
 1 file changed, 1 insertion(+), 36 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..06ef88a 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -131,42 +131,7 @@ OSQPInt*   OSQPMatrix_get_i(const OSQPMatrix* M)  {return M->csc->i;}
 OSQPInt*   OSQPMatrix_get_p(const OSQPMatrix* M)  {return M->csc->p;}
 OSQPInt    OSQPMatrix_get_nz(const OSQPMatrix* M) {return M->csc->p[M->csc->n];}
 
-OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
-  /* Values returned from the MKL object */
-  sparse_index_base_t idx_method = 0;
-  MKL_INT numrows = 0;
-  MKL_INT numcols = 0;
-
-  MKL_INT *p_start;
-  MKL_INT *p_end;
-  MKL_INT *row_idx;
-  OSQPFloat *vals;
-
-  /* Computed values */
-  OSQPCscMatrix* B;
-  OSQPInt i = 0;
-  OSQPInt nnz = 0;
-
-  spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
-
-  /* Create the CSC using the returned data */
-  nnz = p_end[numcols-1]+1;
-  B = csc_spalloc(numcols, numrows, nnz, 1, 0);
-
-  /* MKL doesn't give back the actual p we need, we need to take the last value from p_end and concatenate
-     it onto the array returned in p_start */
-  for (i = 0; i < numcols; i++) {
-    B->p[i] = p_start[i];
-  }
-  B->p[numcols] = p_end[numcols-1] + 1;
-
-  for (i=0; i < nnz; i++) {
-    B->i[i] = row_idx[i];
-    B->x[i] = vals[i];
-  }
-
-  return B;
-}
+OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {return csc_copy(M->csc);}
 
 
 /* math functions ----------------------------------------------------------*/
-- 
2.43.0


From 3f63bcb1e97eac80f4761490eb8d0e55ee0edd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:25 +0000
Subject: [PATCH 02/25] fix: products with an empty matrix left the result
 vector untouched (MKL)

---
 algebra/mkl/matrix.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 06ef88a..a50372c 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -182,6 +182,13 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  /* MKL has no handle for a matrix without entries, and does not touch y in that case */
+  if (!A->mkl_mat) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -206,6 +213,13 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  /* MKL has no handle for a matrix without entries, and does not touch y in that case */
+  if (!A->mkl_mat) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
-- 
2.43.0


From 889dfb06c83893f2446d26ea58d0b5a73d449924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:25 +0000
Subject: [PATCH 03/25] fix: unchecked allocations and a leak on allocation
 failure in the MKL matrix constructors

---
 algebra/mkl/matrix.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index a50372c..456ca32 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,21 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M) {
+  if(M) {
+    if(M->p)
+      blas_free(M->p);
+
+    if(M->i)
+      blas_free(M->i);
+
+    if(M->x)
+      blas_free(M->x);
+
+    c_free(M);
+  }
+}
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,22 +49,13 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
-  return csc;
-}
-
-static void mkl_csc_spfree(OSQPCscMatrix* M) {
-  if(M) {
-    if(M->p)
-      blas_free(M->p);
-
-    if(M->i)
-      blas_free(M->i);
-
-    if(M->x)
-      blas_free(M->x);
-
-    c_free(M);
+  /* Note that MKL returns NULL for empty allocations */
+  if (!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
   }
+
+  return csc;
 }
 
 //Make a copy from a csc matrix.  Returns OSQP_NULL on failure
@@ -307,7 +313,10 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From 49f77a55c86909f2736fc3d8b8978ae19261c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:11 +0000
Subject: [PATCH 04/25] fix: clear the infeasibility certificates when the
 problem is found non convex

---
 src/auxil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..8f7365b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -669,6 +669,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
     }
 
+    if (info->status_val == OSQP_NON_CVX) {
+      /* Neither certificate exists: do not leave those of an earlier solve */
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
   }
 }
-- 
2.43.0


From 7d1ec25f19ca8ec40478852c9ea953e87cb5fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:11 +0000
Subject: [PATCH 05/25] fix: settings update refused for an adaptive_rho value
 it does not use

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 8f7365b..cf7016d 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1136,8 +1136,8 @@ OSQPInt validate_settings(const OSQPSettings* settings,
   }
 
   if (from_setup &&
-      settings->adaptive_rho < 0 ||
-      settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE) {
+      (settings->adaptive_rho < 0 ||
+       settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE)) {
     c_eprint("adaptive_rho not a valid choice");
     return 1;
   }
-- 
2.43.0


From f7ae2f409a5ff94dd096750c4ad7f1ca8a920ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 06/25] fix: osqp_update_settings dereferenced the solver
 before checking it for NULL

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..1c99e52 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1474,10 +1474,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From f9e44c82cc8943ef2855331fe7a6b5b7de45b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 07/25] fix: osqp_error_message read before the message table
 for flags below 1

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 1c99e52..62c7c4a 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -240,7 +240,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag >= OSQP_LAST_ERROR_PLACE || error_flag <= 0 ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From be430ecf6d8b6a84d3bf6565da06ff3b813c252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 08/25] fix: scalar rho_inv was computed from the unclamped rho
 at setup

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 62c7c4a..dbc0599 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From 569e876717e503368516de1d9becef14e14bc52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 09/25] fix: a repeated solve that ran out of iterations
 reported the status of the previous solve

---
 src/osqp_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index dbc0599..c282ac3 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,9 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // The outcome of an earlier solve says nothing about this one
+  update_status(solver->info, OSQP_UNSOLVED);
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From f8580fd413f66e3a1f4a575f6383dc324310c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 10/25] fix: hitting the time limit could report the residuals
 and iteration count of the iteration before

---
 src/osqp_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index c282ac3..786e5c2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -758,6 +758,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      // This iteration is complete but its residuals were not computed yet
+      can_check_termination = 0;
+      iter++;
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From 6849f98d8b2c1033b7b87b4bf110da77ec7531d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 11/25] fix: time based adaptation of rho always ended up with
 an interval of at most one iteration

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 786e5c2..106d888 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -814,7 +814,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 4a84718828f7ce548734bda4abc332cdf4da6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 12/25] fix: after an interrupted solve later rho updates were
 no longer timed

---
 src/osqp_api.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 106d888..36e85e4 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1016,8 +1016,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Indicate that the update_time should be set to zero
   work->clear_update_time = 1;
 
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1033,6 +1031,11 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From 513a610ee4a0d1adedc5ef297f41e22c81482360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 13/25] fix: osqp_setup took views of a vector whose allocation
 had failed

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 36e85e4..478b3c1 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -417,6 +417,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
+  if (!(work->xz_tilde)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
   work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
-- 
2.43.0


From 139f89747f0d9ef2f30ac141390b23aff47f2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 14/25] fix: cleanup after a failed setup released
 uninitialised scaling and polish pointers

---
 src/osqp_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 478b3c1..f6e2376 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -458,7 +458,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
-    work->scaling = c_malloc(sizeof(OSQPScaling));
+    work->scaling = c_calloc(1, sizeof(OSQPScaling));
     if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
@@ -514,7 +514,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   osqp_cold_start(solver);
 
   // Initialize active constraints structure
-  work->pol = c_malloc(sizeof(OSQPPolish));
+  work->pol = c_calloc(1, sizeof(OSQPPolish));
   if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
-- 
2.43.0


From 72f47f80c5d6c90db1f155be2cc432699c2e085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 15/25] fix: matrix constructors wrote through arrays whose
 allocation had failed

---
 src/osqp_api.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f6e2376..349a834 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -66,6 +66,16 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->n  = n;
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+  mat->i  = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x  = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
 
   if( m < n) {
     // Fewer rows than columns
@@ -84,9 +94,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   }
 
   mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
-
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
     mat->x[i] = scalar;
@@ -95,9 +102,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +144,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
-- 
2.43.0


From 1342eae0ff9cdbc080603818daedfc6ec1a2d323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 16/25] fix: updating P in a CSR KKT matrix dropped sigma from
 diagonal entries

---
 algebra/_common/kkt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..0a64193 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,14 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
+  (void)format;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -369,8 +369,10 @@ void update_KKT_P(OSQPCscMatrix* KKT,
 
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
+    //P is always triu CSC (whatever the KKT format), so a diagonal
+    //term is the last in its column.
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 0ea6eab77e0a924994628be39c2efc7348686f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 17/25] fix: the indirect solver dereferenced a missing rho
 vector when rho is a scalar

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..cc2de62 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -111,7 +111,10 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec)
+          OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else
+          OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   }
@@ -364,7 +367,10 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec)
+    OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else
+    OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From 540b8fa8569529c1a67f2b1e63f5030411b4f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 18/25] fix: the polishing regularisation setting delta was
 ignored

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 3 ++-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..8957919 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  // The polishing system is regularised by delta
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index cc2de62..63bcd88 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -99,7 +99,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma;  // polishing is regularised by delta
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -108,7 +108,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get.
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       if (rho_vec)
@@ -116,7 +116,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
       else
           OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From 7615f03ea37c652f5423e3ef6029c28842e6c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 19/25] fix: failed allocations in the direct solver were not
 noticed

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 8957919..69c0ab1 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -84,6 +84,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
 
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
+
   // Size of KKT
   n = P->csc->n;
   m = A->csc->m;
@@ -122,6 +124,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -136,6 +144,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -157,6 +171,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -164,6 +179,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
-- 
2.43.0


From d39caf1c7e2e025005b897b6dc498b2bc9cbb6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 20/25] fix: failed allocations in the indirect solver were not
 noticed

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 63bcd88..c0d3371 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,9 +92,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
 
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
+
   //Just hold on to pointers to the problem
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
@@ -110,6 +112,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) {
+      free_linsys_mklcg(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+  }
   if (!polish) {
       if (rho_vec)
           OSQPVectorf_copy(s->rho_vec, rho_vec);
@@ -154,13 +161,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
 
-  //make subviews for the rhs.   OSQP passes
-  //a different RHS pointer at every iteration,
-  //so we will need to update these views every
-  //time we solve. Just point them at x for now.
-  s->r1 = OSQPVectorf_view(s->x, 0, 0);
-  s->r2 = OSQPVectorf_view(s->x, 0, 0);
-
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
   // n+1:2n  = Vector after multiplying by the matrix
@@ -168,6 +168,22 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
 
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->ywork || !s->tmp || !s->precond || !s->precond_inv) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
+  //make subviews for the rhs.   OSQP passes
+  //a different RHS pointer at every iteration,
+  //so we will need to update these views every
+  //time we solve. Just point them at x for now.
+  s->r1 = OSQPVectorf_view(s->x, 0, 0);
+  s->r2 = OSQPVectorf_view(s->x, 0, 0);
+
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -176,11 +192,15 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!s->r1 || !s->r2 || !s->mvm_pre || !s->mvm_post || !s->precond_pre || !s->precond_post) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -381,7 +401,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
-- 
2.43.0


From b4f9bdb60d97852e912ad97ec71a02ca9e6be93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 21/25] fix: polishing leaked memory or used missing vectors
 after a failed allocation

---
 src/polish.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..9c9d47e 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -200,6 +200,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
 
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
@@ -207,7 +208,12 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -360,6 +366,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_LINSYS_ERROR;
 
     /* Memory clean-up */
+    if (plsh) plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return exitflag;
@@ -373,6 +380,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -385,7 +393,9 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
 
     return exitflag;
   }
@@ -397,6 +407,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
 
@@ -412,6 +423,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -430,11 +442,15 @@ OSQPInt polish(OSQPSolver* solver) {
   // Perform iterative refinement to compensate for the regularization error
   exitflag = iterative_refinement(solver, plsh, pol_sol, rhs_red);
 
+  // Store the dual variables of the polished solution
+  if (!exitflag) exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
   if (exitflag) {
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -444,10 +460,9 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   }
 
-  // Store the polished solution (x,z,y)
+  // Store the polished solution (x,z)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
-- 
2.43.0


From b57950b5d60ea0a86f69777f7f490e278eb6fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 22/25] fix: a refused bound update overwrote the infeasibility
 certificate

---
 src/osqp_api.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 349a834..eb112b2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1226,9 +1226,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1246,9 +1246,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From 1dd31f79c1ac6b7f1d031e3c6ad2ddab7a8928c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 23/25] fix: refactorisation with wrong inertia was not
 reported by the direct solver

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 69c0ab1..a1e75b6 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -344,6 +344,9 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // Number of positive eigenvalues of KKT should be the same as dimension of P
+  if (s->error == 0 && s->iparm[21] < s->n) return OSQP_NONCVX_ERROR;
+
   // Return exit flag
   return s->error;
 }
@@ -379,6 +382,9 @@ OSQPInt update_linsys_solver_rho_vec_pardiso(pardiso_solver*    s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // Number of positive eigenvalues of KKT should be the same as dimension of P
+  if (s->error == 0 && s->iparm[21] < s->n) return OSQP_NONCVX_ERROR;
+
   // Return exit flag
   return s->error;
 }
-- 
2.43.0


From 74d9a358c6f1170ff63a3531c8ec0e43126e09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 24/25] fix: the indirect solver handed out MKL status codes as
 error codes

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index c0d3371..a9953f1 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -203,7 +203,8 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // Compute the preconditioner
   cg_update_precond(s);
 
-  return status;
+  // MKL's own status codes are not OSQP error codes
+  return status ? OSQP_LINSYS_SOLVER_INIT_ERROR : 0;
 }
 
 
-- 
2.43.0


From 609e2396551b650e74e9ede1f81e5fc497af0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 25/25] fix: a solve that does not polish reported the polish
 status and time of an earlier solve

---
 src/osqp_api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index eb112b2..89e17b2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -677,6 +677,12 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 
   // The outcome of an earlier solve says nothing about this one
   update_status(solver->info, OSQP_UNSOLVED);
+#ifndef OSQP_EMBEDDED_MODE
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+# ifdef OSQP_ENABLE_PROFILING
+  solver->info->polish_time = 0.0;
+# endif /* ifdef OSQP_ENABLE_PROFILING */
+#endif /* ifndef OSQP_EMBEDDED_MODE */
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0

