#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to keep the JSON well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Problem data is accepted exactly when it is well formed",
 "Setup refuses the problem with the data-validation error, before creating any solver, whenever P, A or q is missing, n is not positive, m is negative, P is not n-by-n, P has an entry below the diagonal, A is not m-by-n, or some lower bound exceeds its upper bound. Every problem free of these faults passes data validation. The verdict does not depend on where in the matrices or bounds the fault sits.",
 ["inputs"], "all dimensions, sparsity patterns, values and bounds", 
 "tests try a handful of malformed problems; the faulty column, entry or bound can be anywhere in data of any size",
 ["src/auxil.c", "src/osqp_api.c"], [("validate_data", "src/auxil.c"), ("osqp_setup (first checks)", "src/osqp_api.c")],
 observe=["return code of osqp_setup", "solver output pointer untouched on refusal"])

prop("C02", "Settings are accepted exactly when every field is in range",
 "Setup and settings updates accept a settings record exactly when every field they use lies in its documented range (flags 0/1, positive step sizes and tolerances, relaxation strictly between 0 and 2, positive iteration and time limits, at least one of the two optimality tolerances positive, and so on), and otherwise return the settings-validation error. The default settings are always accepted. A new step size is accepted by its own update call exactly when it is positive.",
 ["inputs", "configurations"], "every value of every settings field, and every combination",
 "tests set one field at a time to one or two bad values; boundaries and combinations are unsampled",
 ["src/auxil.c", "src/osqp_api.c", "algebra/mkl/algebra_libs.c"], [("validate_settings, validate_linsys_solver", "src/auxil.c"), ("osqp_set_default_settings, osqp_update_settings, osqp_update_rho", "src/osqp_api.c"), ("osqp_algebra_linsys_supported", "algebra/mkl/algebra_libs.c")],
 observe=["return codes of osqp_setup, osqp_update_settings, osqp_update_rho"])

prop("C03", "Settings are copied exactly and updates change only what they may",
 "After setup the solver holds an exact copy of the caller's settings (apart from the documented normalisation of the step size and of an automatic step-size interval), and later writes to the caller's record have no effect. A successful settings update copies every run-time updatable field from the new record and leaves every setup-only field (step size, regularisation, scaling, solver choice, step-size adaptation) as it was; a refused update changes nothing.",
 ["inputs", "histories"], "all settings records and all update sequences",
 "tests compare a few fields after one update",
 ["src/osqp_api.c", "src/util.c"], [("osqp_update_settings", "src/osqp_api.c"), ("copy_settings", "src/util.c")],
 observe=["solver settings after osqp_setup / osqp_update_settings"])

prop("C04", "API calls on an unusable handle fail cleanly with the right code",
 "Every public call that needs a set-up solver returns the solver-not-initialised error, without touching memory, when given a null or not-set-up handle, and dimension queries then report -1. Every error code, in or out of range, and every solver status has a valid text; the status text stored with a result always belongs to the stored status code and fits its buffer.",
 ["inputs"], "all handles, error codes and status codes",
 "tests call a few functions with NULL and print a few messages",
 ["src/osqp_api.c", "src/error.c", "src/auxil.c"], [("NULL guards at the head of each API function, osqp_error_message, osqp_get_dimensions", "src/osqp_api.c"), ("_osqp_error", "src/error.c"), ("update_status", "src/auxil.c")],
 observe=["return codes", "osqp_error_message", "info status string"])

prop("C05", "A freshly set-up solver represents exactly the caller's problem",
 "After a successful setup the solver's problem data is an exact private copy of the caller's matrices and vectors (scaled only by the reported scaling when scaling is on), all iterates are zero, and status, counters and result fields are at their documented initial values. The caller's arrays are never modified, retained or freed.",
 ["inputs", "configurations"], "all valid problems and settings",
 "tests compare solutions, not the stored data; aliasing and missed fields stay invisible",
 ["src/osqp_api.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/_common/csc_utils.c"], [("osqp_setup", "src/osqp_api.c"), ("OSQPMatrix_new_from_csc", "algebra/mkl/matrix.c"), ("OSQPVectorf_new", "algebra/mkl/vector.c"), ("csc_copy", "algebra/_common/csc_utils.c")])

prop("C06", "Problem scaling is an exact, positive, invertible diagonal change",
 "When scaling is on, all scaling factors are strictly positive and bounded, the stored inverse factors are their reciprocals, and the stored problem equals the caller's problem transformed by exactly those factors (cost c*D*P*D and c*D*q, constraints E*A*D, bounds E*l and E*u). Undoing the scaling restores the original problem, and undoing it on a solution yields x = D*xs and y = E*ys/c.",
 ["inputs", "configurations"], "all problems (including empty rows/columns and extreme magnitudes) and all scaling iteration counts",
 "tests only see that solutions agree on well-conditioned examples",
 ["src/scaling.c"], [("scale_data, limit_scaling_*, compute_inf_norm_cols_KKT, unscale_data, unscale_solution", "src/scaling.c")],
 state=[("scaling factors", "D, E, c and inverses", "include/private/types.h OSQPScaling")])

prop("C07", "Each iteration performs exactly the documented ADMM step",
 "In every iteration the linear system receives the right-hand side (sigma*x - q, z - y/rho), and its answer (xt, zt) yields x+ = alpha*xt + (1-alpha)*x, z+ = projection onto [l,u] of alpha*zt + (1-alpha)*z + y/rho and y+ = y + rho*(alpha*zt + (1-alpha)*z - z+), with the recorded steps equal to the differences. In particular z always satisfies the bounds, and both the scalar and the per-constraint step-size modes follow the same formulas.",
 ["inputs", "histories"], "all iterates, data, step sizes and relaxation values, every iteration",
 "tests look at the converged answer, which a wrong step often still reaches",
 ["src/auxil.c", "src/osqp_api.c"], [("swap_vectors, compute_rhs, update_xz_tilde, update_x, update_z, update_y", "src/auxil.c"), ("main loop of osqp_solve", "src/osqp_api.c")])

prop("C08", "Reported residuals, objectives and gap match their definitions",
 "Whenever results are refreshed, the primal residual is the max-norm of Ax - z, the dual residual the max-norm of Px + q + A'y, the primal and dual objectives and duality gap are 1/2x'Px+q'x, -1/2x'Px-S(y) and their difference (S the support function of the bounds), and the relative KKT error is the largest of the residuals and the gap, for the iterate they are reported with. They are expressed in the caller's units (residuals in scaled units when scaled termination is requested), and with no constraints the primal residual is zero.",
 ["inputs", "configurations"], "all problems, iterates and scaling/termination modes",
 "tests compare final objective values loosely on a few problems",
 ["src/auxil.c"], [("update_info, compute_prim_res, compute_dual_res, compute_obj_val_dual_gap", "src/auxil.c")])

prop("C09", "Solved is reported only when the optimality criteria hold",
 "A solved status is set only when the reported primal residual, dual residual and (if enabled) absolute duality gap are each below absolute tolerance + relative tolerance times the documented reference magnitude for the current iterate, in the units requested; solved-inaccurate only under the same test with tolerances ten times larger. Conversely, an iterate that meets these criteria at a check is reported as solved, and residuals beyond the infinity threshold are reported as non-convex.",
 ["inputs", "configurations"], "all iterates, tolerances and modes",
 "tests use problems where wrong tolerances give the same final answer",
 ["src/auxil.c"], [("check_termination, compute_prim_tol, compute_dual_tol, compute_duality_gap_tol", "src/auxil.c")])

prop("C10", "Infeasibility is reported only with a valid certificate",
 "A primal-infeasible status is set only if the certificate y satisfies |A'y| < eps*|y| and u'max(y,0)+l'min(y,0) < 0 after projection onto the polar recession cone of the bounds, and a dual-infeasible status only if the certificate x satisfies q'x < 0, |Px| < eps*|x| and Ax within eps*|x| of the recession cone of the bounds, in the units requested. Inaccurate variants use tolerances ten times larger, and the certificate is then kept in the caller's units.",
 ["inputs", "configurations"], "all problems, directions, bounds (finite or infinite) and tolerances",
 "a few infeasible examples cannot sample near-miss directions or mixed infinite bounds",
 ["src/auxil.c", "algebra/mkl/vector.c"], [("is_primal_infeasible, is_dual_infeasible, check_termination", "src/auxil.c"), ("OSQPVectorf_project_polar_reccone, OSQPVectorf_in_reccone, OSQPVectorf_dot_prod_signed", "algebra/mkl/vector.c")])

prop("C11", "A solve reports a fresh, truthful outcome within its limits",
 "Every solve performs at most the maximum number of iterations, stops at the first check whose criteria hold or when the time limit is reached, and reports the iteration count, residuals and status of the iterate it returns, never those of an earlier iterate or an earlier solve. If no criterion (exact or ten-times relaxed) holds at the end, the status is maximum-iterations or time-limit accordingly; polishing runs only after an exact solved status, and total run time is the sum of its reported parts.",
 ["inputs", "histories", "configurations"], "all settings, re-solve sequences and clock readings",
 "tests mostly solve once; stale status needs particular re-solve histories or time limits hitting between checks",
 ["src/osqp_api.c", "src/auxil.c"], [("osqp_solve", "src/osqp_api.c"), ("check_termination, update_info, reset_info", "src/auxil.c")])

prop("C12", "Returned vectors match the reported status, in the caller's units",
 "Whenever the status carries a solution (solved, inaccurate, limits, unsolved), x and y are the unscaled current iterate and both certificates are set to the invalid marker; for infeasible statuses x and y are the invalid marker, the matching certificate has max-norm one and the other certificate is the invalid marker. Results without a solution reset the iterate to zero so that the next solve starts clean; fetching the solution into a caller-owned record gives the same answer.",
 ["inputs", "histories"], "all iterates, statuses, scalings",
 "tests check values for a few statuses only",
 ["src/auxil.c", "src/osqp_api.c", "src/scaling.c"], [("store_solution, has_solution", "src/auxil.c"), ("osqp_get_solution", "src/osqp_api.c"), ("unscale_solution", "src/scaling.c")])

prop("C13", "The step size stays clamped, consistent and in sync with the factorisation",
 "The step size in force always lies in [1e-6, 1e6]; in per-constraint mode each constraint uses the minimum value if it is free, 1000 times the base value if it is an equality, and the base value otherwise, and the stored inverses are exact reciprocals in both modes. Any change of step size or of a constraint's type reaches the linear-system solver before the next step. Automatic adaptation proposes the clamped residual-ratio estimate and changes the step size only when it differs from the current one by more than the tolerance factor, at the scheduled iterations.",
 ["inputs", "histories"], "all residuals, bounds, step sizes, update histories",
 "tests verify convergence, which a stale or unsynchronised step size only slows down",
 ["src/auxil.c", "src/osqp_api.c"], [("compute_rho_estimate, adapt_rho, set_rho_vec, update_rho_vec", "src/auxil.c"), ("osqp_update_rho, osqp_setup, osqp_solve", "src/osqp_api.c")])

prop("C14", "Vector data updates are all-or-nothing and equal a fresh setup",
 "Updating q, l or u replaces exactly the vectors supplied, in the solver's internal scaling, refreshes constraint types and step sizes, and resets the status to unsolved. If the resulting lower bound would exceed the upper bound anywhere, the call returns the data-validation error and problem data, step sizes and status stay as they were.",
 ["inputs", "histories"], "all new vectors, all NULL combinations, all scalings",
 "tests sample a few updates, without comparing the stored data",
 ["src/osqp_api.c", "algebra/mkl/vector.c"], [("osqp_update_data_vec", "src/osqp_api.c"), ("OSQPVectorf_all_leq", "algebra/mkl/vector.c")])

prop("C15", "Matrix value updates replace exactly the addressed entries",
 "Updating matrix values replaces exactly the entries addressed by the index list (all entries when no list is given) in the unscaled problem, leaves every other entry unchanged, re-applies scaling, passes the new matrices to the linear-system solver and resets the status. Counts that are negative, exceed the number of nonzeros, or are partial without an index list are refused with a distinct code for P and A and change nothing.",
 ["inputs", "histories"], "all index lists, counts and values",
 "tests update a few entries of tiny matrices",
 ["src/osqp_api.c", "algebra/mkl/matrix.c", "algebra/_common/csc_math.c"], [("osqp_update_data_mat", "src/osqp_api.c"), ("OSQPMatrix_update_values", "algebra/mkl/matrix.c"), ("csc_update_values", "algebra/_common/csc_math.c")])

prop("C16", "Warm and cold starts set exactly the intended iterate",
 "A warm start stores the supplied x and y in internal scaling (x/D, c*y/E), keeps any vector not supplied, sets z to A*x when x is supplied, and turns warm starting on; a cold start zeroes x, y and z. With warm starting off every solve begins from zero; with it on a solve begins from the stored iterate.",
 ["inputs", "histories"], "all vectors, NULL combinations, scalings",
 "tests only look at iteration counts on one or two problems",
 ["src/osqp_api.c"], [("osqp_warm_start, osqp_cold_start, osqp_solve", "src/osqp_api.c")])

prop("C17", "The KKT matrix is assembled exactly, and updated in place exactly",
 "For every P (upper triangular), A and parameters, the assembled system matrix has exactly the entries of [P+sigma*I, A'; A, -diag(1/rho)] in the requested triangle and format, each diagonal entry stored once even if P lacks it, with valid sorted-by-column structure. The recorded positions are exact: replacing values of P, A or the parameters in place yields the same matrix as assembling it anew, and no other entry changes.",
 ["inputs", "histories"], "all sparsity patterns (missing diagonals, empty columns, duplicates excluded) and update lists",
 "tests assemble one or two fixed matrices",
 ["algebra/_common/kkt.c"], [("form_KKT, _kkt_assemble_csr, _kkt_assemble_csc and helpers, update_KKT_P, update_KKT_A, update_KKT_param2", "algebra/_common/kkt.c")])

prop("C18", "The direct linear-system layer solves the system it was given",
 "The direct solver layer hands the factorisation exactly the current system matrix, turns its answer into (x, A*x-consistent z = z_rhs + nu/rho), uses the current step sizes, refactors after every change of matrix values or step size, and reports any factorisation failure or wrong inertia as a non-convexity or initialisation error. In polishing mode the raw solution of the regularised system is returned unchanged.",
 ["inputs", "histories"], "all matrices, step sizes, update sequences and factorisation outcomes",
 "tests never make the factorisation fail in each phase, and re-solve sequences are few",
 ["algebra/mkl/lin_sys/direct/pardiso_interface.c"], [("init/solve/update/free_linsys_solver_pardiso", "algebra/mkl/lin_sys/direct/pardiso_interface.c")])

prop("C19", "The indirect linear-system layer applies the exact reduced system",
 "The iterative solver layer applies exactly the operator P + sigma*I + A'*diag(rho)*A, builds the reduced right-hand side x_rhs + A'*(rho.*z_rhs), returns z = A*x, and preconditions with the exact inverse diagonal (or the identity). Step-size and matrix updates take effect at the next solve, in both scalar and per-constraint modes, and the accuracy requested never drops below what the settings and residuals prescribe.",
 ["inputs", "histories", "configurations"], "all matrices, step sizes (scalar or vector), settings",
 "tests run a few QPs where an inexact operator still converges",
 ["algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/_common/reduced_kkt.c"], [("reduced_kkt_mv_times, reduced_kkt_compute_rhs, reduced_kkt_diagonal", "algebra/_common/reduced_kkt.c"), ("init/solve/update_linsys_mklcg", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c")])

prop("C20", "Polishing never worsens and never corrupts a solution",
 "Polishing classifies as active exactly the constraints the documented test selects, solves the equality system built from exactly those rows, and replaces the solution, objective and residuals only when both polished residuals improve (or one improves while the other is already negligible); otherwise the solution, residuals and objective stay bit-for-bit what they were. The reported polish status says which happened, and temporary memory is released on every path.",
 ["inputs", "histories", "fault_sequences"], "all solutions, active sets (including empty), factorisation failures",
 "tests see a few accepted polishes; rejected or failed ones are hardly reached",
 ["src/polish.c"], [("polish, form_Ared, form_rhs_red, iterative_refinement, get_ypol_from_yred", "src/polish.c")])

prop("C21", "Sparse-matrix transformations preserve the matrix exactly",
 "Every sparse conversion used by the solver (copy, triplet to compressed, symmetric permutation, upper-triangle extraction and expansion, row selection, vertical stacking) yields a well-formed matrix with exactly the intended entries, none lost, duplicated or moved; recorded index maps lead each source entry to its place. Empty matrices, empty rows/columns and unsorted columns are handled the same way.",
 ["inputs"], "all shapes and sparsity patterns",
 "tests convert a few small matrices",
 ["algebra/_common/csc_utils.c", "algebra/mkl/matrix.c"], [("csc_copy, triplet_to_csc/csr, csc_symperm, csc_to_triu, triu_to_csc, vstack, csc_submatrix_byrows", "algebra/_common/csc_utils.c")])

prop("C22", "Vector operations compute their mathematical definition",
 "Every vector primitive (linear combinations, products, reciprocals, projections, bounds and cone tests, norms, dot products, counts, copies, views, gather/expand) returns exactly its element-wise or reduction definition for every length including zero, writes only its output vector, and gives the documented result when output and input are the same vector.",
 ["inputs"], "all lengths, values and admissible aliasing",
 "tests use fixed short vectors; aliasing and empty vectors are hardly covered",
 ["algebra/mkl/vector.c"], [("OSQPVectorf_*, OSQPVectori_*", "algebra/mkl/vector.c")])

prop("C23", "Matrix operations compute their mathematical definition",
 "Every matrix primitive (products with the matrix, its transpose or its symmetric completion, row/column scaling, scalar scaling, row and column max-norms including the symmetric case, diagonals, extraction of diagonals, value updates) gives exactly its definition for every pattern, including empty columns, and leaves structure and unrelated entries alone.",
 ["inputs"], "all shapes, patterns, values",
 "tests use a few fixed matrices",
 ["algebra/mkl/matrix.c", "algebra/_common/csc_math.c"], [("OSQPMatrix_*", "algebra/mkl/matrix.c"), ("csc_scale, csc_lmult_diag, csc_rmult_diag, csc_*_norm_inf*, csc_extract_diag, csc_AtDA_extract_diag", "algebra/_common/csc_math.c")])

prop("C24", "Memory is owned, bounded and released exactly once on every path",
 "No public or internal operation reads or writes outside its objects or uses released memory; whatever a failed allocation leaves behind, the call reports a memory error (or returns null) instead of crashing, and cleanup of a complete or partially set-up solver frees every object exactly once and never the caller's data.",
 ["inputs", "fault_sequences"], "all inputs and every combination of allocation failures",
 "tests never inject allocation failures and cover few sizes",
 ["src/osqp_api.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/_common/csc_utils.c", "src/polish.c"], [("osqp_setup, osqp_cleanup", "src/osqp_api.c"), ("*_malloc/_calloc/_free/_new", "algebra/mkl/vector.c"), ("csc_spalloc, csc_spfree, csc_done", "algebra/_common/csc_utils.c")])

prop("C25", "Sparse-matrix and settings constructors build what they promise",
 "The public helpers return a matrix with exactly the requested shape, entries and ownership (identity, scaled or vector diagonal of any rectangular shape, all-zero, or a wrapper around the caller's arrays), with a well-formed column structure; freeing one releases only arrays it owns. New settings and code-generation option records come back holding the documented defaults.",
 ["inputs"], "all dimensions (square, wide, tall, zero-size) and values",
 "tests build a few sizes",
 ["src/osqp_api.c"], [("OSQPCscMatrix_*, OSQPSettings_new, osqp_set_default_settings", "src/osqp_api.c")])

prop("C26", "The ADMM iteration converges for every convex problem",
 "For every convex feasible problem the iterates converge to a primal-dual solution, and for infeasible problems the successive differences converge to a certificate.",
 ["inputs", "histories"], "all convex problems, infinite histories",
 "convergence is a limit property of an unbounded history",
 ["src/osqp_api.c", "src/auxil.c"], [("osqp_solve", "src/osqp_api.c")])

prop("C27", "Generated embedded code behaves like the solver it came from",
 "Code generated from a solver computes the same results as that solver for the same updates.",
 ["programs", "inputs"], "all problems and generation options",
 "tests generate few programs",
 ["src/codegen.c"], [("codegen_*", "src/codegen.c")])

prop("C28", "Derivatives match the implicit function theorem",
 "The adjoint derivatives returned are those of the solution map at the current solution.",
 ["inputs"], "all problems with a differentiable solution map",
 "tests compare with finite differences on few problems",
 ["src/derivative.c"], [("adjoint_derivative_compute", "src/derivative.c")])

prop("C29", "An interrupt at any instant stops the solve and restores the handler",
 "A keyboard interrupt delivered at any instant during a solve makes the solver stop with the interrupted status at the next iteration, and the previous signal handler is reinstated afterwards.",
 ["schedules"], "all delivery instants",
 "tests never deliver signals",
 ["src/interrupt_unix.c", "src/osqp_api.c"], [("osqp_start/end_interrupt_listener", "src/interrupt_unix.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))
