"""Which contracts decide which property (roots; the contracts they use are verified with them)."""
import re
ROOTS = {
    "C01": [r"validate_data"],
    "C02": [r"validate_settings", r"validate_linsys_solver", r"osqp_update_rho", r"osqp_update_settings", r"osqp_set_default_settings", r"OSQPSettings_.*"],
    "C03": [r"copy_settings", r"osqp_update_settings"],
    "C04": [r"osqp_error_message", r"osqp_get_dimensions", r"osqp_warm_start", r"osqp_cold_start", r"osqp_update_(settings|data_vec|rho)", r"osqp_get_solution", r"osqp_codegen", r"osqp_adjoint_.*", r"osqp_cleanup", r"osqp_set_default_.*", r"osqp_version", r"osqp_capabilities", r"_osqp_error.*"],
    "C05": [r"osqp_setup", r"copy_settings"],
    "C06": [r"scale_data", r"unscale_data", r"unscale_solution", r"limit_scaling_.*", r"compute_inf_norm_cols_KKT"],
    "C07": [r"swap_vectors", r"compute_rhs", r"update_xz_tilde", r"update_x", r"update_y", r"update_z"],
    "C08": [r"compute_prim_res", r"compute_dual_res", r"compute_obj_val_dual_gap", r"update_info"],
    "C09": [r"check_termination", r"compute_(prim|dual)_tol", r"compute_duality_gap_tol"],
    "C10": [r"is_(primal|dual)_infeasible", r"check_termination"],
    "C11": [r"osqp_solve(#.*)?", r".*#weak"],
    "C12": [r"store_solution", r"has_solution", r"osqp_get_solution"],
    "C13": [r"compute_rho_estimate", r"set_rho_vec", r"update_rho_vec", r"adapt_rho", r"osqp_update_rho"],
    "C14": [r"osqp_update_data_vec"],
    "C15": [r"osqp_update_data_mat", r"OSQPMatrix_update_values", r"csc_update_values"],
    "C16": [r"osqp_warm_start", r"osqp_cold_start"],
    "C17": [r"form_KKT", r"update_KKT_.*", r"update_linsys_solver_(matrices|rho_vec)_pardiso"],
    "C18": [r".*_pardiso", r"osqp_algebra_init_linsys_solver"],
    "C19": [r"reduced_kkt_.*", r"cg_.*", r".*_mklcg", r"warm_start_linys_mklcg"],
    "C20": [r"polish", r"form_Ared", r"form_rhs_red", r"iterative_refinement", r"get_ypol_from_yred"],
    "C21": [r"csc_.*"],
    "C22": [r"vec_.*", r"OSQPVector[fi]_.*"],
    "C23": [r"OSQPMatrix_.*"],
    "C24": [r"osqp_cleanup", r"osqp_setup#oom.*", r".*_free", r"csc_sp(alloc|free)", r"OSQP(Vector[fi]|Matrix)_(new|copy_new|malloc|calloc|view|new_from_csc|submatrix_byrows|vstack).*", r"OSQPCscMatrix_.*"],
    "C25": [r"OSQPCscMatrix_.*", r"OSQPSettings_.*", r"OSQPCodegenDefines_.*", r"osqp_set_default_.*"],
}
def roots(prop, reg, prog):
    out = []
    for nm, sp in reg.specs.items():
        if sp.trusted or sp.setup is None: continue
        if any(re.fullmatch(p, nm) for p in ROOTS.get(prop, [])) and nm.split("#")[0] in prog.funcs: out.append(nm)
    return out
