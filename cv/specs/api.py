"""Contracts of src/osqp_api.c."""
from .solver import *
from .util import tic, toc
from .auxil import *
from .csc import M_, addk
from .scaling import scale, unscale
from .validate import in_range

def unusable(S, s):
    """null or not set up: the not-initialised error, nothing touched"""
    if S.null(s) or S.null(S.get(s, "work")): S.ret(ERR["NOTINIT"]); return True
    return False
def handle_setup(inner, **kw):
    """a set-up solver, a null handle, or a handle without workspace"""
    def setup(B):
        k = B.pick(3, "handle")
        o = solver(B, kw.get("vary", ("m0", "rv", "sc")), **{a: b for a, b in kw.items() if a != "vary"}) if k == 0 else None
        if k == 0: p = o.p
        elif k == 1: p = NULL
        else:
            p = B.struct("OSQPSolver", "solver", settings=NULL, solution=NULL, info=NULL, work=NULL)
        return [p] + inner(B, o)
    return setup
# ------------------------------------------------------------------ starts
def vec_or_null(B, o, f, k):
    if o is None or B.pick(2, f) == 0: return NULL if B.pick(2) or o is None else B.arr(f, "float", k)
    return B.arr(f, "float", k)
def optarr(B, nm, n):
    return B.arr(nm, "float", n) if B.pick(2, nm) else NULL
@contract("osqp_warm_start", setup=handle_setup(lambda B, o: [optarr(B, "x0", o.n) , optarr(B, "y0", o.m)] if o else [NULL, NULL], vary=("m0", "sc")))
def _(S, s, x, y):
    if unusable(S, s): return
    w = W(S, s)
    S.set(w.settings, "warm_starting", If(Eq(w.opt("warm_starting"), 0), 1, w.opt("warm_starting")))
    sc = w.scaled()
    w.vec("x"); w.vec("y"); w.vec("z")
    if not S.null(x):
        f = S.arr(x, w.n, "x")
        d = w.vec("Dinv") if sc else None
        w.setv("x", (lambda i: f(i) * d(i)) if sc else f)
    if not S.null(y):
        g = S.arr(y, w.m, "y")
        e, c = (w.vec("Einv"), w.sca("c")) if sc else (None, None)
        w.setv("y", (lambda i: c * (g(i) * e(i))) if sc else g)
    if not S.null(x): S.call("OSQPMatrix_Axpy", w.ptr("A"), w.ptr("x"), w.ptr("z"), R(1), R(0))
    ls_warm_start(S, w.w("linsys_solver"), w.ptr("x"))
    S.ret(0)
def cold(S, w):
    for f in ("x", "y", "z"): w.vec(f); w.setv(f, lambda i: R(0))
    ls_warm_start(S, w.w("linsys_solver"), w.ptr("x"))
@contract("osqp_cold_start", setup=sv("m0"))
def _(S, s): cold(S, W(S, s))
# ------------------------------------------------------------------ step size
def begin_update(S, w):
    if S.branch(Eq(w.w("clear_update_time"), 1)):
        w.setw("clear_update_time", 0); w.setinfo("update_time", R(0))
    tic(S, w.w("timer"))
def end_update(S, w): w.setinfo("update_time", w.i("update_time") + toc(S, w.w("timer")))
@contract("osqp_update_rho", setup=handle_setup(lambda B, o: [B.real("rho_new", -1, 4)], vary=("m0", "rv")))
def _(S, s, rho):
    if unusable(S, s): return
    if S.branch(rho <= 0): return S.ret(1)
    w = W(S, s)
    timed = S.branch(Eq(w.w("rho_update_from_solve"), 0))
    if timed: begin_update(S, w)
    r = clamp(rho); S.set(w.settings, "rho", r)
    if w.rho_vec():
        ty = w.vec("constr_type"); w.vec("rho_vec"); w.vec("rho_inv_vec")
        # -1: loose bounds, 0: inequality, 1: equality
        v = lambda i: If(Eq(ty(i), -1), R(RHO_MIN), If(Eq(ty(i), 0), r, If(Eq(ty(i), 1), R(RHO_EQ) * r, R(0))))
        S.require(Forall(0, w.m, lambda i: And(ty(i) >= -1, ty(i) <= 1)), "constraint types")
        w.setv("rho_vec", v); w.setv("rho_inv_vec", lambda i: Div(R(1), v(i)))
    else: w.setw("rho_inv", Div(R(1), r))
    ret = ls_update_rho_vec(S, w.w("linsys_solver"), w.w("rho_vec"), r)
    if timed: end_update(S, w)
    S.ret(ret)

# ------------------------------------------------------------------ matrices for callers
def cscobj(S, m, n, nzmax, p, i, x, owned):
    A = S.newz("OSQPCscMatrix")
    for f, v in (("m", m), ("n", n), ("nz", -1), ("nzmax", nzmax), ("p", p), ("i", i), ("x", x), ("owned", owned)): S.set(A, f, v)
    return A
def shape_arrays(B):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k")
    return m, n, k, B.arr("x", "float", k), B.arr("i", "int", k), B.arr("p", "int", addk(n, 1))
@contract("OSQPCscMatrix_new", setup=lambda B: list(shape_arrays(B)))
def _(S, m, n, nz, x, i, p):
    """a record around the caller's arrays, which it does not own"""
    if S.ret_null(): return S.ret(NULL)
    S.ret(cscobj(S, m, n, nz, p, i, x, 0))
@contract("OSQPCscMatrix_set_data", setup=lambda B: [B.struct("OSQPCscMatrix", "M")] + list(shape_arrays(B)))
def _(S, M, m, n, nz, x, i, p):
    for f, v in (("m", m), ("n", n), ("nz", -1), ("nzmax", nz), ("p", p), ("i", i), ("x", x), ("owned", 0)): S.set(M, f, v)
def diag(S, m, n, val):
    S.require(And(le(0, m), le(0, n)), "dimensions not negative")
    k = Min(m, n)
    if S.ret_null(): return NULL
    return cscobj(S, m, n, k, S.newarr("int", addk(n, 1), lambda j: Min(j, k)), *[emptyable(S, t, k, f, nm) for t, f, nm in (("int", lambda j: j, "i"), ("float", val, "x"))], 1)
def emptyable(S, t, k, f, nm):
    """an array of k elements; of no elements possibly absent"""
    if not (S.mode == "call" and S.ex.opts.get("nofail")) and S.choose(lambda r, v: isinstance(r, Ptr) and r.rid is not None and isinstance(v.get(r, nm), Ptr) and v.null(v.get(r, nm))):
        S.ensure(Eq(k, 0), "array %s absent only when empty" % nm)
        return NULL
    return S.newarr(t, k, f)
def diag_setup(val):
    def setup(B): return [B.dim("m"), B.dim("n")] + val(B)
    return setup
@contract("OSQPCscMatrix_diag_scalar", setup=lambda B: [B.dim("m"), B.dim("n"), B.real("s")])
def _(S, m, n, s): S.ret(diag(S, m, n, lambda j: s))
@contract("OSQPCscMatrix_identity", setup=lambda B: [B.dim("m")])
def _(S, m): S.ret(diag(S, m, m, lambda j: R(1)))
def diagv_setup(B):
    m, n = B.dim("m"), B.dim("n"); return [m, n, B.arr("v", "float", Min(m, n))]
@contract("OSQPCscMatrix_diag_vec", setup=diagv_setup)
def _(S, m, n, v): 
    f = S.arr(v, Min(m, n), "diagonal"); S.ret(diag(S, m, n, f))
@contract("OSQPCscMatrix_zeros", setup=lambda B: [B.dim("m"), B.dim("n")])
def _(S, m, n):
    S.require(And(le(0, m), le(0, n)), "dimensions not negative")
    if S.ret_null(): return S.ret(NULL)
    S.ret(cscobj(S, m, n, 0, S.newarr("int", addk(n, 1), lambda j: 0), NULL, NULL, 1))
def cfree_setup(B):
    k = B.pick(4, "kind")
    if k == 0: return [NULL]
    A = B.csc("A", B.dim("m"), B.dim("n"), owned=k != 1)
    if k == 3:
        for f in ("p", "i", "x"): B.st.mem[A.rid][f] = NULL
    return [A]
@contract("OSQPCscMatrix_free", setup=cfree_setup)
def _(S, A):
    """only what the matrix owns"""
    if S.null(A): return
    if S.branch(Not(Eq(S.get(A, "owned"), 0))):
        for f in ("p", "i", "x"): S.free(S.get(A, f))
    S.free(A)

# ------------------------------------------------------------------ defaults
DEFAULTS = dict(device=0, linsys_solver=1, allocate_solution=1, profiler_level=0, verbose=1, warm_starting=1, scaling=10, polishing=0, rho=0.1, rho_is_vec=1, sigma=1e-6, alpha=1.6,
                cg_max_iter=20, cg_tol_reduction=10, cg_tol_fraction=0.15, cg_precond=1, adaptive_rho=1, adaptive_rho_interval=50, adaptive_rho_fraction=0.4, adaptive_rho_tolerance=5.0,
                max_iter=4000, eps_abs=1e-3, eps_rel=1e-3, eps_prim_inf=1e-4, eps_dual_inf=1e-4, scaled_termination=0, check_termination=25, check_dualgap=1, time_limit=1e10, delta=1e-6, polish_refine_iter=3)
def defaults(S, st):
    for f in settings_fields(S.ex.prog):
        v = DEFAULTS[f]; S.set(st, f, R(v) if isinstance(v, float) else v)
@contract("osqp_set_default_settings", setup=lambda B: [NULL if B.pick(2, "missing") else B.struct("OSQPSettings", "settings")])
def _(S, st):
    """the documented defaults; they pass the range checks"""
    if S.null(st): return
    defaults(S, st)
@contract("OSQPSettings_new", setup=lambda B: [])
def _(S):
    if S.ret_null(): return S.ret(NULL)
    st = S.newz("OSQPSettings"); defaults(S, st); S.ret(st)
@contract("OSQPSettings_free", setup=lambda B: [NULL if B.pick(2, "missing") else settings(B)])
def _(S, st): S.free(st)
CGDEF = dict(embedded_mode=1, float_type=0, printing_enable=0, profiling_enable=0, interrupt_enable=0, derivatives_enable=0)
@contract("osqp_set_default_codegen_defines", setup=lambda B: [NULL if B.pick(2, "missing") else B.struct("OSQPCodegenDefines", "defines")])
def _(S, d):
    if S.null(d): return
    for f, v in CGDEF.items(): S.set(d, f, v)
@contract("OSQPCodegenDefines_new", setup=lambda B: [])
def _(S):
    if S.ret_null(): return S.ret(NULL)
    d = S.newz("OSQPCodegenDefines")
    for f, v in CGDEF.items(): S.set(d, f, v)
    S.ret(d)
@contract("OSQPCodegenDefines_free", setup=lambda B: [NULL if B.pick(2, "missing") else B.struct("OSQPCodegenDefines", "defines")])
def _(S, d): S.free(d)

# ------------------------------------------------------------------ queries
@contract("osqp_capabilities", setup=lambda B: [])
def _(S): S.ret(1 | 2 | 8)
def ret_text(S, s):
    """a constant text"""
    if S.mode == "call":
        rid = S.st.new("str", ("int", 1), None, "str", "text"); S.st.mem[rid] = s
        return S.ret(Ptr(rid, 0))
    S.ret(ANY)
    if concrete(): return
    p = S.actual[1]
    ok = False
    if isinstance(p, Ptr) and p.rid is not None and S.actual[0].reg[p.rid].kind == "str":
        v = S.actual_view(); c = text_of(v, p)
        off = p.off
        if c is not None and not isz(off) and off == 0: ok = Eq(c[0], text_code(s))
    S.ensure(ok, "text returned is \"%s\"" % s)
@contract("osqp_version", setup=lambda B: [])
def _(S): ret_text(S, "1.0.0")
MESSAGES = ["Problem data validation.", "Solver settings validation.", "Linear system solver initialization.", "KKT matrix factorization.\nThe problem seems to be non-convex.", "Memory allocation.",
            "Solver workspace not initialized.", "Algebra libraries not loaded.", "Unable to open file for writing.", "Invalid defines for codegen", "Vector/matrix not initialized.", "Function not implemented."]
@contract("osqp_error_message", setup=lambda B: [B.int("flag", -3, 14) if B.mode == "concrete" else B.int("flag")])
def _(S, e):
    """every code has a text; unknown codes say so"""
    for k, t in enumerate(MESSAGES):
        if S.branch(Eq(e, k + 1)): return ret_text(S, t)
    ret_text(S, "Unknown error code.")
def dims_setup(B):
    k = B.pick(4, "handle"); I = ("int", 8)
    if k == 0: p = solver(B, ("m0",)).p
    elif k == 1: p = NULL
    elif k == 2: p = B.struct("OSQPSolver", "solver", settings=NULL, solution=NULL, info=NULL, work=NULL)
    else: p = B.struct("OSQPSolver", "solver", settings=NULL, solution=NULL, info=NULL, work=B.struct("OSQPWorkspace_", "work", data=NULL))
    return [p, B.cell("m", I, 0), B.cell("n", I, 0)]
@contract("osqp_get_dimensions", setup=dims_setup)
def _(S, s, m, n):
    if S.null(s) or S.null(S.get(s, "work")) or S.null(S.get(s, "work", "data")):
        S.assign(m, -1); S.assign(n, -1); return
    d = S.get(s, "work", "data"); S.assign(m, S.get(d, "m")); S.assign(n, S.get(d, "n"))
def anyptr(B, nm): return NULL if B.pick(2, nm) else B.arr(nm, "float", 1)
for _nm, _k in (("osqp_codegen", 4), ("osqp_adjoint_derivative_compute", 3), ("osqp_adjoint_derivative_get_mat", 3), ("osqp_adjoint_derivative_get_vec", 4)):
    def _mk(nm, k):
        def body(S, *a): S.ret(ERR["NOTIMPL"])
        CONTRACTS[nm] = Spec(nm, body, setup=lambda B: [NULL if B.pick(2, "missing") else solver(B, ()).p] + [NULL] * (k - 1), nargs=k)
    _mk(_nm, _k)

# ------------------------------------------------------------------ settings
UPDATABLE = ("profiler_level", "verbose", "warm_starting", "polishing", "alpha", "cg_max_iter", "cg_tol_reduction", "cg_tol_fraction", "cg_precond", "max_iter", "eps_abs", "eps_rel", "eps_prim_inf",
             "eps_dual_inf", "scaled_termination", "check_termination", "check_dualgap", "time_limit", "delta", "polish_refine_iter")
def update_settings_setup(B):
    a = handle_setup(lambda B, o: [], vary=())(B)
    return a + [NULL if B.pick(2, "missing") else settings(B, "new", valid=B.mode == "concrete" and B.rng.random() < 0.7)]
@contract("osqp_update_settings", setup=update_settings_setup)
def _(S, s, new):
    """all updatable fields or none"""
    if unusable(S, s): return
    if S.null(new) or not S.branch(in_range(lambda f: S.get(new, f), False)): return S.ret(ERR["SETTINGS"])
    st = S.get(s, "settings")
    for f in UPDATABLE: S.set(st, f, S.get(new, f))
    ls_update_settings(S, S.get(s, "work", "linsys_solver"), st)
    S.ret(0)

# ------------------------------------------------------------------ results
def get_solution_setup(B):
    k = B.pick(5, "handle")
    o = solver(B, ("m0", "sc") if k == 0 else ())
    p = o.p
    if k == 1: p = NULL
    elif k >= 2: B.st.mem[p.rid][("work", "settings", "info")[k - 2]] = NULL
    return [p, NULL if B.pick(2, "missing") else solution(B, o.n, o.m, o.m0)]
@contract("osqp_get_solution", setup=get_solution_setup)
def _(S, s, sol):
    if S.null(s) or any(S.null(S.get(s, f)) for f in ("work", "settings", "info")) or S.null(sol): return S.ret(ERR["NOTINIT"])
    store(S, s, sol); S.ret(0)

# ------------------------------------------------------------------ data updates
def vecs(B, o):
    if o is None: return [NULL, NULL, NULL]
    return [optarr(B, "q_new", o.n), optarr(B, "l_new", o.m), optarr(B, "u_new", o.m)]
def from_raw(S, w, f, p, k):
    """new vector values in internal scaling"""
    g = S.arr(p, k, f + "_new")
    if not w.scaled(): return g
    if f == "q":
        D, c = w.vec("D"), w.sca("c"); return lambda i: c * (g(i) * D(i))
    E = w.vec("E"); return lambda i: g(i) * E(i)
def swap_ptr(S, a, f, b, g):
    x, y = S.get(a, f), S.get(b, g); S.set(a, f, y); S.set(b, g, x)
@contract("osqp_update_data_vec", setup=handle_setup(vecs, vary=("m0", "rv", "sc")))
def _(S, s, q, l, u):
    """exactly the vectors given; bounds that cross are refused and leave the problem as it was"""
    if unusable(S, s): return
    w = W(S, s); begin_update(S, w)
    ret = 0
    if not (S.null(l) and S.null(u)):
        fl = w.vec("l") if S.null(l) else from_raw(S, w, "l", l, w.m)
        fu = w.vec("u") if S.null(u) else from_raw(S, w, "u", u, w.m)
        w.vec("z_prev"); w.vec("Adelta_x"); w.vec("l"); w.vec("u")
        ok = S.branch(Forall(0, w.m, lambda i: fl(i) <= fu(i)))
        if not ok:
            if not S.null(l): w.scratch("z_prev")
            if not S.null(u): w.scratch("Adelta_x")
            return S.ret(ERR["DATA"])
        # the problem's bound objects and the scratch ones trade places
        for p, f, t, g in ((l, "l", "z_prev", fl), (u, "u", "Adelta_x", fu)):
            if S.null(p): continue
            w.setv(t, g); swap_ptr(S, w.work, t, w.data, f)
        if w.rho_vec(): ret = S.call("update_rho_vec", s)
        for p, t in ((l, "z_prev"), (u, "Adelta_x")):
            if not S.null(p): w.scratch(t)
    if not S.null(q):
        g = from_raw(S, w, "q", q, w.n); w.vec("q"); w.setv("q", g)
    S.call("reset_info", w.info)
    end_update(S, w)
    S.ret(ret)

# ------------------------------------------------------------------ release
VECS_A = ("D_temp", "D_temp_A", "E_temp")
VECS_B = ("rho_vec", "rho_inv_vec")
VECS_C = ("x", "z", "xz_tilde", "x_prev", "z_prev", "y", "Ax", "Px", "Aty", "delta_y", "Atdelta_y", "delta_x", "Pdelta_x", "Adelta_x")
@contract("osqp_algebra_free_libs", setup=lambda B: [])
def _(S): pass
@contract("osqp_algebra_init_libs", setup=lambda B: [B.int("device")])
def _(S, d):
    """fails only if the integer width could not be selected"""
    if S.mode == "call": return S.ret(as_int(Eq(S.event("init_libs", [d], ["int"])[0], -1)))
    S.ret(as_int(Eq(S.event("mkl_interface", [S.ex.prog.enums.get("MKL_INTERFACE_ILP64", 1)], ["int"])[0], -1)))
def free_obj(S, p, fn): S.call(fn, p)
def release(S, s):
    """everything the solver owns, each object once"""
    if S.null(s): return
    w = S.get(s, "work")
    if not S.null(w):
        d = S.get(w, "data")
        if not S.null(d):
            for f in ("P", "A"): S.call("OSQPMatrix_free", S.get(d, f))
            for f in ("q", "l", "u"): S.call("OSQPVectorf_free", S.get(d, f))
            S.free(d)
        sc = S.get(w, "scaling")
        if not S.null(sc):
            for f in ("D", "Dinv", "E", "Einv"): S.call("OSQPVectorf_free", S.get(sc, f))
            S.free(sc)
        for f in VECS_A: S.call("OSQPVectorf_free", S.get(w, f))
        ls = S.get(w, "linsys_solver")
        if not S.null(ls) and not (isinstance(S.get(ls, "free"), Ptr) and S.null(S.get(ls, "free"))): ls_free(S, ls)
        pol = S.get(w, "pol")
        if not S.null(pol):
            S.call("OSQPVectori_free", S.get(pol, "active_flags"))
            for f in "xzy": S.call("OSQPVectorf_free", S.get(pol, f))
            S.free(pol)
        for f in VECS_B + VECS_C: S.call("OSQPVectorf_free", S.get(w, f))
        S.call("OSQPVectori_free", S.get(w, "constr_type"))
        for f in ("xtilde_view", "ztilde_view"): S.call("OSQPVectorf_view_free", S.get(w, f))
        S.free(S.get(s, "settings"))
        sol = S.get(s, "solution")
        if not S.null(sol):
            for f in ("x", "y", "prim_inf_cert", "dual_inf_cert"): S.free(S.get(sol, f))
            S.free(sol)
        S.free(S.get(s, "info"))
        S.free(S.get(w, "timer"))
        S.free(w)
    S.free(s)
STAGES = [("info", ("s", "info")), ("timer", ("w", "timer")), ("data", ("w", "data")), ("P", ("d", "P")), ("q", ("d", "q")), ("A", ("d", "A")), ("l", ("d", "l")), ("u", ("d", "u"))] + \
    [(f, ("w", f)) for f in VECS_B + ("constr_type", "x", "z", "xz_tilde", "xtilde_view", "ztilde_view", "x_prev", "z_prev", "y", "Ax", "Px", "Aty", "delta_y", "Atdelta_y", "delta_x", "Pdelta_x", "Adelta_x")] + \
    [("settings", ("s", "settings")), ("scaling", ("w", "scaling"))] + [(f, ("sc", f)) for f in ("D", "Dinv", "E", "Einv")] + [(f, ("w", f)) for f in VECS_A + ("linsys_solver", "pol")] + \
    [(f, ("pol", f)) for f in ("active_flags", "x", "z", "y")] + [("solution", ("s", "solution"))] + [(f, ("sol", f)) for f in ("x", "y", "prim_inf_cert", "dual_inf_cert")]
def cleanup_setup(B):
    """complete solvers, and what every failed stage of the setup leaves behind: objects before a point exist, later ones do not;
    around that point single objects may be missing"""
    k = B.pick(3 + len(STAGES), "stage")
    if k == 0: return [NULL]
    if k == 1: return [B.struct("OSQPSolver", "solver", settings=NULL, solution=NULL, info=NULL, work=NULL)]
    n = k - 2
    full = n == len(STAGES)
    # variants of a complete solver: unscaled, scalar step size, no constraints
    o = solver(B, ("m0", "rv", "sc") if full else ())
    if not full:
        pass
    so = solution(B, o.n, o.m, o.m0)
    M = B.st.mem
    M[o.p.rid]["solution"] = so
    if full: return [o.p]
    base = {"s": o.p.rid, "w": o.work.rid, "d": o.data.rid, "pol": o.pol.rid, "sol": so.rid}
    sc = M[o.work.rid]["scaling"]
    if sc.rid is not None: base["sc"] = sc.rid
    near = B.pick(2, "only")           # everything from here on missing / only this one
    for j, (nm, (b, f)) in enumerate(STAGES):
        if (j == n if near else j >= n) and b in base: M[base[b]][f] = NULL
    # views need the vector they look into
    if M[o.work.rid]["xz_tilde"].rid is None: M[o.work.rid]["xtilde_view"] = NULL; M[o.work.rid]["ztilde_view"] = NULL
    if near == 1 and nm == "scaling": pass
    # objects that are no longer reachable do not exist
    reach = set(); todo = [o.p]
    while todo:
        p = todo.pop()
        if not isinstance(p, Ptr) or p.rid is None or p.rid in reach: continue
        reach.add(p.rid); m = M.get(p.rid)
        if isinstance(m, dict): todo += [v for v in m.values() if isinstance(v, Ptr)]
    for r in list(M):
        if r not in reach and B.st.reg[r].origin in ("pre", "sub"): del M[r]
    return [o.p]
@contract("osqp_cleanup", setup=cleanup_setup, opts={"maxvariants": 400})
def _(S, s): release(S, s); S.ret(0)

# ------------------------------------------------------------------ matrix updates
def mat_setup(B, o):
    if o is None: return [NULL, NULL, 0, NULL, NULL, 0]
    M = B.st.mem; out = []
    for f in ("P", "A"):
        A = M[M[o.data.rid][f].rid]["csc"]; nnz = M[A.rid]["nzmax"]
        k = B.pick(3, f + "_values")                # none / all / addressed
        if k == 0: out += [NULL, NULL, B.int(f + "_n")]; continue
        if k == 1: cnt = B.int(f + "_n", vals=None if B.mode != "concrete" else [0, nnz, nnz, nnz + 1, 1]); out += [B.arr(f + "_new", "float", nnz), NULL, cnt]; continue
        c = B.dim(f + "_cnt"); B.assume(le(0, c))
        if B.mode == "concrete" and nnz == 0: c = 0
        B.assume(Or(c > 0, Eq(nnz, 0)))
        out += [B.arr(f + "_new", "float", c), B.arr(f + "_idx", "int", c, lo=0, hi=addk(nnz, -1)), c]
    return out
@contract("osqp_update_data_mat", setup=handle_setup(mat_setup, vary=("sc",)))
def _(S, s, Px, Pi, Pn, Ax, Ai, An):
    """exactly the addressed entries; bad counts are refused"""
    if unusable(S, s): return
    w = W(S, s); begin_update(S, w)
    nz = {}
    for f, idx, cnt, code in (("P", Pi, Pn, 1), ("A", Ai, An, 2)):
        c = S.get(w.ptr(f), "csc"); nnz = S.arr(S.get(c, "p"), addk(S.get(c, "n"), 1))(S.get(c, "n"))
        bad = Or(cnt > nnz, cnt < 0)
        if S.null(idx): bad = Or(bad, And(Not(Eq(cnt, 0)), Not(Eq(cnt, nnz))))
        if S.branch(bad): return S.ret(code)
        nz[f] = nnz, If(Eq(cnt, 0), nnz, cnt)
    sc = w.scaled()
    if sc: unscale(S, w)
    if not S.null(Px): S.call("OSQPMatrix_update_values", w.ptr("P"), Px, Pi, nz["P"][1])
    if not S.null(Ax): S.call("OSQPMatrix_update_values", w.ptr("A"), Ax, Ai, nz["A"][1])
    if sc: scale(S, w)
    z = (NULL, nz["P"][0], NULL, nz["A"][0]) if sc else (Pi, nz["P"][1], Ai, nz["A"][1])
    ret = ls_update_matrices(S, w.w("linsys_solver"), w.ptr("P"), z[0], z[1], w.ptr("A"), z[2], z[3])
    S.call("reset_info", w.info)
    end_update(S, w)
    S.ret(ret)

# ------------------------------------------------------------------ setup
from .linsys import ils_setup, init_linsys_verify
@contract("osqp_algebra_init_linsys_solver", setup=ils_setup, opts={"nosearch": True})
def _(S, sp, P, A, rv, st, pr, dr, polishing):
    if S.mode == "call":
        r = ls_init(S, P, A, rv, st, pr, dr, polishing)
        if S.branch(Eq(r, 0)):
            S.assign(sp, ls_object(S)); return S.ret(0)
        S.assume(Or(Eq(r, ERR["LINSYS"]), Eq(r, ERR["NONCVX"]), Eq(r, ERR["MEM"])))
        if S.choose(None): S.assign(sp, ls_object(S))      # an object that only waits for its release
        else: S.assign(sp, NULL)
        return S.ret(r)
    init_linsys_verify(S, sp, P, A, rv, st, pr, dr, polishing)
def new_vec(S, n, fn, elem="float"):
    p = S.new("OSQPVectorf" if elem == "float" else "OSQPVectori"); S.set(p, "length", n)
    S.set(p, "values", NULL if S.branch(eqt(n, 0)) else S.newarr(elem, n, fn, alloc="mkl"))
    return p
def zero(i): return R(0)
def setup_setup(oom):
  def setup(B):
    """oom: None: no allocation fails; otherwise the configuration (no constraints, vector step size, scaling) in which any may"""
    if oom is None: B.ex.opts["nofail"] = True
    bad = B.pick(3, "valid") if oom is None else 0
    n = B.dim("n", 1)
    m0 = oom[0] if oom else (B.pick(2, "m0") if not bad else 0)
    m = 0 if m0 else B.dim("m", 1)
    P = B.csc("P", n, n); A = B.csc("A", m, n)
    q, l, u = B.arr("q", "float", n), B.arr("l", "float", m), B.arr("u", "float", m)
    if bad == 1:                # settings of any kind; data of the right shape
        st = settings(B, valid=False)
    else:
        rv, sc = oom[1:] if oom else ((B.pick(2, "rho_is_vec"), B.pick(2, "scaled")) if not bad else (1, 0))
        st = settings(B, rv=rv, sc=sc)
    cell = B.cell("handle", ("ptr", ("struct", "OSQPSolver")), NULL)
    if bad == 2:                # shapes that do not fit together
        if B.pick(2, "missing"): P = NULL
        m, n = fresh("m_arg", INT), fresh("n_arg", INT)
        q = B.arr("q", "float", If(n < 0, 0, n)); l, u = [B.arr(x, "float", If(m < 0, 0, m)) for x in "lu"]
        B.assume(Or(Not(Eq(m, B.dims["m"])), Not(Eq(n, B.dims["n"])), P.rid is None))
    return [cell, P, q, A, l, u, m, n, st]
  return setup
def released(S, s):
    """what the code left behind at a failed setup is released completely, and legitimately, by osqp_cleanup"""
    from ..spec import run_spec
    st = S.actual[0].clone()
    for R_ in run_spec(CONTRACTS["osqp_cleanup"], S.ex, st, [s], None, "call"):
        left = [reg.name for rid, reg in R_.st.reg.items() if reg.origin == "new" and rid in R_.st.mem and rid not in R_.st.freed and rid in S.actual[0].mem]
        if left: S.ensures.append((False, "not released by cleanup after a failed setup: " + ", ".join(left)))
@contract("osqp_setup", setup=setup_setup(None), opts={"maxvariants": 200, "nosearch": True, "slow": 1})
def _(S, sp, P, q, A, l, u, m, n, st):
    if S.mode == "concrete": raise Reject("not executed")
    if S.branch(Not(Eq(S.call("validate_data", P, q, A, l, u, m, n), 0))): return S.ret(ERR["DATA"])
    if not S.branch(in_range(lambda f: S.get(st, f), True)): return S.ret(ERR["SETTINGS"])
    act = S.actual_view()
    if S.choose(lambda r, v: Not(Eq(r, 0))):
        r = S.actual[1]; tr = S.actual[0].trace; oom = S.actual[0].oom
        S.evpos = len(tr)
        ev = {e[0]: e[2] for e in tr}
        if "ls_init" in ev:
            rl = ev["ls_init"][0]
            S.ensure(Or(And(Not(Eq(rl, 0)), Eq(r, rl)), And(Eq(rl, 0), Eq(r, ERR["MEM"]), bool(oom))), "error of the linear solver reported")
            h = act.get(sp, "")
            S.ensure(Or(Not(Eq(rl, ERR["NONCVX"])), Eq(act.get(h, "info", "status_val"), NONCVX)), "non convexity is in the status")
        elif "init_libs" in ev and S.branch(Eq(ev["init_libs"][0], -1)): S.ensure(Eq(r, ERR["ALGEBRA"]), "error code for the libraries")
        else: S.ensure(And(Eq(r, ERR["MEM"]), bool(oom)), "error code for memory")
        released(S, act.get(sp, ""))
        S.assign(sp, ANY); S.noleak = True
        return S.ret(r)
    s, work, info = S.newz("OSQPSolver"), S.newz("OSQPWorkspace_"), S.newz("OSQPInfo")
    S.assign(sp, s); S.set(s, "work", work); S.set(s, "info", info)
    tm = S.new("OSQPTimer_"); S.set(work, "timer", tm); tic(S, tm)
    S.ensure(Not(Eq(S.event("init_libs", [S.get(st, "device")], ["int"])[0], -1)), "libraries loaded")
    data = S.newz("OSQPData"); S.set(work, "data", data)
    for f, v in (("m", m), ("n", n), ("P", S.call("OSQPMatrix_new_from_csc", P, 1)), ("A", S.call("OSQPMatrix_new_from_csc", A, 0)),
                 ("q", new_vec(S, n, S.arr(q, n))), ("l", new_vec(S, m, S.arr(l, m))), ("u", new_vec(S, m, S.arr(u, m)))): S.set(data, f, v)
    rv = S.branch(Not(Eq(S.get(st, "rho_is_vec"), 0)))
    if rv:
        for f in ("rho_vec", "rho_inv_vec"): S.set(work, f, new_vec(S, m, zero))
        S.set(work, "constr_type", new_vec(S, m, lambda i: 0, "int"))
    for f in ("x", "x_prev", "Px", "Aty", "Atdelta_y", "delta_x", "Pdelta_x"): S.set(work, f, new_vec(S, n, zero))
    for f in ("y", "z", "z_prev", "Ax", "delta_y", "Adelta_x"): S.set(work, f, new_vec(S, m, zero))
    xz = new_vec(S, addk(n, m), zero); S.set(work, "xz_tilde", xz)
    S.set(work, "xtilde_view", S.call("OSQPVectorf_view", xz, 0, n)); S.set(work, "ztilde_view", S.call("OSQPVectorf_view", xz, n, m))
    sett = S.call("copy_settings", st); S.set(s, "settings", sett)
    if S.branch(Not(Eq(S.get(st, "scaling"), 0))):
        sc = S.newz("OSQPScaling"); S.set(work, "scaling", sc)
        for f, k in (("D", n), ("Dinv", n), ("E", m), ("Einv", m)): S.set(sc, f, new_vec(S, k, zero))
        for f, k in (("D_temp", n), ("D_temp_A", n), ("E_temp", m)): S.set(work, f, new_vec(S, k, None))
        asc = act.get(act.get(sp, ""), "work", "scaling")
        def found(f):
            if f is None: return act.get(asc, "c")
            return act.arr(act.get(asc, f, "values"))
        scale_fresh(S, W(S, s), found)
    if rv: set_rho(S, W(S, s))
    else:
        S.set(sett, "rho", clamp(S.get(st, "rho"))); S.set(work, "rho_inv", Div(R(1), S.get(sett, "rho")))
    r = ls_init(S, S.get(data, "P"), S.get(data, "A"), S.get(work, "rho_vec"), sett, Ptr(work.rid, 0, "scaled_prim_res"), Ptr(work.rid, 0, "scaled_dual_res"), 0)
    S.ensure(Eq(r, 0), "linear solver initialised")
    S.set(work, "linsys_solver", ls_object(S))
    cold(S, W(S, s))
    pol = S.newz("OSQPPolish"); S.set(work, "pol", pol)
    S.set(pol, "active_flags", new_vec(S, m, None, "int"))
    for f, k in (("x", n), ("z", m), ("y", m)): S.set(pol, f, new_vec(S, k, None))
    if S.branch(Not(Eq(S.get(st, "allocate_solution"), 0))):
        so = S.newz("OSQPSolution"); S.set(s, "solution", so)
        for f, k in (("x", n), ("y", m), ("prim_inf_cert", m), ("dual_inf_cert", n)):
            p = act.get(act.get(sp, ""), "solution", f)
            if act.null(p): S.ensure(Eq(k, 0), "array %s absent only when empty" % f); S.set(so, f, NULL)
            else: S.set(so, f, S.newarr("float", k, zero))
    for f in ("solve_time", "update_time", "polish_time", "run_time"): S.set(info, f, R(0))
    S.set(info, "setup_time", toc(S, tm))
    set_status(S, info, "OSQP_UNSOLVED")
    S.set(info, "status_polish", 0)
    S.set(info, "rho_estimate", S.get(sett, "rho"))
    for f in ("obj_val", "prim_res", "dual_res", "rel_kkt_error"): S.set(info, f, R(INFTY))
    S.set(work, "last_rel_kkt", R(INFTY)); S.set(work, "first_run", 1)
    ad, iv, ct = S.get(st, "adaptive_rho"), S.get(st, "adaptive_rho_interval"), S.get(st, "check_termination")
    S.set(sett, "adaptive_rho_interval", If(Not(Eq(iv, 0)), iv, If(Eq(ad, 1), If(Eq(ct, 0), 100, 4 * ct), If(Eq(ad, 3), 1, iv))))
    S.ret(0)
def scale_fresh(S, w, found):
    from .scaling import open_scaling, apply_scaling
    apply_scaling(S, w, *open_scaling(S, w, found))
for _k, _c in enumerate([(0, 1, 1), (0, 0, 0), (1, 1, 0), (1, 0, 1)]):
    CONTRACTS["osqp_setup#oom%d" % (_k + 1)] = Spec("osqp_setup#oom%d" % (_k + 1), CONTRACTS["osqp_setup"].body, setup=setup_setup(_c), opts={"nosearch": True, "slow": 1}, nargs=9)
