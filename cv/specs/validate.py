"""Contracts of the data and settings checks (src/auxil.c) and of the backend's capability queries."""
from .solver import *
from .util import str_
from .csc import M_

DIRECT, INDIRECT = 1, 2                     # linear solver types = capability bits
CAPS = 1 | 2 | 8                            # direct, indirect, matrix updates
@contract("osqp_algebra_linsys_supported")
def _(S): S.ret(DIRECT | INDIRECT)
@contract("osqp_algebra_default_linsys")
def _(S): S.ret(DIRECT)

def data_setup(B):
    k = B.pick(4, "missing")               # nothing, P, A, q missing
    if B.mode != "concrete": n, m = [fresh(x, INT) for x in ("n_arg", "m_arg")]
    else:
        n = B.rng.choice([0, 1, 2, 3, 3, 3, 4, -1]); m = B.rng.choice([-1, 0, 1, 2, 2, 3])
    d = lambda nm, near: (max(0, near + B.rng.choice([0, 0, 0, 0, 0, 1, -1])) if B.mode == "concrete" else B.dim(nm))
    Pm, Pn = d("Pm", n), d("Pn", n)
    P = NULL if k == 1 else B.csc("P", Pm, Pn, triu=(B.mode == "concrete" and B.rng.random() < 0.7))
    A = NULL if k == 2 else B.csc("A", d("Am", m), d("An", n))
    q = NULL if k == 3 else B.arr("q", "float", If(n < 0, 0, n) if isz(n) else max(n, 0))
    mm = If(m < 0, 0, m) if isz(m) else max(m, 0)
    if B.mode == "concrete":
        lo = [B.num() for _ in range(mm)]; hi = [x + abs(B.num()) * (1 if B.rng.random() < 0.9 else -1) for x in lo]
        l, u = B.arrl("l", "float", lo), B.arrl("u", "float", hi)
    else: l, u = B.arr("l", "float", mm), B.arr("u", "float", mm)
    return [P, q, A, l, u, m, n]
@contract("validate_data", setup=data_setup)
def _(S, P, q, A, l, u, m, n):
    """0 exactly for well formed data"""
    if S.null(P) or S.null(A) or S.null(q): return S.ret(1)
    if S.branch(Or(n <= 0, m < 0)): return S.ret(1)
    if S.branch(Or(Not(Eq(S.get(P, "m"), n)), Not(Eq(S.get(P, "n"), n)))): return S.ret(1)
    Q = M_(S, P)
    if S.branch(Exists(0, Q.nnz, lambda t: Q.i(t) > Q.col(t))): return S.ret(1)
    if S.branch(Or(Not(Eq(S.get(A, "m"), m)), Not(Eq(S.get(A, "n"), n)))): return S.ret(1)
    fl, fu = S.arr(l, m, "l"), S.arr(u, m, "u")
    S.ret(as_int(Exists(0, m, lambda j: fl(j) > fu(j))))

@contract("validate_linsys_solver", setup=lambda B: [B.int("linsys_solver", -1, 4)])
def _(S, k): S.ret(as_int(And(Not(Eq(k, DIRECT)), Not(Eq(k, INDIRECT)))))

def in_range(g, setup):
    """the documented range of every field; setup-only fields are not looked at on an update"""
    flag = lambda f: Or(Eq(g(f), 0), Eq(g(f), 1))
    c = [flag("verbose"), And(g("profiler_level") >= 0, g("profiler_level") <= 2), flag("warm_starting"), flag("polishing"), g("alpha") > 0, g("alpha") < 2,
         g("cg_max_iter") > 0, g("cg_tol_reduction") > 0, g("cg_tol_fraction") > 0, g("cg_tol_fraction") < 1, g("max_iter") > 0, g("eps_abs") >= 0, g("eps_rel") >= 0,
         Or(g("eps_abs") > 0, g("eps_rel") > 0), g("eps_prim_inf") > 0, g("eps_dual_inf") > 0, flag("scaled_termination"), g("check_termination") >= 0, flag("check_dualgap"),
         g("time_limit") > 0, g("delta") > 0, g("polish_refine_iter") >= 0]
    s = [Or(Eq(g("linsys_solver"), DIRECT), Eq(g("linsys_solver"), INDIRECT)), flag("allocate_solution"), g("scaling") >= 0, g("rho") > 0, flag("rho_is_vec"), g("sigma") > 0,
         g("adaptive_rho") >= 0, g("adaptive_rho") <= 3, g("adaptive_rho_interval") >= 0, g("adaptive_rho_fraction") > 0, g("adaptive_rho_tolerance") >= 1]
    return And(And(*c), Or(Not(setup), And(*s)))
def settings_setup(B):
    if B.pick(2, "missing"): return [NULL, B.int("from_setup", 0, 1)]
    st = settings(B, valid=B.mode == "concrete" and B.rng.random() < 0.97)
    if B.mode == "concrete" and B.rng.random() < 0.8:
        d = B.st.mem[st.rid]
        for _ in range(B.rng.choice([1, 1, 2])):
            f = B.rng.choice([x for x in d if not isinstance(d[x], Ptr)])
            d[f] = B.rng.choice([-1, 0, 1, 2, 3, 4]) if isinstance(d[f], int) else B.rng.choice([0.0, -1.0, 1.0, 2.0, 1e-3, 0.5, 1.5])
    return [st, B.int("from_setup", 0, 1)]
@contract("validate_settings", setup=settings_setup)
def _(S, st, fs):
    if S.null(st): return S.ret(1)
    S.ret(as_int(Not(in_range(lambda f: S.get(st, f), Not(Eq(fs, 0))))))
