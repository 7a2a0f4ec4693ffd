"""Contracts of src/auxil.c."""
from .solver import *
from .util import toc, tic
def sv(*vary, extra=None, **kw):
    def setup(B):
        o = solver(B, vary, **kw)
        return [o.p] + (extra(B, o) if extra else [])
    return setup
ALL = ("m0", "rv", "sc")

# ------------------------------------------------------------------ step size
def rho_estimate(w):
    prim = lambda *f: [MaxAbs(0, w.m, w.vec(x)) for x in f]
    z, Ax = prim("z", "Ax")
    q, Aty, Px = [MaxAbs(0, w.n, w.vec(x)) for x in ("q", "Aty", "Px")]
    pr = Div(w.w("scaled_prim_res"), Max(z, Ax) + R(DIVTOL))
    dr = Div(w.w("scaled_dual_res"), Max(Max(q, Aty), Px) + R(DIVTOL))
    return clamp(w.opt("rho") * Sqrt(Div(pr, dr)))
def clamp(r): return Min(Max(r, R(RHO_MIN)), R(RHO_MAX))
@contract("compute_rho_estimate", setup=sv("m0"))
def _(S, s): S.ret(rho_estimate(W(S, s)))
def rho_types(w):
    l, u = w.vec("l"), w.vec("u")
    return lambda i: If(And(l(i) < R(-BIG), u(i) > R(BIG)), -1, If(u(i) - l(i) < R(RHO_TOL), 1, 0))
def rho_of(ty, rho): return lambda i: If(Eq(ty(i), 0), rho, If(ty(i) > 0, R(RHO_EQ) * rho, R(RHO_MIN)))
def set_rho(S, w):
    """clamped base value, constraint types, per-constraint values and reciprocals; returns 'some type changed'"""
    rho = clamp(w.opt("rho")); S.set(w.settings, "rho", rho)
    ty = rho_types(w); old = w.vec("constr_type")
    changed = Exists(0, w.m, lambda i: Not(Eq(ty(i), old(i))))
    w.setv("constr_type", ty)
    rv = rho_of(ty, rho)
    w.vec("rho_vec"); w.vec("rho_inv_vec")
    w.setv("rho_vec", rv)
    w.setv("rho_inv_vec", lambda i: Div(R(1), rv(i)))
    return changed
@contract("set_rho_vec", setup=sv("m0", rho_clamped=False))
def _(S, s): S.ret(as_int(set_rho(S, W(S, s))))
@contract("update_rho_vec", setup=sv("m0"))
def _(S, s):
    w = W(S, s)
    if S.branch(set_rho(S, w)):
        return S.ret(ls_update_rho_vec(S, w.w("linsys_solver"), w.w("rho_vec"), w.opt("rho")))
    S.ret(0)
@contract("adapt_rho", setup=sv("m0", "rv"))
def _(S, s):
    """the step size changes only if the clamped residual-ratio estimate differs by more than the tolerance factor"""
    w = W(S, s)
    r = rho_estimate(w); w.setinfo("rho_estimate", r)
    rho, tol = w.opt("rho"), w.opt("adaptive_rho_tolerance")
    if S.branch(Or(r > rho * tol, r < Div(rho, tol))):
        ret = S.call("osqp_update_rho", s, r)
        w.setinfo("rho_updates", w.i("rho_updates") + 1)
        w.setw("rho_updated", 1)
        return S.ret(ret)
    S.ret(0)

# ------------------------------------------------------------------ ADMM step
@contract("swap_vectors", setup=lambda B: [B.cell("a", ("ptr", ("struct", "OSQPVectorf")), B.vecf("x", B.dim("n"))), B.cell("b", ("ptr", ("struct", "OSQPVectorf")), B.vecf("y", B.dim("n")))])
def _(S, a, b):
    x, y = S.deref(a), S.deref(b)
    S.assign(a, y); S.assign(b, x)
def rhs(S, w):
    xp, q, zp, y = w.vec("x_prev"), w.vec("q"), w.vec("z_prev"), w.vec("y")
    sg = w.opt("sigma")
    if w.rho_vec():
        ri = w.vec("rho_inv_vec"); zz = lambda i: zp(i) - ri(i) * y(i)
    else:
        r = w.w("rho_inv"); zz = lambda i: zp(i) - r * y(i)
    w.setv("xtilde_view", lambda i: sg * xp(i) - q(i))
    w.setv("ztilde_view", zz)
@contract("compute_rhs", setup=sv("m0", "rv"))
def _(S, s): rhs(S, W(S, s))
@contract("update_xz_tilde", setup=sv("m0", "rv", extra=lambda B, o: [B.int("admm_iter", 0)]))
def _(S, s, it):
    w = W(S, s); rhs(S, w)
    ls_solve(S, w.w("linsys_solver"), w.w("xz_tilde"), it)
@contract("update_x", setup=sv("m0"))
def _(S, s):
    w = W(S, s); a = w.opt("alpha"); xt, xp = w.vec("xtilde_view"), w.vec("x_prev")
    x = lambda i: a * xt(i) + (1 - a) * xp(i)
    w.vec("x"); w.vec("delta_x")
    w.setv("x", x); w.setv("delta_x", lambda i: x(i) - xp(i))
def ri_of(w):
    if w.rho_vec():
        f = w.vec("rho_inv_vec"); return lambda i: f(i)
    r = w.w("rho_inv"); return lambda i: r
@contract("update_z", setup=sv("m0", "rv"))
def _(S, s):
    w = W(S, s); a = w.opt("alpha"); zt, zp, y, l, u = (w.vec(f) for f in ("ztilde_view", "z_prev", "y", "l", "u"))
    ri = ri_of(w)
    w.vec("z")
    w.setv("z", lambda i: Min(Max(a * zt(i) + (1 - a) * zp(i) + ri(i) * y(i), l(i)), u(i)))
@contract("update_y", setup=sv("m0", "rv"))
def _(S, s):
    w = W(S, s); a = w.opt("alpha"); zt, zp, y, z = (w.vec(f) for f in ("ztilde_view", "z_prev", "y", "z"))
    if w.rho_vec(): rv = w.vec("rho_vec")
    else:
        r = w.opt("rho"); rv = lambda i: r
    d = lambda i: rv(i) * (a * zt(i) + (1 - a) * zp(i) - z(i))
    w.vec("delta_y")
    w.setv("delta_y", d); w.setv("y", lambda i: y(i) + d(i))

# ------------------------------------------------------------------ residuals, objectives, gap
def prim_res(S, w, x, z):
    """max-norm of A x - z (of Einv (A x - z) when reported in the caller's units); A x is kept"""
    S.call("OSQPMatrix_Axpy", w.ptr("A"), x, w.ptr("Ax"), R(1), R(0))
    Ax = w.vec("Ax"); zf = S.vec(z)[1]
    S.require(eqt(S.get(z, "length"), w.m), "length of z")
    w.scratch("z_prev")
    d = lambda i: Ax(i) - zf(i)
    sr = MaxAbs(0, w.m, d); w.setw("scaled_prim_res", sr)
    if w.unscaling():
        e = w.vec("Einv"); return MaxAbs(0, w.m, lambda i: e(i) * d(i))
    return sr
def dual_res(S, w, x, y):
    """max-norm of q + P x + A'y; P x and A'y are kept"""
    S.call("OSQPMatrix_Axpy", w.ptr("P"), x, w.ptr("Px"), R(1), R(0))
    q, Px = w.vec("q"), w.vec("Px")
    w.scratch("x_prev")
    if S.branch(Not(Eq(w.m, 0))):
        S.call("OSQPMatrix_Atxpy", w.ptr("A"), y, w.ptr("Aty"), R(1), R(0))
        Aty = w.vec("Aty"); d = lambda i: q(i) + Px(i) + Aty(i)
    else: d = lambda i: q(i) + Px(i)
    sr = MaxAbs(0, w.n, d); w.setw("scaled_dual_res", sr)
    if w.unscaling():
        f = w.vec("Dinv"); return w.sca("cinv") * MaxAbs(0, w.n, lambda i: f(i) * d(i))
    return sr
@contract("compute_prim_res", setup=sv("sc", extra=lambda B, o: [B.st.mem[o.work.rid]["x"], B.st.mem[o.work.rid]["z"]] if B.pick(2, "pol") == 0 else [B.st.mem[o.pol.rid]["x"], B.st.mem[o.pol.rid]["z"]]))
def _(S, s, x, z): S.ret(prim_res(S, W(S, s), x, z))
@contract("compute_dual_res", setup=sv("m0", "sc", extra=lambda B, o: [B.st.mem[o.work.rid]["x"], B.st.mem[o.work.rid]["y"]] if B.pick(2, "pol") == 0 else [B.st.mem[o.pol.rid]["x"], B.st.mem[o.pol.rid]["y"]]))
def _(S, s, x, y): S.ret(dual_res(S, W(S, s), x, y))
def support(S, w, y, l, u):
    """support function of the bounds at y, after projecting y onto the polar of their recession cone and dropping noise"""
    p = lambda i: If(u(i) > R(BIG), If(l(i) < R(-BIG), R(0), Min(y(i), R(0))), If(l(i) < R(-BIG), Max(y(i), R(0)), y(i)))
    q = lambda i: If(Abs(p(i)) < R(ZERO_DEADZONE), R(0), p(i))
    return Sum(0, w.m, lambda i: u(i) * Max(q(i), R(0))) + Sum(0, w.m, lambda i: l(i) * Min(q(i), R(0)))
def objectives(S, w, x, y):
    """(primal objective, dual objective, duality gap); the terms are kept for the tolerances"""
    Px, q = w.vec("Px"), w.vec("q"); xf = S.vec(x)[1]; yf = S.vec(y)[1]; l, u = w.vec("l"), w.vec("u")
    S.require(And(eqt(S.get(x, "length"), w.n), eqt(S.get(y, "length"), w.m)), "lengths")
    quad = Sum(0, w.n, lambda i: Px(i) * xf(i)); lin = Sum(0, w.n, lambda i: q(i) * xf(i)); sup = support(S, w, yf, l, u)
    w.scratch("z_prev")
    gap = quad + lin + sup
    w.setw("scaled_dual_gap", gap); w.setw("xtPx", quad); w.setw("qtx", lin); w.setw("SC", sup)
    po, do = R(0.5) * quad + lin, R(-0.5) * quad - sup
    if w.scaled():
        c = w.sca("cinv"); return c * po, c * do, c * gap
    return po, do, gap
def obj_setup(B):
    o = solver(B, ("m0", "sc"))
    pol = B.pick(2, "pol")
    base, xy = (o.pol, o.pol) if pol else (o.info, o.work)
    m = B.st.mem[xy.rid]
    if pol: cells = [Ptr(o.pol.rid, 0, f) for f in ("obj_val", "dual_obj_val", "duality_gap")]
    else: cells = [Ptr(o.info.rid, 0, f) for f in ("obj_val", "dual_obj_val", "duality_gap")]
    return [o.p, m["x"], m["y"]] + cells
@contract("compute_obj_val_dual_gap", setup=obj_setup)
def _(S, s, x, y, a, b, c):
    po, do, gap = objectives(S, W(S, s), x, y)
    S.assign(a, po); S.assign(b, do); S.assign(c, gap)
@contract("update_info", setup=sv("m0", "sc", extra=lambda B, o: [B.int("iter", 0), B.pick(2, "polishing")]))
def _(S, s, it, polishing):
    """residuals, objectives and gap of the current (or polished) iterate"""
    w = W(S, s); pol = S.branch(Not(Eq(polishing, 0)))
    T_ = S.get(w.work, "pol") if pol else w.info
    xyz = T_ if pol else w.work
    x, y, z = (S.get(xyz, f) for f in "xyz")
    if not pol: w.setinfo("iter", it)
    pr = R(0) if S.branch(Eq(w.m, 0)) else prim_res(S, w, x, z)
    S.set(T_, "prim_res", pr)
    dr = dual_res(S, w, x, y); S.set(T_, "dual_res", dr)
    po, do, gap = objectives(S, w, x, y)
    for f, v in (("obj_val", po), ("dual_obj_val", do), ("duality_gap", gap)): S.set(T_, f, v)
    if not pol: w.setinfo("primdual_int", w.i("primdual_int") + Abs(gap))
    w.setinfo("polish_time" if pol else "solve_time", toc_(S, w))
    w.setinfo("rel_kkt_error", Max(Max(dr, pr), gap))
    w.setw("summary_printed", 0)
def toc_(S, w): return toc(S, w.w("timer"))

# ------------------------------------------------------------------ termination
@contract("compute_duality_gap_tol", setup=sv("sc", extra=lambda B, o: [B.real("ea"), B.real("er")]))
def _(S, s, ea, er): S.ret(tol_gap(S, W(S, s), ea, er))
def tol_gap(S, w, ea, er):
    m = Max(Max(Abs(w.w("xtPx")), Abs(w.w("qtx"))), Abs(w.w("SC")))
    return ea + er * (w.sca("cinv") * m if w.unscaling() else m)
@contract("compute_prim_tol", setup=sv("m0", "sc", extra=lambda B, o: [B.real("ea"), B.real("er")]))
def _(S, s, ea, er): S.ret(tol_prim(S, W(S, s), ea, er))
def tol_prim(S, w, ea, er):
    z, Ax = w.vec("z"), w.vec("Ax")
    e = w.vec("Einv") if w.unscaling() else None
    nrm = lambda f: MaxAbs(0, w.m, f if e is None else (lambda i: e(i) * f(i)))
    return ea + er * Max(nrm(z), nrm(Ax))
@contract("compute_dual_tol", setup=sv("m0", "sc", extra=lambda B, o: [B.real("ea"), B.real("er")]))
def _(S, s, ea, er): S.ret(tol_dual(S, W(S, s), ea, er))
def tol_dual(S, w, ea, er):
    q, Aty, Px = w.vec("q"), w.vec("Aty"), w.vec("Px")
    un = w.unscaling()
    e = w.vec("Dinv") if un else None
    nrm = lambda f: MaxAbs(0, w.n, f if e is None else (lambda i: e(i) * f(i)))
    m = Max(Max(nrm(q), nrm(Aty)), nrm(Px))
    return ea + er * (m * w.sca("cinv") if un else m)
def prim_inf(S, w, eps):
    """certificate y = delta_y projected onto the polar recession cone: u'max(y,0)+l'min(y,0) < 0 and |A'y| < eps |y|"""
    dy, l, u = w.vec("delta_y"), w.vec("l"), w.vec("u")
    p = lambda i: If(u(i) > R(BIG), If(l(i) < R(-BIG), R(0), Min(dy(i), R(0))), If(l(i) < R(-BIG), Max(dy(i), R(0)), dy(i)))
    w.setv("delta_y", p)
    un = w.unscaling()
    if un: e = w.vec("E"); nrm = MaxAbs(0, w.m, lambda i: e(i) * p(i))
    else: nrm = MaxAbs(0, w.m, p)
    w.scratch("Adelta_x", "Atdelta_y")
    if not S.branch(nrm > R(DIVTOL)): return False
    lhs = Sum(0, w.m, lambda i: u(i) * Max(p(i), R(0))) + Sum(0, w.m, lambda i: l(i) * Min(p(i), R(0)))
    if not S.branch(lhs < 0): return False
    tmp = product(S, w, "A", True, "delta_y", "Atdelta_y")
    if un:
        di = w.vec("Dinv"); r = MaxAbs(0, w.n, lambda i: tmp(i) * di(i))
    else: r = MaxAbs(0, w.n, tmp)
    return r < eps * nrm
def product(S, w, M, trans, x, y):
    """M x or M'x (computed into the scratch vector y)"""
    S.call("OSQPMatrix_Atxpy" if trans else "OSQPMatrix_Axpy", w.ptr(M), w.ptr(x), w.ptr(y), R(1), R(0))
    f = w.vec(y)
    w.scratch(y)
    return f
@contract("is_primal_infeasible", setup=sv("m0", "sc", extra=lambda B, o: [B.real("eps", 0, 2)]))
def _(S, s, eps): S.ret(as_int(prim_inf(S, W(S, s), eps)))
def dual_inf(S, w, eps):
    """certificate x = delta_x: q'x < 0, |P x| < eps |x| and A x within eps |x| of the recession cone of the bounds"""
    dx, q, l, u = w.vec("delta_x"), w.vec("q"), w.vec("l"), w.vec("u")
    un = w.unscaling()
    if un:
        D = w.vec("D"); nrm = MaxAbs(0, w.n, lambda i: D(i) * dx(i)); c = w.sca("c")
    else: nrm = MaxAbs(0, w.n, dx); c = R(1)
    w.scratch("Adelta_x", "Pdelta_x")
    if not S.branch(nrm > R(DIVTOL)): return False
    if not S.branch(Sum(0, w.n, lambda i: q(i) * dx(i)) < 0): return False
    Px = product(S, w, "P", False, "delta_x", "Pdelta_x")
    if un:
        di = w.vec("Dinv"); r = MaxAbs(0, w.n, lambda i: Px(i) * di(i))
    else: r = MaxAbs(0, w.n, Px)
    if not S.branch(r < c * eps * nrm): return False
    Ax = product(S, w, "A", False, "delta_x", "Adelta_x")
    if un:
        ei = w.vec("Einv"); v = lambda i: Ax(i) * ei(i)
    else: v = Ax
    return Forall(0, w.m, lambda i: And(Or(u(i) >= R(BIG), v(i) <= eps * nrm), Or(l(i) <= R(-BIG), v(i) >= -(eps * nrm))))
@contract("is_dual_infeasible", setup=sv("m0", "sc", extra=lambda B, o: [B.real("eps", 0, 2)]))
def _(S, s, eps): S.ret(as_int(dual_inf(S, W(S, s), eps)))
@contract("update_status", setup=lambda B: [info(B), B.pick(11, "status") + 1], opts={"maxvariants": 64})
def _(S, inf, st):
    """status code and its text"""
    if not isz(st):
        if not 1 <= st <= 11: S.dead("status code")
        set_status(S, inf, [k for k, v in STATUS.items() if v[0] == st][0]); return
    for k, (c, t) in STATUS.items():
        if S.branch(Eq(st, c)): set_status(S, inf, k); return
    S.dead("status code")
@contract("check_termination", setup=sv("m0", "sc", extra=lambda B, o: [B.pick(2, "approximate")]), opts={"split": True})
def _(S, s, approx):
    w = W(S, s)
    st = lambda k: set_status(S, w.info, "OSQP_" + k + ("_INACCURATE" if ap else ""))
    if S.branch(Or(w.i("prim_res") > R(INFTY), w.i("dual_res") > R(INFTY))):
        set_status(S, w.info, "OSQP_NON_CVX"); w.setinfo("obj_val", R(NAN)); return S.ret(1)
    ap = S.branch(Not(Eq(approx, 0)))
    k = 10 if ap else 1
    ea, er, ep, ed = (w.opt(f) * k for f in ("eps_abs", "eps_rel", "eps_prim_inf", "eps_dual_inf"))
    pinf = dinf = False
    if S.branch(Eq(w.m, 0)): pok = True
    else:
        pok = S.branch(w.i("prim_res") < tol_prim(S, w, ea, er))
        if not pok: pinf = S.branch(prim_inf(S, w, ep))
    dok = S.branch(w.i("dual_res") < tol_dual(S, w, ea, er))
    if not dok: dinf = S.branch(dual_inf(S, w, ed))
    gok = True
    if pok and dok and S.branch(Not(Eq(w.opt("check_dualgap"), 0))):
        t = tol_gap(S, w, ea, er)
        gok = S.branch(Abs(w.i("duality_gap") if w.unscaling() else w.w("scaled_dual_gap")) < t)
    if pok and dok and gok: st("SOLVED"); return S.ret(1)
    if pinf:
        st("PRIMAL_INFEASIBLE"); w.setinfo("obj_val", R(INFTY))
        if w.unscaling():
            y, e = w.vec("delta_y"), w.vec("E"); w.setv("delta_y", lambda i: y(i) * e(i))
        return S.ret(1)
    if dinf:
        st("DUAL_INFEASIBLE"); w.setinfo("obj_val", R(-INFTY))
        if w.unscaling():
            x, d = w.vec("delta_x"), w.vec("D"); w.setv("delta_x", lambda i: x(i) * d(i))
        return S.ret(1)
    S.ret(0)

def solved_test(S, w, k):
    """residuals and gap (as recorded) within the tolerances, relaxed by the factor k"""
    ea, er = w.opt("eps_abs") * k, w.opt("eps_rel") * k
    pok = True if S.branch(Eq(w.m, 0)) else w.i("prim_res") < tol_prim(S, w, ea, er)
    dok = w.i("dual_res") < tol_dual(S, w, ea, er)
    gok = Or(Eq(w.opt("check_dualgap"), 0), Abs(w.i("duality_gap") if w.unscaling() else w.w("scaled_dual_gap")) < tol_gap(S, w, ea, er))
    return pok, dok, gok
def diverged(w): return Or(w.i("prim_res") > R(INFTY), w.i("dual_res") > R(INFTY))

# ------------------------------------------------------------------ results
NOSOL = (PINF, PINF_INACC, DINF, DINF_INACC, NONCVX)
def carries(S, inf):
    v = S.get(inf, "status_val")
    return And(*[Not(Eq(v, c)) for c in NOSOL])
@contract("has_solution", setup=lambda B: [info(B)])
def _(S, inf): S.ret(as_int(carries(S, inf)))
@contract("reset_info", setup=lambda B: [info(B)])
def _(S, inf):
    for f in ("solve_time", "polish_time"): S.set(inf, f, R(0))
    S.set(inf, "rho_updates", 0)
    set_status(S, inf, "OSQP_UNSOLVED")
@contract("store_solution", setup=lambda B: store_setup(B))
def _(S, s, sol): store(S, s, sol)
def store_setup(B):
    o = solver(B, ("m0", "sc"))
    if B.pick(2, "given") == 0: return [o.p, NULL]
    return [o.p, solution(B, o.n, o.m, o.m0)]
def store(S, s, sol):
    w = W(S, s)
    if S.null(sol): return
    X, Y, CP, CD = (S.get(sol, f) for f in ("x", "y", "prim_inf_cert", "dual_inf_cert"))
    bad = lambda i: R(NAN)
    if S.branch(carries(S, w.info)):
        x, y = w.vec("x"), w.vec("y")
        if w.scaled():
            D, E, c = w.vec("D"), w.vec("E"), w.sca("cinv")
            w.scratch("x_prev", "z_prev")
            S.wr(X, w.n, lambda i: D(i) * x(i)); S.wr(Y, w.m, lambda i: E(i) * y(i) * c)
        else: S.wr(X, w.n, x); S.wr(Y, w.m, y)
        w.scratch("delta_x", "delta_y")
        S.wr(CP, w.m, bad); S.wr(CD, w.n, bad)
        return
    S.wr(X, w.n, bad); S.wr(Y, w.m, bad)
    v = S.get(w.info, "status_val")
    pi, di = S.branch(Or(Eq(v, PINF), Eq(v, PINF_INACC))), S.branch(Or(Eq(v, DINF), Eq(v, DINF_INACC)))
    dy, dx = w.vec("delta_y"), w.vec("delta_x")
    S.call("osqp_cold_start", s)
    w.scratch("delta_x", "delta_y")
    if pi:
        nm = MaxAbs(0, w.m, dy)
        S.wr(CP, w.m, lambda i: dy(i) * Div(R(1), nm)); S.wr(CD, w.n, bad)
    elif di:
        nm = MaxAbs(0, w.n, dx)
        S.wr(CD, w.n, lambda i: dx(i) * Div(R(1), nm)); S.wr(CP, w.m, bad)
    else:
        S.wr(CP, w.m, bad); S.wr(CD, w.n, bad)
