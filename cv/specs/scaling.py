"""Contracts of src/scaling.c."""
from .solver import *
from .csc import M_

@contract("limit_scaling_scalar", setup=lambda B: [B.real("v")])
def _(S, v): S.ret(limit(v))
def limit(v): return If(v < R(MIN_SCALING), R(1), Min(v, R(MAX_SCALING)))
@contract("limit_scaling_vector", setup=lambda B: [B.vecf("v", B.dim("n"))])
def _(S, v):
    n, f = S.vec(v); S.setvec(v, lambda i: limit(f(i)))
def norms_setup(B):
    n, m = B.dim("n"), B.dim("m")
    return [B.mat("P", n, n, triu=True), B.mat("A", m, n), B.vecf("D", n), B.vecf("DA", n), B.vecf("E", m)]
@contract("compute_inf_norm_cols_KKT", setup=norms_setup)
def _(S, P, A, D, DA, E):
    """max-norms of the columns of [P A'; A 0]"""
    S.call("OSQPMatrix_col_norm_inf", P, D); S.call("OSQPMatrix_col_norm_inf", A, DA)
    a, b = S.vec(D)[1], S.vec(DA)[1]
    S.setvec(D, lambda i: Max(a(i), b(i)))
    S.call("OSQPMatrix_row_norm_inf", A, E)

def scale_setup(B):
    o = solver(B, ("m0",))
    return [o.p]
def open_scaling(S, w, found=None):
    """new positive factors, not determined further by the contract; inverses are exact.  found: the factors the code chose, for
    objects the code under verification has just created"""
    sc = S.get(w.work, "scaling")
    c = S.havoc(sc, "c") if found is None else found(None)
    if found is not None: S.set(sc, "c", c)
    out = {}
    for f, k in (("D", w.n), ("E", w.m)):
        v = w.ptr(f); w.vec(f); vi = f + "inv"; w.vec(vi)
        if v is None or S.null(S.get(v, "values")):
            out[f] = lambda i: R(1); continue
        if found is not None: out[f] = found(f); w.setv(f, out[f]); continue
        out[f] = S.adopt(S.get(v, "values"))
    if c is None: return None
    S.ensure(c > 0, "cost factor positive")
    for f, k in (("D", w.n), ("E", w.m)):
        g = out[f]
        if not concrete() or S.actual is not None: S.ensure(Forall(0, k, lambda i, g=g: g(i) > 0), "factors %s positive" % f)
        w.setv(f + "inv", lambda i, g=g: Div(R(1), g(i)))
    S.set(sc, "cinv", Div(R(1), c))
    return c, out["D"], out["E"]
def apply_scaling(S, w, c, D, E):
    """P <- c D P D, q <- c D q, A <- E A D, l <- E l, u <- E u"""
    P, A = M_(S, S.get(w.ptr("P"), "csc")), M_(S, S.get(w.ptr("A"), "csc"))
    px, ax = P.x, A.x
    P.setx(lambda t: c * (D(P.i(t)) * px(t) * D(P.col(t))))
    A.setx(lambda t: E(A.i(t)) * ax(t) * D(A.col(t)))
    q, l, u = w.vec("q"), w.vec("l"), w.vec("u")
    w.setv("q", lambda i: c * (D(i) * q(i)))
    w.setv("l", lambda i: l(i) * E(i)); w.setv("u", lambda i: u(i) * E(i))
def scale(S, w, found=None):
    w.scratch("D_temp", "D_temp_A", "E_temp")
    o = open_scaling(S, w, found)
    if o is None: return
    apply_scaling(S, w, *o)
def scale_inv(L):
    """loop invariant of the equilibration: the stored problem is the original one under the accumulated factors"""
    S, E = L.S, L.E
    w = W(S, L.args[0]); sc = S.get(w.work, "scaling")
    D, Ef, c = w.vec("D"), w.vec("E"), S.get(sc, "c")
    L.inv(c > 0, "cost factor positive")
    L.forall(w.n, lambda i: D(i) > 0, "D positive"); L.forall(w.m, lambda i: Ef(i) > 0, "E positive")
    P, A = M_(S, S.get(w.ptr("P"), "csc"), well=False), M_(S, S.get(w.ptr("A"), "csc"), well=False)
    px, ax, q0 = E.arr(P.X), E.arr(A.X), E.arr(S.get(w.ptr("q"), "values"))
    L.array(P.X, P.nnz, lambda t: c * (D(P.i(t)) * px(t) * D(P.col(t))), "P is c D P0 D")
    L.array(A.X, A.nnz, lambda t: Ef(A.i(t)) * ax(t) * D(A.col(t)), "A is E A0 D")
    L.array(S.get(w.ptr("q"), "values"), w.n, lambda i: c * (D(i) * q0(i)), "q is c D q0")
@contract("scale_data", setup=scale_setup, opts={"inv": scale_inv})
def _(S, s): scale(S, W(S, s)); S.ret(0)
def unscale(S, w):
    ci, Di, Ei = w.sca("cinv"), w.vec("Dinv"), w.vec("Einv")
    P, A = M_(S, S.get(w.ptr("P"), "csc")), M_(S, S.get(w.ptr("A"), "csc"))
    px, ax = P.x, A.x
    P.setx(lambda t: ci * (Di(P.i(t)) * px(t) * Di(P.col(t))))
    A.setx(lambda t: Ei(A.i(t)) * ax(t) * Di(A.col(t)))
    q, l, u = w.vec("q"), w.vec("l"), w.vec("u")
    w.setv("q", lambda i: ci * (Di(i) * q(i)))
    w.setv("l", lambda i: l(i) * Ei(i)); w.setv("u", lambda i: u(i) * Ei(i))
@contract("unscale_data", setup=scale_setup)
def _(S, s): unscale(S, W(S, s)); S.ret(0)
def unsol_setup(B):
    o = solver(B, ("m0",)); m = B.st.mem[o.work.rid]; p = B.st.mem[o.pol.rid]
    if B.pick(2, "inplace"): return [m["x"], m["y"], m["x"], m["y"], o.work]
    return [m["x_prev"], m["z_prev"], m["x"], m["y"], o.work]
@contract("unscale_solution", setup=unsol_setup)
def _(S, ux, uy, x, y, work):
    sc = S.get(work, "scaling"); D, E = S.vec(S.get(sc, "D"))[1], S.vec(S.get(sc, "E"))[1]
    n, xf = S.vec(x); m, yf = S.vec(y)
    S.require(And(eqt(S.get(ux, "length"), n), eqt(S.get(uy, "length"), m), eqt(S.get(S.get(sc, "D"), "length"), n), eqt(S.get(S.get(sc, "E"), "length"), m)), "lengths")
    c = S.get(sc, "cinv")
    S.setvec(ux, lambda i: xf(i) * D(i)); S.setvec(uy, lambda i: c * (yf(i) * E(i)))
    S.ret(0)
