"""Contracts of src/polish.c."""
from .solver import *
from .matrix import Mat
from .util import tic
from .auxil import toc_
POL_SUCCESS, POL_FAILED, POL_LINSYS, POL_NONE = 1, -1, -2, 2

def flag_of(w):
    """guessed activity: -1 at the lower bound (or equality), +1 at the upper bound, 0 free"""
    z, y, l, u = (w.vec(f) for f in ("z", "y", "l", "u"))
    return lambda i: If(Or(z(i) - l(i) < -y(i), Eq(l(i), u(i))), -1, If(u(i) - z(i) < y(i), 1, 0))
def count(f): return lambda j: Fold(0, j, 0, lambda k, a: a + If(Not(Eq(f(k), 0)), 1, 0))
def pvec(S, w, f, n, what):
    v = S.get(w.work, "pol", f)
    S.require(eqt(S.get(v, "length"), n), "length of polished " + what)
    return v
is_mem = lambda r, v: Eq(r, 5) if not isz(r) else z3.simplify(r == 5)
MEM = ERR["MEM"]
def work_setup(extra=None, **kw):
    def setup(B):
        o = solver(B, ("m0",), **kw)
        return [o.work] + (extra(B, o) if extra else [])
    return setup
class WW(W):
    """the same view from the workspace alone"""
    def __init__(self, S, work):
        self.S, self.work = S, work
        self.data = S.get(work, "data"); self.n, self.m = S.get(self.data, "n"), S.get(self.data, "m")
@contract("form_Ared", setup=work_setup())
def _(S, work):
    """guesses the active constraints and selects their rows of A"""
    w = WW(S, work); pol = S.get(work, "pol")
    fl = flag_of(w); pvec(S, w, "active_flags", w.m, "activity")
    if S.fails(is_mem):
        S.havoc_arr(S.get(pol, "active_flags", "values"))
        S.set(pol, "n_active", ANY); S.set(pol, "Ared", ANY)
        return S.ret(MEM)
    fv = S.get(pol, "active_flags", "values")
    S.pin(fv, w.m, fl, "activity of the constraints")
    S.set(pol, "n_active", count(S.arr(fv, w.m))(w.m))
    S.assume(le(0, S.get(pol, "n_active")))        # a count
    nofail = S.ex.opts.get("nofail"); S.ex.opts["nofail"] = True
    try: A = submatrix(S, w.ptr("A"), S.get(pol, "active_flags"))
    finally: S.ex.opts["nofail"] = nofail
    S.set(pol, "Ared", A); S.ret(0)
def submatrix(S, A, rows):
    from .matrix import byrows
    M = Mat(S, A)
    return byrows(S, M, S.arr(S.get(rows, "values"), M.m, "row selection"))

def rhs_red_setup(B):
    o = solver(B, ("m0",))
    w = B.st.mem[o.work.rid]
    fl = B.st.mem[B.st.mem[B.st.mem[o.pol.rid]["active_flags"].rid]["values"].rid] if not o.m0 else None
    cnt = 0 if o.m0 else (count(fl.read)(lift(o.m)) if B.mode != "concrete" else sum(1 for i in range(o.m) if fl.read(i) != 0))
    if B.mode != "concrete": B.assume(cnt >= 0)
    return [o.work, B.vecf("rhs", addk(o.n, cnt))]
@contract("form_rhs_red", setup=rhs_red_setup)
def _(S, work, rhs):
    """(-q, bound of every active constraint in order)"""
    w = WW(S, work)
    q, l, u = w.vec("q"), w.vec("l"), w.vec("u")
    fl = S.arr(S.get(pvec(S, w, "active_flags", w.m, "activity"), "values"), w.m)
    rank = count(fl)
    S.require(eqt(S.get(rhs, "length"), addk(w.n, rank(w.m))), "length of the reduced right-hand side")
    old = S.vec(rhs)[1]
    if S.fails(is_mem): return S.ret(MEM)
    val = lambda j: If(Eq(fl(j), -1), l(j), u(j))
    S.setvec(rhs, lambda t: If(t < w.n, -q(t), Fold(0, w.m, R(0), lambda j, a: If(And(Not(Eq(fl(j), 0)), Eq(addk(w.n, rank(j)), t)), val(j), a))))
    S.ret(0)

def ypol_setup(B):
    o = solver(B, ("m0",))
    w = B.st.mem[o.work.rid]; p = B.st.mem[o.pol.rid]
    fl = B.st.mem[B.st.mem[p["active_flags"].rid]["values"].rid] if not o.m0 else None
    cnt = 0 if o.m0 else (count(fl.read)(lift(o.m)) if B.mode != "concrete" else sum(1 for i in range(o.m) if fl.read(i) != 0))
    p["n_active"] = cnt
    return [o.work, B.vecf("yred", cnt)]
@contract("get_ypol_from_yred", setup=ypol_setup)
def _(S, work, yred):
    """multipliers of the active constraints in place, zero elsewhere"""
    w = WW(S, work); pol = S.get(work, "pol")
    fl = S.arr(S.get(pvec(S, w, "active_flags", w.m, "activity"), "values"), w.m)
    rank = count(fl); na = S.get(pol, "n_active")
    n, f = S.vec(yred)
    S.require(And(eqt(n, na), eqt(na, rank(w.m))), "one multiplier per active constraint")
    y = pvec(S, w, "y", w.m, "y"); w.vec("y")
    if S.fails(is_mem): return S.ret(MEM)
    S.setvec(y, lambda j: If(Eq(fl(j), 0), R(0), f(rank(j))))
    S.ret(0)

# ------------------------------------------------------------------ iterative refinement
def tvec(S, n, fn=None):
    """temporary vector of the contract"""
    v = S.new("OSQPVectorf"); S.set(v, "length", n)
    S.set(v, "values", S.newarr("float", n, fn, name="temporary")); return v
def tview(S, v, h, n):
    p = S.new("OSQPVectorf"); S.set(p, "length", n)
    q = S.get(v, "values"); S.set(p, "values", q if q.rid is None else Ptr(q.rid, addk(q.off, h))); return p
def residual(S, P, Ar, z, b, n, k):
    """a new vector b - K z for K = [P Ared'; Ared 0]"""
    r = tvec(S, addk(n, k), S.vec(b)[1])
    r1, r2, z1, z2 = tview(S, r, 0, n), tview(S, r, n, k), tview(S, z, 0, n), tview(S, z, n, k)
    S.call("OSQPMatrix_Axpy", P, z1, r1, R(-1), R(1))
    S.call("OSQPMatrix_Atxpy", Ar, z2, r1, R(-1), R(1))
    S.call("OSQPMatrix_Axpy", Ar, z1, r2, R(-1), R(1))
    return r
def parts(S, s):
    w = S.get(s, "work")
    P, Ar = S.get(w, "data", "P"), S.get(w, "pol", "Ared")
    return P, Ar, S.get(w, "data", "n"), S.get(S.get(Ar, "csc"), "m")
def refine_inv(L):
    """one iteration: a single solve with the residual of the current point as right-hand side, whose result is added to the point"""
    N = L.E.get(L.E.get(L.args[0], "settings"), "polish_refine_iter")
    L.inv(le(L.count, N), "not more steps than requested")
    if L.how != "step": return
    H, S = L.H, L.S
    s, p, z, b = L.args
    P, Ar, n, k = parts(H, s)
    new = S.st.trace[len(H.st.trace):]
    if len(new) != 1 or new[0][0] != "ls_solve": return L.inv(False, "one solve per refinement step")
    nm, a, out = new[0]
    L.inv(a[0].rid == p.rid, "solve with the solver of the reduced system")
    zf, bf = H.vec(z)[1], H.vec(b)[1]
    from ..spec import S_
    C = S_(H.sp, L.ex, H.st.clone(), L.node, "view", [], [], None)
    r = residual(C, P, Ar, z, b, n, k)
    want = C.vec(r)[1]
    L.inv(eqt(a[1][2], addk(n, k)), "length of the right-hand side")
    L.forall(addk(n, k), lambda t: Eq(a[1][1](t), want(t)), "right-hand side is b - K z")
    got = S.vec(z)[1]
    L.forall(addk(n, k), lambda t: Eq(got(t), zf(t) + out[-1].read(t)), "z := z + correction")
    bf2 = S.vec(b)[1]
    L.forall(addk(n, k), lambda t: Eq(bf2(t), bf(t)), "b kept")
def refine_setup(B):
    o = solver(B, ())
    k = B.dim("k", 1)
    B.st.mem[o.pol.rid] = dict(B.st.mem[o.pol.rid], Ared=B.mat("Ared", k, o.n))
    w = B.st.mem[o.work.rid]
    if B.mode == "concrete": B.st.mem[o.settings.rid]["polish_refine_iter"] = B.int("refine", 0, 3)
    return [o.p, w["linsys_solver"], B.vecf("z", addk(o.n, k)), B.vecf("b", addk(o.n, k))]
@contract("iterative_refinement", setup=refine_setup, opts={"inv": refine_inv})
def _(S, s, p, z, b):
    """polish_refine_iter steps  z := z + solve(b - K z)"""
    P, Ar, n, k = parts(S, s)
    N = S.get(S.get(s, "settings"), "polish_refine_iter")
    for v in (z, b): S.require(eqt(S.get(v, "length"), addk(n, k)), "length of the unknown and right-hand side")
    MP, MA = Mat(S, P), Mat(S, Ar)
    S.require(And(eqt(MP.m, n), eqt(MP.n, n), eqt(MA.n, n)), "shapes of the reduced system")
    if not S.branch(lt(0, N)): return S.ret(0)
    if S.fails(is_mem): return S.ret(MEM)
    if S.mode == "verify" and S.ex.fname == "iterative_refinement":
        S.adopt(S.get(z, "values"))
        S.ensure(Eq(S.actual[0].env.get("g:loop_count", -1), N), "as many steps as requested")
        return S.ret(0)
    if concrete():
        for i in range(N):
            r = residual(S, P, Ar, z, b, n, k)
            ls_solve(S, p, r, 1)
            d, f = S.vec(r)[1], S.vec(z)[1]
            S.setvec(z, lambda i: f(i) + d(i))
        return S.ret(0)
    S.event("ls_refine", [p, snapv(S, z), snapv(S, b), N, snapm(S, P), snapm(S, Ar)], [("arr", S.get(z, "values"), S.get(z, "length"))])
    S.ret(0)

# ------------------------------------------------------------------ polish
@contract("polish", setup=lambda B: [solver(B, ("m0", "sc")).p], opts={"maxvariants": 200, "nosearch": 1})
def _(S, s):
    """solves the equality-constrained problem of the guessed active set; the result replaces the iterate only if it is better"""
    w = W(S, s); work = w.work; pol = S.get(work, "pol")
    tic(S, w.w("timer"))
    st = w.settings
    def fail(status, ret):
        w.setinfo("status_polish", status); S.set(pol, "Ared", ANY)
        for f in ("x", "z", "y", "active_flags"): S.havoc_arr(S.get(pol, f, "values"))
        S.set(pol, "n_active", ANY)
        if S.mode != "call": S.evpos = len(S.actual[0].trace) if S.actual else 0
        return S.ret(ret)
    fl = flag_of(w); pvec(S, w, "active_flags", w.m, "activity")
    for f, k in (("x", w.n), ("z", w.m), ("y", w.m)): pvec(S, w, f, k, f)
    # (the solver factory may also answer "out of memory": that is its own outcome, below)
    if S.fails(lambda r, v: And(is_mem(r, v), Eq(v.get(s, "info", "status_polish"), POL_FAILED))): return fail(POL_FAILED, MEM)
    na = count(fl)(w.m); S.assume(le(0, na))
    S.setvec(S.get(pol, "active_flags"), fl); S.set(pol, "n_active", na)
    if S.branch(Eq(na, 0)):
        w.setinfo("status_polish", POL_NONE); S.set(pol, "Ared", ANY); return S.ret(0)
    n, m = w.n, w.m
    Ar = submatrix(S, w.ptr("A"), S.get(pol, "active_flags"))
    r = ls_init(S, w.ptr("P"), Ar, NULL, st, NULL, NULL, 1)
    if S.branch(Not(Eq(r, 0))):
        # a solver object handed back with the error is released
        if S.mode != "call" and S.actual and S.evpos < len(S.actual[0].trace) and S.actual[0].trace[S.evpos][0] == "ls_free": S.evpos += 1
        w.setinfo("status_polish", POL_LINSYS); S.set(pol, "Ared", ANY)
        return S.ret(r)
    ls = ls_object(S)
    q, l, u = w.vec("q"), w.vec("l"), w.vec("u")
    rank = count(fl)
    b = tvec(S, addk(n, na), lambda t: If(t < n, -q(t), Fold(0, m, R(0), lambda j, a: If(And(Not(Eq(fl(j), 0)), Eq(addk(n, rank(j)), t)), If(Eq(fl(j), -1), l(j), u(j)), a))))
    z = tvec(S, addk(n, na), S.vec(b)[1])
    ls_warm_start(S, ls, w.ptr("x"))
    ls_solve(S, ls, z, 1)
    S.set(pol, "Ared", Ar)
    S.call("iterative_refinement", s, ls, z, b)
    zz = S.vec(z)[1]
    py, pz, px = (S.get(pol, f) for f in "yzx")
    S.setvec(px, zz)
    yp = lambda j: If(Eq(fl(j), 0), R(0), zz(addk(n, rank(j))))
    S.call("OSQPMatrix_Axpy", w.ptr("A"), px, pz, R(1), R(0))
    Ax = S.vec(pz)[1]
    pr = lambda j: Min(Max(yp(j) + Ax(j), l(j)), u(j))
    S.setvec(pz, pr); S.setvec(py, lambda j: yp(j) + Ax(j) - pr(j))
    S.call("update_info", s, 0, 1)
    P = lambda f: S.get(pol, f)
    pp, pd, ip, id_ = P("prim_res"), P("dual_res"), w.i("prim_res"), w.i("dual_res")
    tiny = R("1e-10")
    better = Or(And(pp < ip, pd < id_), And(pp < ip, id_ < tiny), And(pd < id_, ip < tiny))
    if S.branch(better):
        for f in ("obj_val", "dual_obj_val", "duality_gap", "prim_res", "dual_res"): w.setinfo(f, P(f))
        w.setinfo("status_polish", POL_SUCCESS)
        for f, v in (("x", px), ("z", pz), ("y", py)): w.setv(f, S.vec(v)[1])
    else: w.setinfo("status_polish", POL_FAILED)
    ls_free(S, ls)
    S.set(pol, "Ared", ANY)
    S.ret(0)

def weak_polish(S, s):
    """outcome only: unless success is reported the iterate, its residuals and objectives are exactly what they were"""
    w = W(S, s); pol = S.get(w.work, "pol")
    for f, k in (("active_flags", w.m), ("x", w.n), ("z", w.m), ("y", w.m)): pvec(S, w, f, k, f)
    OUT = ("obj_val", "dual_obj_val", "duality_gap", "prim_res", "dual_res")
    keep = {f: w.i(f) for f in OUT}; old = {f: w.vec(f) for f in "xzy"}
    S.havoc(w.info, "status_polish", POL_LINSYS, 2)
    ok = Eq(w.i("status_polish"), POL_SUCCESS)
    for f in OUT:
        v = S.havoc(w.info, f); S.ensure(Or(ok, Eq(v, keep[f])), f + " kept unless polishing succeeded")
    for f, k in (("x", w.n), ("z", w.m), ("y", w.m)):
        p = S.get(w.ptr(f), "values")
        if p.rid is None: continue
        if S.mode == "call": S.wr(p, k, lambda i, g=abase("polished", REAL).read, o=old[f]: If(ok, g(i), o(i)))
        else:
            g = S.adopt(p)
            S.ensure(Or(ok, Forall(0, k, lambda i: Eq(g(i), old[f](i)))), f + " kept unless polishing succeeded")
    S.ensure(Or(Not(ok), Or(w.i("prim_res") < keep["prim_res"], w.i("dual_res") < keep["dual_res"])), "success only where a residual improved")
    for f in ("polish_time", "rel_kkt_error"): S.havoc(w.info, f)
    for f in ("scaled_prim_res", "scaled_dual_res", "scaled_dual_gap", "xtPx", "qtx", "SC", "summary_printed"): S.havoc(w.work, f)
    for f in OUT + ("n_active",): S.havoc(pol, f)
    S.set(pol, "Ared", ANY)
    for f in ("x", "z", "y", "active_flags"): S.havoc_arr(S.get(pol, f, "values"))
    w.scratch("x_prev", "z_prev", "Ax", "Px", "Aty")
    if S.mode != "call": S.evpos = len(S.actual[0].trace) if S.actual else 0
    S.ret(S.result_int())
CONTRACTS["polish#weak"] = Spec("polish#weak", weak_polish, setup=CONTRACTS["polish"].setup, opts=dict(CONTRACTS["polish"].opts), nargs=1)
