"""The state of a set-up solver: pre-state builder and accessors shared by the contracts of src/*.c."""
from ..spec import contract, CONTRACTS, Spec
from ..terms import *
from ..heap import *
from .. import terms as T
from ..build import Builder, mono

INFTY = 1e30
MIN_SCALING, MAX_SCALING = 1e-4, 1e4
RHO_MIN, RHO_MAX, RHO_TOL, RHO_EQ = 1e-6, 1e6, 1e-4, 1e3
BIG = INFTY * MIN_SCALING                # "infinite" bound threshold
NAN = 2143289344.0                       # the library's invalid marker
DIVTOL = "1e-30"             # 1 / INFTY
ZERO_DEADZONE = 1e-15
STATUS = {"OSQP_SOLVED": (1, "solved"), "OSQP_SOLVED_INACCURATE": (2, "solved inaccurate"), "OSQP_PRIMAL_INFEASIBLE": (3, "primal infeasible"),
          "OSQP_PRIMAL_INFEASIBLE_INACCURATE": (4, "primal infeasible inaccurate"), "OSQP_DUAL_INFEASIBLE": (5, "dual infeasible"),
          "OSQP_DUAL_INFEASIBLE_INACCURATE": (6, "dual infeasible inaccurate"), "OSQP_MAX_ITER_REACHED": (7, "maximum iterations reached"),
          "OSQP_TIME_LIMIT_REACHED": (8, "run time limit reached"), "OSQP_NON_CVX": (9, "problem non convex"), "OSQP_SIGINT": (10, "interrupted"), "OSQP_UNSOLVED": (11, "unsolved")}
(SOLVED, SOLVED_INACC, PINF, PINF_INACC, DINF, DINF_INACC, MAXITER, TIMELIM, NONCVX, SIGINT, UNSOLVED) = range(1, 12)
ERR = {"DATA": 1, "SETTINGS": 2, "LINSYS": 3, "NONCVX": 4, "MEM": 5, "NOTINIT": 6, "ALGEBRA": 7, "FOPEN": 8, "DEFINES": 9, "DATANOT": 10, "NOTIMPL": 11}

# ------------------------------------------------------------------ texts
_codes = {}
def text_code(s):
    if s not in _codes: _codes[s] = len(_codes) + 1
    return _codes[s]
CHR = z3.Function("text_char", INT, INT, INT)
def text_arr(code): return lambda i: CHR(lift(code), lift(i))
def text_of(S, src):
    """(code, capacity needed) of a string constant or table entry"""
    reg = S.region(src)
    if reg.kind != "str": return None
    m = S.st.mem[src.rid]
    if isinstance(m, tuple):
        ent = table(S.ex.prog, m[1]); off = simp(m[2])
        if not isz(off):
            if not (0 <= off < len(ent)): S.dead("table index")
            return text_code(ent[off]), len(ent[off]) + 1
        c, n = z3.IntVal(0), z3.IntVal(0)
        for k, s in enumerate(ent): c = z3.If(off == k, z3.IntVal(text_code(s)), c); n = z3.If(off == k, z3.IntVal(len(s) + 1), n)
        return c, n
    s = unq(m)
    return text_code(s), len(s) + 1
def unq(s):
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"': s = s[1:-1]
    return s.encode().decode("unicode_escape") if "\\" in s else s
_tabs = {}
def table(prog, name):
    key = (id(prog), name)
    if key in _tabs: return _tabs[key]
    node = prog.globals[name]
    init = next(x for x in node.get("inner", []) if x["kind"] == "InitListExpr")
    out = []
    def lit(x):
        if x["kind"] == "StringLiteral": return unq(x["value"])
        for y in x.get("inner", []):
            r = lit(y)
            if r is not None: return r
    for x in init["inner"]:
        if x["kind"] == "ImplicitValueInitExpr": continue
        out.append(lit(x))
    _tabs[key] = out
    return out
def set_text(S, dst, s):
    """dst becomes the text s (capacity required)"""
    n = len(s) + 1
    S.require(le(n, S.len(dst)), "room for the text")
    if concrete():
        b = list(s.encode()) + [0]
        S.wr(dst, n, lambda i: b[i])
    else: S.wr(dst, S.len(dst), text_arr(text_code(s)))
def set_status(S, info, name):
    code, text = STATUS[name]
    S.set(info, "status_val", code)
    set_text(S, S.get(info, "status"), text)

# ------------------------------------------------------------------ trusted interface of a linear-system solver object
def snapv(S, v):
    """contents of a vector object as event argument"""
    n = S.get(v, "length")
    return ("arr", S.arr(S.get(v, "values"), n), n)
def snapm(S, A):
    c = S.get(A, "csc"); n = S.get(c, "n")
    nnz = S.arr(S.get(c, "p"), addk(n, 1))(n)
    return ("arr", S.arr(S.get(c, "x"), nnz), nnz)
def addk(a, k):
    if not isz(a) and not isz(k): return a + k
    return simp(lift(a) + lift(k))
SET_FIELDS = None
def settings_fields(prog):
    return [f for f, t in prog.fields("OSQPSettings")]
def ls_solve(S, self, b, it):
    v = S.event("ls_solve", [self, snapv(S, b), it], ["int", ("arr", S.get(b, "values"), S.get(b, "length"))])
    return v[0]
def ls_update_settings(S, self, settings):
    S.event("ls_update_settings", [self, settings] + [S.get(settings, f) for f in settings_fields(S.ex.prog)], [])
def ls_warm_start(S, self, x): S.event("ls_warm_start", [self, snapv(S, x)], [])
def ls_update_matrices(S, self, P, Pidx, Pn, A, Aidx, An):
    return S.event("ls_update_matrices", [self, P, snapm(S, P), Pidx, Pn, A, snapm(S, A), Aidx, An], ["int"])[0]
def ls_update_rho_vec(S, self, rv, rho):
    null = rv.rid is None
    return S.event("ls_update_rho_vec", [self, ("arr", lambda i: R(0), 0) if null else snapv(S, rv), rho], ["int"])[0]
def ls_free(S, self):
    S.event("ls_free", [self], []); S.free(self, alloc=None)
def ls_object(S):
    """an initialised linear-system solver"""
    p = S.new("linsys_solver")
    for f in ("name", "solve", "update_settings", "warm_start", "free", "update_matrices", "update_rho_vec"): S.set(p, f, Fn("cv_ls_" + f))
    S.set(p, "adjoint_derivative", NULL)
    for f in ("type", "nthreads"): S.set(p, f, fresh("ls." + f, INT) if S.mode == "call" else ANY)
    return p
def ls_init(S, P, A, rv, st, pr, dr, polishing):
    """a solver for the system of these matrices; returns the status code"""
    return S.event("ls_init", [P, snapm(S, P), A, snapm(S, A), rv, ("arr", lambda i: R(0), 0) if S.null(rv) else snapv(S, rv)] + [S.get(st, f) for f in settings_fields(S.ex.prog)] + [pr, dr, polishing], ["int"])[0]
for _n, _f in (("cv_ls_solve", ls_solve), ("cv_ls_update_settings", ls_update_settings), ("cv_ls_warm_start", ls_warm_start), ("cv_ls_update_matrices", ls_update_matrices), ("cv_ls_update_rho_vec", ls_update_rho_vec), ("cv_ls_free", ls_free)):
    def _mk(n, f):
        def body(S, *a): S.ret(f(S, *a))
        CONTRACTS[n] = Spec(n, body, trusted=True)
    _mk(_n, _f)
class _Name(Spec):
    def __init__(self): Spec.__init__(self, "cv_ls_name", None, trusted=True)
    def apply(self, ex, st, args, node):
        rid = st.new("str", ("int", 1), None, "str", "name"); st.mem[rid] = "name"
        return [(st, Ptr(rid, 0))]
CONTRACTS["cv_ls_name"] = _Name()

# ------------------------------------------------------------------ pre-state
RANGES = [   # field, kind, low, high   (what validate_settings guarantees)
    ("device", "i", None, None), ("allocate_solution", "i", 0, 1), ("verbose", "i", 0, 1), ("profiler_level", "i", 0, 2), ("warm_starting", "i", 0, 1),
    ("polishing", "i", 0, 1), ("rho", "p", None, None), ("sigma", "p", None, None), ("alpha", "a", None, None), ("cg_max_iter", "i", 1, None),
    ("cg_tol_reduction", "i", 1, None), ("cg_tol_fraction", "f", None, None), ("cg_precond", "i", 0, 1), ("adaptive_rho", "i", 0, 3), ("adaptive_rho_interval", "i", 0, None),
    ("adaptive_rho_fraction", "p", None, None), ("adaptive_rho_tolerance", "t", None, None), ("max_iter", "i", 1, None), ("eps_abs", "n", None, None), ("eps_rel", "n", None, None),
    ("eps_prim_inf", "p", None, None), ("eps_dual_inf", "p", None, None), ("scaled_termination", "i", 0, 1), ("check_termination", "i", 0, None),
    ("check_dualgap", "i", 0, 1), ("time_limit", "p", None, None), ("delta", "p", None, None), ("polish_refine_iter", "i", 0, None), ("linsys_solver", "i", 1, 2)]
def settings(B, name="settings", rv=None, sc=None, valid=True, rho_clamped=False, sterm=None):
    d = {}
    for f, k, lo, hi in RANGES:
        nm = name + "." + f
        if not valid:
            d[f] = B.int(nm, -1, 4) if k == "i" and B.mode == "concrete" else (B.int(nm) if k == "i" else B.real(nm, vals=[0.0, 1.0, -1.0, 0.5, 2.0, 1e-3]))
            continue
        if k == "i": d[f] = B.int(nm, lo, hi)
        elif k == "p": d[f] = B.real(nm, 0, 3 if B.mode == "concrete" else None, strict=True, vals=[1.0, 0.5, 0.125])
        elif k == "a": d[f] = alpha(B, nm)
        elif k == "f": d[f] = B.real(nm, 0, 0.9 if B.mode == "concrete" else None, strict=True); B.assume(d[f] < 1)
        elif k == "t": d[f] = B.real(nm, 1, 8 if B.mode == "concrete" else None, vals=[1.0, 2.0, 5.0])
        elif k == "n": d[f] = B.real(nm, 0, 2 if B.mode == "concrete" else None, vals=[0.0, 0.25, 1e-3])
    if valid:
        if rho_clamped and B.mode != "concrete": B.assume(And(d["rho"] >= R(RHO_MIN), d["rho"] <= R(RHO_MAX)))
        B.assume(d["eps_abs"] + d["eps_rel"] > 0)
        d["rho_is_vec"] = rv if rv is not None else B.int(name + ".rho_is_vec", 0, 1)
        if sterm is not None: d["scaled_termination"] = sterm
        if sc == 0: d["scaling"] = 0
        else: d["scaling"] = B.int(name + ".scaling", 1 if sc == 1 else 0, None, vals=[1, 2, 3])
    else:
        d["rho_is_vec"] = B.int(name + ".rho_is_vec", -1, 2) if B.mode == "concrete" else B.int(name + ".rho_is_vec")
        d["scaling"] = B.int(name + ".scaling", -1, 2) if B.mode == "concrete" else B.int(name + ".scaling")
    return B.struct("OSQPSettings", name, **d)
def alpha(B, nm):
    a = B.real(nm, 0, 1.9 if B.mode == "concrete" else None, strict=True, vals=[1.0, 1.5, 0.5]); B.assume(a < 2)
    return a
def setarr(B, p, n, fn):
    """concrete contents of a sub array"""
    if B.mode == "concrete": B.st.mem[p.rid] = Arr("list", B.st.mem[p.rid].sort, [fn(i) for i in range(n)])
def info(B, name="info", status=None):
    d = dict(status_val=B.int("status_val", 1, 11) if status is None else status, status_polish=B.int("status_polish", -2, 2), iter=B.int("info.iter", 0), rho_updates=B.int("rho_updates", 0))
    for f in ("obj_val", "dual_obj_val", "prim_res", "dual_res", "duality_gap", "rho_estimate", "setup_time", "solve_time", "update_time", "polish_time", "run_time", "primdual_int", "rel_kkt_error"):
        d[f] = B.real("info." + f, 0, 8) if B.mode == "concrete" and f in ("prim_res", "dual_res") else B.real("info." + f)
    p = B.struct("OSQPInfo", name, **d)
    st = B.st.mem[p.rid]["status"]
    if B.mode == "concrete":
        t = [v for v in STATUS.values() if v[0] == d["status_val"]][0][1].encode()
        setarr(B, st, 32, lambda i: t[i] if i < len(t) else 0)
    return p
def bounds(B, m, null0=False):
    """l <= u, entries beyond the infinity threshold allowed"""
    if null0: return B.vecf("l", 0, null0=True), B.vecf("u", 0, null0=True)
    if B.mode == "concrete":
        lv, uv = [], []
        for i in range(m):
            k = B.rng.randrange(6); a = B.rng.randint(-32, 32) / 16.0
            lv.append(-1e30 if k in (0, 1) else a); uv.append(1e30 if k in (0, 2) else (a if k == 3 and lv[-1] == a else a + B.rng.randint(0, 32) / 16.0))
        mk = lambda nm, v: B.struct("OSQPVectorf", nm, values=B.arrl(nm, "float", v, "mkl"), length=m)
        return mk("l", lv), mk("u", uv)
    l, u = B.vecf("l", m), B.vecf("u", m)
    fl, fu = B.read(B.st.mem[l.rid]["values"]), B.read(B.st.mem[u.rid]["values"])
    B.assume(Forall(0, m, lambda i: fl(i) <= fu(i)))
    return l, u
def linsys(B):
    return B.struct("linsys_solver", "linsys", type=B.int("ls.type", 1, 2), name=Fn("cv_ls_name"), solve=Fn("cv_ls_solve"), update_settings=Fn("cv_ls_update_settings"), warm_start=Fn("cv_ls_warm_start"),
                    adjoint_derivative=NULL, free=Fn("cv_ls_free"), update_matrices=Fn("cv_ls_update_matrices"), update_rho_vec=Fn("cv_ls_update_rho_vec"), nthreads=B.int("ls.nthreads", 1, 4))
def positive(B, nm, n, null0=False):
    return B.vecf(nm, n, null0=null0, **({} if null0 else dict(gen=(lambda i: B.rng.choice([1.0, 0.5, 2.0, 0.25, 4.0])) if B.mode == "concrete" else None)))
class Solver:
    """everything a contract's setup may want to refer to"""
    pass
def solver(B, vary=("m0", "rv", "sc"), sol=False, rho_clamped=True, status=None):
    o = Solver()
    m0 = B.pick(2, "m0") if "m0" in vary else 0
    rv = B.pick(2, "rho_is_vec") if "rv" in vary else 1
    sk = B.pick(3, "scaled") if "sc" in vary else -1   # unscaled / scaled / scaled with scaled termination
    sc = 1 if sk else 0
    n = B.dim("n", 1)
    m = 0 if m0 else B.dim("m", 1)
    o.n, o.m, o.m0, o.rv, o.sc = n, m, m0, rv, sc
    vn = lambda nm, **k: B.vecf(nm, n, **k)
    vm = lambda nm, **k: B.vecf(nm, m, null0=bool(m0), **k)
    P = B.mat("P", n, n, triu=True)
    A = B.mat("A", m, n)
    l, u = bounds(B, m, bool(m0))
    data = B.struct("OSQPData", "data", n=n, m=m, P=P, A=A, q=vn("q"), l=l, u=u)
    xz = B.vecf("xz_tilde", addk(n, m))
    xzv = B.st.mem[xz.rid]["values"]
    xtv = B.struct("OSQPVectorf", "xtilde_view", values=Ptr(xzv.rid, 0), length=n)
    ztv = B.struct("OSQPVectorf", "ztilde_view", values=Ptr(xzv.rid, n), length=m)
    d = dict(data=data, linsys_solver=linsys(B), xz_tilde=xz, xtilde_view=xtv, ztilde_view=ztv)
    for f in ("x", "x_prev", "Px", "Aty", "Atdelta_y", "delta_x", "Pdelta_x"): d[f] = vn(f)
    for f in ("y", "z", "z_prev", "Ax", "delta_y", "Adelta_x"): d[f] = vm(f)
    if rv:
        d["rho_vec"] = vm("rho_vec"); d["rho_inv_vec"] = vm("rho_inv_vec"); d["constr_type"] = B.veci("constr_type", m, null0=bool(m0), **({} if m0 else dict(lo=-1, hi=1)))
    else: d["rho_vec"] = NULL; d["rho_inv_vec"] = NULL; d["constr_type"] = NULL
    if sc:
        pos = lambda nm, k, z=False: positive(B, nm, k, z)
        c = B.real("c", 0, 4 if B.mode == "concrete" else None, strict=True, vals=[1.0, 2.0, 0.5])
        D, E = pos("D", n), pos("E", m, bool(m0))
        o.c, o.D, o.E = c, D, E
        ci = Div(R(1), c)
        if B.mode == "concrete":
            inv = lambda nm, v, k, z: B.struct("OSQPVectorf", nm, values=NULL if z else B.arrl(nm, "float", [1.0 / B.st.mem[B.st.mem[v.rid]["values"].rid].read(i) for i in range(k)], "mkl"), length=k)
            Di, Ei = inv("Dinv", D, n, False), inv("Einv", E, m, bool(m0))
        else:
            ci = fresh("cinv", REAL); B.assume(ci * c == 1); B.assume(ci > 0)
            Di, Ei = vn("Dinv"), vm("Einv")
            rd = lambda v: B.read(B.st.mem[v.rid]["values"])
            fD, fDi = rd(D), rd(Di)
            B.assume(Forall(0, n, lambda i: fD(i) > 0)); B.assume(Forall(0, n, lambda i: fDi(i) == Div(R(1), fD(i))))
            if not m0:
                fE, fEi = rd(E), rd(Ei)
                B.assume(Forall(0, m, lambda i: fE(i) > 0)); B.assume(Forall(0, m, lambda i: fEi(i) == Div(R(1), fE(i))))
        d["scaling"] = B.struct("OSQPScaling", "scaling", c=c, cinv=ci, D=D, Dinv=Di, E=E, Einv=Ei)
        d["D_temp"], d["D_temp_A"], d["E_temp"] = vn("D_temp"), vn("D_temp_A"), vm("E_temp")
    else:
        d["scaling"] = NULL; d["D_temp"] = NULL; d["D_temp_A"] = NULL; d["E_temp"] = NULL
    for f in ("xtPx", "qtx", "SC", "scaled_dual_gap", "rho_inv", "last_rel_kkt"): d[f] = B.real(f)
    for f in ("scaled_prim_res", "scaled_dual_res"): d[f] = B.real(f, 0, 8 if B.mode == "concrete" else None)
    tm = B.struct("OSQPTimer_", "timer")
    if B.mode == "concrete":
        B.st.mem[tm.rid] = {k: 0 for k in B.st.mem[tm.rid]}
    else: B.st.mem[tm.rid] = {k: fresh("tm", INT) for k in B.st.mem[tm.rid]}
    d["timer"] = tm
    for f in ("first_run", "clear_update_time", "rho_update_from_solve", "summary_printed", "rho_updated"): d[f] = B.int(f, 0, 1)
    pol = B.struct("OSQPPolish", "pol", Ared=NULL, n_active=B.int("n_active", 0), active_flags=B.veci("active_flags", m, null0=bool(m0), **({} if m0 else dict(lo=-1, hi=1))), x=vn("pol.x"), z=vm("pol.z"), y=vm("pol.y"),
                   **{f: B.real("pol." + f) for f in ("obj_val", "dual_obj_val", "duality_gap", "prim_res", "dual_res")})
    d["pol"] = pol
    st = settings(B, rv=rv, sc=sc, rho_clamped=rho_clamped, sterm=None if sk <= 0 else sk - 1)
    if B.mode != "concrete":
        rho = B.st.mem[st.rid]["rho"]
        if not rv: B.assume(d["rho_inv"] == Div(R(1), rho))
    elif not rv: d["rho_inv"] = 1.0 / B.st.mem[st.rid]["rho"]
    if rv and not m0:
        pass
    work = B.struct("OSQPWorkspace_", "work", **d)
    inf = info(B, status=status)
    so = NULL
    if sol and B.pick(2, "solution"): so = solution(B, n, m, m0)
    sv = B.struct("OSQPSolver", "solver", settings=st, solution=so, info=inf, work=work)
    o.p, o.work, o.settings, o.info, o.data, o.pol, o.d = sv, work, st, inf, data, pol, d
    return o
def solution(B, n, m, m0):
    ar = lambda nm, k, z=False: NULL if z and B.mode != "concrete" and False else B.arr(nm, "float", k)
    return B.struct("OSQPSolution", "solution", x=ar("sol.x", n), y=ar("sol.y", m), prim_inf_cert=ar("sol.pinf", m), dual_inf_cert=ar("sol.dinf", n))

class W:
    """a contract's view of a solver"""
    def __init__(self, S, s):
        self.S, self.s = S, s
        self.work, self.settings, self.info = S.get(s, "work"), S.get(s, "settings"), S.get(s, "info")
        self.data = S.get(self.work, "data")
        self.n, self.m = S.get(self.data, "n"), S.get(self.data, "m")
    def ptr(self, f):
        """vector object: workspace, data or scaling field"""
        S = self.S
        if f in ("q", "l", "u", "A", "P"): return S.get(self.data, f)
        if f in ("D", "E", "Dinv", "Einv"): return S.get(self.work, "scaling", f)
        return S.get(self.work, f)
    def vec(self, f, n=None):
        """contents of a vector; its length must be that of the problem"""
        p = self.ptr(f)
        ln, v = self.S.vec(p)
        if f in MV: self.S.require(eqt(ln, self.m), "length of " + f)
        elif f in NV: self.S.require(eqt(ln, self.n), "length of " + f)
        return v
    def setv(self, f, fn): self.S.setvec(self.ptr(f), fn)
    def scratch(self, *fs):
        for f in fs: self.S.havoc_arr(self.S.get(self.ptr(f), "values"))
    def opt(self, f): return self.S.get(self.settings, f)
    def sca(self, f): return self.S.get(self.work, "scaling", f)
    def w(self, f): return self.S.get(self.work, f)
    def setw(self, f, v): self.S.set(self.work, f, v)
    def setinfo(self, f, v): self.S.set(self.info, f, v)
    def i(self, f): return self.S.get(self.info, f)
    def scaled(self): return self.S.branch(Not(Eq(self.opt("scaling"), 0)))
    def unscaling(self):
        """results are expressed in the caller's units"""
        return self.S.branch(And(Not(Eq(self.opt("scaling"), 0)), Eq(self.opt("scaled_termination"), 0)))
    def rho_vec(self): return self.S.branch(Not(Eq(self.opt("rho_is_vec"), 0)))
MV = {"l", "u", "y", "z", "z_prev", "Ax", "delta_y", "Adelta_x", "rho_vec", "rho_inv_vec", "ztilde_view", "E", "Einv", "E_temp", "constr_type"}
NV = {"q", "x", "x_prev", "Px", "Aty", "Atdelta_y", "delta_x", "Pdelta_x", "xtilde_view", "D", "Dinv", "D_temp", "D_temp_A"}
