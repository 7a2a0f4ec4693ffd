"""Contracts of the linear-system layer: algebra/mkl/lin_sys/direct/pardiso_interface.c, algebra/mkl/algebra_libs.c."""
from ..spec import contract, CONTRACTS, Unsupported, Reject
from ..terms import *
from ..heap import *
from ..build import mono
from .csc import M_, addk, intarr
from .cscutil import spalloc, spfree
from .externs import ext
from .kkt import form_KKT_call, addi_

# ------------------------------------------------------------------ MKL PARDISO (trusted)
PARDISO_OUT = (6, 13, 14, 15, 16, 17, 18, 19, 21, 22, 29, 62)     # control parameters it may change
@ext("PARDISO")
def _(S, pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error):
    """direct solver: analysis (11), factorisation (22), solution (33) of the symmetric matrix whose upper triangle is given by rows
    with one-based indices; release (-1)"""
    ph = simp(S.deref(phase))
    if isz(ph): raise Unsupported("PARDISO phase")
    ph = int(str(ph))
    if ph == -1:
        e = S.event("PARDISO", [ph, pt], ["int"])[0]
        S.assign(error, e); S.havoc_arr(pt); return
    if ph not in (11, 22, 33): raise Unsupported("PARDISO phase")
    nn = S.deref(n)
    ip = S.arr(iparm, 64, "control parameters")
    S.require(And(Eq(S.deref(mtype), -2), Eq(S.deref(maxfct), 1), Eq(S.deref(mnum), 1), Eq(S.deref(nrhs), 1)), "symmetric indefinite, one factor, one right-hand side")
    c = lambda k: z3.IntVal(k)
    S.require(And(Eq(ip(c(0)), 1), Eq(ip(c(34)), 0), Eq(ip(c(27)), 0)), "one-based double-precision arrays, explicit parameters")
    p = S.arr(ia, addk(nn, 1), "row pointers"); nnz = simp(p(nn) - 1)
    j, v = intarr(S, ja, nnz, "column indices"), S.arr(a, nnz, "values")
    S.require(Eq(p(c(0)), 1), "row pointers start at one"); S.require(mono(p, nn), "row pointers nondecreasing")
    S.require(Forall(0, nnz, lambda q: And(j(q) >= 1, j(q) <= nn)), "column indices in range")
    args = [ph, pt, nn, ("arr", p, addk(nn, 1)), ("arr", j, nnz), ("arr", v, nnz), ("arr", ip, 64)]
    outs = ["int", ("arr", iparm, 64), ("arr", pt, 64)]
    inb = False
    if ph == 33:
        args.append(("arr", S.arr(b, nn, "right-hand side"), nn))
        inb = S.branch(Not(Eq(ip(c(5)), 0)))
        S.arr(x, nn, "solution")
        outs.append(("arr", b if inb else x, nn))
    e = S.event("PARDISO", args, outs)[0]
    new = S.arr(iparm)
    S.wr(iparm, 64, lambda t: If(Or(*[Eq(t, k) for k in PARDISO_OUT]), new(t), ip(t)))
    if inb: S.havoc_arr(x)
    S.assign(error, e)
@ext("MKL_Get_Max_Threads")
def _(S): S.ret(S.event("mkl_threads", [], ["int"])[0])
def pardiso_call(S, s, phase, b=None, x=None):
    f = lambda k: Ptr(s.rid, 0, k)
    S.set(s, "phase", phase)
    K = S.get(s, "KKT")
    S.call("PARDISO", S.get(s, "pt"), f("maxfct"), f("mnum"), f("mtype"), f("phase"), f("nKKT"), f("fdum") if phase == -1 else S.get(K, "x"), S.get(s, "KKT_p"), S.get(s, "KKT_i"),
           f("idum"), f("nrhs"), S.get(s, "iparm"), f("msglvl"), b if b is not None else f("fdum"), x if x is not None else f("fdum"), f("error"))
    return S.get(s, "error")

# ------------------------------------------------------------------ state of the direct solver
def pardiso(B, polish=None, rv=None):
    if B.mode == "concrete": raise Reject()
    n = B.dim("n", 1); m = B.dim("m", 0); nk = addi_(n, m)
    pol = B.pick(2, "polishing") if polish is None else polish
    rv = B.pick(2, "rho_vec") if rv is None else rv
    K = B.csc("KKT", nk, nk)
    d = B.st.mem[K.rid]; knz = d["nzmax"]
    kp, ki = B.read(d["p"]), B.read(d["i"])
    P1 = B.arr("KKT_p", "int", addk(nk, 1)); I1 = B.arr("KKT_i", "int", knz)
    p1, i1 = B.read(P1), B.read(I1)
    B.assume(Forall(0, addk(nk, 1), lambda t: p1(t) == kp(t) + 1)); B.assume(Forall(0, knz, lambda t: i1(t) == ki(t) + 1))
    P = B.mat("P", n, n, triu=True); A = B.mat("A", m, n)
    nz = lambda M: B.st.mem[B.st.mem[M.rid]["csc"].rid]["nzmax"]
    mp = lambda nm, k: NULL if pol else B.arr(nm, "int", k, lo=0, hi=addk(knz, -1))
    f = dict(KKT=K, KKT_i=I1, KKT_p=P1, bp=B.arr("bp", "float", nk), sol=B.arr("sol", "float", nk), rho_inv_vec=B.arr("rho_inv_vec", "float", nk) if rv else NULL,
             sigma=B.real("sigma"), rho_inv=B.real("rho_inv"), polishing=pol, n=n, m=m, nKKT=nk, mtype=-2, nrhs=1, maxfct=1, mnum=1, msglvl=0, phase=22, error=B.int("error"),
             idum=B.int("idum"), fdum=B.real("fdum"), PtoKKT=mp("PtoKKT", nz(P)), AtoKKT=mp("AtoKKT", nz(A)), rhotoKKT=mp("rhotoKKT", m), type=1, nthreads=B.int("nthreads"), adjoint_derivative=NULL)
    s = B.struct("pardiso", "s", **f)
    ip = B.read(B.st.mem[s.rid]["iparm"])
    c = lambda k: z3.IntVal(k)
    B.assume(And(ip(c(0)) == 1, ip(c(34)) == 0, ip(c(27)) == 0, ip(c(5)) == pol))
    for g, h in LINKS: B.st.mem[s.rid][g] = Fn(h)
    return s, P, A, n, m
LINKS = (("name", "name_pardiso"), ("solve", "solve_linsys_pardiso"), ("free", "free_linsys_solver_pardiso"), ("warm_start", "warm_start_linsys_solver_pardiso"),
         ("update_matrices", "update_linsys_solver_matrices_pardiso"), ("update_rho_vec", "update_linsys_solver_rho_vec_pardiso"), ("update_settings", "update_settings_linsys_solver_pardiso"))
def inertia(S, s, e):
    """status of a factorisation: its error code, or non-convexity when there are fewer positive eigenvalues than variables"""
    pos = S.arr(S.get(s, "iparm"), 64)(z3.IntVal(21))
    return If(And(Eq(e, 0), pos < S.get(s, "n")), 4, e)

OPTS = {"nosearch": True}
@contract("solve_linsys_pardiso", opts=OPTS, setup=lambda B: (lambda t: [t[0], B.vecf("b", addi_(t[3], t[4])), B.int("iter")])(pardiso(B)))
def _(S, s, b, it):
    """solves with the factors of the current system: b = (x, z + nu / rho), or the raw solution when polishing"""
    n, m, nk = S.get(s, "n"), S.get(s, "m"), S.get(s, "nKKT")
    S.require(eqt(S.get(b, "length"), nk), "length of the right-hand side"); S.require(eqt(nk, addi_(n, m)), "size of the system")
    bv, sol = S.get(b, "values"), S.get(s, "sol")
    f = S.arr(bv, nk)
    e = pardiso_call(S, s, 33, bv, sol)
    if S.branch(Not(Eq(e, 0))): return S.ret(1)
    if not S.branch(Not(Eq(S.get(s, "polishing"), 0))):
        x = S.arr(sol, nk)
        r = S.get(s, "rho_inv_vec")
        ri = S.arr(r, m) if r.rid is not None else (lambda i: S_ri)
        S_ri = S.get(s, "rho_inv")
        S.wr(bv, nk, lambda t: If(t < lift(n), x(t), f(t) + ri(simp(t - lift(n))) * x(t)))
    S.ret(0)

def upd_setup(B):
    s, P, A, n, m = pardiso(B, 0)
    nz = lambda M: B.st.mem[B.st.mem[M.rid]["csc"].rid]["nzmax"]
    def part(nm, M):
        v = B.pick(3, nm)
        if v == 0: return NULL, 0
        if v == 1: return NULL, nz(M)
        k = B.dim("cnt_" + nm); return B.arr("idx_" + nm, "int", k, lo=0, hi=addk(nz(M), -1)), k
    pi, pn = part("P", P); ai, an = part("A", A)
    return [s, P, pi, pn, A, ai, an]
@contract("update_linsys_solver_matrices_pardiso", setup=upd_setup, opts=OPTS)
def _(S, s, P, Pi, Pn, A, Ai, An):
    """the changed entries enter the stored system, which is factorised anew"""
    K = S.get(s, "KKT")
    S.call("update_KKT_P", K, S.get(P, "csc"), Pi, Pn, S.get(s, "PtoKKT"), S.get(s, "sigma"), 1)
    S.call("update_KKT_A", K, S.get(A, "csc"), Ai, An, S.get(s, "AtoKKT"))
    e = pardiso_call(S, s, 22)
    S.ret(inertia(S, s, e))
def rho_setup(B):
    rv = B.pick(2, "rho_vec")
    s, P, A, n, m = pardiso(B, 0, rv)
    return [s, B.vecf("rho", m) if rv else NULL, B.real("rho_sc")]
@contract("update_linsys_solver_rho_vec_pardiso", setup=rho_setup, opts=OPTS)
def _(S, s, rv, rho):
    """the new step sizes enter the stored system and the recovery of z, and the system is factorised anew"""
    m = S.get(s, "m"); r = S.get(s, "rho_inv_vec")
    if r.rid is not None:
        f = S.arr(S.get(rv, "values"), m, "step sizes"); S.require(eqt(S.get(rv, "length"), m), "length of rho_vec")
        S.wr(r, m, lambda i: Div(R(1), f(i)))
    else: S.set(s, "rho_inv", Div(R(1), rho))
    S.call("update_KKT_param2", S.get(s, "KKT"), r, S.get(s, "rho_inv"), S.get(s, "rhotoKKT"), m)
    e = pardiso_call(S, s, 22)
    S.ret(inertia(S, s, e))

def pfree(S, s):
    pardiso_call(S, s, -1)
    K = S.get(s, "KKT")
    if not S.null(K): spfree(S, K)
    for f in ("KKT_i", "KKT_p", "bp", "sol", "rho_inv_vec", "PtoKKT", "AtoKKT", "rhotoKKT"): S.free(S.get(s, f))
    S.free(s)
def free_setup(B):
    if B.pick(2, "null"): return [NULL]
    s = pardiso(B)[0]
    if B.pick(2, "partial"):                      # construction stopped half way
        d = B.st.mem[s.rid]
        d["KKT"] = NULL; d["KKT_i"] = NULL; d["KKT_p"] = NULL
        if B.pick(2, "early"):
            for f in ("bp", "PtoKKT", "AtoKKT", "rhotoKKT", "rho_inv_vec"): d[f] = NULL
    return [s]
@contract("free_linsys_solver_pardiso", setup=free_setup, opts=OPTS)
def _(S, s):
    """every resource of the solver is released"""
    if S.null(s): return
    pfree(S, s)
@contract("update_settings_linsys_solver_pardiso", setup=lambda B: [pardiso(B)[0], NULL], opts=OPTS)
def _(S, s, st): pass
@contract("warm_start_linsys_solver_pardiso", setup=lambda B: [pardiso(B)[0], NULL], opts=OPTS)
def _(S, s, x): pass

def init_setup(B):
    from .solver import settings
    if B.mode == "concrete": raise Reject()
    n = B.dim("n", 1); m = 0 if B.pick(2, "m0") else B.dim("m", 1)
    pol = B.pick(2, "polishing"); rv = 0 if pol else B.pick(2, "rho_vec")
    P = B.mat("P", n, n, triu=True); A = B.mat("A", m, n)
    return [B.cell("sp", ("ptr", ("struct", "pardiso")), NULL), P, A, B.vecf("rho_vec", m, null0=not isz(m) and m == 0) if rv else NULL, settings(B), pol]
def unused(S, sp, f):
    """contents nobody relies on: whatever the code left there"""
    if S.mode == "verify":
        p = S.actual[0].mem[sp.rid][sp.path]
        if isinstance(p, Ptr) and p.rid is not None and isinstance(S.actual[0].mem.get(p.rid), dict):
            q = S.actual[0].mem[p.rid].get(f)
            if isinstance(q, Ptr) and isinstance(S.actual[0].mem.get(q.rid), Arr): return S.actual[0].mem[q.rid].read
    return abase("unused", REAL).read
def nullempty(S, sp, f, cnt):
    """an empty array may be represented by NULL"""
    if S.mode != "verify": return False
    p = S.actual[0].mem[sp.rid][sp.path]
    if not (isinstance(p, Ptr) and p.rid is not None and isinstance(S.actual[0].mem.get(p.rid), dict)): return False
    q = S.actual[0].mem[p.rid].get(f)
    if not (isinstance(q, Ptr) and q.rid is None): return False
    S.ensure(le(cnt, 0), f + " missing only when empty")
    return True
def anyevents(S):
    """which external calls were made on a failing path is left open"""
    if S.actual is not None: S.evpos = len(S.actual[0].trace)
@contract("init_linsys_solver_pardiso", setup=init_setup, opts=OPTS)
def init_pardiso(S, sp, P, A, rv, st, pol):
    """a solver holding the system [P + s I, A'; A, -diag(1/rho)] (s = sigma, or delta everywhere when polishing), analysed and
    factorised; nothing stays allocated on failure except with a non-convexity report, whose solver the caller releases"""
    p, a = M_(S, S.get(P, "csc")), M_(S, S.get(A, "csc"))
    n, m = p.n, a.m; nk = addi_(n, m)
    pol = S.branch(Not(Eq(pol, 0)))
    vec = not S.null(rv)
    if pol: S.require(not vec, "no step sizes when polishing")
    if vec: fr = S.arr(S.get(rv, "values"), m, "step sizes")
    for code in (5, 3):
        if S.fails(lambda r, v, c=code: Eq(r, c) if not isz(r) else z3.simplify(r == c)) if code == 5 or S.mode == "call" else (S.mode == "verify" and S.actual[0].oom and simp(S.actual[1]) == 3):
            S.assign(sp, NULL); anyevents(S); return S.ret(code)
    s = S.newz("pardiso")
    S.assign(sp, s)
    sg = S.get(st, "delta" if pol else "sigma")
    for f, v in (("n", n), ("m", m), ("nKKT", nk), ("sigma", sg), ("polishing", 1 if pol else 0), ("type", 1), ("mtype", -2), ("nrhs", 1), ("maxfct", 1), ("mnum", 1), ("msglvl", 0)): S.set(s, f, v)
    for g, h in LINKS: S.set(s, g, Fn(h))
    for f in ("bp", "sol"): S.set(s, f, S.newarr("float", nk, name=f))
    r = NULL
    if vec:
        tail = unused(S, sp, "rho_inv_vec")
        r = S.newarr("float", nk, lambda t: If(t < lift(m), Div(R(1), fr(t)), tail(t)), name="rho_inv_vec"); S.set(s, "rho_inv_vec", r)
    to = [NULL, NULL, NULL]
    if not pol:
        if not vec: S.set(s, "rho_inv", Div(R(1), S.get(st, "rho")))
        for k, (f, cnt) in enumerate((("PtoKKT", p.nnz), ("AtoKKT", a.nnz), ("rhotoKKT", m))):
            to[k] = NULL if nullempty(S, sp, f, cnt) else S.newarr("int", cnt, lambda t: z3.IntVal(0), name=f)
            S.set(s, f, to[k])
    K = form_KKT_call(S, S.get(P, "csc"), S.get(A, "csc"), 1, sg, r, sg if pol else S.get(s, "rho_inv"), *to, fails=False)
    S.set(s, "KKT", K)
    kp, ki = S.arr(S.get(K, "p")), S.arr(S.get(K, "i")); nnz = kp(nk)
    S.set(s, "KKT_i", S.newarr("int", nnz, lambda t: ki(t) + 1, name="KKT_i")); S.set(s, "KKT_p", S.newarr("int", addk(nk, 1), lambda t: kp(t) + 1, name="KKT_p"))
    S.wr(S.get(s, "iparm"), 64, lambda t: If(Eq(t, 0), 1, If(Eq(t, 1), 3, If(Eq(t, 5), 1 if pol else 0, If(Eq(t, 9), 13, 0)))))
    S.set(s, "nthreads", S.call("MKL_Get_Max_Threads"))
    for ph in (11, 22):
        e = pardiso_call(S, s, ph)
        if S.branch(Not(Eq(e, 0))):
            pfree(S, s); S.assign(sp, NULL); return S.ret(3)
    pos = S.arr(S.get(s, "iparm"), 64)(z3.IntVal(21))
    S.ret(If(pos < lift(n), 4, 0))

# ------------------------------------------------------------------ reduced system (algebra/_common/reduced_kkt.c)
from .matrix import Mat, vecof
from .csc import mv_gen, mv_tr, mv_sym
def red(B, *vs, empty=True):
    """problem matrices and vectors of the reduced system; vs: (name, 'n'|'m')"""
    n = B.dim("n", 1); m = 0 if B.pick(2, "m0") else B.dim("m", 1)
    P = B.mat("P", n, n, triu=True, handles=empty); A = B.mat("A", m, n, handles=empty)
    return n, m, P, A
def RV(B, nm, n, m, w):
    k = n if w == "n" else m
    return B.vecf(nm, k, null0=not isz(k) and k == 0 and B.mode != "concrete")
@contract("reduced_kkt_mv_times", setup=lambda B: (lambda t: [t[2], t[3], RV(B, "rho", t[0], t[1], "m"), B.real("sigma"), RV(B, "x", t[0], t[1], "n"), RV(B, "v", t[0], t[1], "n"), RV(B, "work", t[0], t[1], "m")])(red(B)))
def mv_times(S, P, A, rho, sigma, x, v, work):
    """v = (P + sigma I + A' diag(rho) A) x, with work = rho .* (A x)"""
    a = Mat(S, A); n, m = a.n, a.m
    S.require(not a.triu, "A is a general matrix")
    r = S.arr(vecof(S, rho, m, "rho"), m); X = vecof(S, x, n, "x"); V, Wk = vecof(S, v, n, "v"), vecof(S, work, m, "work")
    fx = S.arr(X, n)
    mv_gen(S, a, X, Wk, R(1), R(0))
    g = S.arr(Wk, m)
    S.wr(Wk, m, lambda t: g(t) * r(t))
    S.wr(V, n, fx)
    p = Mat(S, P)
    S.require(eqt(p.n, n), "same number of columns")
    (mv_sym if p.triu else mv_gen)(S, p, X, V, R(1), sigma)
    mv_tr(S, a, Wk, V, R(1), R(1))
@contract("reduced_kkt_compute_rhs", setup=lambda B: (lambda t: [t[3], RV(B, "rho", t[0], t[1], "m"), RV(B, "b1", t[0], t[1], "n"), RV(B, "b2", t[0], t[1], "m"), RV(B, "work", t[0], t[1], "m")])(red(B)))
def compute_rhs_(S, A, rho, b1, b2, work):
    """b1 + A' (rho .* b2), with work = rho .* b2"""
    a = Mat(S, A)
    S.require(not a.triu, "A is a general matrix")
    r = S.arr(vecof(S, rho, a.m, "rho"), a.m); g = S.arr(vecof(S, b2, a.m, "b2"), a.m)
    Wk, B1 = vecof(S, work, a.m, "work"), vecof(S, b1, a.n, "b1")
    S.wr(Wk, a.m, lambda t: g(t) * r(t))
    mv_tr(S, a, Wk, B1, R(1), R(1))
@contract("reduced_kkt_diagonal", setup=lambda B: (lambda t: [t[2], t[3], RV(B, "rho", t[0], t[1], "m"), B.real("sigma"), RV(B, "diag", t[0], t[1], "n"), RV(B, "diag_inv", t[0], t[1], "n")])(red(B, empty=False)))
def diagonal_(S, P, A, rho, sigma, d, di):
    """the diagonal of P + sigma I + A' diag(rho) A, and its inverse"""
    from .cscutil import diag_entry
    p, a = M_(S, S.get(P, "csc")), M_(S, S.get(A, "csc"))
    n = p.n
    S.require(eqt(p.m, p.n), "square"); S.require(eqt(a.n, n), "same number of columns")
    g = S.arr(vecof(S, rho, a.m, "rho"), a.m)
    D, I = vecof(S, d, n, "diag"), vecof(S, di, n, "diag_inv")
    ada = lambda j: Fold(0, a.p(addk(j, 1)) - a.p(j), R(0), lambda q, s: s + a.x(a.p(j) + q) * a.x(a.p(j) + q) * g(a.i(a.p(j) + q)))
    f = lambda j: sigma + diag_entry(p, j) + ada(j)
    S.wr(D, n, f); S.wr(I, n, lambda j: Div(R(1), f(j)))

# ------------------------------------------------------------------ MKL reverse-communication conjugate gradients (trusted)
def dcg_args(S, n, ipar, dpar, tmp):
    nn = S.deref(n)
    S.arr(tmp, simp(4 * lift(nn)), "work array"); S.arr(ipar, 128, "integer parameters"); S.arr(dpar, 128, "real parameters")
    return nn
@ext("dcg_init")
def _(S, n, x, b, rci, ipar, dpar, tmp):
    nn = dcg_args(S, n, ipar, dpar, tmp)
    S.assign(rci, S.event("dcg_init", [nn], ["int", ("arr", ipar, 128), ("arr", dpar, 128), ("arr", tmp, simp(4 * lift(nn)))])[0])
@ext("dcg_check")
def _(S, n, x, b, rci, ipar, dpar, tmp):
    nn = dcg_args(S, n, ipar, dpar, tmp)
    S.assign(rci, S.event("dcg_check", [nn, ("arr", S.arr(ipar, 128), 128), ("arr", S.arr(dpar, 128), 128)], ["int", ("arr", ipar, 128), ("arr", dpar, 128)])[0])
@ext("dcg")
def _(S, n, x, b, rci, ipar, dpar, tmp):
    """one step: asks through rci for a product (1), a stopping test (2) or a preconditioner application (3) on parts of tmp; 0 or a
    negative code ends the iteration"""
    nn = dcg_args(S, n, ipar, dpar, tmp)
    S.arr(x, nn, "solution"); S.arr(b, nn, "right-hand side")
    h = S.ex.opts.get("dcg")
    if h: h(S, nn, x, b, rci, ipar, dpar, tmp)
    for p in (x, ipar, dpar, tmp): S.havoc_arr(p)
    S.assign(rci, fresh("rci", INT)); S.st.env["dcg_rci"] = rci; S.st.env["dcg_req"] = S.st.mem[tmp.rid]

CG_LINKS = (("name", "name_mklcg"), ("solve", "solve_linsys_mklcg"), ("free", "free_linsys_mklcg"), ("warm_start", "warm_start_linys_mklcg"),
            ("update_matrices", "update_matrices_linsys_mklcg"), ("update_rho_vec", "update_rho_linsys_mklcg"), ("update_settings", "update_settings_linsys_solver_mklcg"))
def mklcg(B, polish=None):
    if B.mode == "concrete": raise Reject()
    n, m, P, A = red(B, empty=False)
    n4 = simp(4 * lift(n))
    nul = not isz(m) and m == 0
    x = B.vecf("x", n); tmp = B.vecf("tmp", n4)
    tv, xv = B.st.mem[tmp.rid]["values"], B.st.mem[x.rid]["values"]
    view = lambda nm, k: B.struct("OSQPVectorf", nm, values=Ptr(tv.rid, simp(k * lift(n)) if k else 0), length=n)
    pol = B.pick(2, "polish") if polish is None else polish
    f = dict(type=2, nthreads=B.int("nthreads"), adjoint_derivative=NULL, max_iter=B.int("max_iter", 1), P=P, A=A, rho_vec=B.vecf("rho_vec", m, null0=nul), scaled_prim_res=B.cell("prim", ("float", 8), B.real("prim", 0)),
             scaled_dual_res=B.cell("dual", ("float", 8), B.real("dual", 0)), sigma=B.real("sigma"), m=m, n=n, polish=pol, precond_type=B.int("precond_type", 0, 1), eps_prev=B.real("eps_prev"),
             reduction_interval=B.int("reduction_interval"), reduction_factor=B.real("reduction_factor"), tol_fraction=B.real("tol_fraction"), cg_zero_iters=B.int("cg_zero_iters"), x=x, ywork=B.vecf("ywork", m, null0=nul),
             tmp=tmp, mvm_pre=view("mvm_pre", 0), mvm_post=view("mvm_post", 1), precond_pre=view("precond_pre", 2), precond_post=view("precond_post", 3),
             r1=B.struct("OSQPVectorf", "r1", values=xv, length=0), r2=B.struct("OSQPVectorf", "r2", values=xv, length=0), precond=B.vecf("precond", n), precond_inv=B.vecf("precond_inv", n))
    s = B.struct("mklcg_solver_", "s", **f)
    for g, h in CG_LINKS: B.st.mem[s.rid][g] = Fn(h)
    return s, n, m

TOL_MIN, POLISH_TOL = 1e-7, 1e-5
@contract("cg_compute_tolerance", setup=lambda B: [B.int("iter", 1, 3), B.real("rhs", 0), B.real("prim", 0), B.real("dual", 0), B.real("factor", 0), B.cell("eps_prev", ("float", 8), B.real("eps_prev", 0))])
def cg_tol(S, it, rhs, prim, dual, fac, prev):
    """first iteration: a fraction of the right-hand side; then a fraction of the residuals' geometric mean, never above the
    previous tolerance nor below the floor"""
    old = S.deref(prev)
    first = If(lt(rhs, R(TOL_MIN)), R(1), rhs * fac)
    later = Max(Min(fac * Sqrt(prim * dual), old), R(TOL_MIN))
    if S.branch(Eq(it, 1)): e = first
    else: e = later
    S.assign(prev, e); S.ret(e)
@contract("cg_solver_init", setup=lambda B: [mklcg(B)[0]], opts=OPTS)
def cg_init(S, s):
    """a fresh run with the iteration limit, user-defined stopping test and preconditioning of the settings"""
    n = S.get(s, "n"); ip, dp = S.get(s, "iparm"), S.get(s, "dparm"); tmp = S.get(S.get(s, "tmp"), "values")
    rci = S.event("dcg_init", [n], ["int", ("arr", ip, 128), ("arr", dp, 128), ("arr", tmp, simp(4 * lift(n)))])[0]
    f, g = S.arr(ip, 128), S.arr(dp, 128)
    mi, pc = S.get(s, "max_iter"), If(Eq(S.get(s, "precond_type"), 0), 0, 1)
    S.wr(ip, 128, lambda t: If(Eq(t, 4), mi, If(Eq(t, 7), 1, If(Eq(t, 8), 0, If(Eq(t, 9), 1, If(Eq(t, 10), pc, f(t)))))))
    S.wr(dp, 128, lambda t: If(Eq(t, 0), R(1e-5), g(t)))
    S.ret(S.event("dcg_check", [n, ("arr", S.arr(ip, 128), 128), ("arr", S.arr(dp, 128), 128)], ["int", ("arr", ip, 128), ("arr", dp, 128)])[0])
@contract("cg_update_precond", setup=lambda B: [mklcg(B)[0]], opts=OPTS)
def cg_precond(S, s):
    """the inverse diagonal of the current reduced system; unused (open) without preconditioning"""
    if S.branch(Eq(S.get(s, "precond_type"), 0)):
        for f in ("precond", "precond_inv"): S.adopt(S.get(S.get(s, f), "values"))
        return
    if S.branch(Eq(S.get(s, "precond_type"), 1)):
        S.call("reduced_kkt_diagonal", *[S.get(s, f) for f in ("P", "A", "rho_vec", "sigma", "precond", "precond_inv")])
@contract("update_matrices_linsys_mklcg", setup=lambda B: [mklcg(B)[0], NULL, NULL, 0, NULL, NULL, 0], opts=OPTS)
def _(S, s, P, Pi, Pn, A, Ai, An):
    S.call("cg_update_precond", s); S.ret(0)
@contract("update_rho_linsys_mklcg", setup=lambda B: (lambda t: [t[0], NULL if B.pick(2, "scalar") else B.vecf("rho_new", t[2], null0=not isz(t[2]) and t[2] == 0), B.real("rho_sc")])(mklcg(B)), opts=OPTS)
def _(S, s, rv, rho):
    """the new step sizes are in force for the operator and the preconditioner"""
    r = S.get(s, "rho_vec"); m = S.get(s, "m"); S.require(eqt(S.get(r, "length"), m), "length of rho_vec")
    f = (lambda i: rho) if S.null(rv) else S.arr(vecof(S, rv, m, "rho_vec"), m)
    S.wr(S.get(r, "values"), m, f)
    S.call("cg_update_precond", s); S.ret(0)
def cgs_setup(B):
    from .solver import settings
    return [mklcg(B)[0], settings(B)]
@contract("update_settings_linsys_solver_mklcg", setup=cgs_setup, opts=OPTS)
def _(S, s, st):
    """iteration limit, tolerance rule and preconditioner follow the settings"""
    pc = S.get(st, "cg_precond"); ip, dp, n = S.get(s, "iparm"), S.get(s, "dparm"), S.get(s, "n")
    f = S.arr(ip, 128); mi = S.get(st, "cg_max_iter")
    if not S.branch(Eq(S.get(s, "precond_type"), pc)):
        S.set(s, "precond_type", pc)
        S.call("cg_update_precond", s)
        S.wr(ip, 128, lambda t: If(Eq(t, 4), mi, If(Eq(t, 10), If(Eq(pc, 0), 0, 1), f(t))))
    else: S.wr(ip, 128, lambda t: If(Eq(t, 4), mi, f(t)))
    S.set(s, "max_iter", mi); S.set(s, "reduction_interval", S.get(st, "cg_tol_reduction")); S.set(s, "tol_fraction", S.get(st, "cg_tol_fraction"))
    S.event("dcg_check", [n, ("arr", S.arr(ip, 128), 128), ("arr", S.arr(dp, 128), 128)], ["int", ("arr", ip, 128), ("arr", dp, 128)])
@contract("warm_start_linys_mklcg", setup=lambda B: [mklcg(B)[0], NULL], opts=OPTS)
def _(S, s, x): pass
CG_VECS, CG_VIEWS = ("tmp", "rho_vec", "x", "ywork", "precond", "precond_inv"), ("r1", "r2", "mvm_pre", "mvm_post", "precond_pre", "precond_post")
def cgfree_setup(B):
    if B.pick(2, "null"): return [NULL]
    s = mklcg(B)[0]
    if B.pick(2, "partial"):
        d = B.st.mem[s.rid]
        for f in CG_VIEWS + ("tmp", "precond"): d[f] = NULL
        if B.pick(2, "early"):
            for f in ("x", "ywork", "precond_inv", "rho_vec"): d[f] = NULL
    return [s]
@contract("free_linsys_mklcg", setup=cgfree_setup, opts=OPTS)
def cg_free(S, s):
    if S.null(s): return
    for f in CG_VECS: S.call("OSQPVectorf_free", S.get(s, f))
    for f in CG_VIEWS: S.call("OSQPVectorf_view_free", S.get(s, f))
    S.free(s)

def cginit_setup(B):
    from .solver import settings
    if B.mode == "concrete": raise Reject()
    n, m, P, A = red(B, empty=False)
    pol = B.pick(2, "polish"); rv = 0 if pol else B.pick(2, "rho_vec")
    F = ("float", 8)
    return [B.cell("sp", ("ptr", ("struct", "mklcg_solver_")), NULL), P, A, B.vecf("rho_vec", m, null0=not isz(m) and m == 0) if rv else NULL, settings(B), NULL if pol else B.cell("prim", F, B.real("prim")), NULL if pol else B.cell("dual", F, B.real("dual")), pol]
@contract("init_linsys_mklcg", setup=cginit_setup, opts=OPTS)
def init_cg(S, sp, P, A, rv, st, pr, dr, pol):
    """a solver for the reduced system of these matrices with its own copy of the step sizes (1/delta when polishing), started from
    zero; nothing stays allocated when memory runs out"""
    n, m = S.get(S.get(P, "csc"), "n"), S.get(S.get(A, "csc"), "m")
    S.require(And(le(0, n), le(0, m)), "dimensions not negative")
    polish = S.branch(Not(Eq(pol, 0)))
    if polish: fr = lambda i: Div(R(1), S.get(st, "delta"))
    elif S.null(rv): rho = S.get(st, "rho"); fr = lambda i: rho
    else: fr = S.arr(vecof(S, rv, m, "rho_vec"), m)
    if S.fails(lambda r, v: Eq(r, 5) if not isz(r) else z3.simplify(r == 5)):
        S.assign(sp, NULL); anyevents(S); return S.ret(5)
    s = S.newz("mklcg_solver_"); S.assign(sp, s)
    for f, v in (("P", P), ("A", A), ("sigma", S.get(st, "delta" if polish else "sigma")), ("polish", pol), ("m", m), ("n", n), ("scaled_prim_res", pr), ("scaled_dual_res", dr), ("type", 2),
                 ("precond_type", S.get(st, "cg_precond")), ("max_iter", S.get(st, "cg_max_iter")), ("reduction_interval", S.get(st, "cg_tol_reduction")), ("tol_fraction", S.get(st, "cg_tol_fraction")),
                 ("reduction_factor", S.get(st, "cg_tol_fraction")), ("cg_zero_iters", 0)): S.set(s, f, v)
    for g, h in CG_LINKS: S.set(s, g, Fn(h))
    S.set(s, "nthreads", S.call("MKL_Get_Max_Threads"))
    def vec(f, k, fn=None):
        v = S.new("OSQPVectorf"); S.set(v, "length", k)
        if S.branch(eqt(k, 0)): S.set(v, "values", NULL)
        else:
            t = unused2(S, sp, f) if fn is None else fn
            S.set(v, "values", S.newarr("float", k, t, alloc="mkl", name=f))
        S.set(s, f, v)
    n4 = simp(4 * lift(n))
    vec("rho_vec", m, fr); vec("x", n, lambda i: R(0)); vec("ywork", m); vec("tmp", n4); vec("precond", n); vec("precond_inv", n)
    def view(f, of, h, k):
        v = S.new("OSQPVectorf"); p = S.get(S.get(s, of), "values")
        S.set(v, "length", k); S.set(v, "values", p if p.rid is None else Ptr(p.rid, h)); S.set(s, f, v)
    view("r1", "x", 0, 0); view("r2", "x", 0, 0)
    for k, f in enumerate(("mvm_pre", "mvm_post", "precond_pre", "precond_post")): view(f, "tmp", simp(k * lift(n)) if k else 0, n)
    e = S.call("cg_solver_init", s)
    if not S.branch(Eq(S.get(s, "precond_type"), 0)): S.call("cg_update_precond", s)
    S.ret(If(Eq(e, 0), 0, 3))
def unused2(S, sp, f):
    """contents left open"""
    if S.mode == "verify":
        p = S.actual[0].mem[sp.rid][sp.path]
        if isinstance(p, Ptr) and p.rid is not None and isinstance(S.actual[0].mem.get(p.rid), dict):
            q = S.actual[0].mem[p.rid].get(f)
            if isinstance(q, Ptr) and q.rid is not None:
                q = S.actual[0].mem[q.rid].get("values")
                if isinstance(q, Ptr) and isinstance(S.actual[0].mem.get(q.rid), Arr): return S.actual[0].mem[q.rid].read
    return abase("unused", REAL).read

def cg_rhs(S, s, b, it):
    """everything before the iteration: views, reduced right-hand side, tolerance"""
    n, m = S.get(s, "n"), S.get(s, "m")
    S.require(eqt(S.get(b, "length"), addi_(n, m)), "length of the right-hand side")
    bv = S.get(b, "values")
    for v, h, k in (("r1", 0, n), ("r2", n, m)):
        o = S.get(s, v); S.set(o, "length", k); S.set(o, "values", Ptr(bv.rid, addi_(bv.off, h)))
    S.call("reduced_kkt_compute_rhs", *[S.get(s, f) for f in ("A", "rho_vec", "r1", "r2", "ywork")])
    r = S.arr(bv, n); norm = MaxAbs(0, n, r)
    if S.branch(Not(Eq(S.get(s, "polish"), 0))): return Max(norm * R(POLISH_TOL), R(TOL_MIN))
    if S.branch(Eq(it, 1)): S.set(s, "reduction_factor", S.get(s, "tol_fraction"))
    elif S.branch(ge(S.get(s, "cg_zero_iters"), S.get(s, "reduction_interval"))):
        S.set(s, "reduction_factor", S.get(s, "reduction_factor") / 2); S.set(s, "cg_zero_iters", 0)
    return S.call("cg_compute_tolerance", it, norm, S.deref(S.get(s, "scaled_prim_res")), S.deref(S.get(s, "scaled_dual_res")), S.get(s, "reduction_factor"), Ptr(s.rid, 0, "eps_prev"))
def ge(a, b): return le(b, a)
def cg_eps(S, s):
    """the tolerance in force when the iteration starts"""
    if S.branch(Not(Eq(S.get(s, "polish"), 0))):
        r = S.get(s, "r1")
        return Max(MaxAbs(0, S.get(s, "n"), S.arr(S.get(r, "values"))) * R(POLISH_TOL), R(TOL_MIN))
    return S.get(s, "eps_prev")
def part(S, s, f): return S.arr(S.get(S.get(s, f), "values"))
def cg_inv(L):
    """every request of the iteration is answered exactly: 1 - product with the reduced system, 3 - preconditioner; it goes on after
    a stopping test only while the residual is above the tolerance; the right-hand side is not touched"""
    S, E, s = L.S, L.E, L.args[0]
    n = E.get(s, "n")
    L.array(S.get(S.get(s, "r1"), "values"), addi_(n, E.get(s, "m")), part(E, s, "r1"), "right-hand side untouched")
    if L.how != "step": return
    rci = S.st.env.get("dcg_rci")
    if rci is None: L.inv(False, "an iteration asks the solver for the next step"); return
    r = S.deref(rci)
    L.inv(Or(Eq(r, 1), Eq(r, 2), Eq(r, 3)), "only requests are answered")
    C = S.st.clone(); C.mem[S.get(S.get(s, "tmp"), "values").rid] = S.st.env["dcg_req"]        # what was asked for
    from ..spec import S_
    V = S_(S.sp, L.ex, C, L.node, "view", [], [], None)
    V0 = S_(S.sp, L.ex, C.clone(), L.node, "view", [], [], None)
    V.call("reduced_kkt_mv_times", *[V.get(s, f) for f in ("P", "A", "rho_vec", "sigma", "mvm_pre", "mvm_post", "ywork")])
    want, got = part(V, s, "mvm_post"), part(S, s, "mvm_post")
    L.forall(n, lambda t: Or(Not(Eq(r, 1)), Eq(got(t), want(t))), "product with P + sigma I + A' diag(rho) A")
    pre, post, inv = part(V0, s, "precond_pre"), part(S, s, "precond_post"), part(S, s, "precond_inv")
    L.forall(n, lambda t: Or(Not(Eq(r, 3)), Eq(post(t), inv(t) * pre(t))), "preconditioner application")
    L.inv(Or(Not(Eq(r, 2)), le(cg_eps(E, s), MaxAbs(0, n, pre))), "iteration continues only above the tolerance")
def cg_hook(S, n, x, b, rci, ipar, dpar, tmp):
    s = S.ex.opts["args"][0]
    same = lambda p, q: p.rid == q.rid and eqt(p.off, q.off)
    S.require(And(eqt(n, S.get(s, "n")), same(x, S.get(S.get(s, "x"), "values")), same(b, S.get(S.get(s, "r1"), "values")), same(tmp, S.get(S.get(s, "tmp"), "values")),
                  same(ipar, S.get(s, "iparm")), same(dpar, S.get(s, "dparm"))), "iteration runs on the solver's own data")
@contract("solve_linsys_mklcg", setup=lambda B: (lambda t: [t[0], B.vecf("b", addi_(t[1], t[2])), B.int("iter", 1)])(mklcg(B)), opts=dict(OPTS, inv=cg_inv, dcg=cg_hook, nomerge=True))
def cg_solve(S, s, b, it):
    """iterates on the reduced system from the previous solution to the prescribed tolerance; (x, z) := (x, A x), or (x, nu) when
    polishing, unless the iteration broke down"""
    if S.mode == "call": raise Unsupported("call of solve_linsys_mklcg")
    n, m = S.get(s, "n"), S.get(s, "m")
    g2 = S.arr(Ptr(S.get(b, "values").rid, addi_(S.get(b, "values").off, n)), m)
    eps = cg_rhs(S, s, b, it)
    S.call("cg_solver_init", s)
    x = S.adopt(S.get(S.get(s, "x"), "values"))
    for f in ("iparm", "dparm"): S.adopt(S.get(s, f))
    S.adopt(S.get(S.get(s, "tmp"), "values"))
    yw = S.get(S.get(s, "ywork"), "values")
    if yw.rid is not None: S.adopt(yw)
    pre = part(S, s, "precond_pre")
    r = S.actual[1]
    S.ensure(Or(Not(Eq(r, 2)), lt(MaxAbs(0, n, pre), eps)), "stopped by the test only below the tolerance")
    if S.branch(Or(Eq(r, 0), Eq(r, 2))):
        bv = S.get(b, "values")
        S.wr(bv, n, x)
        r2 = S.get(s, "r2")
        if S.branch(Eq(S.get(s, "polish"), 0)): S.call("OSQPMatrix_Axpy", S.get(s, "A"), S.get(s, "x"), r2, R(1), R(0))
        else:
            S.call("OSQPMatrix_Axpy", S.get(s, "A"), S.get(s, "x"), r2, R(1), R(-1))
            h = S.arr(S.get(r2, "values"), m); rho = part(S, s, "rho_vec")
            S.wr(S.get(r2, "values"), m, lambda t: h(t) * rho(t))
        z = S.get(s, "cg_zero_iters")
        S.set(s, "cg_zero_iters", If(Eq(S.arr(S.get(s, "iparm"), 128)(z3.IntVal(3)), 0), z + 1, 0))
    S.ret(r)

# ------------------------------------------------------------------ algebra/mkl/algebra_libs.c
def ils_setup(B):
    a = init_setup(B)
    F = ("float", 8)
    pol = a[5]
    return [B.cell("s", ("ptr", ("struct", "linsys_solver")), NULL), a[1], a[2], a[3], a[4], NULL if pol else B.cell("prim", F, B.real("prim")), NULL if pol else B.cell("dual", F, B.real("dual")), pol]
def init_linsys_verify(S, sp, P, A, rv, st, pr, dr, pol):
    """the solver kind of the settings"""
    if S.branch(Eq(S.get(st, "linsys_solver"), 2)): S.ret(S.call("init_linsys_mklcg", sp, P, A, rv, st, pr, dr, pol))
    else: S.ret(S.call("init_linsys_solver_pardiso", sp, P, A, rv, st, pol))
@contract("name_pardiso", setup=lambda B: [NULL])
def _(S, s): S.ret(ANY)
@contract("osqp_algebra_linsys_supported", setup=lambda B: [])
def _(S): S.ret(3)
@contract("osqp_algebra_default_linsys", setup=lambda B: [])
def _(S): S.ret(1)
