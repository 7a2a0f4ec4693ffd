"""Contracts of algebra/mkl/matrix.c (OSQPMatrix: compressed-column arrays plus an MKL handle on the same arrays)."""
from ..spec import contract
from ..terms import *
from ..heap import *
from .csc import M_, addk, mv_gen, mv_tr, mv_sym, require_triu
from .cscutil import spalloc, spfree

class Mat(M_):
    """an OSQPMatrix: representation invariant required"""
    def __init__(self, S, A):
        self.A = A
        M_.__init__(self, S, S.get(A, "csc"))
        self.sym = S.get(A, "symmetry")
        self.triu = S.branch(Not(Eq(self.sym, 0)))
        if self.triu: require_triu(S, self)
        h = S.get(A, "mkl_mat")
        if S.null(h):
            S.require(Or(Eq(self.nnz, 0), Eq(self.m, 0), Eq(self.n, 0)), "only an empty matrix has no handle")
        elif S.mode != "concrete":
            ps, pe, ix, vals = (S.get(h, f) for f in ("ps", "pe", "ix", "vals"))
            S.require(And(eqt(S.get(h, "rows"), self.m), eqt(S.get(h, "cols"), self.n), ps.rid == self.P.rid, pe.rid == self.P.rid, eqt(ps.off, 0), eqt(pe.off, 1), ix.rid == self.I.rid, vals.rid == self.X.rid), "handle refers to the matrix")
def mat_setup(*extra, square=False, tri=True):
    def setup(B):
        n = B.dim("n"); m = n if square else B.dim("m")
        tr = tri and (square or B.mode == "concrete" and m == n) and B.pick(2, "triu") == 1
        A = B.mat("A", m, n, triu=tr, handles=True)
        return [A] + [f(B, m, n) for f in extra]
    return setup
def V(nm, w):
    return lambda B, m, n: B.vecf(nm, m if w == "m" else n)
def SC(nm): return lambda B, m, n: B.real(nm, vals=[1.0, -1.0, 0.0])
def vecof(S, v, n, what):
    """contents of a vector object that must have length n"""
    S.require(eqt(S.get(v, "length"), n), "length of " + what)
    return S.get(v, "values")

# ---- access
for f_, get in (("OSQPMatrix_get_m", lambda S, c: S.get(c, "m")), ("OSQPMatrix_get_n", lambda S, c: S.get(c, "n")),
                ("OSQPMatrix_get_x", lambda S, c: S.get(c, "x")), ("OSQPMatrix_get_i", lambda S, c: S.get(c, "i")),
                ("OSQPMatrix_get_p", lambda S, c: S.get(c, "p"))):
    def mk(f_, get):
        @contract(f_, setup=mat_setup())
        def _(S, A): S.ret(get(S, S.get(A, "csc")))
    mk(f_, get)
@contract("OSQPMatrix_get_nz", setup=mat_setup())
def _(S, A):
    c = S.get(A, "csc"); n = S.get(c, "n")
    S.ret(S.arr(S.get(c, "p"), addk(n, 1))(n))
@contract("OSQPMatrix_get_csc", setup=mat_setup())
def _(S, A): S.ret(S.call("csc_copy", S.get(A, "csc")))
@contract("OSQPMatrix_is_eq", setup=lambda B: [B.mat("A", B.dim("m"), B.dim("n")), B.mat("B", B.dim("m"), B.dim("n")), B.real("tol")])
def _(S, A, B, tol):
    if not S.branch(eqt(S.get(A, "symmetry"), S.get(B, "symmetry"))): return S.ret(0)
    S.ret(S.call("csc_is_eq", S.get(A, "csc"), S.get(B, "csc"), tol))

# ---- construction
def handle(S, A, c, m, n, i, x):
    if S.branch(Or(Eq(m, 0), Eq(n, 0), i.rid is None or x.rid is None)): S.set(A, "mkl_mat", NULL); return
    h = S.new("cv_mklmat", alloc="mklmat")
    P = S.get(c, "p")
    for f, v in (("rows", m), ("cols", n), ("ps", P), ("pe", Ptr(P.rid, 1)), ("ix", i), ("vals", x)): S.set(h, f, v)
    S.set(A, "mkl_mat", h)
def new_mat(S, m, n, nzmax, p, i, x, triu):
    """a new matrix object with its own MKL-allocated arrays"""
    A = S.newz("OSQPMatrix")
    empty = S.branch(Eq(nzmax, 0))
    c = spalloc(S, m, n, nzmax, not empty, False, alloc="mkl", p=p, i=i, x=x)
    S.set(A, "csc", c); S.set(A, "symmetry", triu)
    if S.mode == "concrete":
        S.set(A, "mkl_mat", ANY); S.st.mem[A.rid]["mkl_mat"] = ANY
    else: handle(S, A, c, m, n, S.get(c, "i"), S.get(c, "x"))
    return A
def newcsc_setup(B):
    m, n = B.dim("m"), B.dim("n")
    if B.pick(2, "empty") == 1:
        A = B.csc("A", m, n); d = B.st.mem[A.rid]
        B.assume(Eq(d["nzmax"], 0)); d["i"] = NULL; d["x"] = NULL; d["nzmax"] = 0
    else: A = B.csc("A", m, n)
    return [A, B.pick(2, "is_triu")]
@contract("OSQPMatrix_new_from_csc", setup=newcsc_setup)
def _(S, A, triu):
    """a private copy of the caller's matrix"""
    a = M_(S, A, values=False)
    nzmax = S.get(A, "nzmax")
    S.require(le(0, nzmax), "capacity not negative"); S.require(le(a.nnz, nzmax), "capacity covers the entries")
    X = S.get(A, "x")
    fi, fx = S.arr(S.get(A, "i"), nzmax, "row indices"), S.arr(X, nzmax, "values")
    if S.ret_null(): return S.ret(NULL)
    t = S.branch(Not(Eq(triu, 0)))
    S.ret(new_mat(S, a.m, a.n, nzmax, a.p, fi, fx, 1 if t else 0))
@contract("OSQPMatrix_free", setup=lambda B: [NULL if B.pick(2, "null") == 1 else B.mat("A", B.dim("m"), B.dim("n"), handles=True)])
def _(S, A):
    if S.null(A): return
    if S.mode != "concrete": S.free(S.get(A, "mkl_mat"), alloc="mklmat")
    spfree(S, S.get(A, "csc"), alloc="mkl")
    S.free(A)

# ---- data
def updm_setup(B):
    m, n = B.dim("m"), B.dim("n"); A = B.mat("M", m, n)
    nnz = B.st.mem[B.st.mem[A.rid]["csc"].rid]["nzmax"]
    if B.pick(2, "idx") == 0:
        k = B.int("k", 0, nnz)
        return [A, B.arr("new", "float", k), NULL, k]
    k = B.dim("cnt")
    if B.mode == "concrete" and nnz == 0: k = 0
    return [A, B.arr("new", "float", k), B.arr("idx", "int", k, lo=0, hi=addk(nnz, -1)), k]
@contract("OSQPMatrix_update_values", setup=updm_setup)
def _(S, A, new, idx, k): S.call("csc_update_values", S.get(A, "csc"), new, idx, k)
@contract("OSQPMatrix_mult_scalar", setup=mat_setup(SC("sc")))
def _(S, A, sc): S.call("csc_scale", S.get(A, "csc"), sc)
@contract("OSQPMatrix_lmult_diag", setup=mat_setup(V("L", "m")))
def _(S, A, L):
    vecof(S, L, S.get(S.get(A, "csc"), "m"), "L"); S.call("csc_lmult_diag", S.get(A, "csc"), S.get(L, "values"))
@contract("OSQPMatrix_rmult_diag", setup=mat_setup(V("R", "n")))
def _(S, A, L):
    vecof(S, L, S.get(S.get(A, "csc"), "n"), "R"); S.call("csc_rmult_diag", S.get(A, "csc"), S.get(L, "values"))
@contract("OSQPMatrix_AtDA_extract_diag", setup=mat_setup(V("D", "m"), V("d", "n")))
def _(S, A, D, d):
    c = S.get(A, "csc")
    S.call("csc_AtDA_extract_diag", c, vecof(S, D, S.get(c, "m"), "D"), vecof(S, d, S.get(c, "n"), "d"))
@contract("OSQPMatrix_extract_diag", setup=mat_setup(V("d", "n"), square=True))
def _(S, A, d):
    c = S.get(A, "csc")
    S.call("csc_extract_diag", c, vecof(S, d, S.get(c, "n"), "d"))
@contract("OSQPMatrix_col_norm_inf", setup=mat_setup(V("E", "n"), tri=False))
def _(S, A, E):
    c = S.get(A, "csc")
    S.call("csc_col_norm_inf", c, vecof(S, E, S.get(c, "n"), "E"))
@contract("OSQPMatrix_row_norm_inf", setup=lambda B: (mat_setup(V("E", "m")) if B.pick(2, "sq") == 0 else mat_setup(V("E", "n"), square=True))(B))
def _(S, A, E):
    """largest magnitude in every row (of the full symmetric matrix when only its upper triangle is stored)"""
    c = S.get(A, "csc")
    E_ = vecof(S, E, S.get(c, "m"), "E")
    if S.branch(Eq(S.get(A, "symmetry"), 0)): S.call("csc_row_norm_inf", c, E_)
    else: S.call("csc_row_norm_inf_sym_triu", c, E_)

# ---- products
def mv_setup(trans, square):
    def setup(B):
        n = B.dim("n"); m = n if square else B.dim("m")
        A = B.mat("A", m, n, triu=square, handles=True)
        nx, ny = (m, n) if trans else (n, m)
        return [A, B.vecf("x", nx), B.vecf("y", ny), B.real("alpha", vals=[1.0, -1.0, 0.0]), B.real("beta", vals=[1.0, -1.0, 0.0])]
    return setup
@contract("OSQPMatrix_Axpy", setup=lambda B: mv_setup(False, B.pick(2, "sym") == 1)(B))
def _(S, A, x, y, al, be):
    """y = alpha A x + beta y, with A the full symmetric matrix when only its upper triangle is stored"""
    M = Mat(S, A)
    X, Y = vecof(S, x, M.n, "x"), vecof(S, y, M.m, "y")
    (mv_sym if M.triu else mv_gen)(S, M, X, Y, al, be)
@contract("OSQPMatrix_Atxpy", setup=lambda B: mv_setup(True, B.pick(2, "sym") == 1)(B))
def _(S, A, x, y, al, be):
    M = Mat(S, A)
    X, Y = vecof(S, x, M.m, "x"), vecof(S, y, M.n, "y")
    (mv_sym if M.triu else mv_tr)(S, M, X, Y, al, be)

def sub_setup(B):
    m, n = B.dim("m"), B.dim("n")
    A = B.mat("A", m, n)
    if B.mode == "bounded":
        vals = [B.pick(2, "row%d" % i) for i in range(m)]
        rows = B.struct("OSQPVectori", "rows", values=B.arrl("rows", "int", vals, "mkl"), length=m)
    else: rows = B.veci("rows", m, lo=0, hi=1)
    return [A, rows]
@contract("OSQPMatrix_submatrix_byrows", setup=sub_setup, opts={"bounded_only": True})
def _(S, A, rows):
    """the matrix of the selected rows, in order, with every entry of those rows"""
    M = Mat(S, A)
    sel = S.arr(vecof(S, rows, M.m, "rows"), M.m, "row selection")
    if M.triu: return S.ret(NULL)
    if S.ret_null(): return S.ret(NULL)
    S.ret(byrows(S, M, sel))
def byrows(S, M, sel):
    on = lambda r: Not(Eq(sel(r), 0))
    kept = lambda q: on(M.i(q))
    rank = lambda r: Fold(0, r, 0, lambda l, a: a + If(on(l), 1, 0))
    pos = lambda q: Fold(0, q, 0, lambda l, a: a + If(kept(l), 1, 0))
    scat = lambda val, init: (lambda t: Fold(0, M.nnz, init, lambda q, a: If(And(kept(q), Eq(pos(q), t)), val(q), a)))
    A = new_mat(S, rank(M.m), M.n, pos(M.nnz), lambda j: pos(M.p(j)), scat(lambda q: rank(M.i(q)), 0), scat(M.x, R(0)), 0)
    if not concrete():
        from ..build import mono
        c = S.get(A, "csc"); p, i = S.arr(S.get(c, "p")), S.arr(S.get(c, "i"))
        S.assume(And(le(0, rank(M.m)), le(0, pos(M.nnz)), Eq(p(z3.IntVal(0)), 0), mono(p, M.n)))
        ok = lambda q: And(le(0, i(q)), lt(i(q), rank(M.m)))
        nz = M.nnz if not isz(M.nnz) else z3.simplify(M.nnz)
        if isz(nz) and z3.is_int_value(nz): nz = nz.as_long()
        S.ensure(Forall(0, pos(M.nnz), ok) if isz(nz) else And(*[Or(le(pos(nz), q), ok(z3.IntVal(q))) for q in range(nz)]), "row indices of the selected rows in range")
    return A
