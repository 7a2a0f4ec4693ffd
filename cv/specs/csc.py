"""Contracts of algebra/_common/csc_math.c (compressed-column kernels)."""
from ..spec import contract
from ..terms import *
from ..heap import *
from ..build import mono

class M_:
    """a compressed-column matrix as seen by a contract"""
    def __init__(self, S, M, well=True, values=True):
        self.S, self.M = S, M
        self.m, self.n = S.get(M, "m"), S.get(M, "n")
        self.P, self.I, self.X = S.get(M, "p"), S.get(M, "i"), S.get(M, "x")
        n1 = addk(self.n, 1)
        self.p = S.arr(self.P, n1, "column pointers")
        self.nnz = self.p(self.n) if not concrete() else self.p(self.n)
        if not isz(self.nnz) and not concrete(): self.nnz = self.nnz
        self.i = intarr(S, self.I, self.nnz, "row indices")
        self.x = S.arr(self.X, self.nnz, "values") if values else None
        if well: self.require_well()
    def require_well(self):
        S, p, i, n, m, nnz = self.S, self.p, self.i, self.n, self.m, self.nnz
        S.require(And(le(0, n), le(0, m)), "matrix dimensions not negative")
        S.require(Eq(p(0) if concrete() else p(z3.IntVal(0)), 0), "column pointers start at zero")
        S.require(mono(p, n), "column pointers nondecreasing")
        S.require(Forall(0, nnz, lambda q: And(i(q) >= 0, i(q) < m)), "row indices in range")
    def col(self, q): return Seg(self.p, self.n, q)
    def setx(self, fn): self.S.wr(self.X, self.nnz, fn, "values")
def intarr(S, p, n, what):
    f = S.arr(p, n, what)
    if p.rid is None: return lambda i: (0 if concrete() else z3.IntVal(0))
    return f
def addk(a, k):
    return a + k if not isz(a) else simp(a + k)

# ------------------------------------------------------------------ raw vectors
def raw1(B):
    n = B.dim("n"); return [B.arr("v", "float", n), B.real("val"), n]
@contract("vec_set_scalar", setup=raw1)
def _(S, v, val, n):
    S.require(le(0, n)); S.wr(v, n, lambda i: val)
@contract("vec_mult_scalar", setup=raw1)
def _(S, v, val, n):
    S.require(le(0, n)); f = S.arr(v, n); S.wr(v, n, lambda i: f(i) * val)
@contract("vec_negate", setup=lambda B: [B.arr("v", "float", B.dim("n")), B.dim("n")])
def _(S, v, n):
    S.require(le(0, n)); f = S.arr(v, n); S.wr(v, n, lambda i: -f(i))

# ------------------------------------------------------------------ values
def upd_setup(B):
    m, n = B.dim("m"), B.dim("n"); M = B.csc("M", m, n)
    nnz = B.st.mem[M.rid]["nzmax"]
    v = B.pick(2)
    if v == 0:
        k = B.int("k", 0, nnz)
        return [M, B.arr("new", "float", k), NULL, k]
    k = B.dim("cnt")
    if B.mode == "concrete" and nnz == 0: k = 0
    return [M, B.arr("new", "float", k), B.arr("idx", "int", k, lo=0, hi=addk(nnz, -1)), k]
@contract("csc_update_values", setup=upd_setup)
def _(S, M, new, idx, k):
    """the addressed entries get the new values in order (later entries win); all others stay"""
    S.require(le(0, k))
    A = M_(S, M, well=False)
    f = S.arr(new, k, "new values")
    if S.null(idx):
        S.require(le(k, A.nnz), "count at most nnz")
        S.wr(A.X, k, f)
    else:
        ix = S.arr(idx, k, "indices")
        S.require(Forall(0, k, lambda i: And(ix(i) >= 0, ix(i) < A.nnz)), "indices in range")
        x = A.x
        A.setx(lambda t: Fold(0, k, x(t), lambda i, a: If(Eq(ix(i), t), f(i), a)))
@contract("csc_scale", setup=lambda B: [B.csc("A", B.dim("m"), B.dim("n")), B.real("sc")])
def _(S, M, sc):
    A = M_(S, M); x = A.x; A.setx(lambda q: x(q) * sc)
@contract("csc_lmult_diag", setup=lambda B: [B.csc("A", B.dim("m"), B.dim("n")), B.arr("d", "float", B.dim("m"))])
def _(S, M, d):
    A = M_(S, M); x = A.x; f = S.arr(d, A.m, "diagonal"); A.setx(lambda q: x(q) * f(A.i(q)))
@contract("csc_rmult_diag", setup=lambda B: [B.csc("A", B.dim("m"), B.dim("n")), B.arr("d", "float", B.dim("n"))])
def _(S, M, d):
    A = M_(S, M); x = A.x; f = S.arr(d, A.n, "diagonal"); A.setx(lambda q: x(q) * f(A.col(q)))
@contract("csc_AtDA_extract_diag", setup=lambda B: [B.csc("A", B.dim("m"), B.dim("n")), B.arr("D", "float", B.dim("m")), B.arr("d", "float", B.dim("n"))])
def _(S, M, D, d):
    """d[j] = sum over the entries of column j of A_ij^2 D_i"""
    A = M_(S, M); g = S.arr(D, A.m, "weights")
    S.wr(d, A.n, lambda j: Fold(0, A.p(addk(j, 1)) - A.p(j), R(0), lambda q, a: a + A.x(A.p(j) + q) * A.x(A.p(j) + q) * g(A.i(A.p(j) + q))))

def axpy_setup(square=False, trans=False):
    def setup(B):
        n = B.dim("n"); m = n if square else B.dim("m")
        A = B.csc("A", m, n, triu=square)
        nx, ny = (m, n) if trans else (n, m)
        return [A, B.arr("x", "float", nx), B.arr("y", "float", ny), B.real("alpha", vals=[1.0, -1.0, 0.0]), B.real("beta", vals=[1.0, -1.0, 0.0])]
    return setup
def scaled(be, y, t):
    """be*y(t); y is not read when be == 0"""
    if concrete(): return 0.0 if be == 0 else be * y(t)
    return be * y(t)
def mv_gen(S, A, xv, yv, al, be):
    x, y = S.arr(xv, A.n, "x"), S.arr(yv, A.m, "y")
    S.wr(yv, A.m, lambda t: Fold(0, A.nnz, scaled(be, y, t), lambda q, a: a + If(Eq(A.i(q), t), al * A.x(q) * x(A.col(q)), R(0))))
def mv_tr(S, A, xv, yv, al, be):
    x, y = S.arr(xv, A.m, "x"), S.arr(yv, A.n, "y")
    S.wr(yv, A.n, lambda j: Fold(0, A.p(addk(j, 1)) - A.p(j), scaled(be, y, j), lambda q, a: a + al * A.x(A.p(j) + q) * x(A.i(A.p(j) + q))))
def require_triu(S, A):
    S.require(eqt(A.m, A.n), "square")
    S.require(Forall(0, A.nnz, lambda q: A.i(q) <= A.col(q)), "upper triangular")
def mv_sym(S, A, xv, yv, al, be, upper=False):
    x, y = S.arr(xv, A.n, "x"), S.arr(yv, A.n, "y")
    S.require(eqt(A.m, A.n), "square")
    if upper: require_triu(S, A)
    def step(t):
        def f(q, a):
            i, j = A.i(q), A.col(q)
            return a + If(Eq(i, t), al * A.x(q) * x(j), R(0)) + If(And(Eq(j, t), Not(Eq(i, j))), al * A.x(q) * x(i), R(0))
        return f
    S.wr(yv, A.n, lambda t: Fold(0, A.nnz, scaled(be, y, t), step(t)))
@contract("csc_Axpy", setup=axpy_setup())
def _(S, M, xv, yv, al, be): mv_gen(S, M_(S, M), xv, yv, al, be)
@contract("csc_Atxpy", setup=axpy_setup(trans=True))
def _(S, M, xv, yv, al, be): mv_tr(S, M_(S, M), xv, yv, al, be)
@contract("csc_Axpy_sym_triu", setup=axpy_setup(square=True))
def _(S, M, xv, yv, al, be): mv_sym(S, M_(S, M), xv, yv, al, be)
@contract("csc_col_norm_inf", setup=lambda B: [B.csc("M", B.dim("m"), B.dim("n")), B.arr("E", "float", B.dim("n"))])
def _(S, M, E):
    A = M_(S, M)
    S.wr(E, A.n, lambda j: MaxAbs(0, A.p(addk(j, 1)) - A.p(j), lambda q: A.x(A.p(j) + q)))
@contract("csc_row_norm_inf", setup=lambda B: [B.csc("M", B.dim("m"), B.dim("n")), B.arr("E", "float", B.dim("m"))])
def _(S, M, E):
    A = M_(S, M)
    S.wr(E, A.m, lambda t: Fold(0, A.nnz, R(0), lambda q, a: If(Eq(A.i(q), t), Max(Abs(A.x(q)), a), a)))
@contract("csc_row_norm_inf_sym_triu", setup=lambda B: [B.csc("M", B.dim("n"), B.dim("n"), triu=True), B.arr("E", "float", B.dim("n"))])
def _(S, M, E):
    A = M_(S, M)
    S.require(eqt(A.m, A.n), "square")
    S.wr(E, A.n, lambda t: Fold(0, A.nnz, R(0), lambda q, a: If(Or(Eq(A.i(q), t), Eq(A.col(q), t)), Max(Abs(A.x(q)), a), a)))
