"""Assumed contracts of the dependencies: C library and Intel MKL.  They are trusted (listed in every evidence file) and
never verified here."""
from ..spec import contract, CONTRACTS, Spec, Unsupported
from ..terms import *
from ..heap import *
from .. import terms as T

def ext(name, **kw):
    return contract(name, trusted=True, **kw)

# ---- memory: not ordinary contracts, the outcomes are two states (success, failure)
class AllocSpec(Spec):
    def __init__(self, name, size, zero, alloc):
        Spec.__init__(self, name, None, trusted=True)
        self.size, self.zero, self.alloc = size, zero, alloc
    def apply(self, ex, st, args, node):
        return ex.malloc(st, self.size(*args), node, self.zero, self.alloc)
def mulz(a, b):
    a, b = as_int(a), as_int(b)
    if not isz(a) and not isz(b): return a * b
    return lift(a) * lift(b)
CONTRACTS["malloc"] = AllocSpec("malloc", lambda n: n, False, "c")
CONTRACTS["calloc"] = AllocSpec("calloc", mulz, True, "c")
CONTRACTS["MKL_malloc"] = AllocSpec("MKL_malloc", lambda n, a: n, False, "mkl")
CONTRACTS["MKL_calloc"] = AllocSpec("MKL_calloc", lambda n, s, a: mulz(n, s), True, "mkl")
class FreeSpec(Spec):
    def __init__(self, name, alloc):
        Spec.__init__(self, name, None, trusted=True); self.alloc = alloc
    def apply(self, ex, st, args, node):
        p = args[0]
        if p is None: raise Unsupported("release of an undefined pointer")
        ex.free(st, p, node, self.alloc)
        return [(st, None)]
CONTRACTS["free"] = FreeSpec("free", "c")
CONTRACTS["MKL_free"] = FreeSpec("MKL_free", "mkl")

# ---- printing / strings / time / signals: no effect on program state
class NoEffect(Spec):
    def __init__(self, name): Spec.__init__(self, name, None, trusted=True)
    def apply(self, ex, st, args, node): return [(st, fresh("printed", INT))]
for nm in ("printf", "sigemptyset", "sigaction", "fflush"):
    CONTRACTS[nm] = NoEffect(nm)

@ext("snprintf")
def _(S, buf, n, *rest):
    S.havoc_arr(buf)
    S.ret(fresh("snprintf", INT))

@ext("clock_gettime")
def _(S, clk, ts):
    s = fresh("sec", INT); ns = fresh("nsec", INT)
    S.set(ts, "tv_sec", s); S.set(ts, "tv_nsec", ns)
    S.assume(And(s >= 0, ns >= 0, ns < 1000000000))
    S.ret(0)

@ext("sqrt")
def _(S, x): S.ret(Sqrt(x))
@ext("fmod")
def _(S, x, y):
    v = fresh("fmod", REAL)
    S.assume(z3.And(v >= 0, v < z3.If(y > 0, y, -y)) if isz(y) else True)
    S.ret(v)

# ---- BLAS level 1 / VML
def strided(S, p, n, inc, what="vector"):
    """element i of a strided BLAS vector"""
    i0 = simp(inc)
    if isz(i0): raise Unsupported("symbolic stride")
    if i0 == 0:
        f = S.arr(p, None, what) if p.rid is not None else S.arr(p, n, what)
        if p.rid is not None: S.require(Or(le(n, 0), le(1, S.len(p) if S.st.reg[p.rid].kind == "arr" else 1)), what + " readable")
        return lambda i: f(0)
    if i0 == 1: return S.arr(p, n, what)
    raise Unsupported("stride")
def nonneg(S, n): S.require(le(0, n), "length not negative")

def disjoint_or_same(S, out, n, *ins):
    """BLAS/VML allow in-place operation but not partial overlap"""
    for q in ins:
        if out.rid is not None and q.rid == out.rid and S.st.reg[q.rid].kind == "arr":
            c = eqt(q.off, out.off)
            S.require(Or(c, le(addi2(q.off, n), out.off), le(addi2(out.off, n), q.off)), "operands do not partially overlap")
def addi2(a, b): return simp(lift(a) + lift(b)) if (isz(a) or isz(b)) else a + b

@ext("cblas_dcopy")
def _(S, n, x, incx, y, incy):
    nonneg(S, n)
    f = strided(S, x, n, incx, "source")
    if simp(incy) != 1: raise Unsupported("stride")
    disjoint_or_same(S, y, n, x)
    S.wr(y, n, f)
@ext("cblas_dscal")
def _(S, n, a, x, incx):
    f = strided(S, x, n, incx)
    S.wr(x, n, lambda i: a * f(i))
@ext("cblas_daxpy")
def _(S, n, a, x, incx, y, incy):
    f, g = strided(S, x, n, incx), strided(S, y, n, incy)
    disjoint_or_same(S, y, n, x)
    S.wr(y, n, lambda i: g(i) + a * f(i))
@ext("cblas_ddot")
def _(S, n, x, incx, y, incy):
    f, g = strided(S, x, n, incx), strided(S, y, n, incy)
    S.ret(Sum(0, n, lambda i: f(i) * g(i)))
@ext("cblas_dasum")
def _(S, n, x, incx):
    f = strided(S, x, n, incx)
    S.ret(Sum(0, n, lambda i: Abs(f(i))))
@ext("cblas_idamax")
def _(S, n, x, incx):
    """an index of an entry of largest magnitude"""
    f = strided(S, x, n, incx)
    S.require(le(1, n), "nonempty")
    r = fresh("iamax", INT)
    S.assume(z3.And(0 <= r, r < lift(n)))
    S.assume(Eq(Abs(f(r)), MaxAbs(0, n, f)))
    S.ret(r)
def vml2(name, op):
    @ext(name)
    def _(S, n, a, b, y):
        nonneg(S, n)
        f, g = S.arr(a, n, "operand"), S.arr(b, n, "operand")
        disjoint_or_same(S, y, n, a, b)
        S.wr(y, n, lambda i: op(f(i), g(i)))
vml2("vdAdd", lambda x, y: x + y)
vml2("vdSub", lambda x, y: x - y)
vml2("vdMul", lambda x, y: x * y)
vml2("vdFmax", Max)
vml2("vdFmin", Min)
def vml1(name, op):
    @ext(name)
    def _(S, n, a, y):
        nonneg(S, n)
        f = S.arr(a, n, "operand")
        disjoint_or_same(S, y, n, a)
        S.wr(y, n, lambda i: op(f(i)))
vml1("vdInv", lambda x: Div(R(1), x))
vml1("vdSqrt", Sqrt)
def vmli(name, op):
    @ext(name)
    def _(S, n, a, inca, b, incb, y, incy):
        nonneg(S, n)
        f, g = strided(S, a, n, inca), strided(S, b, n, incb)
        if simp(incy) != 1: raise Unsupported("stride")
        S.wr(y, n, lambda i: op(f(i), g(i)))
vmli("vdFmaxI", Max)
vmli("vdFminI", Min)

# ---- MKL inspector-executor sparse BLAS.  A handle refers to the arrays it was created from.
def mkl_empty(rows, cols, ix, vals):
    return Or(Eq(rows, 0), Eq(cols, 0), ix.rid is None or vals.rid is None)
@ext("mkl_sparse_d_create_csc")
def _(S, out, base, rows, cols, ps, pe, ix, vals):
    """0: a handle; NOT_INITIALIZED(1) and no handle for an empty matrix; otherwise an error code (allocation failure)"""
    S.require(And(le(0, rows), le(0, cols)), "dimensions not negative")
    S.require(Eq(base, 0), "zero based")
    if S.branch(mkl_empty(rows, cols, ix, vals)):
        S.assign(out, NULL); return S.ret(1)
    if not S.ex.opts.get("nofail") and S.choose(lambda r, v: Not(Eq(r, 0))):
        S.st.oom = True
        S.assign(out, NULL); return S.ret(2)
    h = S.new("cv_mklmat", alloc="mklmat")
    for f, v in (("rows", rows), ("cols", cols), ("ps", ps), ("pe", pe), ("ix", ix), ("vals", vals)): S.set(h, f, v)
    S.assign(out, h); S.ret(0)
@ext("mkl_sparse_destroy")
def _(S, h):
    S.free(h, alloc="mklmat"); S.ret(0)
def handle_csc(S, h):
    """the compressed-column matrix behind a handle"""
    from .csc import M_, intarr
    class H(M_):
        def __init__(self):
            self.S = S; self.M = h
            self.m, self.n = S.get(h, "rows"), S.get(h, "cols")
            self.P, self.I, self.X = S.get(h, "ps"), S.get(h, "ix"), S.get(h, "vals")
            n1 = addi2(self.n, 1)
            self.p = S.arr(self.P, n1, "column pointers")
            pe = S.get(h, "pe")
            S.require(And(pe.rid == self.P.rid, eqt(pe.off, addi2(self.P.off, 1))), "column ends follow column starts")
            self.nnz = self.p(self.n)
            self.i = intarr(S, self.I, self.nnz, "row indices"); self.x = S.arr(self.X, self.nnz, "values")
            self.require_well()
    return H()
@ext("mkl_sparse_d_mv")
def _(S, op, alpha, h, descr, x, beta, y):
    """y = alpha op(A) x + beta y; without a handle nothing happens"""
    if S.null(h): return S.ret(1)
    from .csc import mv_gen, mv_tr, mv_sym
    A = handle_csc(S, h)
    ty = simp(descr["type"]); op = simp(op)
    if isz(ty) or isz(op): raise Unsupported("symbolic sparse operation")
    ty, op = int(str(ty)), int(str(op))
    if ty == S.ex.prog.enums["SPARSE_MATRIX_TYPE_GENERAL"]:
        (mv_gen if op == S.ex.prog.enums["SPARSE_OPERATION_NON_TRANSPOSE"] else mv_tr)(S, A, x, y, alpha, beta)
    elif ty == S.ex.prog.enums["SPARSE_MATRIX_TYPE_SYMMETRIC"]:
        S.require(Eq(descr["mode"], S.ex.prog.enums["SPARSE_FILL_MODE_UPPER"]), "upper triangle stored")
        mv_sym(S, A, x, y, alpha, beta, upper=True)
    else: raise Unsupported("sparse matrix type")
    S.ret(0)
@ext("mkl_sparse_d_export_csc")
def _(S, h, base, rows, cols, ps, pe, ix, vals):
    if S.null(h): return S.ret(1)
    S.assign(base, 0)
    for o, f in ((rows, "rows"), (cols, "cols"), (ps, "ps"), (pe, "pe"), (ix, "ix"), (vals, "vals")): S.assign(o, S.get(h, f))
    S.ret(0)

# ---- MKL service functions
@ext("MKL_Set_Interface_Layer")
def _(S, k): S.ret(S.event("mkl_interface", [k], ["int"])[0])
