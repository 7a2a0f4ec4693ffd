"""Contracts of algebra/mkl/vector.c (element-wise vector operations)."""
from ..spec import contract
from ..terms import *
from ..heap import *

# ------------------------------------------------------------------ pre-states
def vecs(spec, extra=None):
    """spec: string of argument names; 'x=a' lists optional aliases.  Each argument is a vector of common length n >= 0.
    Variants: no aliasing, every listed aliasing, and the empty vector without storage."""
    def setup(B):
        names, alias = spec
        n = B.dim("n")
        v = B.pick(len(alias) + 2, "shape")
        null0 = (v == len(alias) + 1)
        if null0:
            B.assume(Eq(n, 0)) if B.mode != "concrete" else None
            n = 0
        objs = {}
        for nm in names: objs[nm] = None
        al = alias[v - 1] if 1 <= v <= len(alias) else ()
        for a, b in al: objs[a] = ("alias", b)
        for nm in names:
            if objs[nm] is None: objs[nm] = B.vecf(nm, n, null0=null0)
        for nm in names:
            if isinstance(objs[nm], tuple): objs[nm] = objs[objs[nm][1]]
        args = [objs[nm] for nm in names]
        if extra: args = extra(B, args, n, null0)
        return args
    return setup
def A1(*pairs): return [tuple([p]) for p in pairs]
def same(S, *vs):
    """the vectors have equal lengths"""
    n = S.get(vs[0], "length")
    for v in vs[1:]: S.require(eqt(n, S.get(v, "length")), "equal vector lengths")
    return n
def rd(S, v): return S.vec(v)[1]

def vec_new_setup(elem):
    def setup(B):
        n = B.dim("n")
        v = B.pick(2)
        if v == 1: return [NULL, 0]
        return [B.arr("a", elem, n), n]
    return setup
def dim_setup(B): return [B.dim("n")]

# ------------------------------------------------------------------ construction / release
def mk_alloc(name, elem, zero):
    ty = "OSQPVectorf" if elem == "float" else "OSQPVectori"
    @contract(name, setup=dim_setup)
    def _(S, n):
        S.require(le(0, n), "length not negative")
        if S.ret_null(): return S.ret(NULL)
        p = S.new(ty)
        S.set(p, "length", n)
        if S.branch(eqt(n, 0)): S.set(p, "values", NULL)
        else: S.set(p, "values", S.newarr(elem, n, (lambda i: R(0) if elem == "float" else 0) if zero else None, alloc="mkl", name=name))
        S.ret(p)
mk_alloc("OSQPVectorf_malloc", "float", False)
mk_alloc("OSQPVectori_malloc", "int", False)
mk_alloc("OSQPVectorf_calloc", "float", True)
mk_alloc("OSQPVectori_calloc", "int", True)

def mk_new(name, elem):
    ty = "OSQPVectorf" if elem == "float" else "OSQPVectori"
    @contract(name, setup=vec_new_setup(elem))
    def _(S, a, n):
        """a private copy of a[0..n)"""
        S.require(le(0, n), "length not negative")
        f = S.arr(a, n, "source")
        if S.ret_null(): return S.ret(NULL)
        p = S.new(ty)
        S.set(p, "length", n)
        if S.branch(eqt(n, 0)): S.set(p, "values", NULL)
        else: S.set(p, "values", S.newarr(elem, n, f, alloc="mkl", name=name))
        S.ret(p)
mk_new("OSQPVectorf_new", "float")
mk_new("OSQPVectori_new", "int")

@contract("OSQPVectorf_copy_new", setup=vecs((["a"], [])))
def _(S, a):
    n, f = S.vec(a)
    if S.ret_null(): return S.ret(NULL)
    p = S.new("OSQPVectorf")
    S.set(p, "length", n)
    if S.branch(eqt(n, 0)): S.set(p, "values", NULL)
    else: S.set(p, "values", S.newarr("float", n, f, alloc="mkl", name="copy"))
    S.ret(p)

def free_setup(mk):
    def setup(B):
        v = B.pick(3)
        if v == 0: return [NULL]
        n = B.dim("n") if v == 1 else 0
        return [mk(B)("a", n, null0=(v == 2))]
    return setup
def mk_free(name, mk):
    @contract(name, setup=free_setup(mk))
    def _(S, a):
        if S.null(a): return
        S.free(S.get(a, "values"), "mkl"); S.free(a, "c")
mk_free("OSQPVectorf_free", lambda B: B.vecf)
mk_free("OSQPVectori_free", lambda B: B.veci)

@contract("OSQPVectorf_view", setup=lambda B: view_setup(B))
def _(S, a, head, n):
    if S.ret_null(): return S.ret(NULL)
    p = S.new("OSQPVectorf")
    set_view(S, p, a, head, n)
    S.ret(p)
def set_view(S, p, a, head, n):
    ln = S.get(a, "length"); vals = S.get(a, "values")
    S.require(And(le(0, head), le(0, n), le(add_(head, n), ln)), "view inside the vector")
    S.set(p, "length", n)
    S.set(p, "values", vals if vals.rid is None else Ptr(vals.rid, add_(vals.off, head), vals.path))
def add_(a, b):
    if not isz(a) and not isz(b): return a + b
    return simp(lift(a) + lift(b))
def view_setup(B):
    ln = B.dim("len"); h = B.int("head", 0, ln); n = B.int("n", 0, (ln - h))
    return [B.vecf("a", ln), h, n]
@contract("OSQPVectorf_view_update", setup=lambda B: [B.vecf("v", B.dim("m"))] + view_setup(B))
def _(S, p, a, head, n): set_view(S, p, a, head, n)
@contract("OSQPVectorf_view_free", setup=lambda B: [NULL if B.pick(2) else B.vecf("a", B.dim("n"))])
def _(S, a):
    if not S.null(a): S.free(a, "c")

for ty, mk in (("OSQPVectorf", lambda B: B.vecf), ("OSQPVectori", lambda B: B.veci)):
    @contract(ty + "_length", setup=lambda B, mk=mk: [mk(B)("a", B.dim("n"))])
    def _(S, a): S.ret(S.get(a, "length"))
@contract("OSQPVectorf_data", setup=vecs((["a"], [])))
def _(S, a): S.ret(S.get(a, "values"))

# ------------------------------------------------------------------ copies and scalars
@contract("OSQPVectorf_copy", setup=vecs((["b", "a"], A1(("b", "a")))))
def _(S, b, a):
    same(S, a, b); f = rd(S, a)
    S.setvec(b, f)
def raw_setup(order):
    def setup(B):
        n = B.dim("n"); v = B.pick(2)
        if v: n = 0
        vec = B.vecf("v", n, null0=bool(v)); raw = NULL if v else B.arr("raw", "float", n)
        return [vec, raw] if order else [raw, vec]
    return setup
@contract("OSQPVectorf_from_raw", setup=raw_setup(1))
def _(S, b, av):
    n = S.get(b, "length"); S.setvec(b, S.arr(av, n, "source"))
@contract("OSQPVectorf_to_raw", setup=raw_setup(0))
def _(S, bv, a):
    n, f = S.vec(a); S.wr(bv, n, f)
def rawi_setup(order):
    def setup(B):
        n = B.dim("n")
        vec = B.veci("v", n); raw = B.arr("raw", "int", n)
        return [vec, raw] if order else [raw, vec]
    return setup
@contract("OSQPVectori_from_raw", setup=rawi_setup(1))
def _(S, b, av):
    n = S.get(b, "length"); S.setvec(b, S.arr(av, n, "source"))
@contract("OSQPVectori_to_raw", setup=rawi_setup(0))
def _(S, bv, a):
    n, f = S.vec(a); S.wr(bv, n, f)
@contract("OSQPVectorf_set_scalar", setup=vecs((["a"], []), lambda B, a, n, z: a + [B.real("sc")]))
def _(S, a, sc): S.setvec(a, lambda i: sc)
@contract("OSQPVectorf_set_scalar_conditional",
          setup=vecs((["a"], []), lambda B, a, n, z: a + [B.veci("test", n, null0=z, lo=-2, hi=2), B.real("neg"), B.real("zero"), B.real("pos")]))
def _(S, a, test, neg, zero, pos):
    same(S, a, test); t = rd(S, test)
    S.setvec(a, lambda i: If(Eq(t(i), 0), zero, If(t(i) > 0, pos, neg)))
@contract("OSQPVectorf_round_to_zero", setup=vecs((["a"], []), lambda B, a, n, z: a + [B.real("tol")]))
def _(S, a, tol):
    f = rd(S, a); S.setvec(a, lambda i: If(Abs(f(i)) < tol, R(0), f(i)))
@contract("OSQPVectorf_mult_scalar", setup=vecs((["a"], []), lambda B, a, n, z: a + [B.real("sc")]))
def _(S, a, sc):
    f = rd(S, a); S.setvec(a, lambda i: f(i) * sc)

# ------------------------------------------------------------------ element-wise
def ew2(name, op):
    @contract(name, setup=vecs((["x", "a", "b"], A1(("x", "a"), ("x", "b"), ("a", "b")))))
    def _(S, x, a, b):
        same(S, a, b, x); f, g = rd(S, a), rd(S, b)
        S.setvec(x, lambda i: op(f(i), g(i)))
ew2("OSQPVectorf_plus", lambda a, b: a + b)
ew2("OSQPVectorf_minus", lambda a, b: a - b)
ew2("OSQPVectorf_ew_prod", lambda a, b: a * b)
ew2("OSQPVectorf_ew_max_vec", Max)
ew2("OSQPVectorf_ew_min_vec", Min)

@contract("OSQPVectorf_add_scaled",
          setup=vecs((["x", "a", "b"], A1(("x", "a"), ("x", "b"))), lambda B, v, n, z: [v[0], B.real("sca", vals=[1.0]), v[1], B.real("scb"), v[2]]))
def _(S, x, sca, a, scb, b):
    """x = sca a + scb b"""
    same(S, x, a, b); f, g = rd(S, a), rd(S, b)
    S.setvec(x, lambda i: sca * f(i) + scb * g(i))
@contract("OSQPVectorf_add_scaled3",
          setup=vecs((["x", "a", "b", "c"], A1(("x", "a"), ("x", "b"), ("x", "c"))),
                     lambda B, v, n, z: [v[0], B.real("sca", vals=[1.0]), v[1], B.real("scb"), v[2], B.real("scc"), v[3]]))
def _(S, x, sca, a, scb, b, scc, c):
    same(S, x, a, b, c); f, g, h = rd(S, a), rd(S, b), rd(S, c)
    S.setvec(x, lambda i: sca * f(i) + scb * g(i) + scc * h(i))

@contract("OSQPVectorf_norm_inf", setup=vecs((["v"], [])))
def _(S, v):
    n, f = S.vec(v); S.ret(MaxAbs(0, n, f))
@contract("OSQPVectorf_scaled_norm_inf", setup=vecs((["S", "v"], A1(("S", "v")))))
def _(S, s, v):
    n = same(S, v, s); f, g = rd(S, s), rd(S, v)
    S.ret(MaxAbs(0, n, lambda i: f(i) * g(i)))
@contract("OSQPVectorf_norm_inf_diff", setup=vecs((["a", "b"], A1(("a", "b")))))
def _(S, a, b):
    n = same(S, a, b); f, g = rd(S, a), rd(S, b)
    S.ret(MaxAbs(0, n, lambda i: f(i) - g(i)))
@contract("OSQPVectorf_norm_1", setup=vecs((["a"], [])))
def _(S, a):
    n, f = S.vec(a); S.ret(Sum(0, n, lambda i: Abs(f(i))))
@contract("OSQPVectorf_dot_prod", setup=vecs((["a", "b"], A1(("a", "b")))))
def _(S, a, b):
    n = same(S, a, b); f, g = rd(S, a), rd(S, b)
    S.ret(Sum(0, n, lambda i: f(i) * g(i)))
@contract("OSQPVectorf_dot_prod_signed", setup=vecs((["a", "b"], A1(("a", "b"))), lambda B, v, n, z: v + [B.int("sign", -2, 2)]))
def _(S, a, b, sign):
    n = same(S, a, b); f, g = rd(S, a), rd(S, b)
    if S.branch(Eq(sign, 1)): S.ret(Sum(0, n, lambda i: f(i) * Max(g(i), R(0))))
    elif S.branch(Eq(sign, -1)): S.ret(Sum(0, n, lambda i: f(i) * Min(g(i), R(0))))
    else: S.ret(Sum(0, n, lambda i: f(i) * g(i)))
@contract("OSQPVectorf_ew_reciprocal", setup=vecs((["b", "a"], A1(("b", "a")))))
def _(S, b, a):
    same(S, a, b); f = rd(S, a); S.setvec(b, lambda i: Div(R(1), f(i)))
@contract("OSQPVectorf_ew_sqrt", setup=vecs((["a"], []), lambda B, v, n, z: v))
def _(S, a):
    f = rd(S, a); S.setvec(a, lambda i: Sqrt(f(i)))
def ews(name, op):
    @contract(name, setup=vecs((["c", "a"], A1(("c", "a"))), lambda B, v, n, z: v + [B.real("val")]))
    def _(S, c, a, val):
        same(S, a, c); f = rd(S, a); S.setvec(c, lambda i: op(f(i), val))
ews("OSQPVectorf_ew_max", Max)
ews("OSQPVectorf_ew_min", Min)
@contract("OSQPVectorf_ew_bound_vec", setup=vecs((["x", "z", "l", "u"], A1(("x", "z")))))
def _(S, x, z, l, u):
    """projection of z onto [l, u]"""
    same(S, x, z, l, u); f, lo, hi = rd(S, z), rd(S, l), rd(S, u)
    S.setvec(x, lambda i: Min(Max(f(i), lo(i)), hi(i)))
@contract("OSQPVectorf_project_polar_reccone", setup=vecs((["y", "l", "u"], []), lambda B, v, n, z: v + [B.real("infval", 0, vals=[1e20, 1.0])]))
def _(S, y, l, u, inf):
    same(S, y, l, u); f, lo, hi = rd(S, y), rd(S, l), rd(S, u)
    S.setvec(y, lambda i: If(hi(i) > inf, If(lo(i) < -inf, R(0), Min(f(i), R(0))), If(lo(i) < -inf, Max(f(i), R(0)), f(i))))
@contract("OSQPVectorf_in_reccone", setup=vecs((["y", "l", "u"], []), lambda B, v, n, z: v + [B.real("infval", 0, vals=[1e20, 1.0]), B.real("tol", 0, 1)]))
def _(S, y, l, u, inf, tol):
    n = same(S, y, l, u); f, lo, hi = rd(S, y), rd(S, l), rd(S, u)
    S.ret(Forall(0, n, lambda i: And(Or(hi(i) >= inf, f(i) <= tol), Or(lo(i) <= -inf, f(i) >= -tol))))
@contract("OSQPVectorf_all_leq", setup=vecs((["l", "u"], A1(("l", "u")))))
def _(S, l, u):
    n = same(S, l, u); f, g = rd(S, l), rd(S, u)
    S.ret(Forall(0, n, lambda i: f(i) <= g(i)))
@contract("OSQPVectorf_ew_bounds_type",
          setup=vecs((["l", "u"], []), lambda B, v, n, z: [B.veci("iseq", n, null0=z, lo=-1, hi=1)] + v + [B.real("tol", 0, 1), B.real("infval", 0, vals=[1e20, 1.0])]))
def _(S, iseq, l, u, tol, inf):
    n = same(S, iseq, l, u); lo, hi, old = rd(S, l), rd(S, u), rd(S, iseq)
    ty = lambda i: If(And(lo(i) < -inf, hi(i) > inf), -1, If(hi(i) - lo(i) < tol, 1, 0))
    S.setvec(iseq, ty)
    S.ret(Exists(0, n, lambda i: Not(Eq(ty(i), old(i)))))
def cond(name, test):
    @contract(name, setup=vecs((["x", "z"], A1(("x", "z"))), lambda B, v, n, z: v + [B.real("test"), B.real("new")]))
    def _(S, x, z, tv, nv):
        same(S, x, z); f = rd(S, z); S.setvec(x, lambda i: If(test(f(i), tv), nv, f(i)))
cond("OSQPVectorf_set_scalar_if_lt", lambda a, b: a < b)
cond("OSQPVectorf_set_scalar_if_gt", lambda a, b: a > b)
@contract("OSQPVectorf_is_eq", setup=lambda B: [B.vecf("A", B.dim("n")), B.vecf("B", B.dim("n") if B.pick(2) == 0 else B.dim("n2")), B.real("tol", 0, 1)])
def _(S, A, B, tol):
    n, m = S.get(A, "length"), S.get(B, "length")
    if not S.branch(eqt(n, m)): return S.ret(0)
    f, g = rd(S, A), rd(S, B)
    S.ret(Forall(0, n, lambda i: Abs(f(i) - g(i)) <= tol))
