"""Contracts of algebra/_common/kkt.c (assembly and update of the quasi-definite system [P + s I, A'; A, -diag(r)])."""
from ..spec import contract
from ..terms import *
from ..heap import *
from .csc import M_, addk, intarr
from .cscutil import spalloc
from ..build import mono

def cint(x):
    if not isz(x): return int(x)
    x = z3.simplify(x)
    if not z3.is_int_value(x): raise Unsupported("sparsity is not concrete")
    return x.as_long()

def require_sorted(S, A):
    """rows of a column strictly increasing"""
    S.require(Forall(0, addk(A.nnz, -1), lambda q: Or(Not(Eq(A.col(q), A.col(addk(q, 1)))), A.i(q) < A.i(addk(q, 1)))), "sorted columns")

def kkt_setup(B):
    n = B.dim("n", 1); m = B.dim("m", 0)
    fmt = B.pick(2, "format")
    P = B.csc("P", n, n, triu=True, every=True); A = B.csc("A", m, n, every=True)
    v = B.pick(2, "param2")
    p2 = B.arr("param2", "float", m) if v == 0 else NULL
    if v == 0 or fmt == 0:
        a1, a2, a3 = (B.arr(k, "int", B.st.mem[M.rid]["nzmax"] if M else m) for k, M in (("PtoKKT", P), ("AtoKKT", A), ("rhotoKKT", None)))
    else: a1 = a2 = a3 = NULL
    return [P, A, fmt, B.real("param1"), p2, B.real("param2_sc"), a1, a2, a3]

def kkt_layout(P, A, n, m, fmt):
    """the entries of the triangular system in storage order: (row index, kind, source)"""
    pc = [[(cint(P.i(q)), q) for q in range(cint(P.p(j)), cint(P.p(j + 1)))] for j in range(n)]
    ac = [[(cint(A.i(q)), q) for q in range(cint(A.p(j)), cint(A.p(j + 1)))] for j in range(n)]
    cols = []
    if fmt == 0:                  # upper triangle by columns
        for j in range(n):
            c = [(i, "P", q) for i, q in pc[j]]
            if not pc[j] or pc[j][-1][0] != j: c.append((j, "0", None))
            cols.append(c)
        for r in range(m):
            cols.append([(j, "A", q) for j in range(n) for i, q in ac[j] if i == r] + [(n + r, "R", r)])
    else:                         # upper triangle by rows
        for r in range(n):
            c = []
            if not any(i == r for i, q in pc[r]): c.append((r, "0", None))
            c += [(j, "P", q) for j in range(n) for i, q in pc[j] if i == r]
            c += [(n + i, "A", q) for i, q in ac[r]]
            cols.append(c)
        for r in range(m): cols.append([(n + r, "R", r)])
    return cols

def form_KKT_call(S, P, A, fmt, param1, param2, sc, toP, toA, toR, fails=True):
    """one assembled system: an opaque function of its arguments (what it is: contract of form_KKT)"""
    p, a = M_(S, P), M_(S, A)
    S.require(eqt(p.m, p.n), "square"); S.require(eqt(p.n, a.n), "same number of columns")
    n, m = p.n, a.m
    if fails and S.ret_null(): return NULL
    nk = addi_(n, m)
    if S.mode == "call": nnz = fresh("nnzKKT", INT)
    else:
        tr = S.actual[0].trace
        nnz = next((t[2][0] for t in tr if t[0] == "form_KKT"), z3.IntVal(0))
    snap = lambda f, k: ("arr", f, k)
    none = ("arr", lambda i: R(0), 0)
    z = lambda t: z3.IntVal(0)
    K = spalloc(S, nk, nk, nnz, True, False, p=z, i=z, x=lambda t: z3.RealVal(0))
    outs = [("arr", S.get(K, "p"), addk(nk, 1)), ("arr", S.get(K, "i"), nnz), ("arr", S.get(K, "x"), nnz)]
    for t, k in ((toP, p.nnz), (toA, a.nnz), (toR, m)):
        if not S.null(t): outs.append(("arr", t, k))
    S.event("form_KKT", [n, m, snap(p.p, addk(n, 1)), snap(p.i, p.nnz), snap(p.x, p.nnz), snap(a.p, addk(n, 1)), snap(a.i, a.nnz), snap(a.x, a.nnz), fmt, param1,
                         none if S.null(param2) else snap(S.arr(param2, m), m), sc], [("val", nnz)] + outs)
    # consequences of the contract that callers use
    kp, ki = S.arr(S.get(K, "p")), S.arr(S.get(K, "i"))
    S.assume(nnz >= 0); S.assume(Eq(kp(z3.IntVal(0)), 0)); S.assume(Eq(kp(lift(nk)), nnz)); S.assume(mono(kp, nk))
    S.assume(Forall(0, nnz, lambda q: And(ki(q) >= 0, ki(q) < nk)))
    for t, k in ((toP, p.nnz), (toA, a.nnz), (toR, m)):
        if not S.null(t): g = S.arr(t); S.assume(Forall(0, k, lambda q, g=g: And(g(q) >= 0, g(q) < nnz)))
    return K
def addi_(a, b): return a + b if not isz(a) and not isz(b) else simp(lift(a) + lift(b))

@contract("form_KKT", setup=kkt_setup, opts={"bounded_only": True, "maxvariants": 2000})
def _(S, P, A, fmt, param1, param2, sc, toP, toA, toR):
    """the upper triangle of [P + param1 I, A'; A, -diag(param2)] with every diagonal entry stored (last in its column for format
    0, first in its row for format 1), and the positions of the entries of P, of A and of the lower diagonal"""
    if S.mode == "call": return S.ret(form_KKT_call(S, P, A, fmt, param1, param2, sc, toP, toA, toR))
    p, a = M_(S, P), M_(S, A)
    n, m = cint(p.n), cint(a.m)
    if S.ret_null(): return S.ret(NULL)
    cols = kkt_layout(p, a, n, m, cint(fmt))
    flat = [e for c in cols for e in c]; N = len(flat)
    ptr = [0]
    for c in cols: ptr.append(ptr[-1] + len(c))
    r2 = None if S.null(param2) else S.arr(param2, m)
    pos = {}
    vals = []
    for k, (i, kind, q) in enumerate(flat):
        pos[kind, q] = k
        col = next(j for j in range(n + m) if ptr[j] <= k < ptr[j + 1])
        if kind == "P": v = p.x(q) + param1 if i == col else p.x(q)
        elif kind == "A": v = a.x(q)
        elif kind == "0": v = param1
        else: v = -r2(q) if r2 else -sc
        vals.append(v)
    tab = lambda L: (lambda t: pick_tab(L, t))
    K = spalloc(S, n + m, n + m, N, True, False, p=tab(ptr), i=tab([e[0] for e in flat]), x=tab(vals))
    for t, k, cnt in ((toP, "P", p.nnz), (toA, "A", a.nnz), (toR, "R", m)):
        if not S.null(t): S.wr(t, cnt, tab([pos[k, q] for q in range(cint(cnt))]))
    S.ret(K)
def pick_tab(L, t):
    if not isz(t): return L[t]
    if not L: return z3.IntVal(0)
    v = lift(L[-1])
    for k in range(len(L) - 2, -1, -1):
        a, b = coerce(lift(L[k]), v)
        v = z3.If(t == k, a, b)
    return v

def upd(which):
    def setup(B):
        n = B.dim("n"); m = n if which == "P" else B.dim("m")
        K = B.csc("KKT", addi_(n, B.dim("mm")), addi_(n, B.dim("mm")))
        M = B.csc(which, m, n, triu=which == "P")
        nnz = B.st.mem[M.rid]["nzmax"]; kn = B.st.mem[K.rid]["nzmax"]
        if B.mode == "concrete" and nnz and not kn: from_reject()
        to = B.arr("toKKT", "int", nnz, lo=0, hi=addk(kn, -1))
        if B.pick(2, "idx") == 0: idx = NULL; k = B.int("k", -1, nnz)
        else:
            k = B.dim("cnt")
            if B.mode == "concrete" and nnz == 0: k = 0
            idx = B.arr("idx", "int", k, lo=0, hi=addk(nnz, -1))
        return [K, M, idx, k, to] + ([B.real("param1"), B.pick(2, "format")] if which == "P" else [])
    return setup
def from_reject():
    from ..spec import Reject
    raise Reject()
def upd_entries(S, K, M, idx, cnt, to, shift):
    """entry number idx[j] of the (already updated) matrix goes to its place in the system, j = 0, 1, ..."""
    if S.branch(le(cnt, 0)): return
    k, a = M_(S, K, well=False), M_(S, M)
    pos = S.arr(to, a.nnz, "positions")
    if S.null(idx):
        S.require(le(cnt, a.nnz), "count at most nnz"); e = lambda j: j
    else:
        ix = S.arr(idx, cnt, "indices"); e = ix
        S.require(Forall(0, cnt, lambda i: And(ix(i) >= 0, ix(i) < a.nnz)), "indices in range")
    S.require(Forall(0, a.nnz, lambda q: And(pos(q) >= 0, pos(q) < k.nnz)), "positions in range")
    x = k.x
    k.setx(lambda t: Fold(0, cnt, x(t), lambda j, w: If(Eq(pos(e(j)), t), shift(a, e(j)), w)))
@contract("update_KKT_P", setup=upd("P"))
def _(S, K, P, idx, cnt, to, param1, fmt):
    """changed entries of P are copied into the system, diagonal ones shifted by param1 (the diagonal entry of a column of the
    upper triangle is its last)"""
    def shift(a, q):
        r = a.i(q)
        return If(And(a.p(r) < a.p(addk(r, 1)), Eq(a.p(addk(r, 1)) - 1, q)), a.x(q) + param1, a.x(q))
    upd_entries(S, K, P, idx, cnt, to, shift)
@contract("update_KKT_A", setup=upd("A"))
def _(S, K, A, idx, cnt, to): upd_entries(S, K, A, idx, cnt, to, lambda a, q: a.x(q))
def upd2(B):
    m = B.dim("m"); n = addi_(m, B.dim("n"))
    K = B.csc("KKT", n, n)
    kn = B.st.mem[K.rid]["nzmax"]
    if B.mode == "concrete" and m and not kn: from_reject()
    return [K, B.arr("param2", "float", m) if B.pick(2, "param2") == 0 else NULL, B.real("sc"), B.arr("toKKT", "int", m, lo=0, hi=addk(kn, -1)), m]
@contract("update_KKT_param2", setup=upd2)
def _(S, K, p2, sc, to, m):
    """entry to[i] becomes -param2[i] (or the negative common value)"""
    k = M_(S, K, well=False)
    pos = S.arr(to, m, "positions")
    S.require(Forall(0, m, lambda i: And(pos(i) >= 0, pos(i) < k.nnz)), "positions in range")
    f = (lambda i: sc) if S.null(p2) else S.arr(p2, m)
    x = k.x
    k.setx(lambda t: Fold(0, m, x(t), lambda j, w: If(Eq(pos(j), t), -f(j), w)))
