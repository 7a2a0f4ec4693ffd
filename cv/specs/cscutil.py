"""Contracts of algebra/_common/csc_utils.c (construction, conversion and permutation of compressed-column matrices)."""
from ..spec import contract
from ..terms import *
from ..heap import *
from .csc import M_, addk

def spalloc(S, m, n, nzmax, values, triplet, alloc="c", p=None, i=None, x=None, zero=False):
    """a new matrix object; the C allocator gives every array its own block"""
    nz = If(nzmax >= 0, nzmax, 0) if isz(nzmax) else max(nzmax, 0)
    if isz(nz): nz = simp(nz)
    A = S.new("OSQPCscMatrix")
    S.set(A, "m", m); S.set(A, "n", n); S.set(A, "nzmax", nz); S.set(A, "nz", 0 if triplet else -1)
    S.set(A, "owned", 0)
    S.set(A, "p", S.newarr("int", nz if triplet else addk(n, 1), p, alloc=alloc, name="p"))
    S.set(A, "i", S.newarr("int", nz, i, alloc=alloc, name="i") if values else NULL)
    S.set(A, "x", S.newarr("float", nz, x, alloc=alloc, name="x") if values else NULL)
    return A
def spfree(S, A, alloc="c"):
    for f in ("p", "i", "x"): S.free(S.get(A, f), alloc=alloc)
    S.free(A)

def pick_bool(B, nm): return B.pick(2, nm)
@contract("csc_spalloc", setup=lambda B: [B.dim("m"), B.dim("n"), B.int("nzmax", -2, 5) if B.mode == "concrete" else B.int("nzmax"), pick_bool(B, "values"), pick_bool(B, "triplet")])
def _(S, m, n, nzmax, values, triplet):
    S.require(And(le(0, m), le(0, n)), "dimensions not negative")
    values, triplet = S.branch(Not(Eq(values, 0))), S.branch(Not(Eq(triplet, 0)))
    if S.ret_null(): return S.ret(NULL)
    S.ret(spalloc(S, m, n, nzmax, values, triplet))

def own_csc(B, nm="A"):
    if B.pick(2, "null") == 1: return NULL
    return B.csc(nm, B.dim("m"), B.dim("n"))
@contract("csc_spfree", setup=lambda B: [own_csc(B)])
def _(S, A):
    if S.null(A): return
    spfree(S, A)
@contract("csc_done", setup=lambda B: [own_csc(B), B.arr("w", "int", B.dim("k")) if B.pick(2) == 0 else NULL, NULL, B.pick(2, "ok")])
def _(S, C, w, x, ok):
    """releases the workspaces; the matrix survives only on success"""
    S.free(w); S.free(x)
    if S.branch(Not(Eq(ok, 0))): return S.ret(C)
    if not S.null(C): spfree(S, C)
    S.ret(NULL)

@contract("csc_cumsum", setup=lambda B: [B.arr("p", "int", B.dim("n") + 1), B.arr("c", "int", B.dim("n"), lo=0, hi=3 if B.mode == "concrete" else None), B.dim("n")])
def _(S, p, c, n):
    """p[i] = c[0] + ... + c[i-1] for i = 0..n, c := p, returns the total"""
    S.require(le(0, n))
    if S.null(p) or S.null(c): return S.ret(-1)
    f = S.arr(c, n, "counts")
    tot = lambda i: Fold(0, i, 0, lambda k, a: a + f(k))
    S.wr(p, addk(n, 1), tot)
    S.wr(c, n, tot)
    S.ret(tot(n))

def two(B):
    n = B.dim("n"); m = B.dim("m")
    A = B.csc("A", m, n)
    v = B.pick(3)
    if v == 0: C = A
    elif v == 1 or B.mode == "sym": C = B.csc("B", m, n)
    else: C = B.csc("B", m, n + 1 if B.rng and B.rng.random() < .3 else n)
    if v == 2 and B.mode == "concrete":
        a, c = B.st.mem[A.rid], B.st.mem[C.rid]
        if a["n"] == c["n"]:
            for f in ("p", "i", "x"):
                B.st.mem[c[f].rid] = B.st.mem[a[f].rid]
                B.st.reg[c[f].rid].length = B.st.reg[a[f].rid].length
    return [A, C, B.real("tol", vals=[0.0, 1e-6, 0.5])]
@contract("csc_is_eq", setup=two, opts={"bounded_only": True})
def _(S, A, B, tol):
    """same number of columns, same pattern and values equal up to tol"""
    a, b = M_(S, A), M_(S, B)
    if not S.branch(eqt(a.n, b.n)): return S.ret(0)
    if not S.branch(Forall(0, addk(a.n, 1), lambda j: Eq(a.p(j), b.p(j)))): return S.ret(0)
    S.ret(Forall(0, a.nnz, lambda q: And(Eq(a.i(q), b.i(q)), le(Abs(a.x(q) - b.x(q)), tol))))

def diag_entry(A, j):
    """value of the diagonal entry of column j (the last stored one, zero if none)"""
    return Fold(0, A.p(addk(j, 1)) - A.p(j), R(0), lambda q, a: If(Eq(A.i(A.p(j) + q), j), A.x(A.p(j) + q), a))
@contract("csc_extract_diag", setup=lambda B: [B.csc("A", B.dim("n"), B.dim("n")), B.arr("d", "float", B.dim("n"))])
def _(S, M, d):
    A = M_(S, M)
    S.wr(d, A.n, lambda j: diag_entry(A, j))

def copy_setup(B):
    A = B.csc("A", B.dim("m"), B.dim("n"))
    if B.pick(2, "novalues") == 1:
        d = B.st.mem[A.rid]; B.assume(Eq(d["nzmax"], 0)); d["i"] = NULL; d["x"] = NULL
    return [A]
@contract("csc_copy", setup=copy_setup)
def _(S, M):
    """an independent copy"""
    A = M_(S, M)
    if S.ret_null(): return S.ret(NULL)
    S.ret(spalloc(S, A.m, A.n, A.nnz, not S.null(A.X), False, p=A.p, i=A.i, x=A.x))
