"""Pre-state builder.  One description of a pre-state serves three purposes: fully symbolic (dimensions and values
arbitrary), bounded symbolic (small concrete dimensions and sparsity, values arbitrary) and concrete random."""
import random, z3
from .terms import *
from . import terms as T
from .heap import *
from .spec import Reject

class Builder:
    def __init__(self, ex, mode, dec=None, work=None, rng=None):
        self.ex, self.mode, self.st = ex, mode, State()
        self.dec, self.work, self.pos = dec if dec is not None else [], work, 0
        self.rng = rng
        self.note = []; self.huge = False
        self.dims = {}
    # ---- case distinction over shapes
    def pick(self, n, what=""):
        """0..n-1: every value is examined (symbolic) / random (concrete)"""
        if self.mode == "concrete":
            v = self.rng.randrange(n)
        elif self.pos < len(self.dec): v = self.dec[self.pos]
        else:
            for j in range(n - 1, 0, -1): self.work.append(self.dec[:self.pos] + [j])
            v = 0
            self.dec = self.dec[:self.pos] + [0]
        self.pos += 1
        if what: self.note.append("%s=%d" % (what, v))
        return v
    def assume(self, c):
        if self.mode == "concrete":
            if not as_bool(c): raise Reject()
        else: self.st.assume(c)
    # ---- scalars
    def dim(self, name, lo=0, hi=None):
        if name in self.dims: return self.dims[name]
        if self.mode == "sym":
            v = fresh(name, INT); self.st.assume(v >= lo)
            if hi is not None: self.st.assume(v <= hi)
        elif self.mode == "bounded":
            top = max(lo, 2) if hi is None else min(hi, max(lo, 2))
            # bounded shapes: a small sample of sizes
            vals = [x for x in (2, 1, 0, 3) if lo <= x and (hi is None or x <= hi)][:2] or [lo]
            v = vals[self.pick(len(vals), name)]
        else: v = self.rng.choice([x for x in (0, 1, 2, 3, 4, 5) if x >= lo and (hi is None or x <= hi)] or [lo])
        self.dims[name] = v
        return v
    def int(self, name, lo=None, hi=None, vals=None):
        if self.mode != "concrete":
            v = fresh(name, INT)
            if lo is not None: self.st.assume(v >= lo)
            if hi is not None: self.st.assume(v <= hi)
            return v
        if vals: return self.rng.choice(vals)
        l = lo if lo is not None else -3
        h = hi if hi is not None else l + 10
        if isinstance(h, int) and h < l: raise Reject()
        return self.rng.randint(l, h)
    def num(self):
        """mostly small dyadic numbers: sums and products of them are exact in floating point"""
        r = self.rng.random()
        if r < 0.15: return 0.0
        if r < 0.3: return float(self.rng.choice([1, -1, 2, -2, 0.5]))
        if r < 0.34 and self.huge: return self.rng.choice([1e30, -1e30, 2e30, -2e30])
        return self.rng.randint(-64, 64) / 16.0
    def real(self, name, lo=None, hi=None, strict=False, vals=None):
        if self.mode != "concrete":
            v = fresh(name, REAL)
            if lo is not None: self.st.assume(v > R(lo) if strict else v >= R(lo))
            if hi is not None: self.st.assume(v <= R(hi))
            return v
        if vals and self.rng.random() < 0.7: return float(self.rng.choice(vals))
        if lo is None and hi is None: return self.num()
        l = lo if lo is not None else -5.0
        h = hi if hi is not None else (l + 5.0 if abs(l) < 1e10 else l * 2)
        return float(self.rng.uniform(l + (1e-3 if strict else 0), h))
    # ---- memory
    def region(self, kind, ctype, length, name, alloc=None):
        return self.st.new(kind, ctype, length, "pre", name, None, alloc)
    def arr(self, name, elem, n, lo=None, hi=None, alloc="c", gen=None, each=None, small=False):
        """array of n elements; lo/hi bounds on the elements"""
        t = ("float", 8) if elem == "float" else (("int", 8) if elem == "int" else elem)
        rid = self.region("arr", t, n, name, alloc)
        srt = REAL if t[0] == "float" else INT
        if self.mode == "concrete":
            vals = []
            for i in range(n):
                if gen: vals.append(gen(i))
                elif elem == "float":
                    vals.append(self.real(name, lo, hi) if (lo is not None or hi is not None) else self.num())
                else: vals.append(self.int(name, lo, hi))
            self.st.mem[rid] = Arr("list", srt, vals)
        else:
            a = abase(name, srt)
            self.st.mem[rid] = a
            if lo is not None or hi is not None:
                self.st.assume(Forall(0, n, lambda i: And(True if lo is None else a.read(i) >= lo, True if hi is None else a.read(i) <= hi)))
        return Ptr(rid, 0)
    def struct(self, tname, name, /, alloc="c", **fields):
        t = self.ex.prog.typ(tname)
        rid = self.region("struct", t, None, name, alloc)
        d = self.ex.init_struct(self.st, t[1], "pre", name)
        for f, v in fields.items():
            if f not in d: raise Unsupported("no field %s in %s" % (f, tname))
            d[f] = v
        self.st.mem[rid] = d
        return Ptr(rid, 0)
    def cell(self, name, ctype, v=None):
        rid = self.region("cell", ctype, None, name)
        self.st.mem[rid] = {"": v}
        return Ptr(rid, 0)
    def read(self, p): return self.st.mem[p.rid].read
    # ---- the library's objects
    def vecf(self, name, n, null0=False, **kw):
        vals = NULL if null0 else self.arr(name, "float", n, alloc="mkl", **kw)
        return self.struct("OSQPVectorf", name, alloc="c", values=vals, length=n)
    def veci(self, name, n, null0=False, **kw):
        vals = NULL if null0 else self.arr(name, "int", n, alloc="mkl", **kw)
        return self.struct("OSQPVectori", name, alloc="c", values=vals, length=n)
    def csc(self, name, m, n, triu=False, alloc="c", sorted_=False, values=True, owned=True, small=True, full_diag=False, every=False):
        """well formed compressed-column matrix: p[0]=0, p nondecreasing, p[n]=nnz, 0<=i<m"""
        nzmax = None
        if self.mode == "sym":
            nnz = fresh(name + "_nnz", INT); self.st.assume(nnz >= 0)
            p = self.arr(name + ".p", "int", n + 1, alloc=alloc)
            i = self.arr(name + ".i", "int", nnz, alloc=alloc)
            x = self.arr(name + ".x", "float", nnz, alloc=alloc) if values else NULL
            rp, ri = self.read(p), self.read(i)
            self.st.assume(rp(z3.IntVal(0)) == 0); self.st.assume(rp(lift(n)) == nnz)
            self.st.assume(mono(rp, n))
            self.st.assume(Forall(0, nnz, lambda q: And(ri(q) >= 0, ri(q) < m)))
            if triu: self.st.assume(Forall(0, nnz, lambda q: ri(q) <= Seg(rp, n, q)))
        else:
            rows = [[] for _ in range(n)]
            if self.mode == "bounded":
                cells = [(r, j) for j in range(n) for r in range(m) if not (triu and r > j)]
                pat = self.pick(2 ** len(cells) if every else 3, name + "_pattern")
                for b, (r, j) in enumerate(cells if every else []):
                    if pat >> b & 1: rows[j].append(r)
                for j in range(n):
                    for r in range(m):
                        if every or (triu and r > j): continue
                        if (pat == 0) or (pat == 1 and (r + j) % 2 == 0) or (pat == 2 and r < j): rows[j].append(r)
            else:
                dens = self.rng.choice([0.0, 0.3, 0.6, 1.0])
                for j in range(n):
                    for r in range(m):
                        if triu and r > j: continue
                        if self.rng.random() < dens or (full_diag and r == j): rows[j].append(r)
            pv = [0]; iv = []
            for j in range(n): iv += rows[j]; pv.append(len(iv))
            nnz = len(iv)
            p = self.arrl(name + ".p", "int", pv, alloc); i = self.arrl(name + ".i", "int", iv, alloc)
            x = (self.arr(name + ".x", "float", nnz, alloc=alloc, small=small)) if values else NULL
        nzm = nnz
        return self.struct("OSQPCscMatrix", name, m=m, n=n, p=p, i=i, x=x, nzmax=nzm, nz=-1, owned=1 if owned else 0)
    def mat(self, name, m, n, triu=False, handles=False, **kw):
        """OSQPMatrix: compressed-column arrays from the MKL allocator and a sparse handle backed by the same arrays (no handle
        for an empty matrix; above algebra/mkl/matrix.c the handle is opaque, so handles=False uses one representation)"""
        empty = handles and self.pick(2, name + "_empty") == 1
        if empty:
            pz = self.pick(3)
            if self.mode == "concrete": pz = 0
            c = self.csc(name, m, n, triu=triu, alloc="mkl", **kw)
            d = self.st.mem[c.rid]
            if pz == 0:
                self.assume(Eq(d["nzmax"], 0))
                d["nzmax"] = 0; d["i"] = NULL; d["x"] = NULL
            else: self.assume(Eq(m if pz == 1 else n, 0))
            h = NULL
        else:
            c = self.csc(name, m, n, triu=triu, alloc="mkl", **kw)
            d = self.st.mem[c.rid]
            if handles and self.mode != "concrete":
                self.assume(And(d["nzmax"] > 0, m > 0, n > 0))
            h = self.handle(c)
        return self.struct("OSQPMatrix", name, csc=c, mkl_mat=h, symmetry=1 if triu else 0)
    def handle(self, c):
        d = self.st.mem[c.rid]
        if self.mode == "concrete" and (d["nzmax"] == 0 or d["m"] == 0 or d["n"] == 0): return NULL
        return self.struct("cv_mklmat", "handle of " + self.st.reg[c.rid].name, alloc="mklmat", rows=d["m"], cols=d["n"], ps=d["p"], pe=Ptr(d["p"].rid, 1), ix=d["i"], vals=d["x"])
    def arrl(self, name, elem, vals, alloc="c"):
        t = ("float", 8) if elem == "float" else ("int", 8)
        rid = self.region("arr", t, len(vals), name, alloc)
        srt = REAL if elem == "float" else INT
        if self.mode == "concrete": self.st.mem[rid] = Arr("list", srt, list(vals))
        else:
            a = abase(name, srt)
            for j, v in enumerate(vals): a = astore(a, j, lift(v))
            self.st.mem[rid] = a
        return Ptr(rid, 0)

def mono(p, n):
    """p(0) <= p(1) <= ... <= p(n)"""
    return Forall(0, n, lambda j: p(j) <= p(lift(j) + 1 if isz(j) else j + 1))
