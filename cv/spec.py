"""Contracts.

A contract is a function  body(S, *args)  that states, for a pre-state satisfying its requirements, the complete
post-state: what is returned, what every reachable memory cell contains afterwards, what is allocated or released and
which external calls are made.  Anything it does not mention is unchanged (frame).

The same text is used
  * to verify the C function:   expected final state == symbolically computed final state, on every path;
  * at call sites:              requirements become obligations, the effect is applied to the caller's state;
  * on concrete memory:         run-time oracle for replaying counterexamples on the compiled library.
"""
import z3, inspect, math
from .terms import *
from . import terms as T
from .heap import *
from .prove import feasible

class Dead(Exception): pass          # path ends (failed obligation already recorded)
class Mismatch(Exception): pass      # structural difference between expected and actual state
class Reject(Exception): pass        # builder: inputs outside the precondition

ANYV = ANY

class Spec:
    def __init__(self, name, body, setup=None, trusted=False, inline_ok=False, static=False, props=(), opts=None, nargs=None):
        self.name, self.body, self.setup, self.trusted, self.inline_ok = name, body, setup, trusted, inline_ok
        self.opts = opts or {}
        self.nargs = nargs
    def apply(self, ex, st, args, node):
        out = []
        for S in run_spec(self, ex, st, args, node, "call"):
            out.append((S.st, S.retval))
        return out

def base(name):
    """C function of a contract: 'f#part' is one part of the contract of f, verified separately"""
    return name.split("#")[0]
class Registry:
    def __init__(self, prog):
        self.prog = prog; self.specs = {}; self.disabled = set()
    def add(self, sp): self.specs[sp.name] = sp
    def bound(self, name):
        """a contract applies only while the function still has the parameters the contract speaks about"""
        sp = self.specs.get(name)
        if sp is None: return None
        if name in self.disabled: return None
        f = base(name)
        if f in self.prog.funcs and sp.nargs is not None:
            from .frontend import func_params
            if len(func_params(self.prog.funcs[f])) != sp.nargs: return None
        return sp
    def for_call(self, name, ex):
        sp = self.bound(name)
        if sp is None: return None
        if name in ex.opts.get("inline", ()): return None
        return sp

CONTRACTS = {}
def contract(name, setup=None, **kw):
    def deco(f):
        n = len(inspect.signature(f).parameters) - 1
        va = any(p.kind == p.VAR_POSITIONAL for p in inspect.signature(f).parameters.values())
        names = name if isinstance(name, (list, tuple)) else [name]
        for nm in names:
            g = f
            if isinstance(name, (list, tuple)):
                g = (lambda S, *a, _f=f, _n=nm: _f(S, *a))
            CONTRACTS[nm] = Spec(nm, g, setup=setup, nargs=None if va else n, **kw)
        return f
    return deco

# ------------------------------------------------------------------------------------------------
def run_spec(sp, ex, st, args, node, mode, actual=None):
    """all executions of a contract body; yields S objects (each with its own state)"""
    results = []
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > 400: raise PathLimit("contract of %s has too many cases" % sp.name)
        S = S_(sp, ex, st.clone(), node, mode, dec, work, actual)
        try:
            sp.body(S, *args)
        except Dead:
            continue
        if mode == "call" and not S.feasible_end(): continue
        results.append(S)
    return results

class S_:
    """the view a contract has of a state"""
    def __init__(self, sp, ex, st, node, mode, dec, work, actual):
        self.sp, self.ex, self.st, self.node, self.mode = sp, ex, st, node, mode
        self.dec, self.work, self.pos = dec, work, 0
        self.actual = actual            # (state, return value) of the code in verify / concrete mode
        self.retval = None
        self.ensures = []               # conditions to be proved (verify mode)
        self.reqs = []
        self.pc0 = len(st.pc)
        self.evpos = 0
        self.newregs = set(); self.noleak = False
    # ---- requirements and facts
    def require(self, c, what="precondition"):
        if self.mode == "call":
            self.ex.oblige(self.st, c, "%s of %s" % (what, self.sp.name), self.node)
            self.st.assume(c if isz(c) else bool(c))
        elif self.mode == "verify":
            self.st.assume(c)
            self.reqs.append(c)
        elif self.mode == "view": pass
        else:
            if not as_bool(c): raise Reject(what)
    def assume(self, c):
        """consequence of the requirements that is used by the contract itself (never in concrete mode)"""
        if self.mode != "concrete": self.st.assume(c)
    def ensure(self, c, what="postcondition"):
        if self.mode == "call": self.st.assume(c)
        else: self.ensures.append((c, what))
    def feasible_end(self):
        new = [c for c in self.st.pc[self.pc0:] if isz(c) or c is False]
        if any(c is False for c in new): return False
        return True
    def dead(self, what):
        if self.mode == "call":
            self.ex.oblige(self.st, False, "%s (call of %s)" % (what, self.sp.name), self.node)
            raise Dead()
        if self.mode == "concrete": raise Reject(what)
        raise Dead()
    # ---- case distinction
    def branch(self, c):
        if not isz(c): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self._decide(c)
    def _decide(self, c):
        if self.pos < len(self.dec):
            b = self.dec[self.pos]
        else:
            t = feasible(self.st.pc, c); f = feasible(self.st.pc, z3.Not(c))
            if t and f:
                self.work.append(self.dec[:self.pos] + [False])
                b = True
            elif t: b = True
            elif f: b = False
            else: raise Dead()
            self.dec = self.dec[:self.pos] + [b]
        self.pos += 1
        self.st.assume(c if b else z3.Not(c))
        return b
    def choose(self, test):
        """nondeterministic outcome (e.g. an allocation failed); test(return value, actual final state view) tells which
        outcome the code took"""
        if self.mode == "concrete" and self.actual is None: return False
        if self.mode in ("verify", "concrete"):
            r = test(self.actual[1], self.actual_view())
            return self.branch(r) if isz(r) else bool(r)
        if self.pos < len(self.dec): b = self.dec[self.pos]
        else:
            self.work.append(self.dec[:self.pos] + [False]); b = True
            self.dec = self.dec[:self.pos] + [b]
        self.pos += 1
        return b
    def ret_null(self):
        """the code reported failure by returning NULL"""
        return self.fails(lambda r, v: isinstance(r, Ptr) and r.rid is None)
    def fails(self, test):
        """an allocation failed and the code reports it (test on the outcome); only legitimate if one really failed"""
        if self.mode == "call" and self.ex.opts.get("nofail"): return False
        b = self.choose(test)
        if b:
            if self.mode == "call": self.st.oom = True
            elif not self.actual[0].oom:
                self.ensures.append((False, "failure reported although no allocation failed"))
        return b
    def actual_view(self):
        v = S_(self.sp, self.ex, self.actual[0], self.node, "view", [], [], None)
        return v
    # ---- memory
    def region(self, p):
        if not isinstance(p, Ptr): raise Unsupported("contract of %s: not a pointer: %r" % (self.sp.name, p))
        if p.rid is None: self.dead("null pointer")
        if p.rid in self.st.freed: self.dead("released memory")
        return self.st.reg[p.rid]
    def null(self, p):
        if p is None: self.dead("undefined pointer")
        return p.rid is None
    def get(self, p, *path):
        """follow fields from a struct pointer"""
        for f in path:
            reg = self.region(p)
            if reg.kind == "raw": self.dead("uninitialised object")
            if reg.kind not in ("struct", "cell"): raise Unsupported("contract of %s: field %s of %s" % (self.sp.name, f, reg))
            m = self.st.mem[p.rid]
            key = (p.path + "." if p.path and f else p.path) + f
            if key not in m: raise Unsupported("contract of %s: no field %s in %s" % (self.sp.name, key, reg))
            v = m[key]
            if v is None and self.mode != "view": self.dead("uninitialised field %s" % f)
            p = v
        return p
    def has(self, p, f):
        return f in self.st.mem[p.rid]
    def set(self, p, f, v, t=None):
        reg = self.region(p)
        d = dict(self.st.mem[p.rid])
        key = (p.path + "." if p.path and f else p.path) + f
        if key not in d: raise Unsupported("contract of %s: no field %s in %s" % (self.sp.name, key, reg))
        old = d[key]
        if isinstance(v, float): v = R(v)
        if isz(v) and z3.is_bool(v): v = as_int(v)
        if isinstance(v, bool): v = int(v)
        if isreal(old) and not isreal(v) and not isinstance(v, (Ptr, Fn, Any_)) and v is not None: v = R(v)
        d[key] = v
        self.st.mem[p.rid] = d
        self.st.ver += 1
    def deref(self, p): return self.get(p, "")
    def assign(self, p, v):
        """*p = v"""
        reg = self.region(p)
        if reg.kind == "arr": return self.wr(p, 1, lambda i: v)
        if reg.kind == "struct" and p.path == "": raise Unsupported("assignment to struct")
        d = dict(self.st.mem[p.rid])
        if isinstance(v, float): v = R(v)
        if isinstance(v, bool): v = int(v)
        if isz(v) and z3.is_bool(v): v = as_int(v)
        d[p.path] = v
        self.st.mem[p.rid] = d; self.st.ver += 1
    def len(self, p):
        r = self.region(p)
        if r.kind != "arr": raise Unsupported("length of %s" % r)
        if not isz(p.off) and p.off == 0: return r.length
        return simp(lift(r.length) - lift(p.off)) if not concrete() else r.length - p.off
    def arr(self, p, n=None, what="array"):
        """snapshot of an array as a function of the index; n elements must be readable"""
        if p is None: self.dead("undefined pointer")
        if p.rid is None:
            if n is not None:
                self.require(le(n, 0), "null " + what + " only when empty")
            return lambda i: (R(0) if not concrete() else math.nan)
        r = self.region(p)
        if r.kind == "raw": raise Unsupported("contract of %s: untyped memory" % self.sp.name)
        if r.kind == "cell":
            v = self.st.mem[p.rid][p.path]
            return lambda i: v
        if r.kind != "arr": raise Unsupported("contract of %s: %s is not an array" % (self.sp.name, r))
        if n is not None:
            self.require(Or(le(n, 0), And(le(0, p.off), le(addi(p.off, n), r.length))), what + " long enough")
        a = self.st.mem[p.rid]
        off = p.off
        if not isz(off) and off == 0: return a.read
        return lambda i: a.read(addi(off, i))
    def wr(self, p, n, fn, what="destination"):
        """p[0..n) := fn(i)"""
        if p is None: self.dead("undefined pointer")
        if p.rid is None:
            self.require(le(n, 0), "null " + what + " only when empty"); return
        r = self.region(p)
        if r.kind == "raw":
            self.ex.retype(self.st, p.rid, ("float", 8)); r = self.st.reg[p.rid]
        if r.kind != "arr": raise Unsupported("contract of %s: %s is not an array" % (self.sp.name, r))
        self.require(Or(le(n, 0), And(le(0, p.off), le(addi(p.off, n), r.length))), what + " long enough")
        a = self.st.mem[p.rid]; off = p.off
        if concrete():
            base = [a.read(i) for i in range(r.length)]
            for i in range(n): base[off + i] = fn(i)
            self.st.mem[p.rid] = Arr("list", a.sort, base)
        else:
            srt = a.sort
            def g(t, fn=fn, off=off):
                v = fn(t if (not isz(off) and off == 0) else simp(lift(t) - lift(off)))
                if v is None or isinstance(v, Any_): return v
                v = lift(v)
                if srt == REAL and v.sort() == INT: v = z3.ToReal(v)
                return v
            whole = not isz(off) and off == 0 and eqt(n, r.length) is True        # reads outside the block are errors anyway
            self.st.mem[p.rid] = afn(g, srt) if whole else amap(a, off, addi(off, n), g)
        self.st.ver += 1
    def havoc_arr(self, p, n=None):
        """contents afterwards are unspecified"""
        if p.rid is None: return
        r = self.region(p)
        if self.mode == "call" or self.mode == "verify":
            self.st.mem[p.rid] = abase("havoc", self.st.mem[p.rid].sort)
        if self.mode in ("verify", "concrete"):
            self.st.env.setdefault("skip", set()); self.st.env["skip"] = self.st.env["skip"] | {(p.rid, None)}
        self.st.ver += 1
    def adopt(self, p):
        """array contents left open by the contract (constrained only by ensure()); returns the reader of the new contents"""
        r = self.region(p)
        if self.mode in ("verify", "concrete") and self.actual is not None and p.rid in self.actual[0].mem:
            if self.actual[0].mem[p.rid] is not None: self.st.mem[p.rid] = self.actual[0].mem[p.rid]
        elif self.mode != "concrete": self.st.mem[p.rid] = abase("open", self.st.mem[p.rid].sort)
        self.st.ver += 1
        return self.st.mem[p.rid].read
    def pin(self, p, n, fn, what="contents"):
        """p[0..n) := fn(i); where code is verified, its own expression of these values is used from here on"""
        if self.mode != "verify" or self.actual is None or not isinstance(self.actual[0].mem.get(p.rid), Arr): return self.wr(p, n, fn)
        self.require(Or(le(n, 0), And(le(0, p.off), le(addi(p.off, n), self.region(p).length))), what + " long enough")
        a = self.actual[0].mem[p.rid]; t = fresh("sk!", INT)
        v = a.read(addi(p.off, t))
        if v is None or isinstance(v, Any_): self.ensure(False, what + " undefined"); return
        x, y = coerce(lift(fn(t)), lift(v))
        self.ensure(z3.Implies(z3.And(t >= 0, t < lift(n)), x == y), what)
        self.st.mem[p.rid] = a; self.st.ver += 1
    def havoc(self, p, f, lo=None, hi=None):
        """field afterwards unspecified (within optional bounds)"""
        old = self.st.mem[p.rid][f]
        if self.mode == "call":
            v = fresh(f, REAL if isreal(old) else INT)
            self.set(p, f, v)
            if lo is not None: self.st.assume(v >= lo)
            if hi is not None: self.st.assume(v <= hi)
            return v
        if self.actual is None: return old
        av = self.actual[0].mem[p.rid][f]
        self.set(p, f, av)
        if av is None: return av
        if lo is not None: self.ensure(av >= lo, "%s bounded below" % f)
        if hi is not None: self.ensure(av <= hi, "%s bounded above" % f)
        return av
    def result_int(self, lo=None, hi=None):
        """unspecified integer return value within bounds"""
        if self.mode == "call":
            v = fresh("ret", INT)
        else: v = self.actual[1]
        if lo is not None: self.ensure(v >= lo, "return value range")
        if hi is not None: self.ensure(v <= hi, "return value range")
        return v
    # ---- allocation
    def new(self, tname, alloc="c"):
        t = self.ex.prog.typ(tname)
        if t[0] != "struct": raise Unsupported("new " + tname)
        rid = self.st.new("struct", t, None, "new", tname, None, alloc)
        self.st.mem[rid] = self.ex.init_struct(self.st, t[1], "new", tname)
        self.newregs.add(rid); self.st.ver += 1
        return Ptr(rid, 0)
    def newz(self, tname, alloc="c"):
        p = self.new(tname, alloc)
        t = self.ex.prog.typ(tname)
        self.st.mem[p.rid] = self.ex.init_struct(self.st, t[1], "new", tname, zero=True)
        return p
    def newarr(self, ctype, n, fn=None, alloc="c", name="array"):
        t = {"float": ("float", 8), "int": ("int", 8)}.get(ctype, ctype)
        rid = self.st.new("arr", t, n, "new", name, None, alloc)
        srt = REAL if t[0] == "float" else INT
        if concrete():
            self.st.mem[rid] = Arr("list", srt, [fn(i) if fn else None for i in range(n)])
        elif fn is None: self.st.mem[rid] = Arr("fn", srt, lambda t: ANY) if self.mode != "call" else abase("uninit", srt)
        else:
            def g(t):
                v = fn(t)
                if isinstance(v, Any_) or v is None: return v
                v = lift(v)
                return z3.ToReal(v) if (srt == REAL and v.sort() == INT) else v
            self.st.mem[rid] = afn(g, srt)
        self.newregs.add(rid); self.st.ver += 1
        return Ptr(rid, 0)
    def free(self, p, alloc="c"):
        if p is None: self.dead("release of an undefined pointer")
        if p.rid is None: return
        if p.rid in self.st.freed: self.dead("double release")
        reg = self.st.reg[p.rid]
        if self.mode == "call":
            if reg.origin not in ("pre", "new"): self.dead("release of memory not on the heap")
            if reg.alloc is not None and alloc is not None and reg.alloc != alloc: self.dead("released with the wrong allocator")
        self.st.freed = self.st.freed | {p.rid}
        self.st.ver += 1
    # ---- external events
    def event(self, name, args, outs):
        """external call: args are compared, outs = list of ('int'|'real'|('arr',ptr,n)) results; returns scalar results"""
        if self.mode == "call":
            vals = []
            for o in outs:
                if o == "int": vals.append(fresh(name + "_r", INT))
                elif o == "real": vals.append(fresh(name + "_r", REAL))
                elif o[0] == "val": vals.append(o[1])
                else:
                    if o[1].rid is None: self.dead("null result array")
                    a = abase(name + "_out", self.st.mem[o[1].rid].sort); vals.append(a)
            g = self.ex.opts.get("ghost")
            if g is not None: g(self, name, args, vals)          # only what the ghost state records is kept
            else: self.st.trace = self.st.trace + ((name, tuple(args), tuple(vals)),)
            self.st.ver += 1
        else:
            if self.actual is None:
                return [0 if o == "int" else 0.0 for o in outs if not isinstance(o, tuple)]
            tr = self.actual[0].trace
            i = self.evpos; self.evpos += 1
            if i >= len(tr): raise Mismatch("expected external call %s is not made" % name)
            nm, aargs, vals = tr[i]
            if nm != name: raise Mismatch("external call %s instead of %s" % (nm, name))
            if len(aargs) != len(args): raise Mismatch("arguments of external call " + name)
            self.ensures.append((("event", name, args, aargs), "arguments of external call %s" % name))
        for o, v in zip(outs, vals):
            if isinstance(o, tuple) and o[0] == "arr":
                self.wr(o[1], o[2], v.read)
        return [v for o, v in zip(outs, vals) if not isinstance(o, tuple)]
    def snapshot(self, p, n):
        """immutable copy of contents (for event arguments)"""
        f = self.arr(p, n)
        return ("arr", f, n)
    # ---- results
    def ret(self, v):
        if isinstance(v, bool): v = int(v)
        if isz(v) and z3.is_bool(v): v = as_int(v)
        self.retval = v
    def call(self, name, *args):
        """use another contract inside this one (no code is executed)"""
        sp = CONTRACTS.get(name)
        if sp is None: raise Unsupported("no contract for " + name)
        save = self.sp, self.retval
        self.sp = sp; self.retval = None
        sp.body(self, *args)
        r = self.retval
        self.sp, self.retval = save
        return r
    # ---- shorthands for the library's structures
    def vec(self, v):
        """(length, contents) of a vector object"""
        n = self.get(v, "length")
        return n, self.arr(self.get(v, "values"), n, "vector")
    def setvec(self, v, fn):
        self.wr(self.get(v, "values"), self.get(v, "length"), fn, "vector")

def addi(a, b):
    if not isz(a) and not isz(b): return a + b
    return simp(lift(a) + lift(b))

# ------------------------------------------------------------------------------------------------ comparison
class Comparer:
    """expected (contract) final state against actual (code) final state; collects (condition, what)"""
    def __init__(self, pre, E, A, eret, aret, ex, tol=None):
        self.pre, self.E, self.A, self.ex = pre, E, A, ex
        self.conds = []
        self.pair = {}; self.rpair = {}
        self.queue = []
        self.tol = tol
        self.skip = E.env.get("skip", set())
        self.eret, self.aret = eret, aret
    def fail(self, what): self.conds.append((False, what))
    def val(self, e, a, what):
        if isinstance(e, Any_) or e is None: return
        if isinstance(a, Any_): self.fail(what + " is undefined"); return
        if isinstance(e, Ptr) or isinstance(a, Ptr):
            if a is None: self.fail(what + " left undefined"); return
            if not (isinstance(e, Ptr) and isinstance(a, Ptr)): self.fail(what + ": pointer expected"); return
            if e.rid is None or a.rid is None:
                if not (e.rid is None and a.rid is None): self.fail(what + (": should be NULL" if e.rid is None else ": unexpectedly NULL"))
                return
            if e.rid in self.pre.reg:
                if a.rid != e.rid or a.path != e.path: self.fail(what + ": points to another object"); return
                self.conds.append((eqt(e.off, a.off), what + ": pointer offset")); return
            # new object: must correspond to a new object
            if e.rid in self.pair:
                if self.pair[e.rid] != a.rid: self.fail(what + ": inconsistent new objects"); return
            else:
                if a.rid in self.rpair: self.fail(what + ": new objects are shared"); return
                if a.rid in self.pre.reg: self.fail(what + ": points to an existing object where a new one is required"); return
                self.pair[e.rid] = a.rid; self.rpair[a.rid] = e.rid
                self.queue.append((e.rid, a.rid, what))
            if a.path != e.path: self.fail(what + ": points inside another object"); return
            self.conds.append((eqt(e.off, a.off), what + ": pointer offset"))
            return
        if isinstance(e, Fn) or isinstance(a, Fn):
            if e != a: self.fail(what + ": other function"); 
            return
        if a is None: self.fail(what + " left undefined"); return
        if isinstance(e, dict) or isinstance(a, dict):
            if not (isinstance(e, dict) and isinstance(a, dict)): self.fail(what); return
            for k in e: self.val(e[k], a.get(k), what + "." + k)
            return
        self.num(e, a, what)
    def num(self, e, a, what):
        if self.tol is not None:
            e, a = as_int(e), as_int(a)
            ok = close(e, a, self.tol)
            self.conds.append((ok, what if ok else "%s: expected %r, got %r" % (what, e, a)))
            return
        e, a = as_int(e), as_int(a)
        if not isz(e) and not isz(a): 
            self.conds.append((e == a, what)); return
        e, a = coerce(e, a)
        if e.eq(a): self.conds.append((True, what)); return
        self.conds.append((e == a, what))
    def array(self, e, a, n, what, an=None):
        if e is a: self.conds.append((True, what)); return
        if concrete():
            for i in range(n):
                x = e.read(i)
                if x is None or isinstance(x, Any_): continue
                y = a.read(i)
                if y is None: self.conds.append((False, "%s[%d] undefined" % (what, i))); continue
                ok = close(x, y, self.tol or 0)
                self.conds.append((ok, what if ok else "%s[%d]: expected %r, got %r" % (what, i, x, y)))
                if not ok: return
            return
        t = fresh("sk!", INT)
        x = e.read(t)
        if x is None or isinstance(x, Any_): return
        y = a.read(t)
        if isinstance(y, Any_) or y is None: self.fail(what + " undefined"); return
        x, y = coerce(x, y)
        if x.eq(y): self.conds.append((True, what)); return
        self.conds.append((z3.Implies(z3.And(0 <= t, t < lift(n)), x == y), what + " contents"))
    def region(self, er, ar, what):
        E, A = self.E, self.A
        ereg, areg = E.reg[er], A.reg[ar]
        ef, af = er in E.freed, ar in A.freed
        if ef != af:
            self.fail(what + (": should have been released" if ef else ": must not be released")); return
        if ef: return
        em, am = E.mem.get(er), A.mem.get(ar)
        if em is am: return
        if ereg.kind != areg.kind:
            if areg.kind == "raw" and ereg.kind == "arr":
                # never written: compare sizes only
                from .execc import div_exact
                self.conds.append((eqt(div_exact(areg.bytes, 8), ereg.length), what + ": size"))
                if isz(ereg.length) or (isinstance(ereg.length, int) and ereg.length > 0):
                    t = fresh("sk!", INT) if not concrete() else 0
                    x = em.read(t)
                    if x is not None and not isinstance(x, Any_):
                        self.conds.append((le(ereg.length, 0), what + ": contents undefined"))
                return
            self.fail(what + ": object of another kind"); return
        if isinstance(em, dict):
            for f in em:
                if (er, f) in self.skip: continue
                if f not in am: self.fail(what + ": no field " + f); continue
                self.val(em[f], am[f], what + "." + f if f else what)
            return
        if isinstance(em, Arr):
            if (er, None) in self.skip: return
            if er != ar or ereg is not areg:
                self.conds.append((eqt(ereg.length, areg.length) if not concrete() else True, what + ": length"))
                if ereg.alloc is not None and areg.alloc is not None and ereg.alloc != areg.alloc: self.fail(what + ": other allocator")
            self.array(em, am, ereg.length, what)
            return
    def run(self, leaks=True):
        self.val(self.eret, self.aret, "return value")
        for rid, reg in self.pre.reg.items():
            if reg.origin in ("pre", "sub", "global"):
                if rid not in self.E.mem: continue
                if rid not in self.A.mem: continue
                self.region(rid, rid, reg.name)
        while self.queue:
            er, ar, what = self.queue.pop()
            self.region(er, ar, what)
        if leaks:
            for rid, reg in self.A.reg.items():
                if reg.origin == "new" and rid not in self.pre.reg and rid not in self.A.freed and rid not in self.rpair and rid in self.A.mem:
                    self.fail("memory allocated by %s is not released or returned" % reg.name)
        return self.conds

def close(e, a, tol):
    if isinstance(e, int) and isinstance(a, int): return e == a
    if e != e: return True                     # the contract divides by zero here: any value
    if a != a: return False
    if math.isinf(e) or math.isinf(a): return e == a
    return abs(e - a) <= tol * (1 + abs(e) + abs(a))
