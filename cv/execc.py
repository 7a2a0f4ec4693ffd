"""Forward symbolic execution of the clang AST: statements, expressions, calls, memory-safety obligations."""
import z3
from .terms import *
from .heap import *
from . import terms as T
from .frontend import func_params, func_body, line_of, qt
from .prove import feasible

MAXPATHS = 3000

class Obl:
    __slots__ = ("hyps", "goal", "kind", "where", "status", "query", "note", "bounded", "state", "extra")
    def __init__(self, hyps, goal, kind, where, bounded=False):
        self.hyps, self.goal, self.kind, self.where = hyps, goal, kind, where
        self.status = None; self.query = None; self.note = ""; self.bounded = bounded; self.extra = None

class Exec:
    def __init__(self, prog, specs, fname, opts=None):
        self.prog, self.specs, self.fname = prog, specs, fname
        self.obls = []
        self.quiet = 0           # >0: do not record obligations (discovery passes)
        self.depth = 0
        self.stack = [fname]
        self.opts = opts or {}
        self.inlined = set(); self.used_specs = set(); self.trusted = set()
        self.loopinfo = []
        self.unroll = self.opts.get("unroll")      # bounded mode
        self.bounded_used = False
        self.globals = {}
        self.npaths = 0; self.ninternal = 0; self.inexact = False
        self.deadline = self.opts.get("deadline")

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, kind, node=None):
        if self.quiet: return
        if cond is True: return
        if isz(cond):
            c = z3.simplify(cond)
            if z3.is_true(c): return
        where = "%s:%s" % (self.stack[-1], line_of(node) if isinstance(node, dict) else node)
        self.obls.append(Obl(list(st.pc), cond, kind, where, st.bounded))

    def internal(self, hyps, goal, kind, node):
        """an obligation on a generated loop summary: if it cannot be discharged the summary is not used"""
        if goal is True: return
        if isz(goal):
            goal = z3.simplify(goal)
            if z3.is_true(goal): self.ninternal += 1; return
        from .prove import prove
        r, q, msg = prove(hyps, goal, 2500)
        self.ninternal += 1
        if r != "proved":
            if self.opts.get("debug"): print("INTERNAL FAIL", kind, line_of(node), goal)
            raise Unsupported("%s: not established at line %s" % (kind, line_of(node)))

    # ------------------------------------------------------------ types
    def ty(self, node):
        t = node.get("type", {})
        return self.prog.typ(t.get("desugaredQualType") or t.get("qualType", "void"))
    def tyq(self, node):
        return self.prog.typ(node.get("type", {}).get("qualType", "void"))

    # ------------------------------------------------------------ memory
    def init_struct(self, st, name, origin, rname, zero=False, fresh_vals=False, prefix=""):
        """field dictionary for a struct; array members become separate regions"""
        d = {}
        for f, tys in (self.prog.fields(name) or []):
            t = self.prog.typ(tys)
            p = prefix + f
            if t[0] == "struct" and self.prog.fields(t[1]):
                d.update(self.init_struct(st, t[1], origin, rname, zero, fresh_vals, p + "."))
            elif t[0] == "arr":
                if t[1][0] == "ptr" and t[1][1][0] == "void": t = ("arr", ("int", 8), t[2])      # opaque handles
                rid = st.new("arr", t[1], t[2], "sub" if origin in ("new", "pre") else origin, rname + "." + p)
                st.mem[rid] = aconst(0.0 if concrete() else R(0)) if zero and t[1][0] == "float" else (aconst(0) if zero else self.fresh_arr(rname + "." + p, t[1]))
                d[p] = Ptr(rid, 0)
            elif zero:
                d[p] = NULL if t[0] in ("ptr",) else (R(0) if t[0] == "float" else (NULL if t[0] == "fn" else 0))
            elif fresh_vals:
                d[p] = self.fresh_val(rname + "." + p, t)
            else:
                d[p] = None
        return d
    def fresh_arr(self, name, elem):
        return abase(name, sort_of(elem))
    def fresh_val(self, name, t):
        if t[0] == "float": return fresh(name, REAL)
        if t[0] in ("int", "enum"): return fresh(name, INT)
        return None

    def new_region(self, st, t, origin, name, zero=False):
        if t[0] == "struct":
            if self.prog.fields(t[1]) is None: raise Unsupported("incomplete type " + t[1])
            rid = st.new("struct", t, None, origin, name)
            st.mem[rid] = self.init_struct(st, t[1], origin, name, zero)
            return Ptr(rid, 0, "")
        if t[0] == "arr":
            rid = st.new("arr", t[1], t[2], origin, name)
            st.mem[rid] = aconst(R(0) if t[1][0] == "float" else 0) if zero else self.fresh_arr(name, t[1])
            return Ptr(rid, 0, "")
        rid = st.new("cell", t, None, origin, name)
        st.mem[rid] = {"": ((NULL if t[0] in ("ptr", "fn") else as_num(0, t)) if zero else None)}
        return Ptr(rid, 0, "")

    def check_alive(self, st, p, node, what="access"):
        if p is None or isinstance(p, Any_): raise Unsupported("undefined pointer")
        if p.rid is None:
            self.oblige(st, False, "null pointer " + what, node); return False
        if p.rid in st.freed:
            self.oblige(st, False, "use of released memory", node); return False
        return True

    def load(self, st, p, t, node):
        """returns value or raises Dead path by returning NotImplemented"""
        if not self.check_alive(st, p, node): return NotImplemented
        reg = st.reg[p.rid]
        if reg.kind == "raw": self.retype(st, p.rid, t)
        reg = st.reg[p.rid]
        m = st.mem[p.rid]
        if reg.kind in ("struct", "cell"):
            if isinstance(p.off, int) and p.off == 0 or True:
                if p.path not in m:
                    if t[0] == "struct":   # struct rvalue: sub dictionary
                        pre = p.path + "." if p.path else ""
                        return {k[len(pre):]: v for k, v in m.items() if k.startswith(pre)}
                    raise Unsupported("field %s of %s" % (p.path, reg))
                return m[p.path]
        if reg.kind == "arr":
            self.oblige(st, And(le(0, p.off), lt(p.off, reg.length)), "read within bounds of " + reg.name, node)
            return m.read(p.off)
        if reg.kind == "str":
            return fresh("chr", INT)
        raise Unsupported("load from " + reg.kind)

    def store(self, st, p, v, t, node):
        if not self.check_alive(st, p, node): return False
        reg = st.reg[p.rid]
        if reg.kind == "raw": self.retype(st, p.rid, t); reg = st.reg[p.rid]
        m = st.mem[p.rid]
        st.ver += 1
        if reg.kind in ("struct", "cell"):
            d = dict(m)
            if isinstance(v, dict):
                pre = p.path + "." if p.path else ""
                for k, x in v.items(): d[pre + k] = x
            else:
                if p.path not in d: raise Unsupported("store to field %s of %s" % (p.path, reg))
                d[p.path] = as_num(v, t)
            st.mem[p.rid] = d
            return True
        if reg.kind == "arr":
            self.oblige(st, And(le(0, p.off), lt(p.off, reg.length)), "write within bounds of " + reg.name, node)
            if isinstance(v, Ptr) and v.rid is None and reg.ctype[0] == "int": v = 0        # cleared opaque handle
            v = as_num(v, reg.ctype)
            if v is None or isinstance(v, (Ptr, Fn)): 
                raise Unsupported("pointer stored in array")
            st.mem[p.rid] = astore(m, p.off, lift(v) if not concrete() else v)
            return True
        raise Unsupported("store to " + reg.kind)

    def retype(self, st, rid, t):
        """give a malloc'ed block its element type"""
        reg = st.reg[rid]
        if reg.kind != "raw": return
        size = self.prog.sizeof(t)
        nb = reg.bytes
        if t[0] == "struct":
            if not (isinstance(nb, int) and nb >= size):
                self.oblige(st, le(size, nb), "allocation large enough for " + t[1], None)
            nr = Region(rid, "struct", t, None, reg.origin, reg.name, nb, reg.alloc)
            st.reg[rid] = nr
            st.mem[rid] = self.init_struct(st, t[1], reg.origin, reg.name, zero=reg.zero)
        else:
            n = div_exact(nb, size)
            nr = Region(rid, "arr", t, n, reg.origin, reg.name, nb, reg.alloc)
            st.reg[rid] = nr
            if reg.zero: st.mem[rid] = aconst(R(0) if t[0] == "float" else 0)
            elif t[0] in ("ptr", "fn"): raise Unsupported("array of pointers")
            else: st.mem[rid] = self.fresh_arr(reg.name, t)

    def malloc(self, st, nbytes, node, zero=False, alloc="c"):
        """[(state, Ptr)]: failure and success"""
        if alloc == "mkl":
            # mkl_malloc(0) and mkl_calloc(0, .) return NULL
            z = self.fork(st, Eq(nbytes, 0))
            out = []
            for s, b in z:
                if b: out.append((s, NULL))
                else: out += self.malloc_(s, nbytes, node, zero, alloc)
            return out
        return self.malloc_(st, nbytes, node, zero, alloc)
    def malloc_(self, st, nbytes, node, zero, alloc):
        out = []
        if not self.opts.get("nofail"):
            f_ = st.clone(); f_.oom = True
            out.append((f_, NULL))
        s = st
        s.assume(le(0, nbytes))
        rid = s.new("raw", ("void",), None, "new", "%s@%s" % (self.stack[-1], line_of(node) if isinstance(node, dict) else ""), nbytes, alloc)
        s.reg[rid].zero = zero
        s.mem[rid] = None
        s.ver += 1
        out.append((s, Ptr(rid, 0)))
        return out

    def free(self, st, p, node, alloc="c"):
        if p.rid is None: return
        if p.rid in st.freed:
            self.oblige(st, False, "double release", node); return
        reg = st.reg[p.rid]
        if reg.origin not in ("new", "pre"):
            self.oblige(st, False, "release of memory that is not heap allocated", node); return
        if not (isinstance(p.off, int) and p.off == 0 and p.path == ""):
            self.oblige(st, Eq(p.off, 0), "release of an interior pointer", node)
        if reg.alloc is not None and reg.alloc != alloc:
            self.oblige(st, False, "memory released with the wrong allocator (%s/%s)" % (reg.alloc, alloc), node)
        st.freed = st.freed | {p.rid}
        st.ver += 1

    # ------------------------------------------------------------ feasibility
    def feas(self, st, c):
        if c is True: return True
        if c is False: return False
        if isz(c):
            c = z3.simplify(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
        return feasible(st.pc, c)

    def fork(self, st, c):
        """[(state, bool)] for the feasible truth values of c"""
        if not isz(c): return [(st, bool(c))]
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        t = self.feas(st, c); f = self.feas(st, z3.Not(c))
        if t and f:
            a, b = st, st.clone()
            a.assume(c); b.assume(z3.Not(c))
            return [(a, True), (b, False)]
        if t: return [(st, True)]
        if f: return [(st, False)]
        return []

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        """evaluate a list of expressions left to right: [(state, [values])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, e, st):
        k = e["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        return m(e, st)

    def lv(self, e, st):
        """[(state, Ptr)]"""
        k = e["kind"]
        if k == "ParenExpr": return self.lv(e["inner"][0], st)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            return [(st, self.var(d, st))]
        if k == "MemberExpr":
            out = []
            if e.get("isArrow"):
                for s, p in self.ev(e["inner"][0], st):
                    q = self.member(s, p, e)
                    if q is not None: out.append((s, q))
            else:
                for s, p in self.lv(e["inner"][0], st):
                    q = self.member(s, p, e)
                    if q is not None: out.append((s, q))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for s, (b, i) in self.evs(e["inner"], st):
                if not isinstance(b, Ptr) and isinstance(i, Ptr): b, i = i, b
                q = self.padd(s, b, i, self.tyq(e), e)
                out.append((s, q))
            return out
        if k == "UnaryOperator" and e["opcode"] == "*":
            return [(s, p) for s, p in self.ev(e["inner"][0], st)]
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and e.get("castKind") in ("NoOp", "BitCast", "LValueBitCast"):
            return self.lv(e["inner"][0], st)
        if k == "ConditionalOperator":
            out = []
            for s, c in self.ev(e["inner"][0], st):
                for s2, b in self.fork(s, as_bool(c)):
                    out += self.lv(e["inner"][1 if b else 2], s2)
            return out
        if k in ("CompoundLiteralExpr", "StringLiteral", "PredefinedExpr", "InitListExpr"):
            return self.ev(e, st)
        raise Unsupported("lvalue " + k)

    def member(self, st, p, e):
        if not isinstance(p, Ptr): raise Unsupported("member of non-pointer")
        if not self.check_alive(st, p, e, "dereference"): return None
        reg = st.reg[p.rid]
        if reg.kind == "raw":
            t = self.tyq(e["inner"][0])
            if t[0] == "ptr": t = t[1]
            self.retype(st, p.rid, t); reg = st.reg[p.rid]
        if reg.kind not in ("struct", "cell"): raise Unsupported("member of %s" % reg)
        nm = e["name"]
        return Ptr(p.rid, 0, (p.path + "." if p.path else "") + nm)

    def var(self, d, st):
        i = d["id"]
        if i in st.env: return st.env[i]
        if d["kind"] in ("VarDecl",):
            return self.globvar(d["name"], st)
        raise Unsupported("variable %s" % d.get("name"))

    def globvar(self, name, st):
        key = "g:" + name
        if key in st.env: return st.env[key]
        node = self.prog.globals.get(name)
        if node is None: raise Unsupported("global " + name)
        t = self.tyq(node)
        if t[0] == "arr" and t[1][0] == "ptr":
            # table of strings
            rid = st.new("strtab", t, None, "global", name)
            init = next((x for x in node.get("inner", []) if x["kind"] == "InitListExpr"), None)
            st.reg[rid].length = len(init["inner"]) if init else t[2]
            st.mem[rid] = init
            p = Ptr(rid, 0)
        else:
            gr = self.globals.get(name)
            if gr is None:
                gr = self.globals[name] = (fresh("glob_" + name, REAL) if t[0] == "float" else fresh("glob_" + name, INT)) if t[0] in ("float", "int", "enum") else None
            p = self.new_region(st, t, "global", name)
            if gr is not None: st.mem[p.rid] = {"": gr}
        st.env[key] = p
        return p

    def padd(self, st, p, i, elem, node):
        if not isinstance(p, Ptr): raise Unsupported("arithmetic on non-pointer")
        if p.rid is None:
            z = simp(as_int(i))
            if not isz(z) and z == 0: return p
            return Ptr(None, 0)          # address computation on NULL: only a later access is an error
        reg = st.reg[p.rid]
        if reg.kind == "raw" and p.rid not in st.freed:
            self.retype(st, p.rid, elem); reg = st.reg[p.rid]
        if reg.kind in ("struct", "cell"):
            z = simp(as_int(i))
            if not isz(z) and z == 0: return p
            raise Unsupported("pointer arithmetic on object")
        return Ptr(p.rid, add(p.off, as_int(i)), p.path)

    # --- leaves
    def e_IntegerLiteral(self, e, st): return [(st, int(e["value"]))]
    def e_CharacterLiteral(self, e, st): return [(st, int(e["value"]))]
    def e_FloatingLiteral(self, e, st): return [(st, R(float_literal(e["value"])))]
    def e_StringLiteral(self, e, st):
        rid = st.new("str", ("int", 1), None, "str", e.get("value", ""))
        st.mem[rid] = e.get("value", "")
        return [(st, Ptr(rid, 0))]
    def e_PredefinedExpr(self, e, st): return self.e_StringLiteral({"value": "func"}, st)
    def e_ParenExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_ConstantExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return [(st, self.prog.enums[d["name"]])]
        if d["kind"] == "FunctionDecl": return [(st, Fn(d["name"]))]
        return self.e_lval(e, st)
    def e_lval(self, e, st):
        out = []
        t = self.tyq(e)
        for s, p in self.lv(e, st):
            if t[0] == "arr":
                out.append((s, self.decay(s, p))); continue
            v = self.load(s, p, t, e)
            if v is NotImplemented: continue
            out.append((s, v))
        return out
    e_MemberExpr = e_lval
    def e_ArraySubscriptExpr(self, e, st):
        out = []
        t = self.tyq(e)
        for s, p in self.lv(e, st):
            if p.rid is not None and s.reg[p.rid].kind == "strtab":
                self.oblige(s, And(le(0, p.off), lt(p.off, s.reg[p.rid].length)), "table index within bounds of " + s.reg[p.rid].name, e)
                rid = s.new("str", ("int", 1), None, "str", "entry")
                off = simp(p.off)
                s.mem[rid] = ("tab", s.reg[p.rid].name, p.off)
                out.append((s, Ptr(rid, 0))); continue
            v = self.load(s, p, t, e)
            if v is NotImplemented: continue
            out.append((s, v))
        return out
    def decay(self, st, p):
        if p.rid is None: return p
        reg = st.reg[p.rid]
        if reg.kind in ("struct",):
            v = st.mem[p.rid].get(p.path)
            if isinstance(v, Ptr): return v
        return Ptr(p.rid, p.off, p.path)
    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        t = e.get("argType")
        if t is not None:
            tt = self.prog.typ(t.get("desugaredQualType") or t["qualType"])
            if tt[0] == "struct" and not self.prog.fields(tt[1]): tt = self.prog.typ(t["qualType"])
        else: tt = self.tyq(e["inner"][0])
        return [(st, self.prog.sizeof(tt))]
    def e_InitListExpr(self, e, st): raise Unsupported("initialiser list value")

    # --- casts
    def e_ImplicitCastExpr(self, e, st):
        ck = e["castKind"]; sub = e["inner"][0]
        if ck == "LValueToRValue": 
            return self.ev_rv(sub, st)
        if ck == "ArrayToPointerDecay":
            if sub["kind"] in ("StringLiteral", "PredefinedExpr"): return self.ev(sub, st)
            return [(s, self.decay(s, p)) for s, p in self.lv(sub, st)]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr", "NoOp", "ToVoid", "ConstructorConversion"): return self.ev(sub, st)
        if ck == "NullToPointer":
            return [(s, NULL) for s, v in self.ev(sub, st)]
        out = []
        for s, v in self.ev(sub, st):
            out.append((s, self.cast(s, v, ck, self.tyq(e), e)))
        return out
    e_CStyleCastExpr = e_ImplicitCastExpr
    def ev_rv(self, sub, st):
        while sub["kind"] == "ParenExpr": sub = sub["inner"][0]
        if sub["kind"] in ("DeclRefExpr", "MemberExpr"): return self.e_lval(sub, st)
        if sub["kind"] == "ArraySubscriptExpr": return self.e_ArraySubscriptExpr(sub, st)
        if sub["kind"] == "UnaryOperator" and sub["opcode"] == "*":
            out = []
            t = self.tyq(sub)
            for s, p in self.ev(sub["inner"][0], st):
                if t[0] == "struct":
                    v = self.load(s, p, t, sub)
                else: v = self.load(s, p, t, sub)
                if v is NotImplemented: continue
                out.append((s, v))
            return out
        if sub["kind"] in ("ConditionalOperator",):
            out = []
            for s, p in self.lv(sub, st):
                v = self.load(s, p, self.tyq(sub), sub)
                if v is not NotImplemented: out.append((s, v))
            return out
        return self.ev(sub, st)
    def cast(self, s, v, ck, t, e):
        if ck == "IntegralToFloating": return R(as_int(v))
        if ck == "FloatingToIntegral":
            if not isz(v): return int(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ("FloatingCast",): return v
        if ck in ("IntegralCast",): return as_int(v) if not isbool(v) else v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return as_bool(v)
        if ck == "BitCast":
            if isinstance(v, Ptr) and v.rid is not None and v.rid in s.reg and s.reg[v.rid].kind == "raw" and t[0] == "ptr" and t[1][0] not in ("void",) and not (t[1][0] == "struct" and not self.prog.fields(t[1][1])):
                self.retype(s, v.rid, t[1])
            return v
        if ck in ("NullToPointer",): return NULL
        if ck == "IntegralToPointer":
            if not isz(v) and v == 0: return NULL
            raise Unsupported("integer to pointer")
        if ck == "PointerToIntegral": raise Unsupported("pointer to integer")
        return v

    # --- operators
    def e_UnaryOperator(self, e, st):
        op = e["opcode"]; sub = e["inner"][0]
        if op == "&":
            x = sub
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return [(st, Fn(x["referencedDecl"]["name"]))]
            return [(s, self.addr(s, p)) for s, p in self.lv(sub, st)]
        if op == "*":
            return self.ev_rv(e, st)
        if op in ("++", "--"):
            out = []
            t = self.tyq(sub)
            for s, p in self.lv(sub, st):
                v = self.load(s, p, t, e)
                if v is NotImplemented: continue
                d = 1 if op == "++" else -1
                if isinstance(v, Ptr): nv = self.padd(s, v, d, t[1], e)
                else: nv = add(as_int(v), d) if t[0] != "float" else v + R(d)
                if self.store(s, p, nv, t, e) is False: continue
                out.append((s, v if e.get("isPostfix") else nv))
            return out
        out = []
        for s, v in self.ev(sub, st):
            if op == "-":
                v = as_int(v)
                if isz(v): v = -v
                else: v = -v
            elif op == "+": v = as_int(v)
            elif op == "!": v = Not(as_bool(v))
            elif op == "~":
                v = ~v if not isz(v) else -v - 1
            elif op in ("__extension__",): pass
            else: raise Unsupported("unary " + op)
            out.append((s, v))
        return out
    def addr(self, s, p):
        """address of an lvalue; arrays embedded in structs denote their own region"""
        if p.rid is not None and s.reg[p.rid].kind == "struct":
            v = s.mem[p.rid].get(p.path)
            if isinstance(v, Ptr) and v.rid is not None and s.reg[v.rid].origin == "sub": return v
        return p
    def e_ConditionalOperator(self, e, st):
        out = []
        c, a, b = e["inner"]
        for s, cv in self.ev(c, st):
            cb = as_bool(cv)
            if isz(cb): cb = simp(cb)
            if not isz(cb):
                out += self.ev(a if cb else b, s); continue
            sa = s.clone().assume(cb); sb = s.clone().assume(z3.Not(cb))
            ra = self.ev(a, sa) if True else []
            rb = self.ev(b, sb)
            if len(ra) == 1 and len(rb) == 1 and ra[0][0].ver == s.ver and rb[0][0].ver == s.ver \
               and not isinstance(ra[0][1], (Ptr, Fn)) and not isinstance(rb[0][1], (Ptr, Fn)) and ra[0][1] is not None and rb[0][1] is not None:
                va, vb = as_int(ra[0][1]), as_int(rb[0][1])
                if not isz(va) and not isz(vb): va, vb = lift(va), lift(vb)
                s.env.update({k: v for k, v in ra[0][0].env.items() if k not in s.env})
                self.adopt(s, ra[0][0]); self.adopt(s, rb[0][0])
                out.append((s, If(cb, va, vb)))
            else:
                if self.feas(s, cb): out += ra
                if self.feas(s, z3.Not(cb)): out += rb
        return out
    def adopt(self, s, s2):
        for r, m in s2.mem.items():
            if r not in s.mem: s.mem[r] = m; s.reg[r] = s2.reg[r]
    def logical(self, e, st, is_and):
        out = []
        a, b = e["inner"]
        for s, av in self.ev(a, st):
            ab = as_bool(av)
            if isz(ab): ab = simp(ab)
            if not isz(ab):
                if is_and and not ab: out.append((s, False))
                elif not is_and and ab: out.append((s, True))
                else: out += [(s2, as_bool(v)) for s2, v in self.ev(b, s)]
                continue
            g = ab if is_and else z3.Not(ab)
            sb = s.clone().assume(g)
            rb = self.ev(b, sb)
            if len(rb) == 1 and rb[0][0].ver == s.ver:
                bb = as_bool(rb[0][1])
                self.adopt(s, rb[0][0])
                out.append((s, And(ab, bb) if is_and else Or(ab, bb)))
            else:
                s2 = s.clone().assume(z3.Not(g))
                if self.feas(s, z3.Not(g)): out.append((s2, not is_and))
                if self.feas(s, g): out += [(x, as_bool(v)) for x, v in rb]
        return out
    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        if op == "&&": return self.logical(e, st, True)
        if op == "||": return self.logical(e, st, False)
        l, r = e["inner"]
        if op == "=":
            out = []
            t = self.tyq(l)
            for s, v in self.ev(r, st):
                for s2, p in self.lv(l, s):
                    if isinstance(v, Ptr) and v.rid is not None and s2.reg.get(v.rid) is not None and s2.reg[v.rid].kind == "raw" and t[0] == "ptr" and t[1][0] != "void" and v.rid not in s2.freed and not (t[1][0] == "struct" and not self.prog.fields(t[1][1])):
                        self.retype(s2, v.rid, t[1])
                    if t[0] == "struct" and isinstance(v, Ptr): v = self.load(s2, v, t, e)
                    if self.store(s2, p, v, t, e) is False: continue
                    out.append((s2, v))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(l, st): out += self.ev(r, s)
            return out
        return [(s, self.binop(s, op, a, b, e, self.tyq(l), self.tyq(r))) for s, (a, b) in self.evs([l, r], st)]
    def binop(self, s, op, a, b, e, tl=None, tr=None):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op in ("==", "!="):
                eq = a == b if isinstance(a, Fn) and isinstance(b, Fn) else False
                return eq if op == "==" else not eq
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ("==", "!="):
                eq = ptr_eq(a, b)
                return eq if op == "==" else Not(eq)
            if op == "-":
                if a.rid == b.rid: return sub(a.off, b.off)
                raise Unsupported("difference of unrelated pointers")
            if op in ("<", ">", "<=", ">=") and a.rid == b.rid:
                return cmp(op, a.off, b.off)
            raise Unsupported("pointer comparison")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!=") :
                x, y = (a, b) if isinstance(a, Ptr) else (b, a)
                if not isz(y) and y == 0:
                    eq = x.rid is None
                    return eq if op == "==" else not eq
            if op == "+":
                p, i, t = (a, b, tl) if isinstance(a, Ptr) else (b, a, tr)
                return self.padd(s, p, i, t[1], e)
            if op == "-": return self.padd(s, a, neg(as_int(b)), tl[1], e)
            raise Unsupported("pointer operator " + op)
        if a is None or b is None: raise Unsupported("use of an undefined value at line %s" % line_of(e))
        a, b = as_int(a), as_int(b)
        fl = (isreal(a) or isreal(b) or isinstance(a, float) or isinstance(b, float))
        if op in ("<", ">", "<=", ">=", "==", "!="): return cmp(op, a, b)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            if fl: return Div(a, b)
            self.oblige(s, cmp("!=", b, 0), "integer division by nonzero", e)
            if not isz(a) and not isz(b):
                return int(a / b) if b else 0
            a, b = lift(a), lift(b)
            return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        if op == "%":
            self.oblige(s, cmp("!=", b, 0), "integer remainder by nonzero", e)
            if not isz(a) and not isz(b): return (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else 0
            a, b = lift(a), lift(b)
            return z3.If(a >= 0, a % z3.If(b > 0, b, -b), -((-a) % z3.If(b > 0, b, -b)))
        if op in ("&", "|", "^", "<<", ">>"):
            if not isz(a) and not isz(b):
                return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if op == "<<" else 0, ">>": a >> b if op == ">>" else 0}[op]
            return bitop(op, a, b)
        raise Unsupported("operator " + op)
    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        l, r = e["inner"]
        t = self.tyq(l)
        out = []
        for s, v in self.ev(r, st):
            for s2, p in self.lv(l, s):
                old = self.load(s2, p, t, e)
                if old is NotImplemented: continue
                a = old
                if t[0] == "int" and (isreal(v) or isinstance(v, float)):
                    nv = self.cast(s2, self.binop(s2, op, R(as_int(a)), v, e), "FloatingToIntegral", t, e)
                else:
                    nv = self.binop(s2, op, a, v, e, t, self.tyq(r))
                if self.store(s2, p, nv, t, e) is False: continue
                out.append((s2, nv))
        return out

    # --- calls
    def e_CallExpr(self, e, st):
        callee = e["inner"][0]; args = e["inner"][1:]
        out = []
        for s, f in self.ev(callee, st):
            if isinstance(f, Ptr) and f.rid is None:
                self.oblige(s, False, "call through a null function pointer", e); continue
            if not isinstance(f, Fn): raise Unsupported("call of %r" % (f,))
            for s2, vs in self.evs(args, s):
                out += self.call(f.name, vs, s2, e)
        if len(out) > MAXPATHS: raise PathLimit("too many paths")
        return out

    def call(self, name, args, st, node):
        self.npaths += 1
        if self.deadline is not None:
            import time
            if time.time() > self.deadline: raise PathLimit("time budget of symbolic execution")
        sp = self.specs.for_call(name, self)
        if sp is not None and not (sp.inline_ok and self.opts.get("inline_all")):
            w = name + "#weak"                    # (inside osqp_solve the weaker contract of f is what is used)
            self.used_specs.add(w if self.opts.get("weak") and w in self.specs.specs else name)
            if sp.trusted: self.trusted.add(name)
            return sp.apply(self, st, args, node)
        if name in self.prog.funcs:
            return self.inline(name, args, st, node)
        raise Unsupported("call of unknown function " + name)

    def inline(self, name, args, st, node):
        if self.depth > 12 or name in self.stack[1:]: raise Unsupported("recursion or call depth at " + name)
        self.inlined.add(name)
        self.depth += 1; self.stack.append(name)
        try:
            save = st.env
            st.env = {k: v for k, v in save.items() if isinstance(k, str) and k.startswith("g:")}
            rs = self.run_body(name, args, st)
            out = []
            for s, v in rs:
                g = {k: x for k, x in s.env.items() if isinstance(k, str) and k.startswith("g:")}
                s.env = dict(save); s.env.update(g)
                out.append((s, v))
            return out
        finally:
            self.depth -= 1; self.stack.pop()

    def run_body(self, name, args, st):
        node = self.prog.funcs[name]
        ps = func_params(node)
        if len(ps) != len(args): raise Unsupported("argument count of " + name)
        for p, v in zip(ps, args):
            t = self.tyq(p)
            if t[0] == "arr": t = ("ptr", t[1])
            if isinstance(v, dict):
                rid = st.new("struct", t, None, "stack", p.get("name", "")); st.mem[rid] = dict(v)
            else:
                rid = st.new("cell", t, None, "stack", p.get("name", ""))
                st.mem[rid] = {"": as_num(v, t)}
            st.env[p["id"]] = Ptr(rid, 0, "")
        out = []
        rett = self.prog.typ(node["type"]["qualType"].split("(")[0])
        for s, kind, val in self.ex(func_body(node), st):
            if kind == "ret": out.append((s, as_num(val, rett) if val is not None and not isinstance(val, (Ptr, Fn, dict)) else val))
            elif kind == "norm": out.append((s, None))
            else: raise Unsupported("outcome %s at end of %s" % (kind, name))
        return out

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        k = n["kind"]
        if not k: return [(st, "norm", None)]
        m = getattr(self, "s_" + k, None)
        if m is not None: return m(n, st)
        return [(s, "norm", None) for s, _ in self.ev(n, st)]

    def s_NullStmt(self, n, st): return [(st, "norm", None)]
    def s_CompoundStmt(self, n, st):
        return self.seq(n.get("inner", []), st)
    def seq(self, stmts, st, start=0):
        cur = [st]; out = []
        pending = {}            # label -> states waiting
        for i in range(start, len(stmts)):
            s = stmts[i]
            if s["kind"] == "LabelStmt" and s.get("name") in pending:
                cur = cur + pending.pop(s["name"])
            if not cur:
                # nothing reaches here except labels inside
                if s["kind"] == "LabelStmt" or pending: 
                    if s["kind"] != "LabelStmt": continue
                else: continue
            nxt = []
            cur = self.mergeall(cur)
            for c in cur:
                for s2, kind, v in self.ex(s, c):
                    if kind == "norm": nxt.append(s2)
                    elif kind == "goto" and has_label(stmts[i + 1:], v): pending.setdefault(v, []).append(s2)
                    else: out.append((s2, kind, v))
            cur = nxt
            if len(cur) + len(out) > MAXPATHS: raise PathLimit("too many paths")
        return out + [(c, "norm", None) for c in cur]
    def s_LabelStmt(self, n, st): return self.ex(n["inner"][0], st)
    def s_GotoStmt(self, n, st):
        return [(st, "goto", self.label_name(n))]
    def label_name(self, n):
        tid = n.get("targetLabelDeclId")
        return self.labels().get(tid, tid)
    def labels(self):
        nm = self.stack[-1]
        c = getattr(self, "_labels", None)
        if c is None: c = self._labels = {}
        if nm not in c:
            d = {}
            def walk(x):
                if x.get("kind") == "LabelStmt": d[x.get("declId")] = x["name"]
                for y in x.get("inner", []): walk(y)
            walk(self.prog.funcs[nm]); c[nm] = d
        return c[nm]
    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl": continue
            t = self.tyq(d)
            nxt = []
            for s in cur:
                init = d.get("inner", [])
                init = [x for x in init if "Attr" not in x["kind"] and "Comment" not in x["kind"]]
                if d.get("storageClass") == "static": raise Unsupported("static local")
                if init and d.get("init"):
                    iv = init[-1]
                    if iv["kind"] == "InitListExpr":
                        p = self.new_region(s, t, "stack", d["name"], zero=True)
                        s.env[d["id"]] = p
                        if t[0] == "struct":
                            fs = [f for f, _ in self.prog.fields(t[1])]
                            rs = [s]
                            for f, x in zip(fs, iv.get("inner", [])):
                                if x["kind"] == "ImplicitValueInitExpr": continue
                                r2 = []
                                for s1 in rs:
                                    for s2, v in self.ev(x, s1):
                                        self.store(s2, Ptr(p.rid, 0, f), v, self.prog.typ(dict(self.prog.fields(t[1]))[f]), d); r2.append(s2)
                                rs = r2
                            nxt += rs; continue
                        rs = [s]
                        for j, x in enumerate(iv.get("inner", [])):
                            if x["kind"] == "ImplicitValueInitExpr": continue
                            r2 = []
                            for s1 in rs:
                                for s2, v in self.ev(x, s1):
                                    self.store(s2, Ptr(p.rid, j), v, t[1], d); r2.append(s2)
                            rs = r2
                        nxt += rs; continue
                    for s2, v in self.ev(iv, s):
                        if isinstance(v, dict):
                            p = self.new_region(s2, t, "stack", d["name"]); s2.mem[p.rid] = dict(v); s2.env[d["id"]] = p
                        else:
                            if isinstance(v, Ptr) and v.rid is not None and s2.reg.get(v.rid) is not None and s2.reg[v.rid].kind == "raw" and t[0] == "ptr" and t[1][0] != "void" and v.rid not in s2.freed and not (t[1][0] == "struct" and not self.prog.fields(t[1][1])):
                                self.retype(s2, v.rid, t[1])
                            rid = s2.new("cell", t, None, "stack", d["name"])
                            s2.mem[rid] = {"": as_num(v, t)}
                            s2.env[d["id"]] = Ptr(rid)
                        nxt.append(s2)
                else:
                    s.env[d["id"]] = self.new_region(s, t, "stack", d["name"])
                    nxt.append(s)
            cur = nxt
        return [(s, "norm", None) for s in cur]
    def s_ReturnStmt(self, n, st):
        if not n.get("inner"): return [(st, "ret", None)]
        return [(s, "ret", v) for s, v in self.ev(n["inner"][0], st)]
    def s_BreakStmt(self, n, st): return [(st, "brk", None)]
    def s_ContinueStmt(self, n, st): return [(st, "cont", None)]
    def s_IfStmt(self, n, st):
        inner = n["inner"]
        c, th = inner[0], inner[1]
        el = inner[2] if len(inner) > 2 else None
        out = []
        for s, cv in self.ev(c, st):
            cb = as_bool(cv)
            fs = self.fork(s, cb)
            if len(fs) == 2:
                base = len(fs[0][0].pc)
                r1 = self.ex(th, fs[0][0]); r2 = self.ex(el, fs[1][0]) if el else [(fs[1][0], "norm", None)]
                n1 = [x for x in r1 if x[1] == "norm"]; n2 = [x for x in r2 if x[1] == "norm"]
                if len(n1) == 1 and len(n2) == 1:
                    mg = None if getattr(self, "nomerge", False) else self.merge(n1[0][0], n2[0][0])
                    if mg is not None:
                        out += [x for x in r1 + r2 if x[1] != "norm"]
                        out.append((mg, "norm", None)); continue
                out += r1 + r2
            elif fs:
                s2, b = fs[0]
                if b: out += self.ex(th, s2)
                elif el: out += self.ex(el, s2)
                else: out.append((s2, "norm", None))
        return out
    def s_SwitchStmt(self, n, st):
        c, body = n["inner"][-2], n["inner"][-1]
        out = []
        stmts = body.get("inner", [])
        # flatten case labels
        flat_ = []
        for x in stmts:
            labs = []
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt": labs.append(x["inner"][0]); x = x["inner"][-1]
                else: labs.append(None); x = x["inner"][0]
            flat_.append((labs, x))
        for s, v in self.ev(c, st):
            v = as_int(v)
            rest = s; conds = []; res = []
            default = None
            for i, (labs, x) in enumerate(flat_):
                for l in labs:
                    if l is None: default = i; continue
                    (_, lv), = self.ev(l, s.clone())
                    conds.append((cmp("==", v, lv), i))
            tmp = s; started = []
            done = False
            for cnd, i in conds:
                fs = self.fork(tmp, cnd)
                nt = None
                for s2, b in fs:
                    if b: started.append((s2, i))
                    else: nt = s2
                if nt is None: done = True; break
                tmp = nt
            if not done:
                if default is not None: started.append((tmp, default))
                else: out.append((tmp, "norm", None))
            norm = []
            for s2, i in started:
                for s3, kind, val in self.seq([x for _, x in flat_[i:]], s2):
                    if kind in ("brk", "norm"): norm.append(s3)
                    else: out.append((s3, kind, val))
            out += [(x, "norm", None) for x in self.mergeall(norm)]
        return out

    # ------------------------------------------------------------ merging
    def mergeall(self, sts):
        if getattr(self, "nomerge", False): return list(sts)
        if len(sts) < 2: return sts
        res = []
        for s in sts:
            for i, r in enumerate(res):
                m = self.merge(r, s)
                if m is not None: res[i] = m; break
            else: res.append(s)
        return res
    def mergeable(self, a, b):
        """structure only: same objects, same pointers"""
        if a.mem.keys() != b.mem.keys():
            for rid in a.mem.keys() ^ b.mem.keys():
                if (a.reg.get(rid) or b.reg.get(rid)).origin not in ("stack", "str", "global"): return False
        for rid, x in a.mem.items():
            y = b.mem.get(rid, x)
            if y is x: continue
            if type(x) is not type(y): return False
            if getattr(self, "mergelocal", False) and a.reg[rid].origin != "stack" and (not isinstance(x, dict) or any(x[f] is not y.get(f) for f in x)): return False
            if isinstance(x, dict):
                for f, u in x.items():
                    v = y.get(f)
                    if u is v: continue
                    if isinstance(u, (Ptr, Fn)) or isinstance(v, (Ptr, Fn)):
                        if type(u) is not type(v): return False
                        if isinstance(u, Fn):
                            if u != v: return False
                        elif u.rid != v.rid or u.path != v.path: return False
        return True
    def merge(self, a, b):
        if a.freed != b.freed or a.trace is not b.trace and a.trace != b.trace or a.bounded != b.bounded or a.oom != b.oom: return None
        if not self.mergeable(a, b): return None
        L = 0
        while L < len(a.pc) and L < len(b.pc) and (a.pc[L] is b.pc[L] or (isz(a.pc[L]) and isz(b.pc[L]) and a.pc[L].eq(b.pc[L]))): L += 1
        ra, rb = a.pc[L:], b.pc[L:]
        ca, cb = (z3.And([lift(x) for x in ra]) if len(ra) != 1 else lift(ra[0])), None
        if not ra and not rb: c = z3.BoolVal(True)
        if not ra or not rb:
            if not ra and not rb:
                # identical path conditions
                if all(a.mem.get(k) is v for k, v in b.mem.items()): return a
                return None
            return None
        c = lift(ra[0])          # the branch condition comes first
        nc = lift(rb[0])
        if not z3.simplify(z3.Not(c)).eq(z3.simplify(nc)): 
            c = ca
        out = State()
        mem = {}
        for rid in set(a.mem) | set(b.mem):
            ina, inb = rid in a.mem, rid in b.mem
            reg = a.reg.get(rid) or b.reg.get(rid)
            if ina != inb:
                if reg.origin in ("stack", "str", "global") :
                    if reg.origin == "global": mem[rid] = a.mem.get(rid, b.mem.get(rid))
                    elif reg.origin == "str": mem[rid] = a.mem.get(rid, b.mem.get(rid))
                    continue
                return None
            x, y = a.mem[rid], b.mem[rid]
            if x is y: mem[rid] = x; continue
            ka, kb = a.reg[rid].kind, b.reg[rid].kind
            if ka != kb: return None
            if isinstance(x, dict):
                d = {}
                for f in x:
                    u, v = x[f], y.get(f)
                    w = merge_val(c, u, v)
                    if w is NotImplemented or self.opts.get("split") and w is not u and not isz(u) and not isz(v): return None
                    d[f] = w
                mem[rid] = d
            elif isinstance(x, Arr):
                mem[rid] = aite(c, x, y)
            else: return None
        out.mem = mem
        out.reg = dict(a.reg); out.reg.update({k: v for k, v in b.reg.items() if k not in out.reg})
        out.freed, out.trace, out.bounded, out.oom = a.freed, a.trace, a.bounded, a.oom
        out.env = {k: v for k, v in a.env.items() if k in b.env and same_ptr(v, b.env[k])}
        for k, v in list(a.env.items()) + list(b.env.items()):
            if isinstance(k, str) and k.startswith("g:"): out.env.setdefault(k, v)
        out.ver = max(a.ver, b.ver) + (0 if a.ver == b.ver else 1)
        out.pc = a.pc[:L]
        if c is ca:
            out.pc.append(z3.Or(ca, z3.And([lift(x) for x in rb])))
            # facts
        else:
            fa, fb = ra[1:], rb[1:]
            if fa: out.pc.append(z3.Implies(c, z3.And([lift(x) for x in fa])))
            if fb: out.pc.append(z3.Implies(z3.Not(c), z3.And([lift(x) for x in fb])))
        return out

    # ------------------------------------------------------------ loops (see loops.py)
    def s_ForStmt(self, n, st):
        from .loops import run_loop
        return run_loop(self, n, st)
    s_WhileStmt = s_ForStmt
    s_DoStmt = s_ForStmt

def has_label(stmts, name):
    for s in stmts:
        if s["kind"] == "LabelStmt" and s.get("name") == name: return True
    return False

def same_ptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.path == b.path and (a.off is b.off or eqt(a.off, b.off) is True)
    return a is b
def merge_val(c, u, v):
    if u is v: return u
    if isinstance(u, Ptr) or isinstance(v, Ptr):
        if isinstance(u, Ptr) and isinstance(v, Ptr):
            if same_ptr(u, v): return u
            if u.rid == v.rid and u.path == v.path and u.rid is not None: return Ptr(u.rid, If(c, lift(u.off), lift(v.off)), u.path)
        return NotImplemented
    if isinstance(u, Fn) or isinstance(v, Fn): return u if u == v else NotImplemented
    if isinstance(u, Any_) or isinstance(v, Any_): return ANY
    if u is None or v is None: return None
    u, v = as_int(u), as_int(v)
    return If(c, u, v)
def ptr_eq(a, b):
    if a.rid is None or b.rid is None: return a.rid is None and b.rid is None
    if a.rid != b.rid or a.path != b.path: return False
    return eqt(a.off, b.off)
def add(a, b):
    if not isz(a) and not isz(b): return a + b
    a, b = coerce(a, b) if (isreal(a) or isreal(b)) else (lift(a), lift(b))
    return a + b if a.sort() == REAL else simpi(a + b)
def sub(a, b):
    if not isz(a) and not isz(b): return a - b
    a, b = coerce(a, b) if (isreal(a) or isreal(b)) else (lift(a), lift(b))
    return a - b if a.sort() == REAL else simpi(a - b)
def neg(a): return -a
def mul(a, b):
    if not isz(a) and not isz(b): return a * b
    a, b = coerce(a, b) if (isreal(a) or isreal(b)) else (lift(a), lift(b))
    return a * b
def simpi(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e
def cmp(op, a, b):
    a, b = as_int(a), as_int(b)
    if not isz(a) and not isz(b):
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    a, b = coerce(a, b)
    return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()
def div_exact(nb, size):
    if not isz(nb): return nb // size
    nb = z3.simplify(nb)
    if z3.is_mul(nb):
        ch = nb.children()
        if z3.is_int_value(ch[0]) and ch[0].as_long() % size == 0:
            q = ch[0].as_long() // size
            r = ch[1] if len(ch) == 2 else z3.Product(*ch[1:])
            return simpi(q * r)
    if z3.is_add(nb):
        parts = [div_exact(c, size) if isz(c) else c // size for c in nb.children()]
        ok = all((z3.is_int_value(c) and c.as_long() % size == 0) or (z3.is_mul(c) and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() % size == 0) for c in nb.children())
        if ok:
            r = parts[0]
            for p in parts[1:]: r = add(r, p)
            return r
    return simpi(nb / size)
_bits = {}
def bitop(op, a, b):
    f = _bits.setdefault(op, z3.Function("bit_" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], INT, INT, INT))
    return f(lift(a), lift(b))
def float_literal(s):
    import fractions
    return fractions.Fraction(repr(float(s)))
