"""Loops.  An inductive summary (invariant) of the loop is generated from the effect of one generic iteration and then
checked: base case, preservation by one iteration executed from the summarised state, exit.  Everything is unbounded in
the number of iterations.  Where no summary can be generated the loop is 'Unsupported' (the caller then falls back to a
bounded stand-in, labelled as such)."""
import z3, itertools
from .terms import *
from . import terms as T
from .heap import *
from .prove import feasible, prove

DEBUG = False

# ------------------------------------------------------------------------------------------------ rewriting of terms
_ff = {}
def def_funs(df):
    """names of uninterpreted functions in the body of a fold/ex/seg (transitively)"""
    r = _ff.get(df.name)
    if r is not None: return r
    out = set(); seen = set(); stack = [df.body]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name(); out.add(n)
                d = T.FOLDS.get(n) or T.EXS.get(n) or T.SEGS.get(n)
                if d is not None: out |= def_funs(d)
            for j in range(x.num_args()): stack.append(x.arg(j))
    _ff[df.name] = out
    return out

def term_funs(e):
    out = set(); seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name(); out.add(n)
                d = T.FOLDS.get(n) or T.EXS.get(n) or T.SEGS.get(n)
                if d is not None: out |= def_funs(d)
            for j in range(x.num_args()): stack.append(x.arg(j))
    return out

class Rewriter:
    def __init__(self, cm, fm):
        self.cm, self.fm = cm, fm        # const id -> term ; function name -> python function of the index term
        self.memo = {}; self.keep = []
    def __call__(self, e):
        if not isz(e): return e
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None: return r
        r = self.rw(e)
        self.memo[i] = r; self.keep.append(e)
        return r
    def rw(self, e):
        if not z3.is_app(e): return e
        n = e.num_args()
        if n == 0: return lift(self.cm.get(e.get_id(), e))
        d = e.decl(); nm = d.name()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            f = self.fm.get(nm)
            args = [self(e.arg(j)) for j in range(n)]
            if f is not None: return lift(f(args[0]))
            df = T.FOLDS.get(nm) or T.EXS.get(nm) or T.SEGS.get(nm)
            if df is not None and def_funs(df) & self.fm.keys():
                dd = T._depth[0]; T._depth[0] += 1
                try:
                    k = z3.Int("?k%d" % dd)
                    if df.kind == "fold":
                        a = z3.Const("?a%d_%s" % (dd, df.sort), df.sort)
                        b = z3.substitute(df.body, (df.k, k), (df.a, a), *zip(df.params, args[2:]))
                        return T.fold_of_body(args[0], args[1], self(b), k, a)
                    if df.kind == "ex":
                        b = z3.substitute(df.body, (df.k, k), *zip(df.params, args[1:]))
                        return T.ex_of_body(args[0], self(b), k)
                    b = z3.substitute(df.body, (df.k, k), *zip(df.params, args[2:]))
                    b = self(b)
                    return T.Seg(lambda q: z3.substitute(b, (k, lift(q))), args[0], args[1])
                finally: T._depth[0] -= 1
            return d(*args)
        args = [self(e.arg(j)) for j in range(n)]
        if all(args[j].get_id() == e.arg(j).get_id() for j in range(n)): return e
        return z3_app(e, args)

def z3_app(e, args):
    d = e.decl(); k = d.kind()
    if k == z3.Z3_OP_AND: return z3.And(*args)
    if k == z3.Z3_OP_OR: return z3.Or(*args)
    if k == z3.Z3_OP_ADD: return z3.Sum(*args)
    if k == z3.Z3_OP_MUL: return z3.Product(*args)
    return d(*args)

def guard_norm(e, F, t):
    """F(i) read under a guard implying i == t becomes F(t)"""
    memo = {}
    def rec(x, eqs):
        if not z3.is_app(x) or x.num_args() == 0: return x
        key = (x.get_id(), eqs)
        if key in memo: return memo[key][0]
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            e2 = eqs
            for q in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(q) and q.arg(0).sort() == INT:
                    l, r = q.arg(0).get_id(), q.arg(1).get_id()
                    if l in eqs: e2 = e2 | {r}
                    elif r in eqs: e2 = e2 | {l}
            r = z3.If(rec(c, eqs), rec(a, e2), rec(b, eqs))
        elif z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().name() == F and x.arg(0).get_id() in eqs:
            r = x.decl()(t)
        else:
            ch = [rec(c, eqs) for c in x.children()]
            r = x if all(p.get_id() == q.get_id() for p, q in zip(ch, x.children())) else z3_app(x, ch)
        memo[key] = (r, x)
        return r
    return rec(e, frozenset([t.get_id()]))

# ------------------------------------------------------------------------------------------------ driver
class Loop: pass

def parse(n):
    L = Loop(); L.node = n; L.kind = n["kind"]
    inner = n["inner"]
    if n["kind"] == "ForStmt":
        L.init, _, L.cond, L.inc, L.body = inner
        if not L.cond.get("kind"): L.cond = None
        if not L.inc.get("kind"): L.inc = None
        if not L.init.get("kind"): L.init = None
    elif n["kind"] == "WhileStmt":
        L.init = L.inc = None; L.cond, L.body = inner[-2], inner[-1]
    else:
        L.init = L.inc = None; L.body, L.cond = inner[0], inner[1]
    return L

def run_loop(ex, node, st):
    L = parse(node)
    sts = [st]
    if L.init is not None:
        sts = [s for s, k, v in ex.ex(L.init, st)]
    out = []
    for s in sts:
        out += loop_from(ex, L, s)
    return out

def const_true(c):
    if c is None: return True
    while c["kind"] in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr", "CStyleCastExpr"): c = c["inner"][0]
    return c["kind"] == "IntegerLiteral" and int(c["value"]) != 0

def iterate(ex, L, S):
    """one iteration from the loop head: (next states, exits [(st,kind,val)])"""
    nxt, exits = [], []
    def tail(s):
        if L.inc is not None: return [x for x, _ in ex.ev(L.inc, s)]
        return [s]
    if L.kind != "DoStmt":
        if L.cond is None: heads = [(S, True)]
        else:
            heads = []
            for s, v in ex.ev(L.cond, S): heads += ex.fork(s, as_bool(v))
    else: heads = [(S, True)]
    for s, b in heads:
        if not b: exits.append((s, "norm", "cond")); continue
        for s2, kind, v in ex.ex(L.body, s):
            if kind in ("norm", "cont"):
                if L.kind == "DoStmt":
                    for s3, cv in ex.ev(L.cond, s2):
                        for s4, b4 in ex.fork(s3, as_bool(cv)):
                            if b4: nxt.append(s4)
                            else: exits.append((s4, "norm", "cond"))
                else: nxt += tail(s2)
            elif kind == "brk": exits.append((s2, "norm", None))
            else: exits.append((s2, kind, v))
    return ex.mergeall(nxt), exits

def loop_from(ex, L, st):
    out = []
    work = [(st, 0)]
    limit = ex.unroll if ex.unroll else 40
    h = ex.opts.get("loop_handler")
    if h is not None:
        r = h(ex, L, st)
        if r is not None: return r
    while work:
        s, n = work.pop()
        if ex.unroll:
            if n >= limit:
                # bounded stand-in: longer runs are not examined
                ex.bounded_used = True; continue
            nx, exits = iterate(ex, L, s)
            out += exits; work += [(x, n + 1) for x in nx]
            continue
        concrete_head = False
        if L.cond is not None and not const_true(L.cond) and n < limit and L.kind != "DoStmt":
            save = ex.quiet; ex.quiet += 1
            try: vs = ex.ev(L.cond, s.clone())
            finally: ex.quiet = save
            if len(vs) == 1:
                b = as_bool(vs[0][1])
                if isz(b): b = simp(b)
                if not isz(b): concrete_head = True
                elif not feasible(s.pc, b): concrete_head = True
        if concrete_head:
            nx, exits = iterate(ex, L, s)
            out += exits; work += [(x, n + 1) for x in nx]
            continue
        out += generic(ex, L, s)
    norm = [s for s, k, v in out if k == "norm"]
    rest = [x for x in out if x[1] != "norm"]
    return rest + [(s, "norm", None) for s in ex.mergeall(norm)]

_t = itertools.count()

def changed(ex, H, E, base_rids):
    """locations of E that differ from H: list of (rid, field) / (rid, None)"""
    out = []
    for rid in base_rids:
        a, b = H.mem.get(rid), E.mem.get(rid)
        if a is b: continue
        if H.reg[rid].kind != E.reg[rid].kind:
            raise Unsupported("memory block typed inside a loop")
        if isinstance(a, dict):
            for f in a:
                x, y = a[f], b.get(f)
                if x is y: continue
                if isz(x) and isz(y) and x.eq(y): continue
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.rid == y.rid and x.path == y.path and eqt(x.off, y.off) is True: continue
                    if x.rid != y.rid or x.path != y.path:
                        # a pointer local that is only a per-iteration temporary
                        out.append((rid, f)); continue
                if not isz(x) and not isz(y) and not isinstance(x, (Ptr, Fn)) and x is not None and x == y and type(x) == type(y): continue
                out.append((rid, f))
        elif isinstance(a, Arr) or isinstance(b, Arr):
            out.append((rid, None))
        elif a != b: raise Unsupported("loop changes %s" % H.reg[rid])
    return out

def loc_type(ex, st, loc):
    rid, f = loc
    reg = st.reg[rid]
    if reg.kind == "cell": return reg.ctype
    if f is None: return reg.ctype
    return field_type(ex, reg.ctype[1], f)
def field_type(ex, sname, path):
    fs = dict(ex.prog.fields(sname))
    if path in fs: return ex.prog.typ(fs[path])
    for i in range(len(path)):
        if path[i] == "." and path[:i] in fs:
            t = ex.prog.typ(fs[path[:i]])
            return field_type(ex, t[1], path[i + 1:])
    raise Unsupported("field " + path)

def generic(ex, L, st):
    inv = ex.opts.get("inv")
    if inv is None: return generic_(ex, L, st)
    mods = {}
    nob = len(ex.obls)
    try: return generic_(ex, L, st, mods)
    except PathLimit: raise
    except Unsupported as e:
        del ex.obls[nob:]
        from .loopinv import loop_with_invariant
        return loop_with_invariant(ex, L, st, inv)

def generic_(ex, L, st, mods=None):
    if mods is None: mods = {}
    mark = next(T._ctr)
    base = list(st.mem.keys())
    k = fresh("it!k", INT)
    # mods: loc -> havoc value
    save = ex.quiet; ex.quiet += 1
    try:
        for rnd in range(8):
            H = st.clone()
            H.assume(k >= 0)
            for loc, hv in mods.items():
                rid, f = loc
                if f is None: H.mem[rid] = hv
                else:
                    d = dict(H.mem[rid]); d[f] = hv; H.mem[rid] = d
            H0 = H.clone()
            nx, exits = iterate(ex, L, H)
            new = False
            for s in nx:
                if s.freed != st.freed: raise Unsupported("memory released in a loop")
                if s.trace != st.trace: raise Unsupported("external event in a loop")
                for loc in changed(ex, H0, s, base):
                    if loc in mods: continue
                    new = True
                    rid, f = loc
                    if f is None:
                        el = st.reg[rid].ctype
                        mods[loc] = Arr("base", sort_of(el), fresh_fn("H", sort_of(el)))
                    else:
                        v = st.mem[rid][f]; v2 = s.mem[rid][f]
                        if v is None: mods[loc] = None; continue   # undefined before the loop: a temporary
                        if isinstance(v2, Ptr) or isinstance(v, Ptr):
                            if isinstance(v2, Ptr) and isinstance(v, Ptr) and v.rid == v2.rid and v.path == v2.path and v.rid is not None:
                                mods[loc] = Ptr(v.rid, fresh("H", INT), v.path)
                            else: mods[loc] = None        # temporary: undefined at the head
                        elif isinstance(v2, Fn): raise Unsupported("function pointer changed in a loop")
                        else:
                            mods[loc] = fresh("H", sort_of(loc_type(ex, st, loc)))
            if not new: break
        else: raise Unsupported("loop frame does not stabilise")
    finally: ex.quiet = save
    if not nx:
        r = []
        n2, ex2 = iterate(ex, L, st)
        if n2: raise Unsupported("loop shape")
        return ex2
    if len(nx) != 1: raise Unsupported("loop body outcomes cannot be merged")
    E = nx[0]
    nb = len(H0.pc)
    # ---------------- closed forms
    hcell = {}                       # const id -> loc
    hfun = {}                        # function name -> loc
    for loc, hv in mods.items():
        if hv is None: continue
        if isinstance(hv, Arr): hfun[hv.x[0].name()] = loc
        elif isinstance(hv, Ptr): hcell[hv.off.get_id()] = loc
        else: hcell[hv.get_id()] = loc
    cform, fform = {}, {}            # loc -> (k -> term) / ((k, t) -> term)
    def old_cell(loc):
        v = st.mem[loc[0]][loc[1]]
        if isinstance(v, Ptr): v = v.off
        return as_int(v)
    def hsym(loc):
        hv = mods[loc]
        return hv.off if isinstance(hv, Ptr) else hv
    virgin = {}                       # array function -> (offset, initial contents): cells k+offset.. are still untouched
    def devirgin(e):
        if not virgin or not isz(e): return e
        def f(F_, idx):
            c0, o = virgin[F_]
            if deps(idx) - set(cform): return None
            idx = closed(idx, k)
            d = z3.simplify(idx - (k + c0))
            if z3.is_int_value(d) and d.as_long() >= 0: return o(idx)
            return None
        return z3.simplify(repl_apps(e, virgin, f))
    def endval(loc):
        v = E.mem[loc[0]][loc[1]]
        if isinstance(v, Ptr): v = v.off
        return devirgin(as_int(v))
    def deps(e):
        cs = {hcell[c.get_id()] for c in T._consts(e, set()) if c.get_id() in hcell}
        return cs | {hfun[n] for n in term_funs(e) if n in hfun}
    def closed(e, kk, extra=None, fextra=None):
        """e (a term over havoc symbols at iteration k) as a function of iteration kk"""
        kk = lift(kk)
        cm = {k.get_id(): kk}; fm = {}
        for loc in deps(e):
            if loc in cform: cm[hsym(loc).get_id()] = lift(cform[loc](kk))
            elif loc in fform: fm[mods[loc].x[0].name()] = (lambda idx, g=fform[loc]: g(kk, idx))
        if extra: cm.update(extra)
        if fextra: fm.update(fextra)
        return z3.simplify(Rewriter(cm, fm)(e))
    def has_fresh(e):
        for c in T._consts(e, set()):
            n = c.decl().name()
            if "!" in n and c.get_id() not in hcell and not c.eq(k):
                num = n.rsplit("!", 1)[1]
                if num.isdigit() and int(num) > mark and not n.startswith("t!") and not n.startswith("acc!"): return True
        for n in term_funs(e):
            if "!" in n and n not in hfun:
                num = n.rsplit("!", 1)[1]
                if num.isdigit() and int(num) > mark: return True
        return False
    checks = []                       # extra inductive checks: callables(hyps) -> list of goals
    Nbox = [None]

    pending = [l for l, hv in mods.items() if hv is not None]
    t = fresh("t!", INT)
    def occ_k(e): return T.occurs(e, k)
    progress = True
    # trip count may be needed by segment summaries: find linear cells first
    def try_cell(loc):
        h = hsym(loc)
        e = endval(loc)
        if e is None: raise Unsupported("undefined value after an iteration")
        e = lift(e)
        if e.sort() != h.sort(): e, _ = coerce(e, h)
        e = z3.simplify(e)
        dp = deps(e) - {loc}
        if dp - set(cform) - set(fform): return False
        if has_fresh(e): raise Unsupported("loop-carried value depends on an unconstrained result")
        o = old_cell(loc)
        if not T.occurs(e, h):
            def g(kk, e=e, o=o):
                kz = lift(kk)
                if o is None: return closed(e, kz - 1)
                return If(z3.simplify(kz > 0), closed(e, kz - 1), lift(o))
            cform[loc] = g; return True
        o = lift(o) if o is not None else None
        if o is None: raise Unsupported("accumulator starts undefined")
        if o.sort() != h.sort(): o, _ = coerce(o, h)
        d = closed(z3.simplify(e - h), k)
        if not occ_k(d) and not T.occurs(d, h):
            cform[loc] = lambda kk, o=o, d=d: z3.simplify(o + d * (z3.ToReal(lift(kk)) if d.sort() == REAL else lift(kk)))
            return True
        # nested contiguous fold?
        fl = flatten_fold(e, h)
        if fl is not None:
            flat.add(loc)
            cform[loc] = lambda kk, o=o, fl=fl: fl(kk, o); return True
        body_k = closed(e, k)
        def g(kk, o=o, body_k=body_k, h=h):
            d_ = T._depth[0]; T._depth[0] += 1
            try:
                ki = z3.Int("?k%d" % d_); a = z3.Const("?a%d_%s" % (d_, h.sort()), h.sort())
                b = z3.substitute(body_k, (k, ki), (h, a))
                return T.fold_of_body(lift(kk), o, b, ki, a)
            finally: T._depth[0] -= 1
        cform[loc] = g
        return True

    def contiguous(lo, hi):
        """lo(k) as closed form in k and hi(k) == lo(k+1)"""
        lok, hik = closed(lo, k), closed(hi, k)
        if not occ_k(lok): return None
        nx_ = z3.simplify(z3.substitute(lok, (k, k + 1)))
        if nx_.eq(z3.simplify(hik)): return lok, hik
        return None

    def seg_of(lok, idx):
        N = Nbox[0]
        return T.Seg(lambda q: z3.substitute(lok, (k, lift(q))), N, idx)

    def flatten_fold(e, h):
        """e = FoldX(hi - lo, h, ...) with contiguous ranges -> fold over the union of the ranges"""
        if Nbox[0] is None: return None
        if not (z3.is_app_of(e, z3.Z3_OP_UNINTERPRETED) and e.decl().name() in T.FOLDS): return None
        if not e.arg(1).eq(h): return None
        df = T.FOLDS[e.decl().name()]
        ps = [closed(e.arg(i), k) for i in range(2, e.num_args())]
        if any(T.occurs(p, h) for p in ps): return None
        Nin = closed(e.arg(0), k)
        rg = find_range(Nin)
        if rg is None: return None
        lok, hik = rg
        lo0 = z3.simplify(z3.substitute(lok, (k, z3.IntVal(0))))
        # inner body may read arrays changed by the loop: only allowed when already closed
        Fdep = def_funs(df) & hfun.keys()
        if Fdep and any(hfun[n] not in fform for n in Fdep): return None
        def at(i, q, a):
            """step at absolute offset q (from lo0) while in iteration i"""
            kin = z3.simplify(q + lo0 - z3.substitute(lok, (k, i)))
            b = z3.substitute(df.body, (df.k, kin), (df.a, a), *zip(df.params, [z3.substitute(p, (k, i)) for p in ps]))
            if Fdep:
                b = closed_fun_at(b, i)
            return z3.simplify(b)
        def closed_fun_at(b, i):
            fm = {}
            for n in Fdep:
                g = fform[hfun[n]]
                fm[n] = (lambda idx, g=g: g(i, idx))
            return Rewriter({}, fm)(b)
        def g(kk, o):
            d_ = T._depth[0]; T._depth[0] += 1
            try:
                q = z3.Int("?k%d" % d_); a = z3.Const("?a%d_%s" % (d_, h.sort()), h.sort())
                i = seg_of(lok, z3.simplify(q + lo0))
                b = at(i, q, a)
                hi_abs = z3.simplify(z3.substitute(lok, (k, lift(kk))) - lo0)
                return T.fold_of_body(hi_abs, o, b, q, a)
            finally: T._depth[0] -= 1
        def check():
            q = fresh("it!q", INT); a = fresh("acc!", h.sort())
            rngc = z3.And(z3.substitute(lok, (k, k)) <= q + lo0, q + lo0 < hik)
            i = seg_of(lok, z3.simplify(q + lo0))
            return [("ranges are ordered", [], lok <= hik),
                    ("iterations cover consecutive ranges", [rngc], at(i, q, a) == at(k, q, a))]
        checks.append(check)
        return g
    flat = set(); cur = [None]
    def find_range(Nin):
        """Nin == hi(k) - lo(k) with hi(k) == lo(k+1)"""
        Nin = z3.simplify(Nin)
        terms = Nin.children() if z3.is_add(Nin) else [Nin]
        pos, negs = [], []
        for x in terms:
            if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == -1: negs.append(x.arg(1))
            else: pos.append(x)
        if not pos or not negs: return None
        hi = z3.Sum(*pos) if len(pos) > 1 else pos[0]; lo = z3.Sum(*negs) if len(negs) > 1 else negs[0]
        hi, lo = z3.simplify(hi), z3.simplify(lo)
        if not occ_k(lo): return None
        if z3.simplify(z3.substitute(lo, (k, k + 1))).eq(hi): return lo, hi
        return None

    def try_array(loc):
        hv = mods[loc]; F = hv.x[0]; Fn_ = F.name(); cur[0] = loc
        A = E.mem[loc[0]]
        e = z3.simplify(lift(A.read(t)))
        srt = hv.sort
        if e.sort() != srt: e, _ = coerce(e, F(t))
        e = guard_norm(split_stores(e, Fn_, t), Fn_, t)
        e = devirgin(e)
        dp = deps(e) - {loc}
        if dp - set(cform) - set(fform): return False
        if has_fresh(e): raise Unsupported("array element depends on an unconstrained result")
        # cross-index dependence
        a = fresh("acc!", srt)
        bad = [False]
        def selfread(idx):
            if idx.eq(t): return a
            bad[0] = True; return F(idx)
        ek = closed(e, k, fextra={Fn_: selfread})
        A0 = st.mem[loc[0]]
        def old(tt):
            v = A0.read(tt); v = lift(v)
            return z3.ToReal(v) if (srt == REAL and v.sort() == INT) else v
        if bad[0]:
            return try_scan(loc, F, e, old, srt)
        cases, default = ite_cases(ek)
        sp_ = single_store(ek, t, a) or single_range(ek, t, a)
        if sp_ is not None: cases, default = [sp_], a
        if default.eq(a) and len(cases) == 1:
            g, v = cases[0]
            si = store_index(g, t)
            if si is not None and z3.simplify(si - k).get_id() is not None:
                c0 = z3.simplify(si - k)
                if not occ_k(c0):
                    def form(kk, tt, c0=c0, v=v):
                        tt = lift(tt); kk = lift(kk)
                        val = z3.substitute(v, (a, old(tt)), (k, z3.simplify(tt - c0)), (t, tt))
                        return If(And(le(c0, tt), lt(tt, c0 + kk)), z3.simplify(val), old(tt))
                    fform[loc] = form; return True
                c1 = z3.simplify(si + k)
                if not occ_k(c1):
                    def form(kk, tt, c1=c1, v=v):
                        tt = lift(tt); kk = lift(kk)
                        val = z3.substitute(v, (a, old(tt)), (k, z3.simplify(c1 - tt)), (t, tt))
                        return If(And(le(tt, c1), lt(c1 - kk, tt)), z3.simplify(val), old(tt))
                    fform[loc] = form; return True
            rg = range_guard(g, t)
            if rg is not None:
                lo, hi = rg
                if occ_k(lo) and z3.simplify(z3.substitute(lo, (k, k + 1))).eq(hi):
                    if Nbox[0] is None: return False
                    lo0 = z3.simplify(z3.substitute(lo, (k, z3.IntVal(0))))
                    def form(kk, tt, lo=lo, lo0=lo0, v=v):
                        tt = lift(tt); kk = lift(kk)
                        val = z3.substitute(v, (a, old(tt)), (k, seg_of(lo, tt)), (t, tt))
                        return If(And(le(lo0, tt), lt(tt, z3.simplify(z3.substitute(lo, (k, kk))))), z3.simplify(val), old(tt))
                    fform[loc] = form; return True
        # guard independent of the iteration: hoist
        if default.eq(a) and cases and not any(occ_k(g) or T.occurs(g, a) for g, _ in cases):
            forms = []
            for g, v in cases:
                forms.append((g, fold_form(v, a, old, srt)))
            def form(kk, tt, forms=forms):
                tt = lift(tt)
                r = old(tt)
                for g, f in reversed(forms):
                    r = If(z3.simplify(z3.substitute(g, (t, tt))), f(kk, tt), r)
                return r
            fform[loc] = form; return True
        f = fold_form(ek, a, old, srt)
        fform[loc] = lambda kk, tt, f=f: f(kk, lift(tt))
        return True

    def fold_form(v, a, old, srt):
        v = z3.simplify(v)
        if not T.occurs(v, a) and not occ_k(v):
            return lambda kk, tt: If(lift(kk) > 0, z3.substitute(v, (t, lift(tt))), old(tt))
        # contiguous inner fold
        fl = flatten_fold(v, a)
        if fl is not None:
            flat.add(cur[0])
            # fl gives a term over t
            return lambda kk, tt: z3.substitute(fl(kk, a), (a, old(tt)), (t, lift(tt)))
        def form(kk, tt):
            d_ = T._depth[0]; T._depth[0] += 1
            try:
                ki = z3.Int("?k%d" % d_); aa = z3.Const("?a%d_%s" % (d_, srt), srt)
                b = z3.substitute(v, (k, ki), (a, aa), (t, lift(tt)))
                return T.fold_of_body(lift(kk), old(tt), b, ki, aa)
            finally: T._depth[0] -= 1
        return form

    def try_scan(loc, F, e, old, srt):
        """x[k+c] = g(x[k+c-1], k): running value"""
        cases, default = ite_cases(e)
        if not default.eq(F(t)) or len(cases) != 1: raise Unsupported("array recurrence")
        g, v = cases[0]
        si = store_index(closed(g, k, fextra={F.name(): lambda i: F(i)}), t)
        if si is None: raise Unsupported("array recurrence")
        c0 = z3.simplify(si - k)
        if occ_k(c0): raise Unsupported("array recurrence stride")
        a = fresh("acc!", srt); bad = [False]
        def rd(idx):
            dlt = z3.simplify(idx - (k + c0))
            dt_ = z3.simplify(idx - t)
            if z3.is_int_value(dlt):
                if dlt.as_long() == -1: return a
                if dlt.as_long() >= 0: return old(idx)
            if z3.is_int_value(dt_):
                if dt_.as_long() == 0: return old(idx)
                if dt_.as_long() == -1: return a
                if dt_.as_long() > 0: return old(idx)
            bad[0] = True; return F(idx)
        vk = closed(v, k, fextra={F.name(): rd})
        vk = z3.simplify(z3.substitute(vk, (t, k + c0)))
        if bad[0]: raise Unsupported("array recurrence")
        def run(kk):   # value at index c0 + kk - 1 after kk iterations
            d_ = T._depth[0]; T._depth[0] += 1
            try:
                ki = z3.Int("?k%d" % d_); aa = z3.Const("?a%d_%s" % (d_, srt), srt)
                b = z3.substitute(vk, (k, ki), (a, aa))
                return T.fold_of_body(lift(kk), old(z3.simplify(c0 - 1)), b, ki, aa)
            finally: T._depth[0] -= 1
        def form(kk, tt):
            tt = lift(tt); kk = lift(kk)
            return If(And(le(c0, tt), lt(tt, c0 + kk)), run(z3.simplify(tt - c0 + 1)), old(tt))
        fform[loc] = form
        return True

    # ---- order: linear cells first, then trip count, then the rest
    for loc in list(pending):
        if loc[1] is None: continue
        h = hsym(loc); e = endval(loc)
        if e is None: continue
        e = lift(e)
        if e.sort() != h.sort(): continue
        d = z3.simplify(e - h)
        if not deps(d) and not T.occurs(d, h) and not occ_k(d) and not has_fresh(d):
            o = lift(old_cell(loc)) if old_cell(loc) is not None else None
            if o is None: continue
            if o.sort() != h.sort(): o, _ = coerce(o, h)
            cform[loc] = lambda kk, o=o, d=d: z3.simplify(o + d * (z3.ToReal(lift(kk)) if d.sort() == REAL else lift(kk)))
            pending.remove(loc)
    # trip count from the loop condition
    N = None; clampN = None; closedN = False
    if L.cond is not None and L.kind != "DoStmt":
        q_ = ex.quiet; ex.quiet += 1
        try: cvs = ex.ev(L.cond, H0.clone())
        finally: ex.quiet = q_
        if len(cvs) == 1 and cvs[0][0].ver == H0.ver:
            c = as_bool(cvs[0][1])
            if isz(c) and not (deps(z3.simplify(c)) - set(cform)) and not has_fresh(c):
                ck = closed(c, k)
                N = trip(ck, k, st)
    if N is not None:
        closedN = True
        N = z3.simplify(N)
        clampN = N if (not feasible(st.pc, N < 0) or prove(st.pc, N >= 0, 1500)[0] == 'proved') else z3.If(N > 0, N, z3.IntVal(0))
    else:
        N = fresh("trip", INT); clampN = N
    Nbox[0] = N
    for loc in pending:
        if loc[1] is not None: continue
        hv = mods[loc]; F = hv.x[0]
        if any(isz(c) and F.name() in term_funs(c) for c in E.pc[nb:]): pass
        try: e = z3.simplify(lift(E.mem[loc[0]].read(t)))
        except Exception: continue
        if e.sort() != hv.sort or has_fresh(e): continue
        e = guard_norm(split_stores(e, F.name(), t), F.name(), t)
        cases, default = ite_cases(e)
        if not default.eq(F(t)) or len(cases) != 1: continue
        si = store_index(cases[0][0], t)
        if si is None or deps(si) - set(cform): continue
        c0 = z3.simplify(closed(si, k) - k)
        if occ_k(c0) or deps(c0): continue
        def old_(tt, A0=st.mem[loc[0]], srt=hv.sort):
            v = lift(A0.read(tt))
            return z3.ToReal(v) if (srt == REAL and v.sort() == INT) else v
        virgin[F.name()] = (c0, old_)
    while pending:
        done = []
        for loc in list(pending):
            ok = try_array(loc) if loc[1] is None else try_cell(loc)
            if ok: done.append(loc); pending.remove(loc)
        if not done:
            if ex.opts.get("debug"):
                print("VIRGIN", virgin)
                for loc in pending: print("PENDING", loc, E.mem[loc[0]].read(t) if loc[1] is None else endval(loc), [str(x) for x in (deps(lift(E.mem[loc[0]].read(t))) if loc[1] is None else deps(endval(loc)))])
            raise Unsupported("mutually dependent loop-carried values")
    # ---------------- the summarised state
    def summary(S, kk, raw):
        for loc, hv in mods.items():
            rid, f = loc
            if f is None:
                g = fform[loc]; srt = hv.sort
                S.mem[rid] = afn(lambda tt, g=g, r=raw: g(r, tt), srt)
            else:
                d = dict(S.mem[rid])
                if hv is None: d[f] = None
                else:
                    lin = cform[loc]
                    v = simp(lin(kk))
                    if isinstance(hv, Ptr): d[f] = Ptr(hv.rid, v, hv.path)
                    else: d[f] = v
                S.mem[rid] = d
        S.ver += 1
    # exit condition (for the fact that earlier iterations did not exit)
    exitc = []
    clean = True
    for s, kind, v in exits:
        cs = [c for c in s.pc[nb:]]
        cs = quantify_inner(cs, k, mark) if not ex.inexact else cs
        cz = z3.And(*[lift(c) for c in cs]) if cs else z3.BoolVal(True)
        if deps(cz) - set(cform) - set(fform) or has_fresh(cz):
            # an exit that is just the loop condition is fine
            clean = False
            if kind != "norm": ex.inexact = True
            continue
        cz = closed(cz, k)
        if closedN and kind == "norm" and not feasible(list(st.pc) + [k >= 0, k < N, cz], timeout=300): continue   # the loop condition itself
        exitc.append((cz, kind))
    def noexit(upto):
        cs = [c for c, kind in exitc]
        if not cs: return True
        body = z3.simplify(z3.Or(*cs))
        if closedN: body = z3.simplify(T.in_range(body, k, N))
        if z3.is_false(body): return True
        # the loop condition itself is implied by k < N when N is in closed form
        return Not(T.ex_of_body(lift(upto), body, k))
    S = st.clone()
    S.assume(k >= 0)
    if closedN: S.assume(k < N)
    ne = noexit(k)
    S.assume(ne)
    summary(S, k, k)
    S0 = S.clone()
    if DEBUG:
        print("LOOP at", L.node.get("line"), "N=", N)
        for loc in mods:
            if mods[loc] is not None:
                print("   ", st.reg[loc[0]].name, loc[1], "=", cform[loc](k) if loc[1] is not None else fform[loc](k, t))
    nx2, exits2 = iterate(ex, L, S)
    nx2 = [s for s in nx2 if feasible(s.pc)] if len(nx2) > 1 else nx2
    # ---------------- inductive checks
    if not ex.quiet:
        base = st.pc
        for loc, hv in mods.items():
            if hv is None: continue
            if loc[1] is None:
                goal = Eq(fform[loc](z3.IntVal(0), t), lift(st.mem[loc[0]].read(t)))
            else:
                o = old_cell(loc)
                if o is None: continue
                goal = Eq(cform[loc](z3.IntVal(0)), o)
            ex.internal(base, goal, "loop summary holds initially", L.node)
        for s in nx2:
            for loc, hv in mods.items():
                if hv is None: continue
                if loc[1] is None:
                    v = s.mem[loc[0]].read(t)
                    goal = Eq(fform[loc](k + 1, t), v)
                else:
                    v = s.mem[loc[0]][loc[1]]
                    if isinstance(v, Ptr): v = v.off
                    if v is None: raise Unsupported("undefined loop-carried value")
                    goal = Eq(cform[loc](k + 1), as_int(v))
                if loc in flat:
                    continue      # concatenation of consecutive ranges: justified by the checks below
                ex.internal(s.pc, goal, "loop summary preserved", L.node)
        for ch in checks:
            for nm, hy, goal in ch():
                ex.internal(S0.pc + hy, goal, nm, L.node)
    # ---------------- after the loop
    out = []
    for s, kind, v in exits2:
        if closedN and kind == "norm" and len(exits) and is_cond_exit(ex, L, s, S0): continue
        if not feasible(s.pc): continue
        out.append((s, kind, v))
    F_ = None
    if closedN:
        F_ = st.clone()
        F_.assume(noexit(N))
        summary(F_, clampN, N)
        if feasible(F_.pc): out.append((F_, "norm", None))
    # when N is not closed the normal exit is among exits2 (condition false at iteration k)
    return out

def inner_consts(e, k, mark):
    out = {}
    for c in T._consts(lift(e), set()):
        nm = c.decl().name()
        if nm.startswith("it!k") and c.get_id() != k.get_id():
            try: no = int(nm.split("!")[-1])
            except ValueError: continue
            if no >= mark: out[c.get_id()] = c
    return out
def quantify_inner(cs, k, mark):
    """an exit taken at some iteration f of an inner loop happens iff such an f exists: the iteration index is quantified away"""
    fl = []
    for c in cs:
        c = z3.simplify(lift(c))
        fl += c.children() if z3.is_and(c) else [c]
    fs = {}
    for c in fl: fs.update(inner_consts(c, k, mark))
    if len(fs) != 1: return cs
    f = list(fs.values())[0]
    U = None; rest = []; free = []
    for c in fl:
        if not T.occurs(c, f): free.append(c); continue
        if c.eq(z3.simplify(f >= 0)): continue
        if U is None:
            g = z3.simplify(z3.Not(c)) if not z3.is_not(c) else c.arg(0)
            # c is  f < U  i.e. not (U <= f)
            u = None
            if z3.is_le(g) or z3.is_ge(g):
                l, r = (g.arg(0), g.arg(1)) if z3.is_le(g) else (g.arg(1), g.arg(0))      # l <= r
                d = z3.simplify(l - r + f)
                if not T.occurs(d, f): u = d
            if u is not None: U = u; continue
        rest.append(c)
    if U is None: return cs
    # the first such iteration exists iff one exists
    for c in list(rest):
        if z3.is_not(c) and z3.is_app_of(c.arg(0), z3.Z3_OP_UNINTERPRETED) and c.arg(0).decl().name() in T.EXS and c.arg(0).arg(0).eq(f):
            x = c.arg(0); df = T.EXS[x.decl().name()]
            ps = [x.arg(j) for j in range(1, x.num_args())]
            if any(T.occurs(p, f) for p in ps): continue
            b = z3.simplify(z3.substitute(df.body, *([(df.k, f)] + list(zip(df.params, ps)))))
            others = [z3.simplify(o) for o in rest if o is not c]
            if len(others) == 1 and others[0].eq(b): rest.remove(c)
    if not rest: return free + [U > 0]
    return free + [T.ex_of_body(U, z3.simplify(z3.And(*rest)), f)]
def is_cond_exit(ex, L, s, S0):
    """exit taken because the loop condition is false: contradicts k < N"""
    return not feasible(s.pc)

def ite_cases(e):
    cases = []
    while z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        cases.append((c, a)); e = b
    # normalise "not c ? default : value"
    if len(cases) == 1:
        c, a = cases[0]
        if z3.is_not(c) and not z3.is_app_of(a, z3.Z3_OP_ITE):
            return [(c.arg(0), e)], a
    return cases, e
def split_stores(e, F, t):
    """case distinction over the store indices (t == s), with F(s) replaced by F(t) where the case makes them equal"""
    atoms = {}; seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == INT and T.occurs(x, t):
            s = store_index(x, t)
            if s is not None: atoms.setdefault(s.get_id(), (s, []))[1].append(x)
        for c in x.children(): stack.append(c)
    if not atoms or len(atoms) > 3: return e
    def rec(e, todo):
        if not todo: return e
        s, xs = todo[0]
        et = z3.simplify(z3.substitute(e, *[(x, z3.BoolVal(True)) for x in xs]))
        def rd(idx):
            d = z3.simplify(idx - s)
            return _decl(F, et)(t) if z3.is_int_value(d) and d.as_long() == 0 else None
        et = repl_reads(et, F, rd)
        ef = z3.simplify(z3.substitute(e, *[(x, z3.BoolVal(False)) for x in xs]))
        a, b = rec(z3.simplify(et), todo[1:]), rec(ef, todo[1:])
        return a if a.eq(b) else z3.If(t == s, a, b)
    return rec(e, list(atoms.values()))
_decls = {}
def _decl(F, e):
    d = _decls.get(F)
    if d is None:
        seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args() and x.decl().name() == F: d = x.decl(); break
            stack += x.children()
        _decls[F] = d
    return d
def repl_apps(e, names, f):
    """replace applications F(idx) of the named functions by f(F, idx) unless that is None"""
    memo = {}
    def rec(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if not z3.is_app(x): memo[i] = x; return x
        ch = [rec(c) for c in x.children()]
        n = x.decl().name()
        r = None
        if len(ch) == 1 and n in names: r = f(n, ch[0])
        if r is None: r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else z3_app(x, ch)
        memo[i] = r
        return r
    return rec(e)

def repl_reads(e, F, f):
    memo = {}
    def rec(x):
        if not z3.is_app(x) or x.num_args() == 0: return x
        i = x.get_id()
        if i in memo: return memo[i][0]
        ch = [rec(c) for c in x.children()]
        if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().name() == F:
            r = f(ch[0])
            if r is None: r = x.decl()(ch[0])
        else: r = x if all(p.get_id() == q.get_id() for p, q in zip(ch, x.children())) else z3_app(x, ch)
        memo[i] = (r, x)
        return r
    return rec(e)
def store_index(g, t):
    """g is  t == s"""
    if z3.is_eq(g) and g.arg(0).sort() == INT:
        l, r = g.arg(0), g.arg(1)
        d = z3.simplify(l - r)
        # solve for t with coefficient +-1
        x = z3.simplify(d - t)
        if not T.occurs(x, t): return z3.simplify(-x)
        x = z3.simplify(-d - t)
        if not T.occurs(x, t): return z3.simplify(-x)
    return None
def single_store(e, t, a):
    atoms = {}; seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == INT and T.occurs(x, t):
            s = store_index(x, t)
            if s is None: return None
            atoms.setdefault(s.get_id(), (s, []))[1].append(x)
        stack += x.children()
    if len(atoms) != 1: return None
    s, xs = list(atoms.values())[0]
    ef = z3.simplify(z3.substitute(e, *[(x, z3.BoolVal(False)) for x in xs]))
    if not ef.eq(a): return None
    return (t == s, z3.simplify(z3.substitute(e, *[(x, z3.BoolVal(True)) for x in xs])))
def single_range(e, t, a):
    """e == (lo <= t < hi ? v : a)"""
    atoms = {}; seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if (z3.is_le(x) or z3.is_ge(x)) and x.arg(0).sort() == INT and T.occurs(x, t):
            l, r = x.arg(0), x.arg(1)
            if z3.is_ge(x): l, r = r, l
            d = z3.simplify(r - l)
            y = z3.simplify(d - t)
            if not T.occurs(y, t): key = ("ge", z3.simplify(-y))
            else:
                y = z3.simplify(d + t)
                if T.occurs(y, t): return None
                key = ("le", y)
            atoms.setdefault((key[0], key[1].get_id()), (key, []))[1].append(x)
        stack += x.children()
    if len(atoms) != 2: return None
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    lo = hi = None; sub = []
    for key, xs in atoms.values():
        ef = z3.simplify(z3.substitute(e, *[(x, F_) for x in xs]))
        et = z3.simplify(z3.substitute(e, *[(x, T_) for x in xs]))
        if ef.eq(a):
            sub += [(x, T_) for x in xs]
            if key[0] == "ge": lo = key[1]
            else: hi = z3.simplify(key[1] + 1)
        elif et.eq(a):
            sub += [(x, F_) for x in xs]
            if key[0] == "ge": hi = key[1]
            else: lo = z3.simplify(key[1] + 1)
        else: return None
    if lo is None or hi is None: return None
    v = z3.simplify(z3.substitute(e, *sub))
    return (z3.And(lo <= t, z3.Not(hi <= t)), v)
def range_guard(g, t):
    """g is  lo <= t  and  t < hi (in z3-simplified form)"""
    cs = g.children() if z3.is_and(g) else [g]
    if len(cs) != 2: return None
    lo = hi = None
    for c in cs:
        neg = False
        if z3.is_not(c): c = c.arg(0); neg = True
        if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)): return None
        l, r = c.arg(0), c.arg(1)
        k = c.decl().kind()
        # l <= r  as  d = r - l >= 0
        if k == z3.Z3_OP_GE: l, r = r, l; strict = False
        elif k == z3.Z3_OP_GT: l, r = r, l; strict = True
        elif k == z3.Z3_OP_LT: strict = True
        else: strict = False
        if neg: l, r, strict = r, l, not strict
        d = z3.simplify(r - l - (1 if strict else 0))      # d >= 0
        x = z3.simplify(d - t)
        if not T.occurs(x, t): lo = z3.simplify(-x); continue      # t + x >= 0
        x = z3.simplify(d + t)
        if not T.occurs(x, t): hi = z3.simplify(x + 1); continue   # x - t >= 0
        return None
    if lo is None or hi is None: return None
    return lo, hi

def trip(c, k, st):
    """number of iterations when the condition at iteration k is c(k): linear comparison in k with slope -1/step"""
    if z3.is_and(c): return None
    neg = False
    if z3.is_not(c): c = c.arg(0); neg = True
    if z3.is_eq(c) or z3.is_distinct(c):
        if neg == z3.is_eq(c) and c.arg(0).sort() == INT:
            d = z3.simplify(c.arg(0) - c.arg(1))
            for x in (z3.simplify(d + k), z3.simplify(k - d)):
                if not T.occurs(x, k) and not feasible(st.pc, x < 0): return x
        return None
    if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)): return None
    l, r = c.arg(0), c.arg(1)
    if l.sort() != INT: return None
    kd = c.decl().kind()
    if kd == z3.Z3_OP_GE: l, r = r, l; strict = False
    elif kd == z3.Z3_OP_GT: l, r = r, l; strict = True
    elif kd == z3.Z3_OP_LT: strict = True
    else: strict = False
    if neg: l, r, strict = r, l, not strict
    d = z3.simplify(r - l - (1 if strict else 0))      # continue while d(k) >= 0
    x = z3.simplify(d + k)
    if not T.occurs(x, k): return z3.simplify(x + 1)   # x - k >= 0
    return None
