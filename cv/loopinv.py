"""Loops with a stated invariant: arbitrary iteration count, the modified state is havoced, the invariant assumed, one
iteration executed and the invariant re-established (as in any deductive verifier)."""
from .terms import *
from . import terms as T
from .heap import *

class LoopView:
    """what an invariant sees: S = state at the loop head, E = state when the loop was entered"""
    def __init__(self, ex, st, entry, args, how, node, head=None):
        from .spec import S_
        sp = ex.specs.specs.get(ex.fname)
        self.S = S_(sp, ex, st, node, "view", [], [], None)
        self.E = S_(sp, ex, entry, node, "view", [], [], None)
        self.H = S_(sp, ex, head, node, "view", [], [], None) if head is not None else None      # head state of this iteration
        c = st.env.get("g:loop_count", 0)
        self.count = (c if how == "assume" else simp(lift(c) + 1) if how == "step" else 0)      # completed iterations
        self.ex, self.st, self.args, self.how, self.node = ex, st, args, how, node
    def inv(self, c, what):
        if self.how == "assume": self.st.assume(c)
        else: self.ex.oblige(self.st, c, "loop invariant%s: %s" % (" initially" if self.how == "init" else "", what), self.node)
    def forall(self, n, f, what):
        if self.how == "assume": self.st.assume(Forall(0, n, f)); return
        t = fresh("sk!", INT)
        self.inv(z3.Implies(z3.And(t >= 0, t < lift(n)), lift(f(t))), what)
    def array(self, p, n, fn, what):
        """p[0..n) holds fn(index)"""
        if p.rid is None: return
        if self.how == "assume": self.S.wr(p, n, fn)
        else:
            g = self.S.arr(p)
            self.forall(n, lambda t: Eq(g(t), fn(t)), what)

def loop_with_invariant(ex, L, st, inv):
    """the head state is havoced in everything an iteration can change (found by a fixpoint over generic iterations); pointer
    fields keep exact targets - one head state per reachable assignment of targets; ghost 'loop_count' = completed iterations"""
    from .loops import iterate, changed, loc_type
    args = ex.opts.get("args")
    base = list(st.mem.keys())
    mods, ptrs = {}, []                       # changed locations; those that change their target
    def conf(s): return tuple((s.mem[r][f].rid, s.mem[r][f].path) if isinstance(s.mem[r].get(f), Ptr) else None for r, f in ptrs)
    def head(c, count):
        H = st.clone()
        for (rid, f), hv in mods.items():
            if f is None: H.mem[rid] = abase("loop", hv.sort); continue
            d = dict(H.mem[rid])
            if hv is None: d[f] = None
            elif isinstance(hv, Ptr):
                o = fresh("H", INT); d[f] = Ptr(hv.rid, o, hv.path)
            else: d[f] = fresh("H", hv.sort())
            H.mem[rid] = d
        for (rid, f), t in zip(ptrs, c):
            d = dict(H.mem[rid]); d[f] = None if t is None else Ptr(t[0], 0, t[1]); H.mem[rid] = d
        H.ver += 1
        H.assume(count >= 0)
        return H
    view = lambda s, how, h=None: LoopView(ex, s, st, args, how, L.node, h)
    from .prove import feasible
    save, old = ex.quiet, getattr(ex, "nomerge", False)
    apart = bool(ex.opts.get("nomerge")) or old        # keep the cases of one iteration apart
    ex.nomerge = apart
    steady = {}                               # integer variable -> change per iteration
    try:
        ex.quiet += 1
        confs, nob = [conf(st)], len(ex.obls)
        for rnd in range(20):
            new = False; seen = list(confs); steady = {}
            for c in seen:
                cnt = fresh("count", INT); H = head(c, cnt); H.env["g:loop_count"] = cnt; v = view(H, "assume"); inv(v)
                H0 = H.clone()
                nx, _ = iterate(ex, L, H)
                for s in nx:
                    for loc in changed(ex, H0, s, base):
                        rid, f = loc
                        if loc in mods or loc in ptrs: continue
                        new = True
                        if f is None: mods[loc] = s.mem[rid]; continue
                        a, b = st.mem[rid][f], s.mem[rid][f]
                        if a is None: mods[loc] = None
                        elif isinstance(a, Ptr) or isinstance(b, Ptr):
                            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): mods[loc] = None
                            elif a.rid == b.rid and a.path == b.path: mods[loc] = a
                            elif not any(b.rid == r for r in base): mods[loc] = None
                            else: ptrs.append(loc)
                        elif isinstance(b, Fn): raise Unsupported("function pointer changed in a loop")
                        elif b is None: mods[loc] = None
                        else: mods[loc] = fresh("H", sort_of(loc_type(ex, st, loc)))
                    if not new:
                        k = conf(s)
                        if k not in confs:
                            if len(confs) > 8: raise Unsupported("pointers changed by a loop")
                            confs.append(k); new = True
                        for loc, hv in mods.items():
                            if hv is None or not isz(hv) or hv.sort() != INT: continue
                            d = z3.simplify(lift(as_int(s.mem[loc[0]][loc[1]])) - H0.mem[loc[0]][loc[1]]) if s.mem[loc[0]][loc[1]] is not None else None
                            d = d.as_long() if d is not None and z3.is_int_value(d) else None
                            steady[loc] = d if steady.get(loc, d) == d else None
            if new: confs = [conf(st)] if len(confs[0]) != len(ptrs) else confs
            else: break
        else: raise Unsupported("loop frame does not stabilise")
    finally: ex.quiet, ex.nomerge = save, old
    inv(view(st.clone(), "init"))
    out = []
    ex.nomerge = apart
    save2, ex.mergelocal = getattr(ex, "mergelocal", False), bool(ex.opts.get("apart"))     # cases are joined only where they differ in local variables
    # the loop is left by its condition either at once or after an iteration: the states after it are those of the last iteration
    peel = ex.opts.get("peel") and L.kind != "DoStmt" and L.cond is not None
    if peel: out += leave(ex, L, st.clone())
    def left(x, H0, kind):
        s = x[0]; v = view(s, "exit", H0); v.kind = kind; v.count = simp(cnt + 1); inv(v)
        s.env["g:last"] = simp(cnt + 1)
        if ex.opts.get("forget"): s.trace = st.trace           # what the last iteration called was checked above
        out.append((s, x[1], None if x[2] == "cond" else x[2]))
    cnt = fresh("count", INT)
    try:
        for c in confs:
            H = head(c, cnt)
            H.env["g:loop_count"] = fresh("count", INT) if L.kind == "DoStmt" else cnt
            for loc, d in steady.items():
                if d: H.mem[loc[0]] = dict(H.mem[loc[0]]); H.mem[loc[0]][loc[1]] = simp(lift(as_int(st.mem[loc[0]][loc[1]])) + d * cnt)
            inv(view(H, "assume"))
            H0 = H.clone()
            nx, exits = iterate(ex, L, H)
            for s in nx:
                if {r for r in s.freed if r in st.reg} != {r for r in st.freed}: raise Unsupported("memory released in a loop")
                for r, g in s.reg.items():
                    if g.origin == "new" and r not in st.reg and r not in s.freed and r in s.mem: raise Unsupported("memory kept by a loop iteration")
                inv(view(s.clone(), "step", H0))
                if peel:
                    for x in leave(ex, L, s): left(x, H0, "end")
            for x in exits:
                if not peel: out.append(x)
                elif x[2] != "cond" or x[1] != "norm": left(x, H0, x[1])
    finally: ex.nomerge = old; ex.mergelocal = save2
    if ex.opts.get("cases"): ex.nomerge = True              # what follows the loop is examined case by case
    return out
def leave(ex, L, s):
    """states in which the loop condition fails"""
    out = []
    for s2, v in ex.ev(L.cond, s):
        out += [(x, "norm", None) for x, b in ex.fork(s2, as_bool(v)) if not b]
    return out
