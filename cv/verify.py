"""Verification of one function against its contract: symbolic execution, obligations, discharge."""
import time, traceback
from .terms import *
from . import terms as T
from .heap import *
from .execc import Exec, Obl
from .spec import *
from .build import Builder
from .prove import prove, feasible, STAT, LIGHT, OPAQUE

class Result:
    def __init__(self, name):
        self.name = name; self.obls = []; self.error = None; self.mode = "sym"
        self.paths = 0; self.variants = 0; self.time = 0.0; self.inlined = set(); self.used = set(); self.trusted = set()
        self.cache = {}; self.opaque = False; self.loops = 0; self.vacuous = False; self.truncated = False
    def failed(self): return [o for o in self.obls if o.status != "proved"]
    def ok(self): return self.error is None and not self.failed() and not self.vacuous

def verify(prog, reg, name, mode="sym", opts=None, timeout=None, stop_on_fail=False, deadline=None):
    sp = reg.specs[name]
    r = Result(name); r.mode = mode
    t0 = time.time()
    opts = dict(sp.opts, **(opts or {})); r.opaque = bool(opts.get("light"))
    if mode == "bounded": opts["unroll"] = opts.get("unroll_n", 10)
    if deadline: opts["deadline"] = deadline
    try:
        work = [list(d) for d in opts.get("prefix", [[]])]; nv = 0          # (a contract may be verified in parts, by the shapes examined)
        while work:
            dec = work.pop()
            nv += 1
            if nv > opts.get("maxvariants", 64): r.truncated = True; break
            ex = Exec(prog, reg, base(name), dict(opts))
            B = Builder(ex, mode, dec, work)
            try: args = sp.setup(B)
            except Reject: continue
            pre = B.st; ex.opts["args"] = args
            if not feasible(pre.pc): continue
            one(prog, reg, sp, ex, pre, args, r, " ".join(B.note))
            r.inlined |= ex.inlined; r.used |= ex.used_specs; r.trusted |= ex.trusted; r.loops += ex.ninternal
            if True:
                stop = stop_on_fail or bool(opts.get("stopfail"))
                discharge(r, timeout, stop, deadline)
                if stop and r.failed(): break
        r.variants = nv
        if r.paths == 0: r.vacuous = True; 
    except Unsupported as e:
        r.error = "%s: %s" % (type(e).__name__, e)
        if opts.get("debug"): traceback.print_exc()
    except RecursionError as e:
        r.error = "recursion limit"
    except Dead:
        r.error = "contract undefined on its own pre-state"
    r.time = time.time() - t0
    return r

def one(prog, reg, sp, ex, pre, args, r, note):
    LIGHT[0] = bool(ex.opts.get("light"))
    try: one_(prog, reg, sp, ex, pre, args, r, note)
    finally: LIGHT[0] = False
def one_(prog, reg, sp, ex, pre, args, r, note):
    outs = ex.run_body(sp.name.split("#")[0], args, pre.clone())
    for st, ret in outs:
        if not feasible(st.pc): continue
        r.paths += 1
        base = pre.clone(); base.pc = list(st.pc)
        got = False
        try:
            for S in run_spec(sp, ex, base, args, None, "verify", (st, ret)):
                got = True
                cmp_ = Comparer(pre, S.st, st, S.retval, ret, ex)
                conds = cmp_.run(leaks=not ex.opts.get("noleak") and not S.noleak)
                for c, what in S.ensures:
                    if isinstance(c, tuple) and c[0] == "event":
                        conds += event_conds(cmp_, c)
                    else: conds.append((c, what))
                tr = st.trace
                if S.evpos < len(tr): conds.append((False, "unexpected external call %s" % tr[S.evpos][0]))
                for c, what in conds:
                    if isz(c): c = simp(c)
                    o = Obl(list(S.st.pc), c, what, "%s %s" % (sp.name, note))
                    ex.obls.append(o)
        except Mismatch as m:
            got = True
            ex.obls.append(Obl(list(st.pc), False, str(m), sp.name + " " + note))
        if not got: pass
    r.obls += [o for o in ex.obls]
    ex.obls = []

def event_conds(cmp_, c):
    _, name, ea, aa = c
    out = []
    for i, (x, y) in enumerate(zip(ea, aa)):
        what = "argument %d of external call %s" % (i, name)
        if isinstance(x, tuple) and x[0] == "arr":
            _, fe, n = x; _, fa, na = y
            if not concrete(): out.append((eqt(n, na), what + " length"))
            if concrete():
                out.append((all(close(fe(j), fa(j), cmp_.tol or 0) for j in range(n)), what))
            else:
                t = fresh("sk!", INT)
                a, b = coerce(lift(fe(t)), lift(fa(t)))
                out.append((True if a.eq(b) else z3.Implies(z3.And(0 <= t, t < lift(n)), a == b), what))
        else:
            k = len(cmp_.conds)
            cmp_.val(x, y, what)
            out += cmp_.conds[k:]; del cmp_.conds[k:]
    return out

def discharge(r, timeout=None, stop_on_fail=False, deadline=None):
    OPAQUE[0] = r.opaque
    try: discharge_(r, timeout, stop_on_fail, deadline)
    finally: OPAQUE[0] = False
def discharge_(r, timeout=None, stop_on_fail=False, deadline=None):
    for o in r.obls:
        if o.status is not None: continue
        g = o.goal
        if not isz(g):
            if g: o.status = "proved"; o.hyps = None; continue
            o.status = "proved" if not feasible(o.hyps) else None
            if o.status: o.hyps = None; continue
            g = z3.BoolVal(False)
        if deadline and time.time() > deadline:
            o.status = "unknown"; o.note = "time budget"; continue
        hy = frozenset(h.get_id() for h in o.hyps if isz(h))
        gk = g.get_id() if isz(g) else g
        done = r.cache.setdefault(gk, [])
        hit = next((x for x in done if (x[1] == "proved" and x[0] <= hy) or x[0] == hy), None)
        if hit: o.status = hit[1]
        else:
            st, q, msg = prove(o.hyps, g, timeout)
            o.status = st; o.note = msg
            if st == "failed" and q is not None: o.query = q
            done.append((hy, st, g, list(o.hyps)))
        if o.status == "proved": o.hyps = None
        elif stop_on_fail: return
