"""Discharging obligations: ground instantiation of the axioms of folds / quantifiers / segments, then Z3."""
import z3, time, os
from .terms import *
from . import terms as T

STAT = {"queries": 0, "time": 0.0, "lemmas": 0, "unknown": 0}
DEADLINE = [1e18]
BUDGET = float(os.environ.get("CV_BUDGET_S", "40"))
TIMEOUT = int(os.environ.get("CV_TIMEOUT_MS", "4000"))

_sub = {}
def inst(df, **kw):
    pass

def body_of(df, k, a, params):
    s = [(df.k, lift(k))]
    if df.a is not None: s.append((df.a, a))
    s += list(zip(df.params, params))
    return z3.substitute(df.body, *s)

class Collector:
    def __init__(self):
        self.seen = set(); self.apps = {}   # decl name -> list of app terms
        self.keep = []
        self.specials = {}                   # id -> Int index constants worth instantiating
        self.new = []
    def add(self, e):
        self.keep.append(e)
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in self.seen: continue
            self.seen.add(i)
            n = x.num_args() if z3.is_app(x) else 0
            if n:
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    self.apps.setdefault(d.name(), []).append(x); self.new.append(x)
                for j in range(n): stack.append(x.arg(j))
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == INT:
                nm = x.decl().name()
                if nm.startswith("sk!") or nm.startswith("it!") or nm.startswith("?k"):
                    self.specials[i] = x

def triggers(df):
    """for an Ex def: list of (decl name, arg position, offset) with arg == k + offset (offset may mention params)"""
    if df.trig is not None: return df.trig
    out = []; seen = set(); stack = [df.body]
    kid = df.k.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.num_args() == 0: continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for j in range(x.num_args()):
                a = x.arg(j)
                if a.sort() != INT: continue
                if a.get_id() == kid: out.append((x.decl().name(), j, None)); continue
                if T.occurs(a, df.k):
                    off = z3.simplify(a - df.k)
                    if not T.occurs(off, df.k): out.append((x.decl().name(), j, off))
        for j in range(x.num_args()): stack.append(x.arg(j))
    # dedupe
    d = {}
    for n, j, o in out: d[(n, j, None if o is None else o.get_id())] = (n, j, o)
    df.trig = list(d.values())
    return df.trig

_mono = {}
def mono_of(df):
    """F if the definition is  exists k: F(k) > F(k+1)"""
    if df.name in _mono: return _mono[df.name]
    r = None
    b = df.body
    if not df.params:
        e = None
        if z3.is_not(b) and (z3.is_le(b.arg(0)) or z3.is_ge(b.arg(0))):
            c = b.arg(0); l, g = (c.arg(0), c.arg(1)) if z3.is_le(c) else (c.arg(1), c.arg(0))
            e = z3.simplify(l - g)               # not (l <= g)
        if e is not None:
            fs = set(); stack = [e]
            while stack:
                x = stack.pop()
                if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args() == 1: fs.add(x.decl().name()); d = x.decl()
                stack += x.children()
            if len(fs) == 1 and d.domain(0) == INT and d.range() == INT:
                if z3.is_int_value(z3.simplify(e - d(df.k) + d(df.k + 1))) and z3.simplify(e - d(df.k) + d(df.k + 1)).as_long() == 0: r = d
    _mono[df.name] = r
    return r

def plus_one(N):
    """syntactic predecessor if N is  t+1 (or a small numeral)"""
    N = z3.simplify(N)
    if z3.is_int_value(N):
        v = N.as_long()
        return z3.IntVal(v - 1) if 1 <= v <= 6 else None
    if z3.is_app_of(N, z3.Z3_OP_ADD):
        for c in N.children():
            if z3.is_int_value(c) and c.as_long() > 0:
                return z3.simplify(N - 1)
    return None

def out_of_range(t, N):
    """t is visibly not in [0, N)"""
    if z3.is_int_value(t) and t.as_long() < 0: return True
    d = z3.simplify(t - N)
    return z3.is_int_value(d) and d.as_long() >= 0
class Query:
    def __init__(self, hyps, goal, timeout=None, depth=0, known=None):
        self.hyps = [h for h in hyps if h is not True]
        self.goal = goal
        self.depth = depth
        self.col = Collector()
        self.timeout = timeout or TIMEOUT
        self.asserted = []
        self.done = set()
        self.model = None

    def run(self):
        g = self.goal
        if g is True: return "proved"
        if time.time() > DEADLINE[0]: return "unknown"
        if any(h is False for h in self.hyps): return "proved"
        hy = [lift(h) for h in self.hyps]
        base = hy + [z3.Not(lift(g))]
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.lits = {i: v for i, (x, v) in literals(base).items()}
        for b in base: self._assert(b)
        st = self._check()
        if st == "proved": return st
        for rnd in range(5):
            if time.time() > DEADLINE[0]: return st
            ax = self._axioms()
            if not ax: break
            for a in ax: self._assert(a)
            st = self._check()
            if st == "proved": return st
        # fold lemmas
        if self.depth < 3:
            for rnd in range(3):
                if time.time() > DEADLINE[0]: return st
                ls = self._fold_lemmas(hy)
                if not ls: break
                for l in ls: self._assert(l)
                for r2 in range(3):
                    ax = self._axioms()
                    if not ax: break
                    for a in ax: self._assert(a)
                st = self._check()
                if st == "proved": return st
        return st

    def _assert(self, e):
        self.solver.add(e); self.col.add(e); self.asserted.append(e)

    def _check(self):
        t = time.time()
        r = self.solver.check()
        STAT["queries"] += 1; STAT["time"] += time.time() - t
        if r == z3.unsat: return "proved"
        if r == z3.sat:
            self.model = self.solver.model(); return "failed"
        STAT["unknown"] += 1
        return "unknown"

    def _axioms(self):
        out = []
        new, self.col.new = self.col.new, []
        newset = new
        done = self.done
        apps = self.col.apps
        for x in newset:
            nm = x.decl().name()
            if nm == "sqrt":
                key = ("sq", x.get_id())
                if key not in done:
                    done.add(key); a = x.arg(0)
                    out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
                    out.append(z3.Implies(a > 0, x > 0))
            df = T.FOLDS.get(nm)
            if df is not None:
                key = ("f", x.get_id())
                if key in done: continue
                done.add(key)
                N, init, ps = x.arg(0), x.arg(1), [x.arg(i) for i in range(2, x.num_args())]
                out.append(z3.Implies(N <= 0, x == init))
                pr = plus_one(N)
                if pr is not None:
                    prev = df.fn(pr, init, *ps)
                    out.append(z3.Implies(N > 0, x == body_of(df, pr, prev, ps)))
                for l in self._sign(df, x, N, init, ps): out.append(l)
                if df.sort == INT and (Query._signcache.get(df.name) or {}).get("mono"):
                    # a count over a longer range is at least as large
                    for y in list(apps.get(nm, ())):
                        if y.get_id() == x.get_id() or [a.get_id() for a in y.children()[1:]] != [a.get_id() for a in x.children()[1:]]: continue
                        for u, v in ((x, y), (y, x)):
                            M, K = u.arg(0), v.arg(0)
                            d = z3.simplify(K - M)
                            if z3.is_int_value(d) and d.as_long() <= 0: continue
                            out.append(z3.Implies(z3.And(0 <= M, M < K), body_of(df, M, u, ps) <= v))
                continue
            df = T.SEGS.get(nm)
            if df is not None:
                key = ("s", x.get_id())
                if key in done: continue
                done.add(key)
                N, t, ps = x.arg(0), x.arg(1), [x.arg(i) for i in range(2, x.num_args())]
                p = lambda k: body_of(df, k, None, ps)
                out.append(z3.Implies(z3.And(N > 0, p(z3.IntVal(0)) <= t, t < p(N)),
                                      z3.And(0 <= x, x < N, p(x) <= t, t < p(x + 1))))
                continue
            df = T.EXS.get(nm)
            if df is not None:
                key = ("e", x.get_id())
                if key not in done and self.lits.get(x.get_id()) is not False:
                    done.add(key)
                    N, ps = x.arg(0), [x.arg(i) for i in range(1, x.num_args())]
                    w = df.wit(N, *ps)
                    out.append(z3.Implies(x, z3.And(0 <= w, w < N, body_of(df, w, None, ps))))
        # monotone index functions: not exists k: F(k) > F(k+1)
        for nm, df in list(T.EXS.items()):
            if nm not in apps: continue
            mf = mono_of(df)
            if mf is None: continue
            for x in list(apps[nm]):
                if self.lits.get(x.get_id()) is True: continue
                N, ps = x.arg(0), [x.arg(i) for i in range(1, x.num_args())]
                cands = {}
                for app in apps.get(mf.name(), ()):
                    z = z3.simplify(app.arg(0)); self.col.keep.append(z)
                    if out_of_range(z, N + 1): continue
                    cands[z.get_id()] = z
                for z in (z3.IntVal(0), N): cands[z.get_id()] = z
                cl = list(cands.values())[:24]
                for a in cl:
                    for b in cl:
                        if a.get_id() == b.get_id(): continue
                        key = ("m", x.get_id(), a.get_id(), b.get_id())
                        if key in done: continue
                        done.add(key); self.col.keep += [a, b]
                        c = z3.simplify(b - a)
                        if z3.is_int_value(c) and c.as_long() < 0: continue
                        out.append(z3.Implies(z3.And(z3.Not(x), 0 <= a, a <= b, b <= N), mf(a) <= mf(b)))
        # instantiate negations of Ex apps
        for nm, df in list(T.EXS.items()):
            if nm not in apps: continue
            if mono_of(df) is not None: continue
            trig = triggers(df)
            for x in list(apps[nm]):
                if self.lits.get(x.get_id()) is True: continue
                N, ps = x.arg(0), [x.arg(i) for i in range(1, x.num_args())]
                cands = {}
                for (fn, j, off) in trig:
                    for app in apps.get(fn, ()):
                        if app.num_args() <= j: continue
                        t = z3.simplify(app.arg(j)); self.col.keep.append(t)
                        if off is not None:
                            o = z3.substitute(off, *zip(df.params, ps)) if df.params else off
                            t = z3.simplify(t - o)
                        cands[t.get_id()] = t
                for i, c in self.col.specials.items(): cands[i] = c
                for wn in T.EXS:
                    for wa in apps.get(wn + "_w", ()): cands[wa.get_id()] = wa
                if not trig:
                    for fn, al in apps.items():
                        for app in al:
                            for j in range(app.num_args()):
                                if app.arg(j).sort() == INT: cands[app.arg(j).get_id()] = app.arg(j)
                z = z3.IntVal(0); cands[z.get_id()] = z
                z = z3.simplify(N - 1); cands[z.get_id()] = z
                for t in cands.values():
                    if out_of_range(t, N): continue
                    key = ("i", x.get_id(), t.get_id())
                    if key in done: continue
                    if len(done) > 6000: break
                    done.add(key); self.col.keep.append(t)
                    out.append(z3.Implies(z3.And(z3.Not(x), 0 <= t, t < N), z3.Not(body_of(df, t, None, ps))))
        return out

    _signcache = {}
    def _sign(self, df, x, N, init, ps):
        """inductive sign / range facts about a fold, proved from its step alone"""
        c = Query._signcache.get(df.name)
        if c is None:
            c = {}
            if self.depth == 0 or True:
                s = z3.Solver(); s.set("timeout", 300)
                zero = z3.RealVal(0) if df.sort == REAL else z3.IntVal(0)
                if df.sort in (REAL, INT):
                    a, k, b = df.a, df.k, df.body
                    def valid(hyp, goal):
                        s.push(); s.add(*hyp); s.add(z3.Not(goal)); r = s.check(); s.pop(); return r == z3.unsat
                    c["nonneg"] = valid([a >= zero, k >= 0], b >= zero)
                    c["mono"] = valid([k >= 0], b >= a)
                    if df.sort == INT: c["count"] = valid([k >= 0], z3.And(b >= a, b <= a + 1))
                    c["pos"] = valid([a > zero, k >= 0], b > zero)
            Query._signcache[df.name] = c
        zero = z3.RealVal(0) if df.sort == REAL else z3.IntVal(0)
        if c.get("nonneg"): yield z3.Implies(init >= zero, x >= zero)
        if c.get("mono"): yield x >= init
        if c.get("count"): yield z3.Implies(N >= 0, x <= init + N)
        if c.get("pos"): yield z3.Implies(init > zero, x > zero)

    def _fold_lemmas(self, hy):
        out = []
        apps = [x for nm in T.FOLDS for x in self.col.apps.get(nm, ())]
        if not apps: return out
        gc = Collector(); gc.add(lift(self.goal))
        gids = {x.get_id() for nm in T.FOLDS for x in gc.apps.get(nm, ())}
        goalapps = [x for x in apps if x.get_id() in gids] or apps
        n = 0
        for x in goalapps:
            key = ("id", x.get_id())
            if key not in self.done:
                self.done.add(key)
                l = self._identity(hy, x)
                if l is not None: out.append(l)
        for x in goalapps:
            for y in apps:
                if x.get_id() == y.get_id() or x.sort() != y.sort(): continue
                key = ("l",) + tuple(sorted((x.get_id(), y.get_id())))
                if key in self.done: continue
                self.done.add(key)
                n += 1
                if n > 60: return out
                l = self._lemma(hy, x, y)
                if l is not None: out.append(l)
        return out

    def _identity(self, hy, x):
        if time.time() > DEADLINE[0]: return None
        """every step leaves the accumulator unchanged (or there are no steps): the fold is its initial value"""
        df = T.FOLDS[x.decl().name()]
        N, init, ps = x.arg(0), x.arg(1), [x.arg(i) for i in range(2, x.num_args())]
        k = fresh("it!k", INT); a = fresh("acc", x.sort())
        b = body_of(df, k, a, ps)
        STAT["lemmas"] += 1
        s = z3.Solver(); s.set("timeout", 500)
        for h in self.asserted: s.add(h)
        s.add(k >= 0, k < N, b != a)
        if s.check() == z3.unsat: return x == init
        q = Query(list(hy) + [k >= 0, k < N], b == a, timeout=min(self.timeout, 1000), depth=self.depth + 2)
        if q.run() == "proved": return x == init
        return None

    def _covered(self, hy, x, y, dx, dy, px, py):
        """two folds with different start values that both pick up a value on the way: with a count R and a position 0 <= c < R(N),
        show  c < R(k) -> x_k = y_k  for every k by induction"""
        N, ix, iy = x.arg(0), x.arg(1), y.arg(1)
        counts = [r for nm, d in T.FOLDS.items() if d.sort == INT and (Query._signcache.get(nm) or {}).get("count") for r in self.col.apps.get(nm, ()) if r.arg(0).eq(N)]
        if not counts: return None
        lits = [h for h in self.asserted]
        seen = set()
        for r in counts[:4]:
            c0 = None
            for h in lits:
                if r.get_id() not in term_ids(h): continue
                for at in atoms_with(h, r):
                    d = z3.simplify(at.arg(0) - at.arg(1))
                    for sg in (1, -1):
                        rest = z3.simplify(d - sg * r)
                        if r.get_id() in term_ids(rest): continue
                        c = z3.simplify(-sg * rest)
                        if (c.get_id(), r.get_id()) in seen or len(seen) > 6: continue
                        seen.add((c.get_id(), r.get_id())); self.col.keep.append(c)
                        dr = T.FOLDS[r.decl().name()]; rp = [r.arg(j) for j in range(2, r.num_args())]
                        if not (z3.is_int_value(r.arg(1)) and r.arg(1).as_long() == 0): continue
                        k = fresh("it!k", INT); a, b = fresh("acc", x.sort()), fresh("acc", x.sort())
                        rk = dr.fn(k, r.arg(1), *rp); rk1 = body_of(dr, k, rk, rp)
                        STAT["lemmas"] += 1
                        q = Query(list(hy) + [k >= 0, k < N, c >= 0, rk >= 0, z3.Implies(c < rk, a == b), c < rk1], body_of(dx, k, a, px) == body_of(dy, k, b, py), timeout=min(self.timeout, 1500), depth=self.depth + 2)
                        if q.run() == "proved": return z3.Implies(z3.And(c >= 0, c < r), x == y)
        return None

    def _lemma(self, hy, x, y):
        if time.time() > DEADLINE[0]: return None
        dx, dy = T.FOLDS[x.decl().name()], T.FOLDS[y.decl().name()]
        Nx, ix, px = x.arg(0), x.arg(1), [x.arg(i) for i in range(2, x.num_args())]
        Ny, iy, py = y.arg(0), y.arg(1), [y.arg(i) for i in range(2, y.num_args())]
        k = fresh("it!k", INT); a = fresh("acc", x.sort())
        bx, by = body_of(dx, k, a, px), body_of(dy, k, a, py)
        cond = [Nx == Ny, ix == iy]
        STAT["lemmas"] += 1
        # the two folds must range over the same interval with the same start under the hypotheses
        q0 = z3.Solver(); q0.set("timeout", 500)
        for h in self.asserted: q0.add(h)
        q0.add(*cond)
        if Nx.eq(Ny) and not ix.eq(iy):
            l = self._covered(hy, x, y, dx, dy, px, py)
            if l is not None: return l
        goal = z3.simplify(bx == by)
        if not Nx.eq(Ny) and x.sort() == INT and ix.eq(iy) and (Query._signcache.get(dx.name) or {}).get("mono") and (Query._signcache.get(dy.name) or {}).get("mono"):
            # two counts over different ranges: relate them over the shorter one
            for (u, n, d, pu) in ((x, Nx, dy, py), (y, Ny, dx, px)):
                if z3.is_true(goal) or Query(list(hy) + [k >= 0, k < n], goal, timeout=min(self.timeout, 1500), depth=self.depth + 1).run() == "proved": return u == d.fn(n, ix, *pu)
        if q0.check() == z3.unsat: return None
        if z3.is_true(goal): return z3.Implies(z3.And(*cond), x == y)
        q = Query(list(hy) + cond + [k >= 0, k < Nx], goal, timeout=min(self.timeout, 1500), depth=self.depth + 1)
        if q.run() == "proved": return z3.Implies(z3.And(*cond), x == y)
        return None

_ti = {}
def term_ids(e):
    r = _ti.get(e.get_id())
    if r is None:
        seen = set(); stack = [e]
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); stack += t.children()
        if len(_ti) > 3000: _ti.clear()
        r = _ti[e.get_id()] = (seen, e)
    return r[0]
def atoms_with(h, r):
    out = []; stack = [h]
    while stack:
        t = stack.pop()
        if r.get_id() not in term_ids(t): continue
        if (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t)) and t.arg(0).sort() == INT: out.append(t)
        elif z3.is_bool(t): stack += t.children()
    return out
def eq_norm(e):
    """If(X == t, a, b) with t a skolem constant: X replaced by t in a"""
    if not isz(e): return e
    memo = {}
    def rec(x):
        if not z3.is_app(x) or x.num_args() == 0: return x
        i = x.get_id()
        if i in memo: return memo[i][0]
        ch = [rec(c) for c in x.children()]
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            for q in (ch[0].children() if z3.is_and(ch[0]) else [ch[0]]):
                if z3.is_eq(q) and q.arg(0).sort() == INT:
                    l, r = q.arg(0), q.arg(1)
                    if is_sk(l): l, r = r, l
                    if is_sk(r) and l.num_args() > 0: ch[1] = z3.substitute(ch[1], (l, r))
            r = z3.If(*ch)
        else:
            r = x if all(p.get_id() == q.get_id() for p, q in zip(ch, x.children())) else z3_app_(x, ch)
        memo[i] = (r, x)
        return r
    return rec(e)
def is_sk(x):
    return x.num_args() == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("t!", "sk!", "it!"))
def z3_app_(e, args):
    d = e.decl(); k = d.kind()
    if k == z3.Z3_OP_AND: return z3.And(*args)
    if k == z3.Z3_OP_OR: return z3.Or(*args)
    if k == z3.Z3_OP_ADD: return z3.Sum(*args)
    if k == z3.Z3_OP_MUL: return z3.Product(*args)
    return d(*args)

def has_fold(e):
    i = e.get_id(); r = _M_has_fold.get(i)
    if r is None: r = _M_has_fold[i] = (has_fold_(e), e)
    return r[0]
_M_has_fold = {}
def has_fold_(e):
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in T.FOLDS: return True
            stack += x.children()
    return False
def has_def(e):
    i = e.get_id(); r = _M_has_def.get(i)
    if r is None: r = _M_has_def[i] = (has_def_(e), e)
    return r[0]
_M_has_def = {}
def has_def_(e):
    """mentions a fold, or a quantified formula with parameters"""
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in T.FOLDS or (x.num_args() > 1 and x.decl().name() in T.EXS)): return True
            stack += x.children()
    return False
def split_cond(e, hyps=()):
    """an atomic condition of some If in e (or of a quantified formula of e, or of a hypothesis with folds) that contains no fold"""
    seen = set(); queue = [e]; bodies = []
    def scan(queue):
        while queue:
            x = queue.pop(0)
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if not z3.is_app(x): continue
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                at = atom_of(x.arg(0))
                if at is not None and not has_bound(at): return at
            if x.num_args() and z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED):
                nm = x.decl().name(); df = T.FOLDS.get(nm); o = 2
                if df is None: df = T.EXS.get(nm); o = 1
                if df is not None and df.params: bodies.append((df, [x.arg(j) for j in range(o, x.num_args())]))
            queue += x.children()
        return None
    def nested():
        n = 0
        while bodies and n < 40:
            n += 1
            df, ps = bodies.pop(0)
            a = None if df.a is None else z3.Const("b!a_%s" % df.sort, df.sort)
            c = scan([body_of(df, z3.Int("b!k"), a, ps)])
            if c is not None: return c
        return None
    c = scan(queue)
    if c is not None: return c
    c = nested()
    if c is not None: return c
    for h in hyps:
        if isz(h) and has_def(h):
            c = scan([h])
            if c is not None: return c
    return nested()
def has_bound(e):
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("b!"): return True
        stack += x.children()
    return False
def atom_of(c):
    while z3.is_not(c): c = c.arg(0)
    if z3.is_and(c) or z3.is_or(c):
        for y in c.children():
            r = atom_of(y)
            if r is not None: return r
        return None
    if z3.is_true(c) or z3.is_false(c) or has_fold(c): return None
    return c
def cases(hyps, goal, budget):
    """case split of a goal with folds on the conditions it contains: [(hyps, goal)]"""
    out = []; work = [(hyps, goal, 0)]
    while work:
        h, g, d = work.pop()
        c = split_cond(g, h) if (d < 12 and len(out) + len(work) < budget) else None
        if c is None: out.append((h, g)); continue
        for val in (True, False):
            hh = h + [c if val else z3.Not(c)]
            if not feasible(hh, timeout=200): continue
            hh = hyps_simplify(hh)
            if any(z3.is_false(x) for x in hh): continue
            gg = z3.simplify(z3.substitute(g, (c, z3.BoolVal(val))))
            if z3.is_true(gg): continue
            work.append((hh, gg, d + 1))
    return out

def literals(hyps):
    """atomic facts among the hypotheses: id -> (atom, truth value); disjunctions are unit-propagated"""
    out = {}; comp = []
    def absorb(hs):
        stack = list(hs)
        while stack:
            h = z3.simplify(stack.pop())
            if z3.is_and(h): stack += h.children(); continue
            v = True
            if z3.is_not(h):
                h = h.arg(0); v = False
                if z3.is_or(h): stack += [z3.Not(c) for c in h.children()]; continue
            if z3.is_true(h) or z3.is_false(h): continue
            if z3.is_and(h) or z3.is_or(h):
                g = z3.simplify(z3.Not(h))
                out[g.get_id()] = (g, not v)
                comp.append(h if v else z3.Not(h))
            out[h.get_id()] = (h, v)
            if z3.is_eq(h): g = h.decl()(h.arg(1), h.arg(0))
            elif z3.is_le(h): g = h.arg(1) >= h.arg(0)
            elif z3.is_ge(h): g = h.arg(1) <= h.arg(0)
            else: continue
            out[g.get_id()] = (g, v)
    absorb([h for h in hyps if isz(h)])
    for rnd in range(4):
        todo, comp[:] = list(comp), []
        n = len(out); new = []
        for h in todo:
            neg = z3.is_not(h); c = h.arg(0) if neg else h
            ch = []
            for x in c.children():
                y = x.arg(0) if z3.is_not(x) else x
                e = out.get(y.get_id())
                if e is None: ch.append(x)
                else: ch.append(z3.BoolVal(e[1] != z3.is_not(x)))
            r = z3.And(*ch) if z3.is_and(c) else z3.Or(*ch)
            r = z3.simplify(z3.Not(r) if neg else r)
            if (z3.is_and(r) or z3.is_or(r) or (z3.is_not(r) and (z3.is_and(r.arg(0)) or z3.is_or(r.arg(0))))) and r.eq(z3.simplify(h)): comp.append(h)
            else: new.append(r)
        absorb(new)
        if len(out) == n: break
    return out
def ctx_simplify(e, lits, depth=0):
    """e with the atoms decided by the hypotheses replaced, inside the steps of folds too"""
    memo = {}
    def rec(x):
        if not z3.is_app(x): return x
        i = x.get_id()
        if i in memo: return memo[i][0]
        r = None
        if z3.is_bool(x) and i in lits: r = z3.BoolVal(lits[i][1])
        elif x.num_args() == 0: r = x
        else:
            ch = [rec(c) for c in x.children()]
            r = x if all(p.eq(q) for p, q in zip(ch, x.children())) else T.rebuild(x, ch)
            if z3.is_app_of(r, z3.Z3_OP_UNINTERPRETED):
                df = T.FOLDS.get(r.decl().name())
                if df is not None and df.params and depth < 4:
                    k = z3.Int("c!k%d" % depth); a = z3.Const("c!a%d_%s" % (depth, df.sort), df.sort)
                    ps = [r.arg(j) for j in range(2, r.num_args())]
                    b = body_of(df, k, a, ps)
                    b2 = z3.simplify(ctx_simplify(b, lits, depth + 1))
                    if not b2.eq(z3.simplify(b)): r = T.fold_of_body(r.arg(0), r.arg(1), b2, k, a)
                df = T.EXS.get(r.decl().name())
                if df is not None and df.params and depth < 4:
                    k = z3.Int("c!k%d" % depth)
                    b = body_of(df, k, None, [r.arg(j) for j in range(1, r.num_args())])
                    b2 = z3.simplify(ctx_simplify(b, lits, depth + 1))
                    if not b2.eq(z3.simplify(b)): r = T.ex_of_body(r.arg(0), b2, k)
            elif z3.is_app_of(r, z3.Z3_OP_ITE):
                c = z3.simplify(r.arg(0))
                if z3.is_true(c): r = r.arg(1)
                elif z3.is_false(c): r = r.arg(2)
        memo[i] = (r, x)
        return r
    return rec(e)

_uni = {}; _ud = [0]
def fold_apps(e):
    i = e.get_id(); r = _M_fold_apps.get(i)
    if r is None: r = _M_fold_apps[i] = (fold_apps_(e), e)
    return r[0]
_M_fold_apps = {}
def fold_apps_(e):
    out = []; seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in T.FOLDS or x.decl().name() in T.EXS): out.append(x)
            stack += x.children()
    return out
def same_step(x, y):
    """two folds over the same range with the same start whose steps agree for every index and accumulator (no hypotheses)"""
    key = (x.get_id(), y.get_id())
    if key in _uni: return _uni[key][0]
    fx, fy = x.decl().name() in T.FOLDS, y.decl().name() in T.FOLDS
    r = False
    if fx == fy and x.sort() == y.sort() and x.arg(0).eq(y.arg(0)) and (not fx or x.arg(1).eq(y.arg(1))):
        dx, dy = [(T.FOLDS if fx else T.EXS)[v.decl().name()] for v in (x, y)]
        o = 2 if fx else 1
        d = _ud[0]; k = z3.Int("u!k%d" % d); a = z3.Const("u!a%d_%s" % (d, x.sort()), x.sort())
        bx = body_of(dx, k, a, [x.arg(i) for i in range(o, x.num_args())]); by = body_of(dy, k, a, [y.arg(i) for i in range(o, y.num_args())])
        g = z3.simplify(bx == by)
        if isz(g) and has_def(g):
            _ud[0] += 1
            try: g = unify_folds(g)
            finally: _ud[0] -= 1
        if z3.is_true(g): r = True
        elif not z3.is_false(g):
            s = z3.Solver(); s.set("timeout", 400); s.add(k >= 0, k < x.arg(0), z3.Not(g))
            t = time.time(); r = s.check() == z3.unsat; STAT["time"] += time.time() - t; STAT["queries"] += 1
    _uni[key] = (r, x, y)
    return r
def unify_folds(g):
    """folds of the goal that are equal step by step are identified"""
    return unify_all([g])[0]
def unify_all(es):
    fs = {}
    for e in es:
        if isz(e):
            for x in fold_apps(e): fs[x.get_id()] = x
    if len(fs) < 2 or len(fs) > 60: return es
    rep = []; sub = []
    for i in sorted(fs):
        x = fs[i]
        for y in rep:
            if same_step(y, x): sub.append((x, y)); break
        else: rep.append(x)
    if not sub: return es
    return [z3.simplify(z3.substitute(e, *sub)) if isz(e) and has_def(e) else e for e in es]

def prove(hyps, goal, timeout=None):
    DEADLINE[0] = time.time() + BUDGET
    try: return prove0(hyps, goal, timeout)
    finally: DEADLINE[0] = 1e18
OPAQUE = [False]         # first try with folds as opaque values
def prove0(hyps, goal, timeout=None):
    if isz(goal):
        g = z3.simplify(goal); i = g.get_id()
        if any(isz(h) and simp_id(h) == i for h in hyps): return "proved", None, ""
        if OPAQUE[0] and has_def(goal):
            s = z3.Solver(); s.set("timeout", 500)
            for h in hyps:
                if h is False: return "proved", None, ""
                if h is not True: s.add(lift(h))
            s.add(z3.Not(goal))
            t = time.time(); r = s.check(); STAT["time"] += time.time() - t; STAT["queries"] += 1
            if r == z3.unsat: return "proved", None, ""
    if isz(goal): goal = eq_norm(z3.simplify(goal))
    if isz(goal) and has_def(goal):
        lits = literals(hyps)
        goal = z3.simplify(ctx_simplify(goal, lits))
        goal = unify_folds(goal)
        if z3.is_true(goal): return "proved", None, ""
        hyps = hyps_simplify(hyps)
        *hyps, goal = unify_all(list(hyps) + [goal])
        if z3.is_true(goal): return "proved", None, ""
    if isz(goal) and has_def(goal):
        hs = [h for h in hyps if h is not True]
        if any(h is False for h in hs): return "proved", None, ""
        hs = [lift(h) for h in hs]
        for h, g in cases(hs, goal, 64):
            if len(h) > len(hs):
                g = z3.simplify(ctx_simplify(g, literals(h)))
                h = hyps_simplify(h)
                *h, g = unify_all(h + [g])
                if z3.is_true(g) or any(z3.is_false(x) for x in h): continue
            r = prove1(h, g, timeout)
            if r[0] != "proved": return r
        return "proved", None, ""
    return prove1(hyps, goal, timeout)

def prove1(hyps, goal, timeout=None):
    q = Query(hyps, goal, timeout)
    try:
        r = q.run()
    except z3.Z3Exception as e:
        return "unknown", None, str(e)
    return r, q, ""

def hyps_simplify(hyps):
    """hypotheses with folds, simplified under the others"""
    lits = None; out = []
    for h in hyps:
        if isz(h) and has_def(h):
            if lits is None: lits = literals([x for x in hyps if isz(x) and not has_def(x)])
            h = z3.simplify(ctx_simplify(h, lits))
        out.append(h)
    return out
_pcs = {}
def pc_simplify(pc):
    key = tuple(h.get_id() if isz(h) else h for h in pc)
    r = _pcs.get(key)
    if r is None:
        if len(_pcs) > 500: _pcs.clear()
        r = _pcs[key] = (hyps_simplify(pc), literals([x for x in pc if isz(x) and not has_def(x)]), list(pc))
    return r[0], r[1]
_sid = {}
def simp_id(h):
    k = h.get_id(); r = _sid.get(k)
    if r is None or not r[0].eq(h):
        r = _sid[k] = (h, z3.simplify(h))
    return r[1].get_id()
LIGHT = [False]          # folds stay opaque when paths are pruned (keeps more paths, costs less per test)
def feasible(pc, extra=None, timeout=600):
    """is the path condition satisfiable?  (unknown counts as feasible)"""
    if extra is not None and isz(extra):
        e = z3.simplify(extra); ne = z3.simplify(z3.Not(extra)); i, j = e.get_id(), ne.get_id()
        for h in pc:
            if isz(h):
                k = simp_id(h)
                if k == i: return True
                if k == j: return False
    if not LIGHT[0] and extra is not None and isz(extra) and has_fold(extra) and any(isz(h) and has_fold(h) for h in pc):
        pc, lits = pc_simplify(pc)
        extra = z3.simplify(ctx_simplify(extra, lits))
        *pc, extra = unify_all(list(pc) + [extra])
    s = z3.Solver(); s.set("timeout", timeout)
    for h in pc:
        if h is True: continue
        if h is False: return False
        s.add(lift(h))
    if extra is not None:
        if extra is False: return False
        if extra is not True: s.add(lift(extra))
    t = time.time(); r = s.check(); STAT["time"] += time.time() - t; STAT["queries"] += 1
    return r != z3.unsat
