"""Terms, folds, bounded quantifiers and segment functions.

The same helpers work on z3 terms (verification) and on plain Python numbers (contracts executed on concrete
states), so one text of a contract serves as postcondition, as call rule and as run-time oracle.

Fold(N, init, step)   value after N iterations of acc := step(k, acc)            (uninterpreted, with axioms)
Exists(N, pred)       some k in [0,N) with pred(k)                                 (with a witness function)
seg(p, N, t)          the k in [0,N) with p(k) <= t < p(k+1)                       (CSC column of an entry)
"""
import z3, math, fractions, itertools

MODE = {"concrete": False}
def concrete(): return MODE["concrete"]

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def isz(x): return isinstance(x, z3.ExprRef)
def isreal(x): return isz(x) and x.sort() == REAL
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))

def R(x):
    """real constant"""
    if isz(x): return z3.ToReal(x) if x.sort() == INT else x
    if concrete(): return float(x)
    if isinstance(x, float): x = fractions.Fraction(str(x)) if "e" not in repr(x) else fractions.Fraction(repr(x))
    return z3.RealVal(str(fractions.Fraction(x)))

def lift(x):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, (float, fractions.Fraction)): return R(x)
    raise TypeError("lift %r" % (x,))

def And(*a):
    a = [x for x in flat(a)]
    if all(isinstance(x, bool) or (not isz(x)) for x in a): return all(bool(x) for x in a)
    if any(x is False for x in a): return False
    a = [x for x in a if x is not True]
    if not a: return True
    return z3.And(*a) if len(a) > 1 else a[0]
def Or(*a):
    a = [x for x in flat(a)]
    if all(not isz(x) for x in a): return any(bool(x) for x in a)
    if any(x is True for x in a): return True
    a = [x for x in a if x is not False]
    if not a: return False
    return z3.Or(*a) if len(a) > 1 else a[0]
def Not(a):
    return z3.Not(a) if isz(a) else (not a)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if not isz(a) and not isz(b): return bool(a) == bool(b)
    return lift(bool(a) if not isz(a) else a) == lift(bool(b) if not isz(b) else b)
def flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            for y in flat(x): yield y
        else: yield x
def If(c, a, b):
    if not isz(c): return a if c else b
    if isz(a) and isz(b):
        if a.eq(b): return a
        if a.sort() != b.sort(): a, b = coerce(a, b)
    else:
        if not isz(a) and not isz(b) and a == b and type(a) == type(b): return a
        a, b = lift(a), lift(b)
        if a.sort() != b.sort(): a, b = coerce(a, b)
    return z3.If(c, a, b)
def coerce(a, b):
    a, b = lift(a), lift(b)
    if a.sort() == b.sort(): return a, b
    if z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == b.sort(): return a, b
    if a.sort() == INT: a = z3.ToReal(a)
    if b.sort() == INT: b = z3.ToReal(b)
    return a, b
def Eq(a, b):
    if not isz(a) and not isz(b): return a == b
    a, b = coerce(a, b)
    return a == b
def Max(a, b): return If(a > b, a, b)
def Min(a, b): return If(a < b, a, b)
def Abs(a): return If(a < 0, -a, a)
def Div(a, b):
    if not isz(a) and not isz(b):
        try: return a / b
        except ZeroDivisionError:
            return math.nan if (a == 0 or a != a) else math.copysign(math.inf, a) * math.copysign(1, b)
    a, b = (R(a) if not isz(a) else a), (R(b) if not isz(b) else b)
    if z3.is_rational_value(b) and not z3.is_rational_value(a) and b.numerator_as_long() != 0:
        return a * z3.RealVal(str(fractions.Fraction(b.denominator_as_long(), b.numerator_as_long())))
    return a / b
SQRT = z3.Function("sqrt", REAL, REAL)
def Sqrt(a):
    if not isz(a): return math.sqrt(a) if a >= 0 else math.nan
    return SQRT(a)

# ---------------------------------------------------------------- fresh names
_ctr = itertools.count()
def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_ctr)), sort)
def fresh_fn(name, rng):
    return z3.Function("%s!%d" % (name, next(_ctr)), INT, rng)

# ---------------------------------------------------------------- registries
class Def:
    __slots__ = ("kind", "name", "fn", "body", "k", "a", "params", "sort", "const", "wit", "trig")
FOLDS, EXS, SEGS = {}, {}, {}
_bykey = {}
_depth = [0]

def _consts(e, skip):
    """free 0-ary uninterpreted constants in order of first occurrence"""
    out, seen, seenc = [], set(), set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        n = x.num_args()
        if n == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if i not in skip and i not in seenc:
                    seenc.add(i); out.append(x)
        else:
            for j in range(n - 1, -1, -1): stack.append(x.arg(j))
    return out

_CK = z3.Int("!k")
def _canon(body, k, a):
    skip = {k.get_id()}
    if a is not None: skip.add(a.get_id())
    ps = _consts(body, skip)
    sub = [(k, _CK)]
    ca = None
    if a is not None:
        ca = z3.Const("!a_%s" % a.sort(), a.sort()); sub.append((a, ca))
    cps = []
    for i, p in enumerate(ps):
        c = z3.Const("!p%d_%s" % (i, p.sort()), p.sort()); cps.append(c); sub.append((p, c))
    cb = z3.simplify(z3.substitute(body, *sub))
    return cb, ca, ps, cps

def mkfold(N, init, step):
    if concrete() or (isinstance(N, int) and N <= 0):
        acc = init
        for k in range(N): acc = step(k, acc)
        return acc
    N = lift(N); init = lift(init)
    d = _depth[0]; _depth[0] += 1
    try:
        k = z3.Int("?k%d" % d); a = z3.Const("?a%d_%s" % (d, init.sort()), init.sort())
        body = lift(step(k, a))
        if body.sort() != init.sort():
            if init.sort() == INT and body.sort() == REAL:     # promote
                _depth[0] -= 1
                try: return mkfold(N, z3.ToReal(init), step)
                finally: _depth[0] += 1
            body, _ = coerce(body, init)
        return fold_of_body(N, init, body, k, a)
    finally: _depth[0] -= 1

def in_range(e, k, N):
    """e simplified under 0 <= k < N: comparisons between k and the ends of the range are decided syntactically"""
    memo = {}; kid = k.get_id(); has = {}
    def mentions(x):
        i = x.get_id()
        if i in has: return has[i]
        r = i == kid or any(mentions(c) for c in x.children()); has[i] = r
        return r
    up = z3.simplify(lift(N) - 1 - k)
    def const_ge(x, base):
        d = z3.simplify(x - base)
        return z3.is_int_value(d) and d.as_long() >= 0
    def atom(x):
        a, b = x.arg(0), x.arg(1)
        if z3.is_ge(x) or z3.is_gt(x): a, b = b, a
        strict = z3.is_lt(x) or z3.is_gt(x)
        e1 = z3.simplify(b - a - 1 if strict else b - a)          # holds iff e1 >= 0
        if const_ge(e1, k) or const_ge(e1, up): return z3.BoolVal(True)
        e2 = z3.simplify(-e1 - 1)                                  # fails iff e2 >= 0
        if const_ge(e2, k) or const_ge(e2, up): return z3.BoolVal(False)
        return None
    def rec(x):
        if not z3.is_app(x) or x.num_args() == 0 or not mentions(x): return x
        i = x.get_id()
        if i in memo: return memo[i][0]
        r = None
        if (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x)) and x.arg(0).sort() == INT: r = atom(x)
        if r is None:
            ch = [rec(c) for c in x.children()]
            r = x if all(p.eq(q) for p, q in zip(ch, x.children())) else rebuild(x, ch)
        memo[i] = (r, x)
        return r
    r = rec(e)
    return r if r.eq(e) else z3.simplify(r)
def rebuild(e, ch):
    d = e.decl(); kd = d.kind()
    if kd == z3.Z3_OP_AND: return z3.And(*ch)
    if kd == z3.Z3_OP_OR: return z3.Or(*ch)
    if kd == z3.Z3_OP_ADD: return z3.Sum(*ch)
    if kd == z3.Z3_OP_MUL: return z3.Product(*ch)
    return d(*ch)

def fold_of_body(N, init, body, k, a):
    body = in_range(z3.simplify(body), k, N)
    if body.eq(a): return init
    # "set to v when some c(k)": existential form
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        c, x, y = body.children()
        ex = None
        ids = {k.get_id(), a.get_id()}
        def closed(e): return not any(z.get_id() in ids for z in _consts(e, set()))
        if y.eq(a) and closed(x) and not occurs(c, a): ex = (c, x)
        elif x.eq(a) and closed(y) and not occurs(c, a): ex = (z3.Not(c), y)
        if ex is not None:
            return If(ex_of_body(N, ex[0], k), ex[1], init)
    if init.sort() == INT and z3.is_int_value(init) and init.as_long() in (0, 1):
        # boolean flag accumulators
        v0 = init.as_long()
        b0 = z3.simplify(z3.substitute(body, (a, z3.IntVal(v0)))); b1 = z3.simplify(z3.substitute(body, (a, z3.IntVal(1 - v0))))
        if z3.is_int_value(b1) and b1.as_long() == 1 - v0 and z3.is_app_of(b0, z3.Z3_OP_ITE):
            c, x, y = b0.children()
            if z3.is_int_value(x) and z3.is_int_value(y) and {x.as_long(), y.as_long()} == {0, 1}:
                if x.as_long() == v0: c = z3.Not(c)
                return z3.If(ex_of_body(N, c, k), z3.IntVal(1 - v0), z3.IntVal(v0))
    if _fixpoint(body, k, a, init): return init
    cb, ca, ps, cps = _canon(body, k, a)
    key = ("F", cb.get_id(), init.sort().name())
    df = _bykey.get(key)
    if df is None:
        df = Def(); df.kind = "fold"; df.name = "Fold%d" % len(FOLDS); df.body = cb; df.k = _CK; df.a = ca
        df.params = cps; df.sort = init.sort(); df.const = None
        df.fn = z3.Function(df.name, *([INT, init.sort()] + [p.sort() for p in cps] + [init.sort()]))
        df.trig = None
        _bykey[key] = df; FOLDS[df.name] = df
    return df.fn(N, init, *ps)

def _fixpoint(body, k, a, init):
    """init is a fixed point of every step"""
    r = z3.simplify(z3.substitute(body, (a, init)))
    return r.eq(init)

def occurs(e, c):
    return any(z.get_id() == c.get_id() for z in _consts(e, set()))

def Fold(lo, hi, init, step):
    """fold over index lo..hi-1"""
    if concrete():
        acc = init
        for i in range(lo, hi): acc = step(i, acc)
        return acc
    if isinstance(lo, int) and lo == 0: return mkfold(hi, init, step)
    return mkfold(lift(hi) - lift(lo), init, lambda k, a: step(lift(lo) + k, a))
def Sum(lo, hi, f): return Fold(lo, hi, R(0), lambda i, a: a + f(i))
def Count(lo, hi, c): return Fold(lo, hi, 0 if concrete() else z3.IntVal(0), lambda i, a: a + If(c(i), 1, 0))
def MaxAbs(lo, hi, f): return Fold(lo, hi, R(0), lambda i, a: Max(Abs(f(i)), a))

def mkexists(N, pred):
    if concrete() or (isinstance(N, int) and N <= 0):
        return any(bool(pred(k)) for k in range(N))
    N = lift(N)
    d = _depth[0]; _depth[0] += 1
    try:
        k = z3.Int("?k%d" % d)
        c = lift(pred(k))
        return ex_of_body(N, c, k)
    finally: _depth[0] -= 1

def ex_of_body(N, c, k):
    c = in_range(z3.simplify(c), k, N)
    if z3.is_false(c): return z3.BoolVal(False)
    if not occurs(c, k): return z3.And(N > 0, c)
    cb, _, ps, cps = _canon(c, k, None)
    key = ("E", cb.get_id())
    df = _bykey.get(key)
    if df is None:
        df = Def(); df.kind = "ex"; df.name = "Ex%d" % len(EXS); df.body = cb; df.k = _CK; df.a = None
        df.params = cps; df.sort = BOOL
        sig = [INT] + [p.sort() for p in cps]
        df.fn = z3.Function(df.name, *(sig + [BOOL]))
        df.wit = z3.Function(df.name + "_w", *(sig + [INT]))
        df.trig = None
        _bykey[key] = df; EXS[df.name] = df
    return df.fn(N, *ps)

def Exists(lo, hi, pred):
    if concrete(): return any(bool(pred(i)) for i in range(lo, hi))
    if isinstance(lo, int) and lo == 0: return mkexists(hi, pred)
    return mkexists(lift(hi) - lift(lo), lambda k: pred(lift(lo) + k))
def Forall(lo, hi, pred):
    return Not(Exists(lo, hi, lambda i: Not(pred(i))))

def Seg(p, N, t):
    """the column k in [0,N) of entry t in a compressed structure: p(k) <= t < p(k+1)"""
    if concrete():
        for k in range(N):
            if p(k) <= t < p(k + 1): return k
        return -1
    d = _depth[0]; _depth[0] += 1
    try:
        k = z3.Int("?k%d" % d)
        body = lift(p(k))
    finally: _depth[0] -= 1
    cb, _, ps, cps = _canon(body, k, None)
    key = ("S", cb.get_id())
    df = _bykey.get(key)
    if df is None:
        df = Def(); df.kind = "seg"; df.name = "Seg%d" % len(SEGS); df.body = cb; df.k = _CK; df.a = None
        df.params = cps; df.sort = INT
        df.fn = z3.Function(df.name, *([INT, INT] + [q.sort() for q in cps] + [INT]))
        df.trig = None
        _bykey[key] = df; SEGS[df.name] = df
    return df.fn(lift(N), lift(t), *ps)

_IX = z3.Int("!ix")
# ---------------------------------------------------------------- arrays (immutable, functional)
class Arr:
    """contents of an array; sort is the element sort"""
    __slots__ = ("kind", "sort", "x", "_c")
    def __init__(self, kind, sort, *x):
        self.kind, self.sort, self.x, self._c = kind, sort, x, {}
    def read(self, t):
        if not isz(t): key = t
        else: key = ("z", t.get_id())
        r = self._c.get(key)
        if r is None:
            r = (self._read(t), t)
            self._c[key] = r
        return r[0]
    def _read(self, t):
        k = self.kind
        if k == "base": return self.x[0](lift(t))
        if k in ("fn", "map") and isz(t) and not t.eq(_IX) and not concrete():
            # read at a compound index: the index becomes an argument of the folds involved
            v = self.read(_IX)
            return z3.simplify(z3.substitute(v, (_IX, t))) if isz(v) else v
        if k == "const": return self.x[0]
        if k == "list":
            return self.x[0][t] if 0 <= t < len(self.x[0]) else math.nan
        if k == "store":
            prev, i, v = self.x
            c = eqt(t, i)
            if c is True: return v
            if c is False: return prev.read(t)
            return If(c, v, prev.read(t))
        if k == "map":
            prev, lo, hi, f = self.x
            c = And(le(lo, t), lt(t, hi))
            if c is False: return prev.read(t)
            if c is True: return f(t)
            return If(c, f(t), prev.read(t))
        if k == "ite":
            c, a, b = self.x
            return If(c, a.read(t), b.read(t))
        if k == "fn": return self.x[0](t)
        raise ValueError(k)

def simp(e):
    if isz(e):
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e
def eqt(a, b):
    if not isz(a) and not isz(b): return a == b
    a, b = lift(a), lift(b)
    if a.eq(b): return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d): return d.as_long() == 0
    return a == b
def le(a, b):
    if not isz(a) and not isz(b): return a <= b
    d = z3.simplify(lift(b) - lift(a))
    if z3.is_int_value(d): return d.as_long() >= 0
    return lift(a) <= lift(b)
def lt(a, b):
    if not isz(a) and not isz(b): return a < b
    d = z3.simplify(lift(b) - lift(a))
    if z3.is_int_value(d): return d.as_long() > 0
    return lift(a) < lift(b)

def abase(name, sort): return Arr("base", sort, fresh_fn(name, sort))
def aconst(v):
    return Arr("const", (REAL if isinstance(v, float) else (v.sort() if isz(v) else INT)), v)
def astore(a, i, v): return Arr("store", a.sort, a, i, v)
def amap(a, lo, hi, f): return Arr("map", a.sort, a, lo, hi, f)
def aite(c, a, b):
    if a is b: return a
    if c is True: return a
    if c is False: return b
    return Arr("ite", a.sort, c, a, b)
def afn(f, sort): return Arr("fn", sort, f)
