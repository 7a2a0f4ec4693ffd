"""Contracts of src/util.c, error.c, timing_linux.c, interrupt_unix.c; the clock and signal state are external events."""
from .solver import *
from .externs import NoEffect

# ------------------------------------------------------------------ clock
def tic(S, t): S.event("osqp_tic", [t], [])
def toc(S, t):
    v = S.event("osqp_toc", [t], ["real"])[0]
    if S.mode != "concrete" or S.actual is not None: S.assume(v >= 0)
    return v
def timer(B):
    t = B.struct("OSQPTimer_", "timer")
    B.st.mem[t.rid] = {k: (B.rng.randint(0, 5) if B.mode == "concrete" else fresh("tm", INT)) for k in B.st.mem[t.rid]}
    return t
@contract("osqp_tic", setup=lambda B: [timer(B)])
def _(S, t):
    if S.mode == "call": return tic(S, t)
    for f in ("tic.tv_sec", "tic.tv_nsec"): S.havoc(t, f)
@contract("osqp_toc", setup=lambda B: [timer(B)])
def _(S, t):
    """seconds elapsed since the last start"""
    if S.mode == "call": return S.ret(toc(S, t))
    a, b = [S.havoc(t, f) for f in ("toc.tv_sec", "toc.tv_nsec")]
    if a is None: return
    R_ = (lambda v: z3.ToReal(lift(v))) if not concrete() else float
    S.ret(R_(a) - R_(S.get(t, "tic.tv_sec")) + Div(R_(b) - R_(S.get(t, "tic.tv_nsec")), R(1e9)))
@contract("OSQPTimer_new", setup=lambda B: [])
def _(S):
    if S.ret_null() if S.mode != "call" else S.fails(None): return S.ret(NULL)
    S.ret(S.new("OSQPTimer_"))
@contract("OSQPTimer_free", setup=lambda B: [NULL if B.pick(2) else timer(B)])
def _(S, t): S.free(t)

# ------------------------------------------------------------------ signals
@contract("osqp_start_interrupt_listener")
def _(S): S.event("start_listener", [], [])
@contract("osqp_end_interrupt_listener")
def _(S): S.event("end_listener", [], [])
@contract("osqp_is_interrupted")
def _(S): S.ret(S.event("is_interrupted", [], ["int"])[0])

# ------------------------------------------------------------------ text
def strcpy_setup(B):
    n = B.dim("n", 0, 3)
    if B.mode == "concrete": src = B.arrl("src", "int", [B.rng.randint(1, 100) for _ in range(n)] + [0])
    else:
        vals = [fresh("ch", INT) for _ in range(n)]
        for v in vals: B.assume(And(v > 0, v < 128))
        src = B.arrl("src", "int", vals + [0])
    for p in (src,): B.st.reg[p.rid].ctype = ("int", 1)
    d = B.arr("dst", ("int", 1), n + 1 + B.pick(2), lo=0, hi=100)
    return [d, src]
@contract("c_strcpy", setup=strcpy_setup, opts={"bounded_only": True})
def _(S, dst, src):
    if S.region(src).kind == "str":
        code, n = text_of(S, src)
        S.require(le(n, S.len(dst)), "room for the text")
        S.wr(dst, S.len(dst), text_arr(code)); return
    f = S.arr(src); L = S.len(src)
    k = 0
    while True:
        if isz(L) or k >= L: S.dead("unterminated text")
        if S.branch(Eq(f(k), 0)): break
        k += 1
    S.require(le(k + 1, S.len(dst)), "room for the text")
    S.wr(dst, k + 1, f)

# ------------------------------------------------------------------ messages
for nm in ("print_header", "print_setup_header", "print_summary", "print_polish", "print_footer"):
    CONTRACTS[nm] = NoEffect(nm)
@contract("_osqp_error", setup=lambda B: [B.int("code", 0, 12), str_(B, "function")])
def _(S, code, fn):
    """the code is handed back; its message exists"""
    S.require(And(le(0, code), le(code, 12)), "known error code")
    S.ret(code)
@contract("_osqp_error_line", setup=lambda B: [B.int("code", 0, 12), str_(B, "function"), str_(B, "file"), B.int("line", 0)])
def _(S, code, fn, file, line):
    S.require(And(le(0, code), le(code, 12)), "known error code")
    S.ret(code)
def str_(B, s):
    rid = B.st.new("str", ("int", 1), None, "pre", s); B.st.mem[rid] = s
    return Ptr(rid, 0)

# ------------------------------------------------------------------ settings
@contract("copy_settings", setup=lambda B: [settings(B)])
def _(S, st):
    """an exact, independent copy"""
    if S.ret_null(): return S.ret(NULL)
    new = S.new("OSQPSettings")
    for f in settings_fields(S.ex.prog): S.set(new, f, S.get(st, f))
    S.ret(new)
