"""Contract of osqp_solve (src/osqp_api.c): outcome of a whole solve, any number of iterations."""
from .solver import *
from .auxil import *
from .util import tic, toc
from .api import unusable
from .polish import POL_SUCCESS, weak_polish
from ..spec import S_, Spec, CONTRACTS
from ..heap import Unsupported

# ------------------------------------------------------------------ ghost state: what the events of a solve leave behind
# (records in the pre-state that no pointer reaches; the field names are only storage)
GH = dict(listener="verbose", stopped="polishing", solves="max_iter", read="scaling", info_at="device", exact="cg_max_iter", exact_ret="cg_precond", exact_st="rho_is_vec",
          relaxed="warm_starting", relaxed_ret="cg_tol_reduction", relaxed_st="profiler_level", polished="check_dualgap", stored="allocate_solution",
          iter_time="rho", last_time="sigma", failed="alpha", prim_res="eps_abs", dual_res="eps_rel", obj_val="eps_prim_inf", dual_obj_val="eps_dual_inf", duality_gap="delta")
INTS = ("listener", "stopped", "solves", "read", "info_at", "exact", "exact_ret", "exact_st", "relaxed", "relaxed_ret", "relaxed_st", "polished", "stored")
RES = ("prim_res", "dual_res"); OBJ = ("obj_val", "dual_obj_val", "duality_gap")
def gget(S, k): return S.get(S.ex.opts["ghost_rec"], GH[k])
def gput(S, k, v): S.set(S.ex.opts["ghost_rec"], GH[k], v)
def ghost_event(S, name, args, vals):
    if name == "start_listener": gput(S, "listener", 1)
    elif name == "end_listener": gput(S, "listener", 0)
    elif name == "is_interrupted": gput(S, "stopped", vals[0])
    elif name == "ls_solve": gput(S, "solves", gget(S, "solves") + 1); gput(S, "read", 0)
    elif name == "osqp_toc":
        first = Eq(gget(S, "read"), 0)
        gput(S, "iter_time", If(first, vals[0], gget(S, "iter_time"))); gput(S, "read", 1); gput(S, "last_time", vals[0])
    elif name == "ls_update_rho_vec": gput(S, "failed", If(Eq(vals[0], 0), gget(S, "failed"), R(1)))
def snap(S, w):
    """the residuals recorded now are those of the current x, z, y"""
    for f, g in S.ex.opts["ghost_vec"].items():
        v = S.get(w.ptr(f), "values")
        if v.rid is not None: S.st.mem[g.rid] = S.st.mem[v.rid]
def fresh_now(S, w, unless=False):
    """the current x, z, y are those the recorded residuals belong to"""
    for f, n in (("x", w.n), ("z", w.m), ("y", w.m)):
        if S.get(w.ptr(f), "values").rid is None: continue
        g, h = S.arr(S.ex.opts["ghost_vec"][f]), w.vec(f)
        t = fresh("sk!", INT)
        S.ex.oblige(S.st, Implies(And(0 <= t, t < n, Not(unless)), Eq(g(t), h(t))), "%s is the vector the recorded residuals belong to" % f, S.node)
def demand(S, c, what): S.ex.oblige(S.st, c, what, S.node)

# ------------------------------------------------------------------ weaker contracts (what the loop needs), each verified too
def weakly(name, before=None, after=None, nosearch=True):
    """f#weak is verified on its own; inside osqp_solve calls of f use it, with what the ghost state asks for and keeps"""
    full = CONTRACTS[name]; strong = full.body
    def deco(f):
        CONTRACTS[name + "#weak"] = Spec(name + "#weak", f, setup=full.setup, opts=dict(full.opts, nosearch=1), nargs=full.nargs)
        def body(S, *a):
            if not (S.mode == "call" and S.ex.opts.get("weak")) or S.sp.name != name: return strong(S, *a)
            if before: before(S, *a)
            f(S, *a)
            if after: after(S, *a)
        full.body = body
        return f
    return deco
def outcomes(S, w):
    return And(Eq(gget(S, "info_at"), gget(S, "solves")), *[Eq(w.i(f), gget(S, f)) for f in RES])
def keep_info(S, s, it, pol):
    w = W(S, s); snap(S, w); gput(S, "info_at", gget(S, "solves"))
    for f in RES + OBJ: gput(S, f, w.i(f))
def may_update(S, s, it, pol):
    demand(S, Eq(pol, 0), "the iterate itself is assessed")
    demand(S, Eq(it, gget(S, "solves")), "iteration count reported is that of the iterate")
@weakly("update_info", may_update, keep_info)
def _(S, s, it, polishing):
    w = W(S, s); pol = S.branch(Not(Eq(polishing, 0))); T_ = S.get(w.work, "pol") if pol else w.info
    xyz = T_ if pol else w.work
    for f in "xzy": S.vec(S.get(xyz, f))
    if not pol: w.setinfo("iter", it); S.havoc(w.info, "primdual_int")
    for f in RES + OBJ: S.havoc(T_, f)
    for f in ("scaled_prim_res", "scaled_dual_res", "scaled_dual_gap", "xtPx", "qtx", "SC"): S.havoc(w.work, f)
    S.havoc(w.info, "rel_kkt_error")
    w.scratch("x_prev", "z_prev", "Ax", "Px", "Aty")
    t = toc(S, w.w("timer")); w.setinfo("polish_time" if pol else "solve_time", t)
    w.setw("summary_printed", 0)
def may_check(S, s, approx):
    w = W(S, s); fresh_now(S, w)
    demand(S, outcomes(S, w), "criteria are tested on the residuals of the current iterate")
    demand(S, Eq(w.i("iter"), gget(S, "solves")), "iteration count of the tested iterate")
def keep_verdict(S, s, approx):
    w = W(S, s); a = Not(Eq(approx, 0)); r, st = S.retval, w.i("status_val")
    for k, v in (("", gget(S, "solves")), ("_ret", r), ("_st", st)):
        gput(S, "relaxed" + k, If(a, v, gget(S, "relaxed" + k))); gput(S, "exact" + k, If(a, gget(S, "exact" + k), v))
@weakly("check_termination", may_check, keep_verdict)
def _(S, s, approx):
    """the verdict left open (it is check_termination's own contract): none, or one of the outcomes of the test requested"""
    w = W(S, s); ap = Not(Eq(approx, 0)); old = w.i("status_val"); ob = w.i("obj_val")
    for f in "xzy": w.vec(f)
    r = S.result_int(); st = S.havoc(w.info, "status_val"); o = S.havoc(w.info, "obj_val")
    S.ensure(Or(Eq(r, 0), Eq(r, 1)), "verdict")
    S.ensure(Implies(Eq(r, 0), And(Eq(st, old), Eq(o, ob))), "no verdict, nothing recorded")
    S.ensure(Implies(And(Eq(r, 1), ap), Or(*[Eq(st, x) for x in (SOLVED_INACC, PINF_INACC, DINF_INACC, NONCVX)])), "outcome of the relaxed test")
    S.ensure(Implies(And(Eq(r, 1), Not(ap)), Or(*[Eq(st, x) for x in (SOLVED, PINF, DINF, NONCVX)])), "outcome of the exact test")
    S.ensure(Implies(Or(Eq(st, SOLVED), Eq(st, SOLVED_INACC)), Eq(o, ob)), "objective kept")
    S.havoc_arr(S.get(w.info, "status"))
    w.scratch("delta_x", "delta_y", "Adelta_x", "Pdelta_x", "Atdelta_y")
    S.ret(r)
def may_objective(S, s, x, y, a, b, c):
    w = W(S, s)
    demand(S, bool(x.rid == w.ptr("x").rid and y.rid == w.ptr("y").rid), "objective of the current iterate")
    fresh_now(S, w)
    demand(S, bool([(p.rid, p.path) for p in (a, b, c)] == [(w.info.rid, f) for f in OBJ]), "objective recorded in the result")
def keep_objective(S, s, x, y, a, b, c):
    w = W(S, s)
    for f in OBJ: gput(S, f, w.i(f))
@weakly("compute_obj_val_dual_gap", may_objective, keep_objective)
def _(S, s, x, y, a, b, c):
    w = W(S, s)
    S.require(And(eqt(S.get(x, "length"), w.n), eqt(S.get(y, "length"), w.m)), "lengths")
    for p in (a, b, c): S.havoc(Ptr(p.rid, 0, ""), p.path)
    for f in ("scaled_dual_gap", "xtPx", "qtx", "SC"): S.havoc(w.work, f)
    w.scratch("z_prev")
def may_polish(S, s):
    w = W(S, s); may_check(S, s, 0)
    demand(S, And(Eq(w.i("status_val"), SOLVED), Not(Eq(w.opt("polishing"), 0)), Eq(gget(S, "polished"), 0)), "polishing only once, of a solved problem, when requested")
def keep_polish(S, s): gput(S, "polished", 1)
weakly("polish", may_polish, keep_polish)(weak_polish)
def may_store(S, s, sol):
    """what is handed out is the iterate whose residuals and objectives are recorded (or the polished one)"""
    w = W(S, s); st = w.i("status_val")
    none = Or(*[Eq(st, c) for c in NOSOL])
    better = And(Not(Eq(gget(S, "polished"), 0)), Eq(w.i("status_polish"), POL_SUCCESS), Eq(st, SOLVED))
    fresh_now(S, w, Or(none, better))
    demand(S, Or(none, better, outcomes(S, w)), "residuals reported are those of the returned iterate")
    for f in OBJ: demand(S, Or(none, better, Eq(w.i(f), gget(S, f))), "%s reported is that of the returned iterate" % f)
    demand(S, Eq(w.i("iter"), gget(S, "solves")), "iteration count of the returned iterate")
    mine = S.get(s, "solution")
    demand(S, bool(sol.rid == mine.rid), "the solver's own result record is filled")
def keep_store(S, s, sol): gput(S, "stored", 1)
@weakly("store_solution", may_store, keep_store)
def _(S, s, sol):
    w = W(S, s)
    if S.null(sol): return
    for f in ("x", "y", "z"):
        w.vec(f)
    st = w.i("status_val"); none = Or(*[Eq(st, c) for c in NOSOL])
    for f in ("x", "y", "prim_inf_cert", "dual_inf_cert"): S.havoc_arr(S.get(sol, f))
    for f, k in (("x", w.n), ("z", w.m), ("y", w.m)):
        p = S.get(w.ptr(f), "values")
        if p.rid is None: continue
        old = w.vec(f)
        if S.mode == "call": S.wr(p, k, lambda i, o=old: If(none, R(0), o(i)))
        else: g = S.adopt(p); S.ensure(Forall(0, k, lambda i: Eq(g(i), If(none, R(0), old(i)))), f + " kept, or reset when there is no solution")
    w.scratch("x_prev", "z_prev", "delta_x", "delta_y")
    if S.mode != "call": S.evpos = len(S.actual[0].trace) if S.actual else 0       # (the linear solver may be told about the reset)

def solve_setup(B):
    # the iteration limit and the other knobs small where the contract is executed
    k = B.pick(3, "handle")
    if k: return [NULL if k == 1 else B.struct("OSQPSolver", "solver", settings=NULL, solution=NULL, info=NULL, work=NULL)]
    o = solver(B, ("m0", "rv", "sc"), sol=True)
    B.ex.opts["ghost_rec"] = None
    if B.mode == "concrete":
        d = B.st.mem[o.settings.rid]; r = B.rng
        d["max_iter"] = r.randint(1, 5); d["check_termination"] = r.choice([0, 1, 1, 2, 3]); d["adaptive_rho_interval"] = r.choice([0, 1, 2])
        d["time_limit"] = r.choice([1e10, 1e10, 1.0, 4.0]); d["eps_abs"] = r.choice([1e-3, 1.0, 8.0, 64.0, 1e3]); d["polish_refine_iter"] = 0; d["polishing"] = 0
        d["verbose"] = 0
    else:
        g = B.struct("OSQPSettings", "ghost", **{f: 0 if k in INTS else R(0) for k, f in GH.items()})
        B.ex.opts["ghost_rec"] = g
        B.ex.opts["ghost_vec"] = {f: B.arr("ghost_" + f, "float", k) for f, k in (("x", o.n), ("y", o.m), ("z", o.m))}
    return [o.p]

# ------------------------------------------------------------------ one iteration
def at(S, st):
    """another view of the same contract on state st (nothing is executed, nothing recorded)"""
    return S_(S.sp, S.ex, st, S.node, "view", [], [], None)
def admm_step(L, s):
    """x, z, y after one iteration from the head state, given what the linear solver answered"""
    H, S = L.H, L.S; w = W(S, s)
    C = at(H, H.st.clone()); wk = C.get(s, "work")
    for a, b in (("x", "x_prev"), ("z", "z_prev")): C.call("swap_vectors", Ptr(wk.rid, 0, a), Ptr(wk.rid, 0, b))
    xz = C.get(W(C, s).ptr("xz_tilde"), "values")
    if xz.rid is not None: C.st.mem[xz.rid] = S.st.mem[xz.rid]
    for f in ("update_x", "update_z", "update_y"): C.call(f, s)
    c = W(C, s)
    for f, n in (("x", w.n), ("z", w.m), ("y", w.m)):
        if w.ptr(f).rid != c.ptr(f).rid: L.inv(False, "%s of the new iterate is the current one" % f); continue
        g, h = w.vec(f), c.vec(f)
        L.forall(n, lambda i: Eq(g(i), h(i)), "%s := step of the iteration" % f)
def runtime(S, s, base):
    w = W(S, s)
    return If(Not(Eq(w.w("first_run"), 0)), w.i("setup_time"), w.i("update_time")) + base
def common(L, s):
    S = L.S; w = W(S, s); k = L.count
    L.inv(Eq(gget(S, "listener"), 1), "signals are watched")
    rho = w.opt("rho")
    L.inv(And(rho >= R(RHO_MIN), rho <= R(RHO_MAX)), "step size clamped")
    if w.w("rho_vec").rid is None: L.inv(Eq(w.w("rho_inv"), Div(R(1), rho)), "inverse step size")
    L.inv(w.opt("adaptive_rho_interval") >= 0, "adaptation interval")
    L.inv(Eq(gget(S, "solves"), k), "one linear solve per iteration")
    L.inv(le(k, w.opt("max_iter")), "iteration limit")
    L.inv(And(Eq(gget(S, "polished"), 0), Eq(gget(S, "stored"), 0), Eq(w.i("status_polish"), 0), Eq(w.i("polish_time"), R(0))), "nothing polished or handed out during the iteration")
def solve_inv(L):
    S = L.S; s, = L.args; w = W(S, s); k = L.count
    if L.how == "exit": return leaving(L, s)
    common(L, s)
    L.inv(Eq(w.i("status_val"), UNSOLVED), "no outcome yet")
    L.inv(Eq(gget(S, "failed"), R(0)), "no failure so far")
    L.inv(Eq(gget(S, "stopped"), 0), "not interrupted")
    if L.how == "init":
        cold = Eq(w.opt("warm_starting"), 0)
        for f, n in (("x", w.n), ("z", w.m), ("y", w.m)):
            g = w.vec(f); L.forall(n, lambda i: Or(Not(cold), Eq(g(i), R(0))), "%s starts at zero unless warm started" % f)
    if L.how == "step":
        admm_step(L, s)
        L.inv(Not(Eq(gget(S, "read"), 0)), "the clock was read")
        L.inv(runtime(S, s, gget(S, "iter_time")) < w.opt("time_limit"), "within the time limit")
        ct = w.opt("check_termination")
        due = And(Not(Eq(ct, 0)), Eq(k % ct, 0))
        L.inv(Or(Not(due), And(Eq(gget(S, "exact"), k), Eq(gget(S, "exact_ret"), 0))), "the criteria were tested when due, and none held")
def leaving(L, s):
    S = L.S; w = W(S, s); st = w.i("status_val"); k = L.count
    common(L, s)
    admm_step(L, s)
    stop, late = Not(Eq(gget(S, "stopped"), 0)), runtime(S, s, gget(S, "iter_time")) >= w.opt("time_limit")
    L.inv(Iff(Eq(st, SIGINT), stop), "interrupted exactly when signalled")
    if L.kind == "goto": L.inv(Or(stop, Not(Eq(gget(S, "failed"), R(0)))), "given up only when interrupted or after a failure"); return
    L.inv(Eq(gget(S, "failed"), R(0)), "no failure")
    L.inv(Iff(Eq(st, TIMELIM), late), "time limit status exactly when the limit was reached")
    L.inv(Or(Not(Eq(st, UNSOLVED)), Eq(k, w.opt("max_iter"))), "left without outcome only at the iteration limit")

FREE_WORK = ("x", "x_prev", "z", "z_prev", "xz_tilde", "y", "Px", "Aty", "Atdelta_y", "delta_x", "Pdelta_x", "Ax", "delta_y", "Adelta_x", "rho_vec", "rho_inv_vec", "D_temp", "D_temp_A", "E_temp")
def same(S, a, b):
    """equality up to rounding where the contract is executed"""
    if S.mode != "concrete": return Eq(a, b)
    a, b = float(a), float(b)
    return a == b or a != a and b != b or abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))
def solve_contract(S, s):
    if unusable(S, s): return
    w0 = W(S, s); conc = S.mode == "concrete"
    first, clear = w0.w("first_run"), w0.w("clear_update_time")
    upd = If(Eq(clear, 1), R(0), w0.i("update_time"))
    if conc and S.actual is None: return S.ret(0)
    F = S.actual_view(); w = W(F, s); ret = S.actual[1]
    if conc: G = trace_ghosts(S.actual[0].trace); gv = lambda k: G[k]; k = G["solves"]
    else: gv = lambda k: gget(F, k); k = S.actual[0].env.get("g:last")
    st = w.i("status_val")
    E = S.ensure
    if k is None: E(False, "at least one iteration"); return
    # ---- what may change: the iterate and its by-products, the record of the outcome, the step size
    skip = {(w0.info.rid, f) for f in S.st.mem[w0.info.rid] if f not in ("setup_time",)} | {(S.get(w0.info, "status").rid, None)}
    skip |= {(w0.settings.rid, f) for f in ("rho", "adaptive_rho_interval")} | {(g, None) for g in [S.get(w0.ptr(f), "values").rid for f in FREE_WORK if w0.w(f).rid is not None]}
    skip |= {(w0.work.rid, f) for f in ("x", "x_prev", "z", "z_prev", "rho_inv", "xtPx", "qtx", "SC", "scaled_dual_gap", "scaled_prim_res", "scaled_dual_res", "last_rel_kkt", "rho_updated", "summary_printed", "rho_update_from_solve", "first_run", "clear_update_time")}
    if not conc:
        g = S.ex.opts["ghost_rec"]; skip |= {(g.rid, f) for f in S.st.mem[g.rid]} | {(p.rid, None) for p in S.ex.opts["ghost_vec"].values()}
    pol = S.get(w0.work, "pol"); skip |= {(pol.rid, f) for f in S.st.mem[pol.rid] if f not in ("x", "y", "z", "active_flags")} | {(S.get(pol, f, "values").rid, None) for f in ("x", "y", "z", "active_flags")}
    sol = S.get(s, "solution")
    if sol.rid is not None: skip |= {(S.get(sol, f).rid, None) for f in ("x", "y", "prim_inf_cert", "dual_inf_cert")}
    S.st.env["skip"] = skip
    if conc: S.evpos = len(S.actual[0].trace)
    for a, b in (("x", "x_prev"), ("z", "z_prev")):
        E({w.w(a).rid, w.w(b).rid} == {w0.w(a).rid, w0.w(b).rid}, "the two buffers of %s are kept" % a)
    # ---- on every path
    E(Eq(gv("listener"), 0), "signals are no longer watched")
    E(Eq(w.w("rho_update_from_solve"), 0), "later step-size updates are timed on their own")
    E(And(1 <= k, le(k, w.opt("max_iter"))), "iteration limit")
    rho = w.opt("rho"); E(And(rho >= R(RHO_MIN), rho <= R(RHO_MAX)), "step size clamped")
    S.retval = ret
    if not isz(ret) and ret == 0: done = True
    else: done = S.branch(ret <= 0)
    if not done:
        E(Or(Eq(st, SIGINT), Not(Eq(gv("failed"), R(0))), And(Eq(st, SOLVED), Not(Eq(w.opt("polishing"), 0)))), "failure reported without a cause")
        return
    # ---- a completed solve
    E(And(Not(Eq(st, UNSOLVED)), Not(Eq(st, SIGINT)), 1 <= st, st <= 11), "outcome decided")
    E(Eq(w.i("iter"), k), "iteration count reported")
    E(same(S, w.i("run_time"), If(Not(Eq(first, 0)), w.i("setup_time"), upd) + w.i("solve_time") + w.i("polish_time")), "total time is the sum of its parts")
    E(Eq(w.i("update_time"), upd), "update time of this solve")
    E(And(Eq(w.w("first_run"), 0), Eq(w.w("clear_update_time"), 1)), "bookkeeping for the next solve")
    pol_on = And(Eq(st, SOLVED), Not(Eq(w.opt("polishing"), 0)))
    E(Or(pol_on, And(Eq(w.i("status_polish"), 0), Eq(w.i("polish_time"), R(0)))), "polishing reported only for a solved problem")
    E(Or(Not(Eq(st, MAXITER)), Eq(k, w.opt("max_iter"))), "iteration limit reported only when reached")
    if conc: return outcome_values(S, F, s)
    E(Iff(pol_on, Eq(gv("polished"), 1)), "a solved problem is polished when requested")
    E(Eq(gv("stored"), 1), "the solution is handed out")
    E(Or(pol_on, Eq(w.i("solve_time"), gv("last_time"))), "solve time is the clock")
    ex, ap = And(Eq(gv("exact"), k), Eq(gv("exact_st"), st)), And(Eq(gv("relaxed"), k), Eq(gv("relaxed_st"), st))
    yes = lambda w_: Eq(gv(w_ + "_ret"), 1)
    none = And(Eq(gv("exact"), k), Eq(gv("exact_ret"), 0))
    one = lambda cs: Or(*[Eq(st, c) for c in cs])
    E(Or(Not(one((SOLVED, PINF, DINF))), And(ex, yes("exact"))), "reported only if the criteria hold for the returned iterate")
    E(Or(Not(one((SOLVED_INACC, PINF_INACC, DINF_INACC))), And(none, ap, yes("relaxed"))), "inaccurate outcome only if only the relaxed criteria hold")
    E(Or(Not(Eq(st, NONCVX)), And(ex, yes("exact")), And(none, ap, yes("relaxed"))), "non-convex only if the test found it")
    E(Or(Not(one((MAXITER, TIMELIM))), And(none, Eq(gv("relaxed"), k), Eq(gv("relaxed_ret"), 0))), "limit reported only if no criterion holds")
def outcome_values(S, F, s):
    """where the contract is executed: the outcome recomputed from the returned state"""
    E = S.ensure; w = W(F, s); st = w.i("status_val")
    if st in NOSOL or int(w.i("status_polish")) == POL_SUCCESS: return
    C = at(F, F.st.clone()); C.call("update_info", s, 0, 0); c = W(C, s)
    for f in RES + OBJ: E(same(S, w.i(f), c.i(f)), f + " is that of the returned iterate")
    lo, hi = 1 - 1e-6, 1 + 1e-6
    good = lambda k: bool(And(*solved_test(C, c, k)))
    bad = bool(diverged(c))
    if st == SOLVED: E(not bad and good(hi), "solved only if the criteria hold")
    elif st == SOLVED_INACC: E(not bad and good(10 * hi) and not good(lo), "inaccurate only if the relaxed criteria hold")
    else: E(not bad and not good(lo) and not good(10 * lo), "limit reported only if no criterion holds")
def trace_ghosts(tr):
    G = dict(listener=0, stopped=0, solves=0, failed=0.0)
    for nm, a, v in tr:
        if nm == "start_listener": G["listener"] = 1
        elif nm == "end_listener": G["listener"] = 0
        elif nm == "is_interrupted": G["stopped"] = v[0]
        elif nm == "ls_solve": G["solves"] += 1
        elif nm == "ls_update_rho_vec" and v[0] != 0: G["failed"] = 1.0
    return G
SOLVE = {"inv": solve_inv, "maxvariants": 200, "nofail": 1, "weak": 1, "peel": 1, "apart": 1, "forget": 1, "light": 1, "ghost": ghost_event, "stopfail": 1, "nobounded": 1}
# verified in parts: unusable handles, then constraints present or not, step size per constraint or not, unscaled (with and without a
# result record) or scaled (residuals in either unit)
CONTRACTS["osqp_solve"] = Spec("osqp_solve", solve_contract, setup=solve_setup, nargs=1, opts=dict(SOLVE, prefix=[[1], [2]]))
for a in (0, 1):
    for b in (0, 1):
        for c in (0, 1):
            nm = "osqp_solve#%s%s%s" % ("empty" if a else "full", "_vec" if b else "", "_scaled" if c else "")
            CONTRACTS[nm] = Spec(nm, solve_contract, setup=solve_setup, nargs=1, opts=dict(SOLVE, prefix=[[0, a, b, 1, 1], [0, a, b, 2, 1]] if c else [[0, a, b, 0]], slow=1))
