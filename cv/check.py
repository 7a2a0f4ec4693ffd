"""Decide one property:  python3-vt -m cv.check C08 [--tier quick|thorough]

Every contract the property rests on is verified function by function against /repo's current source.  A function whose
obligations are not all discharged without bound is re-examined on small concrete shapes with arbitrary values (bounded,
reported as such) and by executing the compiled function on concrete inputs with the contract as oracle."""
import sys, os, time, json, pickle, struct, select, signal, traceback
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if ROOT not in sys.path: sys.path.insert(0, ROOT)
from cv import frontend as F
from cv.frontend import Program
from cv.allspecs import registry
from cv.props import roots, ROOTS
from cv.verify import verify
from cv.spec import base
from cv import replay as R
from cv import prove as PR

NPROC = int(os.environ.get("CV_JOBS", "8"))
def log(*a): print(*a, file=sys.stderr, flush=True)

def summary(r):
    return {"name": r.name, "mode": r.mode, "ok": r.ok(), "error": r.error, "vacuous": r.vacuous, "truncated": r.truncated,
            "obligations": len(r.obls), "discharged": sum(o.status == "proved" for o in r.obls), "paths": r.paths,
            "loops": r.loops, "variants": r.variants, "time": round(r.time, 2), "used": sorted(r.used), "trusted": sorted(r.trusted), "inlined": sorted(r.inlined),
            "failed": [{"status": o.status, "kind": o.kind, "where": str(o.where), "goal": str(o.goal)[:1500], "note": str(o.note)[:500] if o.note else ""} for o in r.failed()[:8]],
            "nfailed": len(r.failed()), "stat": dict(PR.STAT) if isinstance(PR.STAT, dict) else {}}

class Pool:
    """tasks in forked processes, results through pipes"""
    def __init__(self, n): self.n = n; self.run = {}; self.queue = []; self.seq = 0
    def submit(self, key, fn, timeout, prio=0): self.queue.append((prio, self.seq, key, fn, timeout)); self.seq += 1; self.queue.sort(key=lambda q: q[:2])
    def start(self):
        while self.queue and len(self.run) < self.n:
            _, _, key, fn, timeout = self.queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    out = fn()
                except MemoryError: out = {"error": "memory limit", "ok": False}
                except BaseException as e: out = {"error": "internal: %s" % (traceback.format_exc()[-1500:]), "ok": False}
                b = pickle.dumps(out)
                with os.fdopen(w, "wb") as f: f.write(b)
                os._exit(0)
            os.close(w)
            self.run[r] = [pid, key, b"", time.time() + timeout]
    def wait(self):
        """next finished (key, result) or None"""
        while True:
            self.start()
            if not self.run: return None
            rl, _, _ = select.select(list(self.run), [], [], 1.0)
            for fd in rl:
                b = os.read(fd, 1 << 20)
                if b: self.run[fd][2] += b; continue
                pid, key, buf, _ = self.run.pop(fd)
                os.close(fd); os.waitpid(pid, 0)
                try: return key, pickle.loads(buf)
                except Exception: return key, {"error": "worker died", "ok": False}
            now = time.time()
            for fd, (pid, key, buf, dl) in list(self.run.items()):
                if now > dl:
                    try: os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    try: os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    os.close(fd); os.waitpid(pid, 0); self.run.pop(fd)
                    return key, {"error": "time limit", "ok": False}
    def kill(self):
        for fd, (pid, *_r) in self.run.items():
            try: os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError: pass
        self.run = {}; self.queue = []

class Checker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.limit = float(os.environ.get("CV_LIMIT", "780"))
        self.prog = Program().load_all()
        self.reg = registry(self.prog)
        self.state = {}        # name -> dict(status=..., sym=..., bounded=..., search=...)
        self.pool = Pool(NPROC)
        self.lib = None; self.libdir = None; self.liberr = None
        self.maxfind = 3
    def left(self): return self.limit - (time.time() - self.t0)
    def getlib(self):
        if self.lib is None and self.liberr is None:
            try:
                d = os.path.join(F.workdir(), "lib"); os.makedirs(d, exist_ok=True)
                self.lib = R.build_lib(self.prog, d)
            except Exception as e: self.liberr = str(e)
        return self.lib
    # ---- tasks
    def t_verify(self, name, mode, opts=None):
        prog, reg = self.prog, self.reg
        def f(): return summary(verify(prog, reg, name, mode, opts=dict(opts or {})))
        return f
    def t_search(self, name, secs):
        so = self.getlib()
        prog, reg, seed = self.prog, self.reg, self.seed
        def f():
            lib = R.Lib(so, prog)
            return R.search(prog, reg, lib, name, secs, seeds=iter(range(seed * 100000 + 1, 10 ** 12)))
        return f
    def add(self, name, why=None):
        if name in self.state: return
        sp = self.reg.specs.get(name)
        if sp is None or sp.trusted or sp.setup is None: return
        if base(name) not in self.prog.funcs or self.reg.bound(name) is None:
            self.state[name] = {"status": "absent"}; return
        self.state[name] = {"status": "running"}
        if sp.opts.get("bounded_only"): self.pool.submit(("bounded", name), self.t_verify(name, "bounded"), min(420, self.left()), -1)
        else: self.pool.submit(("sym", name), self.t_verify(name, "sym"), min(560 if sp.opts.get("slow") else 300, self.left()), -1 if sp.opts.get("slow") else 0)
    def is_static(self, name): return self.prog.funcs[base(name)].get("storageClass") == "static"
    def run(self):
        for nm in roots(self.prop, self.reg, self.prog): self.add(nm)
        while True:
            if self.left() < 5:
                self.pool.kill(); break
            x = self.pool.wait()
            if x is None: break
            self.done(*x)
    def done(self, key, res):
        kind, name = key[0], key[1]
        s = self.state[name]; s[kind] = res
        for u in res.get("used", ()): self.add(u)
        if kind == "sym":
            if res["ok"]: s["status"] = "proved"; return
            log("  %s: not proved (%s) %s" % (name, res.get("error") or "%d obligations" % res.get("nfailed", 0), [f["kind"] for f in res.get("failed", [])][:3]))
            self.second(name)
        elif kind == "bounded":
            s["bounded_done"] = True
            if not res["ok"] and "sym" not in s: self.second(name, bounded=False)
            self.settle(name)
        elif kind == "search":
            s["search_done"] = True
            self.settle(name)
        elif kind.startswith("caller:"):
            pass
        if res.get("error") and kind != "sym": log("  %s %s: %s" % (name, kind, res["error"][-300:]))
    def second(self, name, bounded=True):
        s = self.state[name]
        s["status"] = "second"
        if self.reg.specs[name].opts.get("nobounded"): bounded = False
        s["bounded_done"] = not bounded; s["search_done"] = False
        if bounded: self.pool.submit(("bounded", name), self.t_verify(name, "bounded"), max(5, min(240, self.left() - 60)), -2)
        if self.reg.specs[name].opts.get("nosearch"):
            s["search_done"] = True
            if not bounded: self.settle(name)
        elif self.getlib() is None:
            log("library for replay: " + str(self.liberr)); s["search_done"] = True
            if not bounded: self.settle(name)
        else: self.pool.submit(("search", name), self.t_search(name, 60 if self.tier == "quick" else 300), max(5, min(400, self.left() - 20)), -2)
    def settle(self, name):
        s = self.state[name]
        if not s.get("bounded_done"): return
        b = s.get("bounded", {})
        f = s.get("search", {}).get("failing")
        if b.get("ok") and not f:
            s["status"] = "bounded"; return          # every bounded obligation discharged
        if not s.get("search_done"): return
        s["status"] = "violated" if f else "undecided"
    # ---- report
    def finish(self):
        viol = []; und = []
        for nm, s in self.state.items():
            if s["status"] == "violated": viol.append(nm)
            elif s["status"] in ("undecided", "running", "second"): und.append(nm)
        # an internal helper may have been reorganised: then its callers decide, with the helper's body in place of its contract
        rts = set(roots(self.prop, self.reg, self.prog))
        for nm in list(und + viol):
            if (self.is_static(nm) or nm not in rts) and self.retry_callers(nm):
                (und if nm in und else viol).remove(nm); self.state[nm]["status"] = "inlined"
        # parts of one contract: a failing input found for one of them speaks for all
        hit = {base(nm) for nm in viol if self.state[nm].get("search", {}).get("failing")}
        und = [nm for nm in und if "#" not in nm or base(nm) not in hit]
        out = []
        rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for nm in viol + und:
            s = self.state[nm]
            path = os.path.join("evidence", "replay", "%s-%s.json" % (self.prop, nm.replace("@", "_").replace("#", "_")))
            f = s.get("search", {}).get("failing")
            rec = {"property": self.prop, "function": nm, "file": self.prog.file.get(nm), "failing_input": f,
                   "failed_obligations": (s.get("sym") or {}).get("failed") or (s.get("bounded") or {}).get("failed"),
                   "verifier": {k: {a: b for a, b in s[k].items() if a not in ("failed",)} for k in ("sym", "bounded") if k in s}, "search": {k: v for k, v in s.get("search", {}).items() if k != "failing"}}
            json.dump(rec, open(os.path.join(ROOT, path), "w"), indent=1, default=str)
            out.append((nm, path, f is not None))
        return out
    def retry_callers(self, nm):
        callers = [c for c, s in self.state.items() if nm in (s.get("sym") or s.get("bounded") or {}).get("used", ())]
        if not callers or self.left() < 60: return False
        res = {}
        for c in callers: self.pool.submit(("caller", c), self.t_verify(c, "sym" if self.state[c]["status"] == "proved" else "bounded", {"inline": (nm,)}), min(200, self.left() - 20))
        while True:
            x = self.pool.wait()
            if x is None: break
            res[x[0][1]] = x[1].get("ok", False)
        return all(res.get(c) for c in callers)
    def evidence(self, viol):
        obl = dis = 0; per = {}; trusted = set(); st = 0.0
        counts = {}
        for nm, s in sorted(self.state.items()):
            counts[s["status"]] = counts.get(s["status"], 0) + 1
            r = s.get("sym") if s["status"] == "proved" else (s.get("bounded") or s.get("sym") or {})
            r = r or {}
            if s["status"] == "proved": obl += r.get("obligations", 0); dis += r.get("discharged", 0)
            st += sum((s.get(k) or {}).get("time", 0) or 0 for k in ("sym", "bounded"))
            trusted |= set(r.get("trusted", ()))
            per[nm] = {"status": s["status"], "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0), "paths": r.get("paths", 0), "loops": r.get("loops", 0), "time_s": r.get("time", 0)}
            if r.get("inlined"): per[nm]["inlined"] = r["inlined"]
            if s["status"] not in ("proved",) and (s.get("sym") or {}).get("error"): per[nm]["reason"] = s["sym"]["error"][:200]
            if "search" in s: per[nm]["executions"] = s["search"].get("runs", 0)
        bounded = [n for n, s in self.state.items() if s["status"] == "bounded"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "proof",
              "coverage": {"obligations": obl, "discharged": dis,
                           "checker_cmd": "python3-vt -m cv.check %s --tier %s" % (self.prop, self.tier),
                           "trusted_base": ["cv (symbolic execution of clang's AST, loop summaries checked by induction)", "z3 4.x (python z3-solver)", "clang 18 front end"] + ["assumed contract: " + t for t in sorted(trusted)],
                           "functions_under_contract": per, "status_counts": counts,
                           "bounded_functions": {n: "dimensions <= 2..3, concrete sparsity patterns, arbitrary values; not counted as proved" for n in bounded},
                           "bounded_obligations": sum(self.state[n].get("bounded", {}).get("obligations", 0) for n in bounded),
                           "back_end": "z3 (quantifier-free, ground instantiation)", "solver_and_vcgen_cpu_s": round(st, 1)},
              "assumptions": ["floating point numbers are treated as real numbers (no rounding, overflow or NaN)", "machine integers are treated as mathematical integers",
                              "partial correctness: termination of loops is not proved", "pre-states are those of the contract's builder (all states satisfying the stated requirements, pointers not aliased unless stated)",
                              "external functions (C library, MKL) satisfy the assumed contracts in cv/specs/externs.py", "MKL sparse handles read the arrays they were created from"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)

def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Checker(prop, tier, seed)
    if c.prog.errors:
        for e in c.prog.errors: log(e)
    c.run()
    out = c.finish()
    c.evidence(out)
    n = {}
    for s in c.state.values(): n[s["status"]] = n.get(s["status"], 0) + 1
    print("%s: %d functions under contract: %s; %.0f s" % (prop, len(c.state), ", ".join("%d %s" % (v, k) for k, v in sorted(n.items())), time.time() - c.t0))
    for k in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for nm, path, inp in out:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if inp else " no-failing-input-found"))
    if not c.state:
        print("no contract applies"); sys.exit(2)
    sys.exit(1 if out else 0)
if __name__ == "__main__": main()
