"""Concrete execution of the real code: the library is compiled from /repo's current sources, a pre-state produced by a
contract's builder is laid out in memory, the function is called, and the contract is evaluated as a run-time oracle on
the resulting memory.  Used to find and confirm failing inputs for obligations the verifier rejects."""
import ctypes, os, random, subprocess, sys, json, struct, signal, time, math, pickle, traceback, select
from . import frontend as F
from .terms import *
from . import terms as T
from .heap import *
from .execc import Exec
from .spec import *
from .build import Builder

VENV = os.path.dirname(F.MKLINC)
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim")

class LibError(Exception): pass
def build_lib(prog, outdir):
    """shared object with every function of the sources callable, allocators replaced by the recording ones"""
    cfg = os.path.join(outdir, "cfg"); F.gen_config(cfg)
    fl = F.cflags(cfg) + ["-O1", "-g0", "-fPIC", "-w", "-fkeep-static-functions", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra", "-fno-ipa-icf", "-fno-partial-inlining", "-Dmalloc=cv_malloc", "-Dcalloc=cv_calloc",
                          "-Drealloc=cv_realloc", "-Dfree=cv_free", "-DMKL_malloc=cv_mkl_malloc", "-DMKL_calloc=cv_mkl_calloc", "-DMKL_free=cv_mkl_free", "-Dmkl_malloc=cv_mkl_malloc", "-Dmkl_calloc=cv_mkl_calloc", "-Dmkl_free=cv_mkl_free"]
    ps = []
    hook = {"osqp_tic": "timing", "osqp_toc": "timing", "osqp_start_interrupt_listener": "interrupt", "osqp_end_interrupt_listener": "interrupt", "osqp_is_interrupted": "interrupt"}
    for f in F.SRC:
        dh = ["-D%s=cv_%s" % (h, h) for h, own in hook.items() if own not in f]
        o = os.path.join(outdir, f.replace("/", "_") + ".o")
        ps.append((f, o, subprocess.Popen(["gcc", "-c"] + fl + dh + [os.path.join(F.REPO, f), "-o", o], stderr=subprocess.PIPE)))
    objs = []
    for f, o, p in ps:
        _, err = p.communicate()
        if p.returncode: raise LibError("%s does not compile: %s" % (f, err.decode()[-300:]))
        objs.append(o)
    for f, o, _ in ps:
        syms = subprocess.run(["nm", o], stdout=subprocess.PIPE).stdout.decode().split("\n")
        args = []
        for l in syms:
            w = l.split()
            if len(w) == 3 and w[1] == "t":
                b = os.path.basename(f)
                tgt = w[2] + "@" + b
                if tgt in prog.funcs: args += ["--redefine-sym", "%s=%s" % (w[2], w[2] + "__AT__" + b.replace(".", "_").replace("-", "_"))]; args += ["--globalize-symbol", w[2]]
                elif "." not in w[2]: args += ["--globalize-symbol", w[2]]
        if args:
            # globalize first, then rename (objcopy applies renames before looking at the globalize list)
            g = [a for i, a in enumerate(args) if a == "--globalize-symbol" or (i and args[i - 1] == "--globalize-symbol")]
            r = [a for i, a in enumerate(args) if a == "--redefine-sym" or (i and args[i - 1] == "--redefine-sym")]
            subprocess.run(["objcopy"] + g + [o], check=True)
            if r: subprocess.run(["objcopy"] + r + [o], check=True)
    sh = os.path.join(outdir, "shim.o")
    subprocess.run(["gcc", "-c", "-O1", "-fPIC", "-w", os.path.join(SHIM, "shim.c"), "-o", sh], check=True)
    so = os.path.join(outdir, "libcv.so")
    r = subprocess.run(["gcc", "-shared", "-o", so, sh] + objs + ["-Wl,--allow-multiple-definition", "-L" + os.path.join(VENV, "lib"), "-l:libmkl_rt.so.2", "-Wl,-rpath," + os.path.join(VENV, "lib"), "-lm", "-ldl", "-lpthread"], stderr=subprocess.PIPE)
    if r.returncode: raise LibError("link: " + r.stderr.decode()[-300:])
    return so

def setup_env():
    os.environ["MKL_INTERFACE_LAYER"] = "ILP64"; os.environ["MKL_THREADING_LAYER"] = "SEQUENTIAL"; os.environ["MKL_NUM_THREADS"] = "1"

class Lib:
    def __init__(self, so, prog):
        setup_env()
        self.so = so; self.prog = prog
        self.dll = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
        self.dll.cv_pre.restype = ctypes.c_void_p; self.dll.cv_pre.argtypes = [ctypes.c_size_t, ctypes.c_int]
        self.glob = {}
        self.keep = []
    def gint(self, n): return ctypes.c_int.in_dll(self.dll, n)
    def symname(self, name):
        if "@" in name:
            a, b = name.split("@"); return a + "__AT__" + b.replace(".", "_").replace("-", "_")
        return name
    def addr(self, name):
        if name in self.glob: return self.glob[name]
        a = ctypes.cast(getattr(self.dll, self.symname(name)), ctypes.c_void_p).value
        self.glob[name] = a
        return a
    def blocks(self):
        class Blk(ctypes.Structure):
            _fields_ = [("p", ctypes.c_void_p), ("n", ctypes.c_size_t), ("alloc", ctypes.c_int), ("freed", ctypes.c_int)]
        n = self.gint("cv_nblk").value
        tab = (Blk * (1 << 16)).in_dll(self.dll, "cv_tab")
        return [(tab[i].p, tab[i].n, tab[i].alloc, tab[i].freed) for i in range(n)]

ALLOC = {"c": 1, "mkl": 2, None: 0, "mklmat": 3}
def rd_mem(addr, n): return ctypes.string_at(addr, n)
def wr_mem(addr, b): ctypes.memmove(addr, b, len(b))
def enc(v, t, M):
    if t[0] == "float": return struct.pack("<d" if t[1] == 8 else "<f", float(v))
    if t[0] in ("int", "enum"):
        sz = t[1] if t[0] == "int" else 4
        return (int(v) & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
    if t[0] in ("ptr", "fn"):
        if isinstance(v, Fn): return struct.pack("<Q", M.fnaddr(v.name))
        if not isinstance(v, Ptr): return struct.pack("<Q", 0)
        return struct.pack("<Q", M.ptr(v))
    raise LibError("encode %s" % (t,))
def dec_num(b, t):
    if t[0] == "float": return struct.unpack("<d" if t[1] == 8 else "<f", b)[0]
    return int.from_bytes(b, "little", signed=True)

class Mem:
    """a State laid out in process memory"""
    def __init__(self, lib, ex, st, rng=None):
        self.lib, self.ex, self.st, self.prog = lib, ex, st, ex.prog
        self.base = {}        # rid -> address
        self.handles = {}
        self.hooks(rng or random.Random(1))
        self.layout()
    def elem(self, t): return self.prog.sizeof(t)
    def paths(self, sname, pre="", off=0):
        """flattened (path, offset, type)"""
        for f, (o, t) in self.prog.offsets(sname).items():
            if t[0] == "struct" and self.prog.fields(t[1]): yield from self.paths(t[1], pre + f + ".", off + o)
            else: yield pre + f, off + o, t
    def layout(self):
        st = self.st
        sub = {}
        for rid, reg in st.reg.items():
            if rid not in st.mem or reg.origin == "global": continue
            if reg.kind == "struct" and reg.ctype[1] != "cv_mklmat":
                self.base[rid] = self.lib.dll.cv_pre(max(self.prog.sizeof(reg.ctype), 1), ALLOC.get(reg.alloc, 0))
                for p, o, t in self.paths(reg.ctype[1]):
                    v = st.mem[rid].get(p)
                    if t[0] == "arr" and isinstance(v, Ptr): self.base[v.rid] = self.base[rid] + o
        for rid, reg in st.reg.items():
            if rid in self.base or rid not in st.mem or reg.origin == "global": continue
            if reg.kind == "arr": self.base[rid] = self.lib.dll.cv_pre(reg.length * self.elem(reg.ctype), ALLOC.get(reg.alloc, 0))
            elif reg.kind == "cell": self.base[rid] = self.lib.dll.cv_pre(max(self.elem(reg.ctype), 8), 0)
            elif reg.kind == "str":
                b = (reg.name if isinstance(reg.name, str) else "").encode() + b"\0"
                self.base[rid] = self.lib.dll.cv_pre(len(b), 0); wr_mem(self.base[rid], b)
        late = []
        for rid, reg in st.reg.items():
            if rid not in st.mem or reg.origin == "global": continue
            if reg.kind == "struct" and reg.ctype[1] == "cv_mklmat": self.handle(rid)
        for rid, reg in st.reg.items():
            if rid not in st.mem or reg.origin == "global" or rid not in self.base or rid in self.handles: continue
            self.write(rid)
    def handle(self, rid):
        d = self.st.mem[rid]
        h = ctypes.c_void_p(0)
        f = self.lib.dll.mkl_sparse_d_create_csc
        for x in ("ps", "pe", "ix", "vals"): pass
        # arrays must hold their data before the handle is made
        for x in ("ps", "ix", "vals"): 
            if d[x].rid is not None: self.write(d[x].rid)
        f.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong] + [ctypes.c_void_p] * 4
        f(ctypes.byref(h), 0, d["rows"], d["cols"], self.ptr(d["ps"]), self.ptr(d["pe"]), self.ptr(d["ix"]), self.ptr(d["vals"]))
        self.base[rid] = h.value or 0
        self.handles[rid] = h.value
    def ptr(self, v):
        if v is None or v.rid is None: return 0
        reg = self.st.reg[v.rid]
        if reg.origin == "global":
            return self.lib.addr(reg.name)
        if v.rid not in self.base: raise LibError("pointer to unplaced object %s" % reg.name)
        b = self.base[v.rid]
        if reg.kind == "arr": return b + v.off * self.elem(reg.ctype)
        if v.path:
            for p, o, t in self.paths(reg.ctype[1]):
                if p == v.path or p.startswith(v.path + "."): return b + o
        return b
    def fnaddr(self, name):
        return self.lib.addr(name)
    # ------------------------------------------------------------ events: calls of opaque functions are answered here
    def hooks(self, rng):
        """callbacks standing for the clock, the signal state and the linear system solver object: they record what they are given
        and answer arbitrarily"""
        self.log = []
        off = {nm: {f: (o, t) for f, (o, t) in self.prog.offsets(nm).items()} for nm in ("OSQPVectorf", "OSQPMatrix", "OSQPCscMatrix", "OSQPSettings")}
        fld = lambda a, sn, f: dec_num(rd_mem(a + off[sn][f][0], self.elem(off[sn][f][1])), ("int", 8)) if off[sn][f][1][0] in ("ptr", "fn", "int") else dec_num(rd_mem(a + off[sn][f][0], self.elem(off[sn][f][1])), off[sn][f][1])
        def fl(a, n): return [struct.unpack_from("<d", rd_mem(a, 8 * n), 8 * i)[0] for i in range(n)] if n > 0 else []
        def arr(l): return ("arr", (lambda i: l[i]), len(l))
        def vec(a):
            n = fld(a, "OSQPVectorf", "length"); return fl(fld(a, "OSQPVectorf", "values"), n)
        def mat(a):
            c = fld(a, "OSQPMatrix", "csc"); n = fld(c, "OSQPCscMatrix", "n"); nz = dec_num(rd_mem(fld(c, "OSQPCscMatrix", "p") + 8 * n, 8), ("int", 8))
            return fl(fld(c, "OSQPCscMatrix", "x"), nz)
        P = lambda a, t: ("P", a or 0, t)
        VO, LS, MA, IN, ST = [("ptr", ("struct", x)) for x in ("OSQPVectorf", "linsys_solver", "OSQPMatrix", "", "OSQPSettings")]
        IN = ("ptr", ("int", 8)); TM = ("ptr", ("struct", "OSQPTimer_"))
        L = self.log
        code = lambda: 0 if rng.random() < 0.85 else rng.choice([1, -4, -5, 4])
        num = lambda: rng.choice([0.0, rng.randint(-32, 32) / 16.0, rng.randint(-32, 32) / 16.0])
        clock = [0.0]
        def tic(t): L.append(("osqp_tic", (P(t, TM),), ()))
        def toc(t):
            v = rng.choice([0.0, 0.125, 0.5, 1.0, 2.0, 4.0]); L.append(("osqp_toc", (P(t, TM),), (v,))); return v
        def intr():
            v = int(rng.random() < 0.15); L.append(("is_interrupted", (), (v,))); return v
        def solve(s, b, it):
            x = vec(b); r = code(); out = [num() for _ in x]
            if out: wr_mem(fld(b, "OSQPVectorf", "values"), struct.pack("<%dd" % len(out), *out))
            L.append(("ls_solve", (P(s, LS), arr(x), it), (r, Arr("list", REAL, out)))); return r
        def upds(s, st):
            fs = [dec_num(rd_mem(st + o, self.elem(t)), t if t[0] != "enum" else ("int", 4)) for f, (o, t) in off["OSQPSettings"].items()]
            L.append(("ls_update_settings", tuple([P(s, LS), P(st, ST)] + fs), ()))
        def warm(s, x): L.append(("ls_warm_start", (P(s, LS), arr(vec(x))), ()))
        def updm(s, p, pi, pn, a, ai, an):
            r = code(); L.append(("ls_update_matrices", (P(s, LS), P(p, MA), arr(mat(p)), P(pi, IN), pn, P(a, MA), arr(mat(a)), P(ai, IN), an), (r,))); return r
        def updr(s, rv, rho):
            r = code(); L.append(("ls_update_rho_vec", (P(s, LS), arr(vec(rv)) if rv else arr([]), rho), (r,))); return r
        def free(s): L.append(("ls_free", (P(s, LS),), ()))
        vp, ll, db = ctypes.c_void_p, ctypes.c_longlong, ctypes.c_double
        nm = ctypes.create_string_buffer(b"name")
        C = ctypes.CFUNCTYPE
        cbs = {"cv_ls_solve": C(ll, vp, vp, ll)(solve), "cv_ls_update_settings": C(None, vp, vp)(upds), "cv_ls_warm_start": C(None, vp, vp)(warm),
               "cv_ls_update_matrices": C(ll, vp, vp, vp, ll, vp, vp, ll)(updm), "cv_ls_update_rho_vec": C(ll, vp, vp, db)(updr), "cv_ls_free": C(None, vp)(free),
               "cv_ls_name": C(vp, vp)(lambda s: ctypes.addressof(nm))}
        hk = {"cv_h_tic": C(None, vp)(tic), "cv_h_toc": C(db, vp)(toc), "cv_h_start": C(None)(lambda: L.append(("start_listener", (), ()))), "cv_h_end": C(None)(lambda: L.append(("end_listener", (), ()))),
              "cv_h_intr": C(ctypes.c_int)(intr)}
        self.lib.keep += [cbs, hk, nm]
        for n, c in cbs.items(): self.lib.glob[n] = ctypes.cast(c, vp).value
        for n, c in hk.items(): ctypes.c_void_p.in_dll(self.lib.dll, n).value = ctypes.cast(c, vp).value
    def trace(self, A):
        conv = lambda v: self.unptr(A, v[1], v[2]) if isinstance(v, tuple) and v[0] == "P" else v
        return tuple((n, tuple(conv(a) for a in args), vals) for n, args, vals in self.log)
    def write(self, rid):
        reg = self.st.reg[rid]; m = self.st.mem[rid]; b = self.base[rid]
        if reg.kind == "struct":
            for p, o, t in self.paths(reg.ctype[1]):
                if t[0] == "arr": continue
                v = m.get(p)
                if v is None or isinstance(v, Any_): continue
                wr_mem(b + o, enc(v, t, self))
        elif reg.kind == "cell":
            v = m.get("")
            if v is not None: wr_mem(b, enc(v, reg.ctype, self))
        elif reg.kind == "arr":
            sz = self.elem(reg.ctype)
            out = b""
            for i in range(reg.length):
                v = m.read(i)
                out += enc(v, reg.ctype, self) if v is not None and not isinstance(v, Any_) else b"\xA5" * sz
            if out: wr_mem(b, out)
    # ------------------------------------------------------------ reading back
    def read_state(self, nblk0):
        """the memory after the call as a State over the same regions plus new ones"""
        self.after = A = self.st.clone()
        self.rev = {}
        for rid, b in self.base.items():
            if rid in self.handles: self.rev[b] = rid
        self.spans = []
        for rid, b in self.base.items():
            reg = self.st.reg[rid]
            if rid in self.handles: continue
            n = {"struct": lambda: self.prog.sizeof(reg.ctype), "arr": lambda: reg.length * self.elem(reg.ctype), "cell": lambda: self.elem(reg.ctype), "str": lambda: 1}[reg.kind]()
            self.spans.append((b, max(n, 1), rid))
        bl = self.lib.blocks()
        freed = set()
        for (p, n, al, fr) in bl[:nblk0]:
            if fr:
                for b, nn, rid in self.spans:
                    if p <= b < p + max(n, 1): freed.add(rid)
        self.newblk = {p: (n, al) for (p, n, al, fr) in bl[nblk0:] if not fr}
        self.newrid = {}
        A.freed = frozenset(freed)
        for rid in list(self.base):
            if rid in self.handles or rid in freed: continue
            self.read_region(A, rid, self.base[rid])
        return A
    def read_region(self, A, rid, b):
        reg = A.reg[rid]
        if reg.kind == "struct":
            d = dict(A.mem[rid])
            for p, o, t in self.paths(reg.ctype[1]):
                if t[0] == "arr": continue
                d[p] = self.read_val(A, b + o, t)
            A.mem[rid] = d
        elif reg.kind == "cell":
            A.mem[rid] = {"": self.read_val(A, b, reg.ctype)}
        elif reg.kind == "arr":
            sz = self.elem(reg.ctype)
            raw = rd_mem(b, sz * reg.length) if reg.length else b""
            A.mem[rid] = Arr("list", REAL if reg.ctype[0] == "float" else INT, [dec_num(raw[i * sz:(i + 1) * sz], reg.ctype) for i in range(reg.length)])
    def read_val(self, A, a, t):
        if t[0] in ("ptr", "fn"):
            v = struct.unpack("<Q", rd_mem(a, 8))[0]
            return self.unptr(A, v, t)
        return dec_num(rd_mem(a, self.elem(t)), t)
    def unptr(self, A, v, t):
        if v == 0: return NULL
        if t[0] == "fn":
            for n, a in self.lib.glob.items():
                if a == v: return Fn(n)
            for n in self.prog.funcs:
                try:
                    if self.lib.addr(n) == v: return Fn(n)
                except AttributeError: continue
            return None
        if v in self.rev: return Ptr(self.rev[v], 0)
        for b, n, rid in self.spans:
            if b <= v < b + n or (v == b + n and t[0] == "ptr" and t[1][0] in ("float", "int") and self.st.reg[rid].kind == "arr"):
                reg = self.st.reg[rid]
                if reg.kind == "arr": return Ptr(rid, (v - b) // self.elem(reg.ctype))
                if v == b and not (t[1][0] in ("int", "float")): return Ptr(rid, 0)
                for p, o, tt in self.paths(reg.ctype[1]) if reg.kind == "struct" else ():
                    if b + o == v:
                        if tt[0] == "arr": return Ptr(self.st.mem[rid][p].rid, 0)
                        return Ptr(rid, 0, p)
                    if tt[0] == "arr" and b + o <= v < b + o + self.elem(tt):
                        return Ptr(self.st.mem[rid][p].rid, (v - b - o) // self.elem(tt[1]))
                if v == b: return Ptr(rid, 0)
                return None
        if v in self.newrid: return Ptr(self.newrid[v], 0)
        for p, (n, al) in self.newblk.items():
            if p <= v < p + max(n, 1):
                el = t[1]
                if p not in self.newrid:
                    rid = self.new_region(A, p, n, al, el)
                    if rid is None: return None
                    self.newrid[p] = rid
                rid = self.newrid[p]
                reg = A.reg[rid]
                return Ptr(rid, (v - p) // self.elem(reg.ctype) if reg.kind == "arr" else 0)
        return Ptr(-1, 0)      # address outside every known object
    def new_region(self, A, p, n, al, el):
        alloc = {1: "c", 2: "mkl"}.get(al)
        if el[0] == "struct" and self.prog.fields(el[1]):
            # solver objects are stored behind a pointer to their common header
            name = el[1]
            if self.prog.sizeof(el) != n:
                cand = [r for r in ("pardiso", "mklcg_solver", "pardiso_solver") if self.prog.fields(r) and self.prog.sizeof(("struct", r)) == n]
                if not cand: return None
                name = cand[0]
            rid = A.new("struct", ("struct", name), None, "new", name, n, alloc)
            self.newrid[p] = rid
            A.mem[rid] = self.ex.init_struct(A, name, "new", name)
            for f, v in list(A.mem[rid].items()):
                if isinstance(v, Ptr) and v.rid in A.reg and A.reg[v.rid].origin == "sub":
                    for q, o, tt in self.paths(name):
                        if q == f: self.read_region(A, v.rid, p + o)
            self.read_region(A, rid, p)
            return rid
        if el[0] in ("float", "int"):
            sz = self.elem(el)
            rid = A.new("arr", el, n // sz, "new", "array", n, alloc)
            self.newrid[p] = rid
            self.read_region(A, rid, p)
            return rid
        return None
    def leftovers(self, A):
        """live blocks nothing refers to"""
        for p, (n, al) in self.newblk.items():
            if p not in self.newrid:
                rid = A.new("raw", ("void",), None, "new", "the call (%d bytes)" % n, n, {1: "c", 2: "mkl"}.get(al))
                A.mem[rid] = None

# ------------------------------------------------------------------------------------------------
def describe(st, args, limit=4000):
    """human readable pre-state"""
    out = {"arguments": [repr(a) if not isinstance(a, (int, float)) else a for a in args], "memory": {}}
    for rid, reg in st.reg.items():
        if rid not in st.mem or reg.origin == "global": continue
        m = st.mem[rid]
        if isinstance(m, dict): v = {k: (x if isinstance(x, (int, float)) else repr(x)) for k, x in m.items()}
        elif isinstance(m, Arr): v = [x if isinstance(x, (int, float)) else repr(x) for x in (m.read(i) for i in range(min(reg.length, 64)))]
        else: v = repr(m)
        out["memory"]["%s:%s" % (rid, reg.name)] = v
    return out

def run_one(prog, reg, lib, name, mkpre, tol, fail_at=None, info=None):
    """one concrete execution; returns (status, messages)"""
    sp = reg.specs[name]
    T.MODE["concrete"] = True
    try:
        ex = Exec(prog, reg, name, dict(sp.opts))
        try: st, args = mkpre(ex)
        except Reject as r: return "reject", [str(r)]
        if info is not None: info["pre"] = describe(st, args)
        # precondition check (no outcome needed)
        try:
            for S in run_spec(sp, ex, st.clone(), args, None, "concrete", None): pass
        except Reject as r: return "reject", [str(r)]
        except Mismatch: pass
        if info is not None and "sent" in info: info["sent"]()
        M = Mem(lib, ex, st, info.get("rng") if info else None)
        nblk0 = lib.gint("cv_nblk").value
        f = ctypes.cast(M.fnaddr(name), ctypes.c_void_p).value
        fd = prog.funcs[name]
        ptypes = [prog.typ(F.qt(p)) for p in F.func_params(fd)]
        rt = prog.typ(F.qt(fd).split("(")[0].strip())
        def cty(t):
            if t[0] == "float": return ctypes.c_double
            if t[0] == "int": return {8: ctypes.c_longlong, 4: ctypes.c_int, 1: ctypes.c_char}[t[1]]
            if t[0] == "enum": return ctypes.c_int
            if t[0] == "void": return None
            return ctypes.c_void_p
        proto = ctypes.CFUNCTYPE(cty(rt), *[cty(t) for t in ptypes])
        cargs = []
        for a, t in zip(args, ptypes):
            if isinstance(a, Ptr): cargs.append(M.ptr(a))
            elif isinstance(a, Fn): cargs.append(M.fnaddr(a.name))
            elif t[0] == "float": cargs.append(float(a))
            else: cargs.append(int(a))
        lib.gint("cv_count").value = 0
        lib.gint("cv_fail_at").value = -1 if fail_at is None else fail_at
        lib.gint("cv_active").value = 1
        r = proto(f)(*cargs)
        lib.gint("cv_active").value = 0
        if info is not None: info["allocs"] = lib.gint("cv_count").value
        msgs = []
        if lib.gint("cv_err").value:
            msgs.append(ctypes.c_char_p.in_dll(lib.dll, "cv_errmsg").value.decode())
        g = lib.dll.cv_guards()
        if g > 0: msgs.append("write outside an allocated block")
        if g < 0: msgs.append("write to released memory")
        if msgs: return "bad", msgs
        A = M.read_state(nblk0)
        A.trace = M.trace(A)
        A.oom = lib.gint("cv_fails").value > 0
        if rt[0] in ("ptr", "fn"): ret = M.unptr(A, r or 0, rt)
        elif rt[0] == "void": ret = None
        else: ret = r
        M.leftovers(A)
        try:
            for S in run_spec(sp, ex, st.clone(), args, None, "concrete", (A, ret)):
                c = Comparer(st, S.st, A, S.retval, ret, ex, tol=tol)
                conds = c.run(leaks=not ex.opts.get("noleak"))
                for cc, what in S.ensures:
                    if isinstance(cc, tuple) and cc[0] == "event":
                        from .verify import event_conds
                        conds += event_conds(c, cc)
                    else: conds.append((cc, what))
                if S.evpos < len(A.trace): conds.append((False, "unexpected external call %s" % A.trace[S.evpos][0]))
                for cc, what in conds:
                    if not as_bool(cc): msgs.append(what)
        except Reject as r_: return "reject", [str(r_)]
        except Mismatch as m: msgs.append(str(m))
        return ("bad" if msgs else "ok"), msgs[:6]
    finally:
        T.MODE["concrete"] = False

def child(prog, reg, lib, name, seeds, tol, wfd, mkpre_of, alloc_failures):
    null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1); os.dup2(null, 2)
    def send(o): 
        b = pickle.dumps(o); os.write(wfd, struct.pack("<I", len(b)) + b)
    for sd in seeds:
        info = {}
        info["sent"] = lambda: send(("start", sd, info.get("pre")))
        fa = None
        rng = random.Random(sd); info["rng"] = random.Random(sd + 17)
        if alloc_failures and rng.random() < 0.25: fa = rng.randrange(6)
        signal.alarm(5)
        try: st, msgs = run_one(prog, reg, lib, name, mkpre_of(sd), tol, fa, info)
        except (Unsupported, LibError, Dead, NotImplementedError) as e: st, msgs = "skip", [str(e)[:300]]
        except Exception as e: st, msgs = "skip", [traceback.format_exc()[-600:]]
        signal.alarm(0)
        send((st, sd, msgs, info.get("pre") if st == "bad" else None))
        lib.dll.cv_reset()
        if st == "bad": break
    os.close(wfd)
    os._exit(0)

def search(prog, reg, lib, name, seconds, mkpre_of=None, seeds=None, tol=1e-7, alloc_failures=True, chunk=64):
    """random concrete executions; returns dict(failing=..., runs=..., ...)"""
    sp = reg.specs[name]
    res = {"runs": 0, "rejected": 0, "skipped": 0, "failing": None, "why": None}
    t0 = time.time()
    def default_mkpre(sd):
        def mk(ex):
            B = Builder(ex, "concrete", rng=random.Random(sd * 7919 + 13))
            args = sp.setup(B)
            return B.st, args
        return mk
    mkpre_of = mkpre_of or default_mkpre
    it = iter(seeds) if seeds is not None else iter(range(1, 10 ** 9))
    import itertools
    while time.time() - t0 < seconds:
        ss = list(itertools.islice(it, chunk))
        if not ss: break
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try: child(prog, reg, lib, name, ss, tol, w, mkpre_of, alloc_failures)
            finally: os._exit(1)
        os.close(w)
        buf = b""; cur = None
        def feed():
            nonlocal buf, cur
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n: return
                o = pickle.loads(buf[4:4 + n]); buf = buf[4 + n:]
                if o[0] == "start": cur = o
                else:
                    cur = None
                    if o[0] == "ok": res["runs"] += 1
                    elif o[0] == "reject": res["rejected"] += 1
                    elif o[0] == "skip": res["skipped"] += 1; res["why"] = o[2]
                    else:
                        res["runs"] += 1
                        res["failing"] = {"seed": o[1], "what": o[2], "input": o[3]}
        while True:
            left = seconds + 10 - (time.time() - t0)
            rl, _, _ = select.select([r], [], [], max(left, 0.1))
            if not rl:
                try: os.kill(pid, signal.SIGKILL)
                except ProcessLookupError: pass
                break
            b = os.read(r, 1 << 16)
            if not b: break
            buf += b; feed()
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if cur is not None and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE):
            res["runs"] += 1
            res["failing"] = {"seed": cur[1], "what": ["the call crashes (signal %d)" % os.WTERMSIG(status)], "input": cur[2]}
        elif cur is not None and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            res["runs"] += 1
            res["failing"] = {"seed": cur[1], "what": ["the call does not return within 5 s"], "input": cur[2]}
        if res["failing"]: break
    res["time"] = time.time() - t0
    return res
