"""Front end: clang's JSON AST of /repo's current sources, under the real build configuration.

Nothing is rewritten: the functions verified are the FunctionDecl nodes clang parses from the files that the
build compiles, with the same preprocessor configuration (generated here from the repository's own
configure/osqp_configure.h.in with the options of the default MKL build)."""
import json, os, re, subprocess, sys, hashlib, tempfile, shutil

REPO = os.environ.get("CV_REPO", "/repo")
MKLINC = "/opt/vp/venv/include"
DEFINES_ON = {"IS_LINUX", "OSQP_ALGEBRA_MKL", "OSQP_ENABLE_PRINTING", "OSQP_ENABLE_PROFILING",
              "OSQP_ENABLE_INTERRUPT", "OSQP_USE_LONG"}
SRC = ["src/osqp_api.c", "src/auxil.c", "src/error.c", "src/scaling.c", "src/util.c", "src/polish.c",
       "src/interrupt_unix.c", "src/timing_linux.c",
       "algebra/_common/csc_math.c", "algebra/_common/csc_utils.c", "algebra/_common/kkt.c",
       "algebra/_common/reduced_kkt.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c",
       "algebra/mkl/algebra_libs.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c",
       "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"]

WORK = None
def workdir():
    global WORK
    if WORK is None:
        import atexit
        WORK = tempfile.mkdtemp(prefix="cv_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(WORK, ignore_errors=True))
    return WORK

def gen_config(outdir):
    txt = open(os.path.join(REPO, "configure/osqp_configure.h.in")).read()
    out = []
    for line in txt.split("\n"):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            out.append("#define %s" % m.group(1) if m.group(1) in DEFINES_ON else "/* #undef %s */" % m.group(1))
        else:
            out.append(line)
    os.makedirs(outdir, exist_ok=True)
    open(os.path.join(outdir, "osqp_configure.h"), "w").write("\n".join(out))

def cflags(cfgdir):
    inc = ["include/public", "include/private", "algebra/_common", "algebra/mkl", "algebra/mkl/lin_sys/direct",
           "algebra/mkl/lin_sys/indirect", "algebra/_common/lin_sys"]
    fl = ["-DMKL_LINK_SDL=1", "-DNDEBUG", "-DMKL_ILP64", "-m64", "-I" + cfgdir]
    fl += ["-I" + os.path.join(REPO, i) for i in inc if os.path.isdir(os.path.join(REPO, i))]
    fl += ["-isystem", MKLINC]
    return fl

class Program:
    def __init__(self):
        self.funcs = {}      # name -> FunctionDecl node with body
        self.file = {}       # name -> source file
        self.records = {}    # name/id -> list of (field, typestr)
        self.recid = {}
        self.typedefs = {}   # name -> (typestr, ownedid)
        self.enums = {}      # constant name -> value
        self.globals = {}    # name -> node (with init if available)
        self.lines = {}      # file -> list of lines
        self.errors = []

    # ---- loading
    def load_all(self, files=None):
        files = files or SRC
        wd = workdir()
        cfg = os.path.join(wd, "cfg")
        gen_config(cfg)
        import multiprocessing as mp
        jobs = []
        for f in files:
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                self.errors.append("missing source file " + f); continue
            jobs.append((f, ["clang", "-fsyntax-only", "-w"] + cflags(cfg) + ["-Xclang", "-ast-dump=json", p]))
        with mp.get_context("fork").Pool(min(8, len(jobs) or 1)) as pool:
            for f, err, decls in pool.imap(_load_one, jobs, chunksize=1):
                if err: self.errors.append(err)
                if decls is not None: self.load_tu(f, {"inner": decls})
        # the opaque MKL handle, as the contracts of the sparse BLAS see it
        self.records["cv_mklmat"] = [("rows", "long long"), ("cols", "long long"), ("ps", "long long *"), ("pe", "long long *"), ("ix", "long long *"), ("vals", "double *")]
        return self

    def load_tu(self, f, ast):
        src = os.path.join(REPO, f)
        tu = {}; renamed = {}; mine = []
        for d in ast.get("inner", []):
            k = d.get("kind")
            if k == "RecordDecl":
                fields = [(x["name"], qt(x)) for x in d.get("inner", []) if x["kind"] == "FieldDecl" and "name" in x]
                if d.get("completeDefinition"):
                    tu[d["id"]] = fields
                    if d.get("name"):
                        self.records[d["name"]] = fields
            elif k == "TypedefDecl":
                t = d["type"]["qualType"]
                own = None
                for x in d.get("inner", []):
                    o = x.get("ownedTagDecl") or x.get("decl")
                    if o and o["id"] in tu: own = o["id"]
                    for y in x.get("inner", []):
                        o = y.get("ownedTagDecl") or y.get("decl")
                        if o and o["id"] in tu: own = o["id"]
                self.typedefs[d["name"]] = t
                if own is not None:
                    self.records.setdefault(d["name"], tu[own])
                    if "unnamed" in t or t == d["name"] or t == "struct " + d["name"]:
                        self.records[d["name"]] = tu[own]
                        self.typedefs[d["name"]] = "struct " + d["name"]
            elif k == "EnumDecl":
                v = -1
                for x in d.get("inner", []):
                    if x["kind"] != "EnumConstantDecl": continue
                    val = const_of(x)
                    v = val if val is not None else v + 1
                    self.enums[x["name"]] = v
            elif k == "FunctionDecl":
                if any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])):
                    if d.get("hdr"):
                        # inline functions from headers: keep only if not already known
                        if d["name"] not in self.funcs: self.funcs[d["name"]] = d; self.file[d["name"]] = "(header)"
                        continue
                    nm = d["name"]
                    if nm in self.funcs and self.file[nm] not in ("(header)", f):
                        renamed[nm] = nm + "@" + os.path.basename(f)     # static function with the name of another one
                        nm = renamed[nm]
                    mine.append(d)
                    self.funcs[nm] = d
                    self.file[nm] = f
            elif k == "VarDecl":
                if d.get("inner") or d["name"] not in self.globals:
                    self.globals[d["name"]] = d
        if renamed:
            def walk(x):
                if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("kind") == "FunctionDecl":
                    n = x["referencedDecl"].get("name")
                    if n in renamed: x["referencedDecl"] = dict(x["referencedDecl"], name=renamed[n])
                for y in x.get("inner", []): walk(y)
            for d in mine: walk(d)

    # ---- types
    def typ(self, s):
        return parse_type(self, s)

    def fields(self, name):
        return self.records.get(name)

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align)"""
        k = t[0]
        if k == "int": return (t[1], t[1])
        if k in ("float",): return (t[1], t[1])
        if k in ("ptr", "fn"): return (8, 8)
        if k == "enum": return (4, 4)
        if k == "arr":
            s, a = self.layout(t[1]); return (s * t[2], a)
        if k == "struct":
            off, al = 0, 1
            for f, ty in (self.fields(t[1]) or []):
                s, a = self.layout(self.typ(ty))
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == "void": return (1, 1)
        raise ValueError(t)

    def offsets(self, name):
        off = 0; res = {}
        for f, ty in self.fields(name):
            t = self.typ(ty)
            s, a = self.layout(t)
            off = (off + a - 1) // a * a
            res[f] = (off, t); off += s
        return res

def _load_one(job):
    import gc; gc.disable()
    f, cmd = job
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = None
        if r.returncode != 0: err = "clang failed on %s: %s" % (f, r.stderr.decode()[-400:])
        ast = json.loads(r.stdout)
        keep = []
        for d in ast.get("inner", []):
            if d.get("kind") == "FunctionDecl":
                if not any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])): continue
                _prune(d, [None])
                keep.append(d)
            elif d.get("kind") in ("RecordDecl", "TypedefDecl", "EnumDecl", "VarDecl"):
                _prune(d, [None])
                keep.append(d)
        return f, err, keep
    except Exception as e:
        return f, "no AST for %s: %s" % (f, e), None

def _prune(n, last):
    """keep line numbers (clang omits repeated ones), drop other location detail"""
    loc = n.pop("loc", None) or {}
    rg = n.pop("range", None) or {}
    if "includedFrom" in loc or "includedFrom" in loc.get("expansionLoc", {}): n["hdr"] = True
    ln = None
    for q in (loc.get("expansionLoc"), loc):
        if q and "line" in q: ln = q["line"]; break
    if ln is None:
        b = rg.get("begin", {})
        for q in (b.get("expansionLoc"), b):
            if q and "line" in q: ln = q["line"]; break
    if ln is None: ln = last[0]
    else: last[0] = ln
    n["line"] = ln
    n.pop("mangledName", None)
    for c in n.get("inner", []): _prune(c, last)
    # a range end may also carry the running line number
    for q in (rg.get("end", {}).get("expansionLoc"), rg.get("end")):
        if q and "line" in q: last[0] = q["line"]; break

def qt(node):
    t = node.get("type", {})
    return t.get("qualType", "void")

def const_of(x):
    """value of an EnumConstantDecl / ConstantExpr if clang computed one"""
    if x.get("kind") == "ConstantExpr" and "value" in x: return int(x["value"])
    if x.get("kind") == "IntegerLiteral": return int(x["value"])
    if x.get("kind") == "UnaryOperator" and x.get("opcode") == "-":
        v = const_of(x["inner"][0]); return None if v is None else -v
    for y in x.get("inner", []):
        v = const_of(y)
        if v is not None: return v
    return None

INTS = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "int": 4, "unsigned int": 4, "unsigned": 4,
        "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "_Bool": 1, "size_t": 8,
        "long int": 8, "unsigned short": 2, "__int64": 8, "__int128": 16, "unsigned __int128": 16}
_cache = {}
def parse_type(prog, s):
    key = s
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = _parse(prog, s)
    return r
def _parse(prog, s):
    s = s.strip()
    s = re.sub(r"\b(const|volatile|restrict|__restrict|register|static|extern)\b", "", s)
    s = re.sub(r"\s+", " ", s).strip()
    if "(*" in s or s.endswith(")") and "(" in s and "unnamed" not in s:
        return ("fn",)
    m = re.match(r"^(.*?)\s*((?:\[\d*\])+)$", s)
    if m:
        t = parse_type(prog, m.group(1))
        for d in reversed(re.findall(r"\[(\d*)\]", m.group(2))):
            t = ("arr", t, int(d) if d else 0)
        return t
    if s.endswith("*"):
        return ("ptr", parse_type(prog, s[:-1]))
    if s in INTS: return ("int", INTS[s])
    if s == "double": return ("float", 8)
    if s == "float": return ("float", 4)
    if s == "long double": return ("float", 16)
    if s == "void": return ("void",)
    if s.startswith("enum "): return ("enum", s[5:])
    if s.startswith("struct ") or s.startswith("union "):
        nm = s.split(" ", 1)[1]
        return ("struct", nm)
    if s in prog.typedefs:
        t = prog.typedefs[s]
        if t == s: return ("struct", s)
        return parse_type(prog, t)
    if s in prog.records: return ("struct", s)
    return ("struct", s)

def line_of(node):
    return node.get("line")

def func_params(node):
    return [x for x in node.get("inner", []) if x["kind"] == "ParmVarDecl"]

def func_body(node):
    for x in node.get("inner", []):
        if x["kind"] == "CompoundStmt": return x
    return None

if __name__ == "__main__":
    import time
    t = time.time(); p = Program().load_all(); print(time.time() - t, len(p.funcs), p.errors)
    for r in ("OSQPSolver", "OSQPWorkspace", "OSQPVectorf_", "OSQPCscMatrix", "OSQPInfo", "OSQPSettings"):
        print(r, p.typ(r), len(p.records.get(r, []) or []))
    print(p.typ("OSQPVectorf *"), p.typ("OSQPFloat"), p.typ("OSQPInt"), p.enums.get("OSQP_SOLVED"), p.sizeof(p.typ("OSQPSettings")))
    print([f for f in p.funcs if p.file[f] != "(header)"].__len__())
