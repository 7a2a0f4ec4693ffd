#!/usr/bin/env python3
"""Plant one bug: seed.py ID SPEC.py   (SPEC defines: prop, needs, breaks, edits=[(file,old,new)], demo=C source)
Writes /verif/seeded/ID, then confirms: patch applies, builds, tests pass, demo 0 without and nonzero with the patch."""
import sys, os, subprocess, json
ID, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
D = "/verif/seeded/" + ID
os.makedirs(D, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
try:
    for f, old, new in ns["edits"]:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(D + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
finally: sh("git -C /repo checkout -- .")
open(D + "/demo.c", "w").write(ns["demo"])
open(D + "/demo.sh", "w").write(r'''#!/bin/bash
# run in the repository after its build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
V=/opt/vp/venv
gcc -O1 -w -DMKL_LINK_SDL=1 -DMKL_ILP64 -m64 -I_build/include/public -Iinclude/public -Iinclude/private -Ialgebra/_common -Ialgebra/_common/lin_sys -Ialgebra/mkl -Ialgebra/mkl/lin_sys/direct -Ialgebra/mkl/lin_sys/indirect -isystem $V/include "$here/demo.c" -o "$t/demo" _build/out/libosqpstatic.a -L$V/lib -l:libmkl_rt.so.2 -Wl,-rpath,$V/lib -lm -ldl -lpthread || exit 8
export MKL_INTERFACE_LAYER=ILP64 MKL_NUM_THREADS=1
timeout 120 "$t/demo"
''')
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(D + "/meta.json", "w"), indent=1)
def build(): 
    r = sh("bash /opt/vp/build.sh"); return r.returncode, r.stdout.decode()[-800:]
if "--noverify" in sys.argv: sys.exit(0)
rc, o = build(); assert rc == 0, o
r = sh("bash %s/demo.sh" % D, cwd="/repo"); print("clean demo rc", r.returncode, r.stdout.decode()[-300:])
ok = r.returncode == 0
try:
    a = sh("git -C /repo apply %s/patch.diff" % D); assert a.returncode == 0, a.stdout
    rc, o = build(); print("build", rc, o if rc else "")
    t = sh("bash /opt/vp/test.sh /tmp/seedout.json"); d = json.load(open("/tmp/seedout.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    print("tests", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in d.items()})
    r = sh("bash %s/demo.sh" % D, cwd="/repo"); print("buggy demo rc", r.returncode, r.stdout.decode()[-300:])
    ok = ok and rc == 0 and r.returncode != 0 and not d["failed"]
finally:
    sh("git -C /repo checkout -- ."); build()
print("KEEP" if ok else "REJECT", ID)
