"""mkseed.py SPEC.py...: each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), optional
DEMO_NP.  Writes seeded/<ID>/; then checks in a scratch copy that the demo passes clean and fails patched.
With --tests also builds and runs the stable tests of the patched copy."""
import sys, os, subprocess, json, shutil, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Compiles demo.cpp against the headers of the current directory (the repository) and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
C=; [ -f /opt/vp/support/petsc_compat.h ] && C="-include /opt/vp/support/petsc_compat.h"
g++ -std=gnu++14 -O1 -w $C -I"$R/cafes" -I"$R/external_packages/qhull" -I$P/include -I/usr/include/hdf5/openmpi \
  -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "$D/demo.cpp" -o "$S/demo" \
  -L$P/lib -Wl,-rpath,$P/lib -lpetsc_real -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lm || exit 2
cd "$S"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader TMPDIR="$S"
timeout 250 @RUN@ ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix="seedcp.", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
    run("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=d + "/repo")
    return d
def main():
    tests = "--tests" in sys.argv
    ok = True
    for sp in [a for a in sys.argv[1:] if not a.startswith("--")]:
        ns = runpy.run_path(sp); out = "%s/seeded/%s" % (HERE, ns["ID"])
        d = copy(); R = d + "/repo"
        try:
            for f, a, b in ns["EDITS"]:
                t = open(R + "/" + f).read()
                assert t.count(a) == 1, (ns["ID"], f, t.count(a))
                open(R + "/" + f, "w").write(t.replace(a, b))
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(run("git diff", cwd=R).stdout)
            open(out + "/demo.cpp", "w").write(ns["DEMO"])
            np = ns.get("DEMO_NP", 1)
            open(out + "/demo.sh", "w").write(SH.replace("@RUN@", "mpirun -np %d" % np if np > 1 else "").replace("timeout 250  ", "timeout 250 "))
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            bad = run("bash %s/demo.sh" % out, cwd=R); run("git checkout -q -- .", cwd=R); good = run("bash %s/demo.sh" % out, cwd=R)
            r = "demo clean=%d patched=%d" % (good.returncode, bad.returncode)
            if good.returncode or bad.returncode in (0, 2): ok = False; r += "  <<<<< BAD\n" + good.stdout[-800:] + good.stderr[-1500:] + "\n--\n" + bad.stdout[-500:] + bad.stderr[-500:]
            print(ns["ID"], r, flush=True)
        finally: shutil.rmtree(d)
    sys.exit(0 if ok else 1)
main()
