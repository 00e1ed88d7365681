"""Compile a harness against /repo's current headers: IR for the verifier, .so for replay."""
import os, subprocess, hashlib, tempfile, shutil
REPO = os.environ.get("CAFES_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PET = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
INC = ["-I" + REPO + "/cafes", "-I" + REPO + "/external_packages/qhull", "-I" + PET + "/include", "-I/usr/include/hdf5/openmpi",
       "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
def compat():
    p = "/opt/vp/support/petsc_compat.h"
    return ["-include", p] if os.path.exists(p) else []
class BuildError(Exception): pass
def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])
def ir(src, out, defs=(), vecmodel=False):
    a = out + ".0.ll"
    run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-std=gnu++14", "-O1", "-w", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-ffp-contract=off", "-S", "-emit-llvm",
         "-DCAFES_VC_SYMBOLIC"] + list(defs) + compat() + (["-I" + HERE + "/harness/vecmodel"] if vecmodel else []) + INC + ["-I" + HERE + "/harness", src, "-o", a])
    run(["opt-18" if shutil.which("opt-18") else "opt", "-S", "-passes=mem2reg", a, "-o", out])
    os.unlink(a)
def so(src, out, defs=(), libs=True):
    run(["clang++", "-std=gnu++14", "-O1", "-w", "-fPIC", "-shared", "-ffp-contract=off", "-DCAFES_VC_NATIVE"] + list(defs) + compat() + INC +
        ["-I" + HERE + "/harness", src, "-o", out, "-Wl,-Bsymbolic"] +
        (["-L" + PET + "/lib", "-Wl,-rpath," + PET + "/lib", "-lpetsc_real", "-lmpi_cxx" if False else "-lm", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"] if libs else []))
