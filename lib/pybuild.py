"""Builds the Python package of the repository under test, and the C++ reference
library, into build/py-<hash>/ and returns that directory."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

V = os.environ["VERIF_DIR"]
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"


def package(with_ref=True):
    srcs = [p for d in ("include", "lmb") for p in sorted(glob.glob(REPO + "/" + d + "/*")) if os.path.isfile(p)]
    srcs += [REPO + "/clmb.py", V + "/lib/pyref.cpp", V + "/lib/pybuild.py"]
    h = hashlib.sha256()
    for p in srcs:
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read())
    out = V + "/build/py-" + h.hexdigest()[:20]
    if os.path.isdir(out):
        return out
    os.makedirs(V + "/build", exist_ok=True)
    for old in glob.glob(V + "/build/py-*"):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=V + "/build")
    try:
        os.makedirs(tmp + "/lmb")
        inc = subprocess.check_output(["/usr/bin/python3", "-m", "pybind11", "--includes"], text=True).split()
        suf = subprocess.check_output(["/usr/bin/python3-config", "--extension-suffix"], text=True).strip()
        base = [CXX, "-std=c++17", "-O2", "-DNDEBUG", "-w", "-fPIC", "-shared", "-fopenmp", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3"] + inc
        jobs = [(f, base + [f, "-o", tmp + "/lmb/" + os.path.basename(f)[:-4] + suf]) for f in sorted(glob.glob(REPO + "/lmb/*.cpp"))]
        jobs.append(("pyref", base + [V + "/lib/pyref.cpp", "-o", tmp + "/pyref.so"]))
        procs = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, c in jobs]
        bad = False
        for n, p in procs:
            o = p.communicate()[0]
            if p.returncode:
                print("BUILD-FAILED " + n + "\n" + o[-4000:])
                bad = True
        if bad:
            sys.exit(3)
        for f in glob.glob(REPO + "/lmb/*.py"):
            shutil.copy(f, tmp + "/lmb/")
        shutil.copy(REPO + "/clmb.py", tmp + "/clmb.py")
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.isdir(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
