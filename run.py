#!/usr/bin/env python3
"""Builds and runs one check:  run.py <property> [--replay FILE] [--cases N] [--seed N]

The tier and the seed come from VERIF_TIER / VERIF_SEED.  Binaries are built
from /repo's working tree and cached under build/ by content."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
BASE = ["-std=c++17", "-fopenmp", "-w", "-isystem", "/usr/include/eigen3", "-I" + REPO + "/include", "-I" + V + "/lib"]
ASAN = ["-O1", "-fsanitize=address,bounds,signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,return,bool,unreachable",
        "-fno-sanitize-recover=all", "-gline-tables-only"]
ADDR = ["-O1", "-fsanitize=address"]
PLAIN = ["-O1"]
TSAN = ["-O1", "-g", "-fsanitize=thread"]

# property -> (kind, source, flags, environment)
E1 = {"OMP_NUM_THREADS": "1"}
CPP = {
    # id: (flags, env)
}
for k in "C01 C02 C03 C04 C05 C06 C07 C08 C10 C15 C16 C19 C26".split():
    CPP[k] = (ASAN, E1)
for k in "C09 C11 C12 C13 C14 C17 C18 C21 C22 C23 C24 C25 C27 C32 C33".split():
    CPP[k] = (ADDR, E1)
for k in ("C31",):
    CPP[k] = (PLAIN, E1)
CPP["C20"] = (PLAIN, {"OMP_DYNAMIC": "false"})
CPP["C29"] = (TSAN, {"OMP_NUM_THREADS": "4", "OMP_DYNAMIC": "false", "OMP_MAX_ACTIVE_LEVELS": "2",
                     "OMP_TOOL_LIBRARIES": "/usr/lib/llvm-18/lib/libarcher.so",
                     "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1:report_bugs=1"})
PY = {"C28": "/usr/bin/python3", "C30": "/usr/bin/python3"}


def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def repo_sources():
    return [p for d in ("include", "lmb") for p in glob.glob(REPO + "/" + d + "/*") if os.path.isfile(p)] + [REPO + "/clmb.py"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid, flags, fuzz=False):
    src = V + "/checks/" + pid + ".cpp"
    extra = list(flags) + (["fuzz"] if fuzz else [])
    libs = glob.glob(V + "/lib/*.[hc]pp")
    key = digest(repo_sources() + [src] + libs, extra)
    out = V + "/build/" + pid + ("-fuzz-" if fuzz else "-") + key
    if os.path.exists(out):
        return out
    os.makedirs(V + "/build", exist_ok=True)
    for old in glob.glob(V + "/build/" + pid + ("-fuzz-*" if fuzz else "-[0-9a-f]*")):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = tempfile.mkdtemp(dir=V + "/build")
    try:
        if fuzz:
            f2 = list(flags) + ["-fsanitize=fuzzer", "-DPBT_FUZZ"]
        else:
            f2 = list(flags)
        a = subprocess.Popen([CXX] + BASE + f2 + ["-c", src, "-o", tmp + "/a.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = sh([CXX] + BASE + f2 + ["-c", V + "/lib/pbt.cpp", "-o", tmp + "/b.o"])
        ao = a.communicate()[0]
        if a.returncode or b.returncode:
            print(ao[-6000:] + b.stdout[-3000:])
            print("BUILD-FAILED " + pid)
            sys.exit(3)
        r = sh([CXX] + BASE + f2 + [tmp + "/a.o", tmp + "/b.o", "-o", tmp + "/x"])
        if r.returncode:
            print(r.stdout[-3000:])
            sys.exit(3)
        os.replace(tmp + "/x", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def environment(extra):
    env = dict(os.environ)
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    env.update(extra)
    return env


def known_findings(pid):
    path = V + "/known_findings.json"
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k["property"] == pid and k["status"] == "finding"]


def campaign(pid, flags, env, seconds, jobs=8):
    """Coverage-guided search over the same property (thorough tier)."""
    binf = build(pid, flags, fuzz=True)
    work = tempfile.mkdtemp(prefix="fz-" + pid + "-")
    try:
        procs = []
        for j in range(jobs):
            d = work + "/c%d" % j
            os.makedirs(d + "/corpus")
            e = dict(env, PBT_FUZZ_OUT=d + "/fail.replay")
            seed = (int(env["VERIF_SEED"]) * 1000 + j) % 4294967295 + 1
            procs.append((d, subprocess.Popen(
                [binf, "-seed=%d" % seed, "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=60", "-rss_limit_mb=3000",
                 "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-len_control=20", d + "/corpus"],
                env=e, cwd=d, stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT)))
        execs, cov, fails = 0, 0, []
        for d, p in procs:
            p.wait()
            log = open(d + "/log", errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", log)
            execs += int(m[-1]) if m else 0
            c = re.findall(r"cov: (\d+)", log)
            cov = max(cov, int(c[-1]) if c else 0)
            for a in glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*"):
                fails.append((a, log[-2500:]))
        return execs, cov, fails, work
    except BaseException:
        shutil.rmtree(work, ignore_errors=True)
        raise


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/build", exist_ok=True)
    if pid in PY:
        env = environment({"VERIF_DIR": V, "VERIF_REPO": REPO, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1"})
        sys.exit(subprocess.call([PY[pid], V + "/checks/" + pid + ".py"] + rest, env=env, cwd=V))
    flags, envx = CPP[pid]
    env = environment(envx)
    t0 = time.time()
    binary = build(pid, flags)
    tb = time.time() - t0
    evid = V + "/evidence/" + pid + ".json"
    rdir = V + "/replays"
    if "--replay" in rest:
        sys.exit(subprocess.call([binary] + rest, env=env, cwd=V))
    for k in known_findings(pid):
        r = sh([binary, "--replay", V + "/" + k["replay"]], env=dict(env, PBT_KNOWN=k.get("probe", "")), cwd=V)
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    sys.stdout.flush()
    rc = subprocess.call([binary, "--evidence", evid, "--replay-dir", rdir] + rest, env=env, cwd=V)
    if rc == 0 and tier == "thorough" and "nofuzz" not in rest:
        execs, cov, fails, work = campaign(pid, flags, env, int(os.environ.get("VERIF_FUZZ_SECONDS", "300")), jobs=8)
        try:
            viol = 0
            for a, log in fails:
                hits = 0
                for _ in range(3):
                    r = sh([binary, "--replay", a, "--bytes"], env=env, cwd=V)
                    hits += r.returncode == 1
                if hits == 3:
                    os.makedirs(rdir, exist_ok=True)
                    dst = rdir + "/" + pid + "-fuzz.replay"
                    with open(dst, "w") as f:
                        f.write(r.stdout)
                    print(r.stdout[-2000:])
                    print("VIOLATION property=%s replay=%s" % (pid, dst))
                    viol += 1
                    rc = 1
                    break
                print("unreproduced fuzz artefact: " + log[-600:])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        ev = json.load(open(evid))
        ev["coverage"]["fuzz_executions"] = execs
        ev["coverage"]["fuzz_edges"] = cov
        ev["violations"] += viol
        ev["wall_s"] = time.time() - t0
        json.dump(ev, open(evid, "w"))
        print("fuzz: %d executions, %d edges" % (execs, cov))
    print("(build %.1f s, total %.1f s)" % (tb, time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
