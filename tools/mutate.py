#!/usr/bin/env python3
"""mutate.py LANES OUT.txt [FILE[:MAX] ...]: small mechanical changes to /repo's sources, one at a time in a scratch copy,
and which of the checks mapped to that file notices. Prints the survivors, for reading."""
import concurrent.futures as cf, hashlib, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "include/cf.hpp": "C01 C02 C05", "include/bbox.hpp": "C04 C03 C05 C22", "include/gaussian.hpp": "C13 C15 C12 C26 C27",
 "include/gm.hpp": "C14 C18 C13 C09 C15 C25 C27 C16 C12", "include/cluster.hpp": "C17 C18 C33 C11 C27 C22", "include/lmb.hpp": "C17 C11 C18 C22 C23 C25 C26 C24 C09 C19",
 "include/target.hpp": "C17 C12 C25 C22 C23 C33 C27", "include/targettree.hpp": "C09 C19", "include/connectedcomponents.hpp": "C10 C11",
 "include/murty.hpp": "C07 C17", "include/rlapjv.h": "C06 C07", "include/RTree.h": "C08 C09", "include/sensors.hpp": "C18 C22 C15 C11",
 "include/models.hpp": "C12", "include/report.hpp": "C13 C11 C27 C18", "include/pf.hpp": "C16 C27", "include/statistics.hpp": "C15 C29",
 "include/omp.hpp": "C29", "lmb/lmb.cpp": "C28", "lmb/cf.cpp": "C28", "lmb/application.py": "C28 C30", "lmb/plot.py": "C30",
}
CASES = dict(C01=150000, C02=150000, C03=100000, C04=200000, C05=80000, C06=40000, C07=6000, C08=8000, C09=3000, C10=15000, C11=12000,
             C12=20000, C13=25000, C14=20000, C15=1500, C16=4000, C17=12000, C18=30000, C19=900, C22=12000, C23=15000, C24=3000, C25=12000,
             C26=500, C27=6000, C28=2500, C29=200, C30=700, C33=16000)
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"minCoeff", "maxCoeff"), (r"maxCoeff", "minCoeff"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\brow\(", "col("), (r"if \((.*)\) \{", r"if (!(\1)) {"),
       (r"(?<![\w.\[(<])-(?=[\w(])", ""), (r"\.transpose\(\)", ""), (r"sqrt", "abs"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bFalse\b", "True"), (r"\bTrue\b", "False"),
       (r"!(?=[a-z(])", ""), (r"\.rows\(\)", ".cols()"), (r"\.cols\(\)", ".rows()"), (r"if (.*):$", r"if not (\1):")]
def mutants(f):
    src = open("/repo/" + f, newline="").read().split("\n")
    out, debug, blk = [], 0, False
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("#ifdef DEBUG") or s.startswith("#if 0"): debug = 1
        if s.startswith("#endif"): debug = 0
        if s.startswith("/*"): blk = True
        if "*/" in s: blk = False; continue
        if debug or blk or not s or s.startswith(("//", "#", "using ", "template", "*", "import ", "from ", '"""', "ASSERT", "assert", "enum")): continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code: out.append((n, new))
        for m in re.finditer(r"(?<![\w.])(\d+(?:\.\d+)?)(?![\w.])", code):
            v = m.group(1)
            new = str(float(v) * 1.1 + (0.01 if float(v) == 0 else 0)) if "." in v else str(int(v) + 1)
            out.append((n, code[:m.start()] + new + code[m.end():]))
            if v == "1": out.append((n, code[:m.start()] + "0" + code[m.end():]))
        c = code.strip()
        if c.endswith(";") and not re.match(r"(return|const|auto|double|int|unsigned|bool|static|typedef|struct|Eigen::\S+ \w+[;(]|[A-Z]\w+ \w+;|\w+\* \w+;|\w+ \w+ =|public|private)", c):
            out.append((n, ";"))
        if c.startswith("return ") and "bool" not in c and c.endswith(";") and c in ("return true;", "return false;"): pass
    return src, out
def trial(args):
    f, src, (n, new), k = args
    t = "/tmp/mut/r%d" % k
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    for d in ("include", "lmb"): shutil.copytree("/repo/" + d, t + "/" + d, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    for x in ("clmb.py", "setup.py", "CMakeLists.txt"):
        if os.path.exists("/repo/" + x): shutil.copy("/repo/" + x, t)
    s2 = list(src); s2[n] = new
    open(t + "/" + f, "w", newline="").write("\n".join(s2))
    lane = lanes.pop()
    res, detail = "SURVIVED", []
    try:
        for c in MAP[f].split():
            try:
                p = subprocess.run(["timeout", "-k", "5", "600", "python3", "run.py", c, "--cases", str(CASES[c])], cwd=lane,
                                   env=dict(os.environ, VERIF_REPO=t, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            except Exception as e:
                detail.append(repr(e)); continue
            if p.returncode == 3: res = "NOBUILD"; break
            if p.returncode == 1 and "VIOLATION" in p.stdout: res = "killed " + c; break
            if p.returncode != 0:
                detail.append("%s rc=%d %s" % (c, p.returncode, p.stdout[-200:].replace("\n", "|")))
                if p.returncode in (124, 137): res = "TIMEOUT " + c; break
    finally:
        lanes.append(lane); shutil.rmtree(t, ignore_errors=True)
    line = "%s %s:%d | %s  ==>  %s %s" % (res, f, n + 1, src[n].strip(), new.strip() or "(deleted)", " ".join(detail))
    with lock:
        open(OUT, "a").write(line + "\n")
    return line
if __name__ == "__main__":
    N, OUT = int(sys.argv[1]), sys.argv[2]
    lock = threading.Lock()
    files = sys.argv[3:] or list(MAP)
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    lanes = []
    for i in range(N):
        d = "/tmp/mut/v%d-%d" % (os.getpid(), i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run("cp -a checks lib known run.py known_findings.json properties.jsonl MANIFEST.json %s/; mkdir %s/build" % (d, d), shell=True, cwd=V, check=True)
        lanes.append(d)
    jobs = []
    done = set(l.split(" | ")[1] for l in open(OUT) if " | " in l) if os.path.exists(OUT) else set()
    for a in files:
        f, _, m = a.partition(":")
        src, ms = mutants(f)
        seen, u = set(), []
        for x in ms:
            if x not in seen: seen.add(x); u.append(x)
        rnd.shuffle(u)
        for x in u[:int(m or 60)]: jobs.append((f, src, x))
    jobs = [j + (os.getpid() % 100000 * 10000 + k,) for k, j in enumerate(jobs)]
    print(len(jobs), "mutants", flush=True)
    with cf.ThreadPoolExecutor(N) as ex:
        for l in ex.map(trial, jobs):
            if not l.startswith(("killed", "NOBUILD")): print(l, flush=True)
    for d in lanes: shutil.rmtree(d, ignore_errors=True)
