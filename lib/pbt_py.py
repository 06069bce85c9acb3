"""Property-based testing of Python code: recorded choice sequences, forked
workers, shrinking, replay files and evidence.  Same scheme as pbt.hpp."""
import hashlib
import json
import math
import mmap
import os
import random
import select
import signal
import struct
import sys
import time
import traceback


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Case:
    """A source of choices: random, or a recorded list (zeros after its end)."""

    def __init__(self, rng=None, choices=None):
        self.rng, self.src = rng, choices
        self.log = []
        self.pos = 0
        self.desc = []
        self.labels = set()
        self.ok = False

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.src is not None:
            v = self.src[self.pos] if self.pos < len(self.src) else 0
            v = v % n
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        if len(self.log) > 20000:
            raise Discard()
        return v

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def flag(self, p=0.5):
        """True with probability p; 0 means False."""
        return self.draw(1000) >= 1000 * (1 - p)

    def unit(self):
        return self.draw(1 << 32) / float(1 << 32)

    def real(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def scale(self, lo, hi):
        return math.exp(self.real(math.log(lo), math.log(hi)))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def any_double(self):
        k = self.draw(6)
        if k == 0:
            return float(self.integer(0, 4)) - 1
        if k == 1:
            return self.pick([0.0, -0.0, 1.0, -1.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1e16, -1e-300])
        if k == 2:
            while True:
                v = struct.unpack("<d", struct.pack("<Q", self.draw(1 << 64)))[0]
                if math.isfinite(v):
                    return v
                if self.src is not None:
                    return 0.5
        return self.real(-1, 1) * self.scale(1e-6, 1e6)

    def note(self, text):
        self.desc.append(str(text))

    def label(self, text):
        self.labels.add(text)

    def nontrivial(self):
        self.ok = True


def check(cond, msg):
    if not cond:
        raise Fail(msg if isinstance(msg, str) else msg())


def _case(seed, i):
    return Case(rng=random.Random(hashlib.sha256(b"%d/%d" % (seed, i)).digest()))


def _execute(prop, c):
    """None, or the failure message."""
    try:
        prop(c)
    except Fail as e:
        return str(e) or "failed"
    except Discard:
        return "DISCARD"
    except Exception as e:  # an exception the property did not expect
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "unexpected %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    return None


def isolated(prop, choices, limit):
    """Runs one recorded case in a child: (message or None, choices used, description)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(0)
        c = Case(choices=choices)
        m = _execute(prop, c)
        with os.fdopen(w, "w") as f:
            json.dump([m, c.log, c.desc], f)
        os._exit(0)
    os.close(w)
    data = b""
    end = time.time() + limit
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return "no result within %g s (hang)" % limit, choices, []
    if os.WIFSIGNALED(st):
        return "crashed with signal %d" % os.WTERMSIG(st), choices, []
    try:
        return tuple(json.loads(data.decode()))
    except ValueError:
        return "died without a result", choices, []


def _again(prop, choices, limit):
    """Does the recorded case fail again, in this process or another?"""
    for k in range(8):
        m = _execute(prop, Case(choices=choices)) if k % 2 else isolated(prop, choices, limit)[0]
        if m is not None and m != "DISCARD":
            return True
    return False


def shrink(prop, choices, limit, budget=60.0):
    end = time.time() + budget
    best = list(choices)
    seen = set()

    def fails(ch):
        nonlocal best
        key = tuple(ch)
        if key in seen or time.time() > end:
            return False
        seen.add(key)
        m, used, _ = isolated(prop, ch, limit)
        if m is None or m == "DISCARD":
            return False
        used = list(used)[:len(ch)] if used else list(ch)
        if (len(used), used) < (len(best), best):
            best = used
            return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() < end:
            i = 0
            while i < len(best):
                if fails(best[:i] + best[i + n:]):
                    progress = True
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i] and fails(best[:i] + [v] + best[i + 1:]):
                        progress = True
                        break
    return best


def main(pid, prop, cases, rule, assumptions, tier_cases, limit=60.0, workers=8, extra=None, t0=None):
    """cases: quick count; tier_cases: thorough count."""
    args = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    V = os.environ["VERIF_DIR"]
    t0 = t0 or time.time()
    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        ch = [int(x) for l in open(path) if not l.startswith("#") for x in l.split()]
        m, _, d = isolated(prop, ch, limit)
        for l in d:
            print("  " + l)
        if m is None or m == "DISCARD":
            print("replay: property held" if m is None else "replay: case discarded")
            return 0
        print("replay: FAILED: " + m)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    n = cases if tier == "quick" else tier_cases
    if "--cases" in args:
        n = int(args[args.index("--cases") + 1])
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    shared = mmap.mmap(-1, 64 * workers)
    pipes, pids = [], []

    def worker(k, start):
        r, w = os.pipe()
        pidc = os.fork()
        if pidc:
            os.close(w)
            return pidc, r
        os.close(r)
        for p in pipes:
            if p is not None:
                try:
                    os.close(p)
                except OSError:
                    pass
        stats = {"evaluations": 0, "discarded": 0, "hashes": [], "samples": [], "classes": {}, "fail": None, "flaky": []}
        i = start
        try:
            while i < n:
                shared[64 * k:64 * k + 16] = struct.pack("<qd", i, time.time())
                c = _case(seed, i)
                m = _execute(prop, c)
                stats["evaluations"] += 1
                if m == "DISCARD":
                    stats["discarded"] += 1
                elif m is not None:
                    if _again(prop, c.log, limit):
                        stats["fail"] = [i, m, c.log]
                        break
                    stats["flaky"].append([i, m, c.log])
                    if len(stats["flaky"]) >= 4:
                        break
                elif c.ok:
                    stats["hashes"].append(hashlib.md5(repr(c.log).encode()).hexdigest()[:16])
                    if len(stats["samples"]) < 2:
                        stats["samples"].append("; ".join(c.desc)[:1500] or "choices " + " ".join(map(str, c.log[:40])))
                for l in c.labels:
                    stats["classes"][l] = stats["classes"].get(l, 0) + 1
                i += workers
        except BaseException as e:  # noqa
            stats["fail"] = [i, "engine: %r" % (e,), []]
        with os.fdopen(w, "w") as f:
            json.dump(stats, f)
        os._exit(0)

    for k in range(workers):
        shared[64 * k:64 * k + 16] = struct.pack("<qd", k, time.time())
        a, b = worker(k, k)
        pids.append(a)
        pipes.append(b)
    total = {"evaluations": 0, "discarded": 0, "hashes": set(), "samples": [], "classes": {}}
    fails, flaky = [], []
    buf = {k: b"" for k in range(workers)}
    live = set(range(workers))
    while live:
        ready, _, _ = select.select([pipes[k] for k in live], [], [], 1.0)
        for k in list(live):
            if pipes[k] in ready:
                b = os.read(pipes[k], 1 << 20)
                if b:
                    buf[k] += b
                    continue
                os.close(pipes[k])
                _, st = os.waitpid(pids[k], 0)
                live.discard(k)
                i = struct.unpack("<qd", shared[64 * k:64 * k + 16])[0]
                if os.WIFSIGNALED(st) or not buf[k]:
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                    fails.append([i, "crashed with signal %d" % sig, None])
                    continue
                s = json.loads(buf[k].decode())
                total["evaluations"] += s["evaluations"]
                total["discarded"] += s["discarded"]
                total["hashes"] |= set(s["hashes"])
                total["samples"] += s["samples"]
                for l, v in s["classes"].items():
                    total["classes"][l] = total["classes"].get(l, 0) + v
                flaky += s["flaky"]
                if s["fail"]:
                    fails.append(s["fail"])
            else:
                i, since = struct.unpack("<qd", shared[64 * k:64 * k + 16])
                if time.time() - since > limit:
                    os.kill(pids[k], signal.SIGKILL)
                    shared[64 * k + 8:64 * k + 16] = struct.pack("<d", time.time() + 1e6)
    violations = 0
    rc = 0
    for i, m, log in sorted(fails, key=lambda f: f[0]):
        if log is None:  # died: record its choices by running it again in a child
            log = record(prop, seed, i, limit)
        if not log and "engine:" in m:
            print("ENGINE FAILURE " + m)
            rc = 3
            continue
        confirmed = [c for c in (isolated(prop, log, limit) for _ in range(10)) if c[0] and c[0] != "DISCARD"]
        if not confirmed:
            flaky.append([i, m, log])
            continue
        best = shrink(prop, log, limit)
        m2, _, d = isolated(prop, best, limit)
        if m2 is None or m2 == "DISCARD":
            best, m2, d = log, m, confirmed[0][2]
        os.makedirs(V + "/replays", exist_ok=True)
        path = V + "/replays/%s.replay" % pid
        with open(path, "w") as f:
            f.write("# %s seed %d case %d\n# %s\n" % (pid, seed, i, m2.replace("\n", " ")))
            for l in d:
                f.write("#   " + l.replace("\n", " ") + "\n")
            f.write(" ".join(map(str, best)) + "\n")
        print("%s: case %d: %s" % (pid, i, m2))
        for l in d[:30]:
            print("  " + l[:400])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations += 1
        rc = 1
        break
    for i, m, log in flaky:
        print("NOT-REPRODUCED property=%s case=%d: %s" % (pid, i, m[:300]))
    if not violations and len(flaky) >= 4:  # each only once, but they keep happening
        os.makedirs(V + "/replays", exist_ok=True)
        path = V + "/replays/%s.replay" % pid
        with open(path, "w") as f:
            f.write("# %s seed %d: several cases failed, each only once; the first\n# %s\n%s\n" % (pid, seed, flaky[0][1].replace("\n", " "), " ".join(map(str, flaky[0][2]))))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations, rc = 1, 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": len(total["hashes"]),
                       "discarded": total["discarded"], "rule": rule, "samples": total["samples"][:6],
                       "classes": total["classes"]},
          "assumptions": assumptions, "wall_s": time.time() - t0, "violations": violations}
    if flaky:
        ev["coverage"]["not_reproduced"] = [f[1][:600] for f in flaky]
    if extra:
        ev["coverage"].update(extra())
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f)
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %d violations, %.1f s" % (
        pid, total["evaluations"], len(total["hashes"]), total["discarded"], violations, time.time() - t0))
    return rc


def record(prop, seed, i, limit):
    """The choices case i makes, written to a pipe as they are drawn (it may die)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        c = _case(seed, i)

        class L(list):
            def append(self, v):
                list.append(self, v)
                os.write(w, b"%d\n" % v)
        c.log = L()
        signal.alarm(int(limit) + 1)
        _execute(prop, c)
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return [int(x) for x in data.split()]
