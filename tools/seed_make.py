#!/usr/bin/env python3
"""seed_make.py DEFS.py [ID ...]: makes /verif/seeded/<id>/ from definitions, and tries each one:
demo on the unchanged tree, patch, build, stable tests, demo on the patched tree.
Definitions: BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], cpp=... or sh=..., files={})}"""
import json, os, re, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <vector>
#include "lmb.hpp"
#include "gm.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "report.hpp"
using Tracker = lmb::SILMB<lmb::GM<4>>;
using Target = Tracker::Target;
using Sensor = lmb::PositionSensor<Target>;
using Report = Sensor::Report;
using CV = lmb::CV<Target>;
using V2 = Eigen::Vector2d;
using V4 = Eigen::Vector4d;
using M2 = Eigen::Matrix2d;
using M4 = Eigen::Matrix4d;
static int bad = 0;
#define EXPECT(c, ...) do { if (!(c)) { std::printf("line %d: %s: ", __LINE__, #c); std::printf(__VA_ARGS__); std::printf("\\n"); bad = 1; } } while (0)
static inline V4 v4(double a, double b, double c = 0, double d = 0) { V4 x; x << a, b, c, d; return x; }
static inline V4 at(const cf::LL& o, double n, double e, double vn = 0, double ve = 0) { cf::LL l = cf::ne2ll(V2(n, e), o); return v4(l[0], l[1], vn, ve); }
static inline M4 dia(double a, double b, double c, double d) { return v4(a, b, c, d).asDiagonal(); }
static inline Sensor wide(const cf::LL& o, double pD = 1, double deg = 1) {
    Sensor s; s.fov = lmb::BBox(lmb::AABBox(o[0] - deg, o[1] - deg, o[0] + deg, o[1] + deg)); s.pD_ = pD; return s;
}
static inline Target* add(Tracker& t, double r, const V4& x, const M4& P) { return t.targettree.new_target(r, lmb::GM<4>(&t.params, x, P)); }
static const cf::LL O(58.3887657, 15.6965082);
'''
SH = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
clang++-18 %s -std=c++17 -w -fopenmp -I include -isystem /usr/include/eigen3 -I "$here" "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 98
%s timeout 200 "$tmp/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
BUGS = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests")
stable = set(stable)
def make(k, b):
    d = V + "/seeded/" + k
    os.makedirs(d, exist_ok=True)
    t = "/tmp/sd/" + k
    sh("rm -rf %s %s-vp; cp -a /repo %s; cp -a /opt/vp %s-vp; sed -i s#/repo#%s#g %s-vp/*.sh %s-vp/Makefile; sed -i s#/opt/vp#%s-vp#g %s-vp/*.sh %s-vp/Makefile" % (t, t, t, t, t, t, t, t, t, t), "/")
    with open(d + "/demo.sh", "w") as f: f.write(b.get("sh") or SH % (b.get("flags", "-O1"), b.get("env", "")))
    os.chmod(d + "/demo.sh", 0o755)
    if "cpp" in b:
        open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + b["cpp"]); open(d + "/demo.hpp", "w").write(COMMON)
    for n, c in b.get("files", {}).items(): open(d + "/" + n, "w").write(c)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, t)
    for f, o, n in b["edits"]:
        s = open(t + "/" + f, newline="").read()
        if "\r\n" in s: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        assert s.count(o) == 1, (k, f, s.count(o), o)
        open(t + "/" + f, "w", newline="").write(s.replace(o, n))
    open(d + "/patch.diff", "wb").write(subprocess.run("git diff", shell=True, cwd=t, stdout=subprocess.PIPE).stdout)
    bl = sh("bash %s-vp/build.sh" % t, t)
    te = sh("bash %s-vp/test.sh /tmp/sd/%s.json" % (t, k), t)
    try:
        res = json.load(open("/tmp/sd/%s.json" % k)); ok = res.get("passed") or []
        ok = set(ok if isinstance(ok, list) else [x for x, v in ok.items() if v])
        lost = sorted(stable - ok)
    except Exception as e: lost = ["no result: %s" % e]
    r1 = sh("bash %s/demo.sh" % d, t)
    good = r0.returncode == 0 and bl.returncode == 0 and not lost and r1.returncode != 0
    print(k, b["prop"], "OK" if good else "NOT OK", "demo clean", r0.returncode, "build", bl.returncode, "lost", lost, "demo patched", r1.returncode, r1.stdout.strip()[:150] if good else "\n" + r0.stdout[-800:] + "\n--\n" + bl.stdout[-500:] + "\n--\n" + r1.stdout[-800:], flush=True)
    sh("rm -rf %s %s-vp /tmp/sd/%s.json" % (t, t, k), "/")

import concurrent.futures as cf
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    list(ex.map(lambda kb: make(*kb), [(k, b) for k, b in BUGS.items() if not only or k in only]))
