"""C28: the Python interface gives the same results as the C++ tracker."""
import asyncio
import concurrent.futures
import copy
import ctypes
import gc
import inspect
import json
import math
import os
import pickle
import sys
import time

T0 = time.time()
V = os.environ["VERIF_DIR"]
sys.path.insert(0, V + "/lib")
import pbt_py as pbt  # noqa
from pbt_py import check, Discard, Fail  # noqa
import pybuild  # noqa
import numpy as np  # noqa

D = pybuild.package()
sys.path.insert(0, D)
import lmb  # noqa
from lmb import cf  # noqa
check(os.path.dirname(lmb.__file__) == D + "/lmb", "wrong module")
R = ctypes.CDLL(D + "/pyref.so")
for n in ("t_enof", "t_score"):
    getattr(R, n).restype = ctypes.c_double
R.t_new.restype = ctypes.c_void_p
DP = ctypes.POINTER(ctypes.c_double)
PARAMS = ("w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale")


def arr(a):
    return np.ascontiguousarray(np.array(a, dtype=float).ravel())


def p(a):
    return a.ctypes.data_as(DP) if a is not None else None


def d(x):
    return ctypes.c_double(float(x))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def near(a, b):
    """To 15 significant digits (the largest double may round up to infinity)."""
    a, b = np.clip(np.asarray(a, float), -1.7e308, 1.7e308), np.clip(np.asarray(b, float), -1.7e308, 1.7e308)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-13 * np.abs(b)))


def fmt(a):
    return np.array2string(np.asarray(a), precision=5, separator=",").replace("\n", "")


class Ref:
    def __init__(self, params):
        self.t = ctypes.c_void_p(R.t_new(p(arr(params)) if params is not None else None))

    def __del__(self):
        R.t_free(self.t)

    def targets(self, box=None):
        o = np.zeros((200, 23))
        n = R.t_targets(self.t, p(box), p(o), 200)
        return [dict(x=o[i, :4].copy(), P=o[i, 4:20].reshape(4, 4).copy(), r=o[i, 20], id=int(o[i, 21]), cid=int(o[i, 22])) for i in range(n)]

    def stats(self):
        a = [(ctypes.c_int * 400)() for _ in range(3)]
        n = R.t_stats(self.t, *a, 400)
        check(n >= 0, "reference: statistics of different lengths")
        return [tuple(v[i] for v in a) for i in range(n)]


# ------------------------------------------------------------ generators
def spd(c, n, lo, hi):
    A = np.array([[c.real(-1, 1) for _ in range(n)] for _ in range(n)])
    M = A @ A.T + np.eye(n) * 0.2
    M *= c.scale(lo, hi)
    return (M + M.T) / 2


def shape1(c, x):
    """A state the way callers pass them: (n,), (n, 1) or a list."""
    k = c.draw(3)
    if k == 0:
        return np.array(x, float)
    if k == 1:
        return np.array(x, float)[:, np.newaxis]
    return [float(v) for v in x]


def shape2(c, M):
    return np.asfortranarray(M) if c.flag(0.3) else (M.tolist() if c.flag(0.2) else M)


class Loop:
    """Runs tracker calls through the application wrapper."""

    def __init__(self):
        self.loop = asyncio.new_event_loop()
        self.app = lmb.Application(self.loop, concurrent.futures.ThreadPoolExecutor(max_workers=2))

    def __call__(self, coro):
        return self.loop.run_until_complete(asyncio.wait_for(coro, 30))

    def close(self):
        self.app._executor.shutdown(wait=True)
        self.loop.close()


def make_params(c):
    # (hypotheses can tie, and which of them the limits keep is then arbitrary: the limits are wide)
    v = [c.pick([1e-12, 1e-13, 3e-13]), c.pick([0.0437, 1.37e-3, 0.1931]), c.pick([20000, 30000, 25000]), c.pick([0.8, 0.3, 1.0]),
         c.pick([1.9, 3.0, 5.0]), c.pick([1e-9, 1e-4, 0.01]), c.pick([150, 1000, 40]), c.pick([1.0, 2.0, 0.5])]
    return [float(x) for x in v]


def match(pt, rt, ids, what):
    """Python targets against reference targets, in any order, with the id relation kept over time."""
    check(len(pt) == len(rt), lambda: "%s: %d targets in Python, %d in C++" % (what, len(pt), len(rt)))
    for i, a in enumerate(rt):
        for b in rt[:i]:
            if np.abs((a["x"] - b["x"]) * [1e5, 1e5, 1, 1]).max() < 1e-4:
                raise Discard()  # twins: which is which is arbitrary
    left = list(range(len(rt)))
    pairs = []
    for t in pt:
        x = np.asarray(t.x).ravel()
        check(x.shape == (4,) and np.asarray(t.P).shape == (4, 4), what + ": shape of a target")
        j = min(left, key=lambda k: np.abs((x - rt[k]["x"]) * [1e5, 1e5, 1, 1]).sum() + abs(t.r - rt[k]["r"]))
        left.remove(j)
        q = rt[j]
        tol = 1e-7 + 1e-9 / max(q["r"], 1e-9)
        check(close(x, q["x"], tol) and np.abs(x[:2] - q["x"][:2]).max() < 1e-9, lambda: "%s: state %s, C++ %s" % (what, fmt(x), fmt(q["x"])))
        check(close(t.P, q["P"], 10 * tol), lambda: "%s: covariance %s, C++ %s" % (what, fmt(t.P), fmt(q["P"])))
        check(abs(t.r - q["r"]) < 1e-7, lambda: "%s: r %.9g, C++ %.9g" % (what, t.r, q["r"]))
        check(type(t.id) is int and type(t.cid) is int and type(t.r) is float, what + ": types")
        pairs.append((t, q))
        a, b = ids
        check(a.setdefault(t.id, q["id"]) == q["id"] and b.setdefault(q["id"], t.id) == t.id, lambda: "%s: id %d was another target's" % (what, t.id))
    check(len({t.id for t in pt}) == len(pt), what + ": ids repeat")
    return pairs


def partition(a, b, what):
    f, g = {}, {}
    for u, w in zip(a, b):
        check(f.setdefault(u, w) == w and g.setdefault(w, u) == u, lambda: "%s: clusters %s, C++ %s" % (what, a, b))


# ------------------------------------------------------------ scenario
def scenario(c):
    origin = np.array([c.real(-60, 60), c.real(-150, 150)])
    runner = Loop() if c.flag(0.35) else None
    try:
        _scenario(c, origin, runner)
    finally:
        if runner:
            runner.close()


def _scenario(c, origin, runner):
    pv = make_params(c)
    how = c.draw(3)
    if how == 0:
        tr = lmb.Tracker()
        pv = [getattr(lmb.Params(), n) for n in PARAMS]
        for i in range(3):
            pv[i] = [1e-12, 0.0437, 20000][i]
            setattr(tr.params, PARAMS[i], pv[i])
        ref = Ref(None)
        R.t_setparams(ref.t, p(arr(pv)))
    else:
        prm = lmb.Params()
        for n, v in zip(PARAMS, pv):
            setattr(prm, n, v)
        if how == 1:
            tr = lmb.Tracker(prm)
        else:
            tr = lmb.Tracker()
            if c.flag():
                tr.params = prm
            else:
                for n, v in zip(PARAMS, pv):
                    setattr(tr.params, n, v)
        ref = Ref(pv)
        prm.r_lim = 0.9  # (the tracker has its own copy)
        del prm
    for n, v in zip(PARAMS, pv):
        check(getattr(tr.params, n) == v, lambda: "params.%s is %r, set to %r" % (n, getattr(tr.params, n), v))
    if runner:
        runner.app.tracker = tr
        c.label("through the application")
    c.note("origin %s params %s" % (fmt(origin), pv))
    truth = [[c.real(-200, 200), c.real(-200, 200), c.real(-3, 3), c.real(-3, 3)] for _ in range(c.integer(1, 4))]
    if c.flag(0.4):  # a close pair, so that clusters are shared
        truth.append([truth[0][0] + c.real(-6, 6), truth[0][1] + c.real(-6, 6), c.real(-3, 3), c.real(-3, 3)])
    now = 0.0
    ids = ({}, {})
    seen = 0
    stale = False
    check(tr.nof_clusters == 0 and tr.cluster_ntargets == [] and tr.cluster_nreports == [] and tr.cluster_nhyps == [], "a new tracker has cluster statistics")
    for step in range(c.integer(2, 6)):
        if step and c.flag(0.85):
            dt = c.pick([1.0, 0.5, 2.0, 0.1])
            if c.flag(0.3):
                pS = c.pick([1.0, 0.9, 0.99])
                if c.flag(0.3):
                    m, Q = lmb.NM(), np.zeros((4, 4))
                    m.pS = pS
                else:
                    Q = spd(c, 4, 0.01, 0.5)
                    if c.flag():
                        m = lmb.NM(pS, Q)
                    else:
                        m = lmb.NM(0.1, np.eye(4))
                        m.pS, m.Q = pS, shape2(c, Q)
                R.t_nm(ref.t, d(pS), p(arr(Q)), d(now + dt), d(now))
                c.note("NM(pS=%g Q~%.3g) %g->%g" % (pS, Q[0, 0], now, now + dt))
            else:
                pS, q = c.pick([1.0, 0.9, 0.99]), c.pick([1.0, 0.1, 0.5])
                if c.flag(0.3):
                    m = lmb.CV(q=q, pS=pS)
                elif c.flag(0.3):
                    m = lmb.CV()
                    m.q, m.pS = q, pS
                elif c.flag(0.3):
                    m = lmb.CV(pS)
                    q = 1.0
                else:
                    m = lmb.CV(pS, q)
                R.t_cv(ref.t, d(pS), d(q), d(now + dt), d(now))
                c.note("CV(%g,%g) %g->%g" % (pS, q, now, now + dt))
            r = runner(runner.app.predict(m, now + dt, now)) if runner else tr.predict(m, now + dt, now)
            check(r is None, "predict returned something")
            for t in truth:
                t[0] += t[2] * dt
                t[1] += t[3] * dt
            now += dt
            compare(c, tr, ref, ids, origin, runner, "after prediction at %g" % now, stale)
        # a correction
        s = lmb.PositionSensor()
        away = c.flag(0.1)
        lo, hi = (origin + 5 if away else origin - 1), (origin + 6 if away else origin + 1)
        k = c.draw(3)
        corners = np.array([[hi[0], hi[0], lo[0], lo[0]], [hi[1], lo[1], lo[1], hi[1]]])
        if k == 0:
            s.fov = lmb.BBox(lmb.AABBox(lo[0], lo[1], hi[0], hi[1]))
        elif k == 1:
            s.fov = lmb.BBox(shape2(c, corners))
        else:
            s.fov.corners = corners
        check(same(s.fov.corners, corners), lambda: "field of view %s, set to %s" % (fmt(s.fov.corners), fmt(corners)))
        lB, pD, kap = c.pick([1.0, 0.2, 3.0]), c.pick([0.9, 0.5, 0.99]), c.scale(1e-5, 1e-2)
        pvm = spd(c, 2, 0.5, 4) if c.flag() else np.eye(2)
        s.lambdaB, s.pD, s.kappa = lB, pD, kap
        if c.flag() or not np.array_equal(pvm, np.eye(2)):
            s.pv = shape2(c, pvm)
        reports, zs, Ps, ks = [], [], [], []
        nes = [(t[0] + c.real(-1, 1), t[1] + c.real(-1, 1)) for t in truth if c.flag(0.85)]
        nes += [(c.real(-250, 250), c.real(-250, 250)) for _ in range(c.draw(3))]
        for ne in nes:
            z = np.array(cf.ne2ll(np.array(ne), origin)).ravel()
            P = spd(c, 2, 0.3, 8)
            h = c.draw(3)
            if h == 0:
                rep, kk = lmb.GaussianReport(s, shape1(c, z), shape2(c, P)), kap
            elif h == 1:
                kk = c.scale(1e-5, 1e-2)
                rep = lmb.GaussianReport(shape1(c, z), shape2(c, P), kk)
            else:
                kk = c.scale(1e-5, 1e-2)
                rep = lmb.GaussianReport(state=z, cov=np.eye(2))
                rep.x, rep.P, rep.kappa = z, P, kk
            reports.append(rep)
            zs.append(z), Ps.append(P), ks.append(kk)
        c.note("Z[pD=%g lB=%g%s %d reports: %s]" % (pD, lB, " away" if away else "", len(nes), " ".join("(%.4g %.4g)" % a for a in nes)))
        res = runner(runner.app.correct(s, reports, now)) if runner else tr.correct(s, reports, now)
        cid = (ctypes.c_int * 64)()
        R.t_correct(ref.t, p(arr(corners)), p(arr([lB, pD, kap])), p(arr(pvm)), len(nes), p(arr(zs)), p(arr(Ps)), p(arr(ks)), d(now), cid)
        check(isinstance(res, list) and len(res) == len(nes), "correct did not return the scan")
        for i, (a, b) in enumerate(zip(res, reports)):
            check(isinstance(a, lmb.GaussianReport) and a.kappa == ks[i] and same(np.ravel(b.x), zs[i]) and same(b.P, Ps[i]), "a report passed to correct was altered")
            check(np.abs(np.ravel(a.x) - zs[i]).max() < 1e-9 and close(a.P, Ps[i]), "a returned report is not the one given")
        rcid = [a.cid for a in res]
        partition(rcid, [cid[i] for i in range(len(nes))], "reports")
        check(len(set(rcid) & set(range(tr.nof_clusters))) == len(set(rcid)), "a report's cluster does not exist")
        st = list(zip(tr.cluster_ntargets, tr.cluster_nreports, tr.cluster_nhyps))
        rst = ref.stats()
        check(len(tr.cluster_ntargets) == len(tr.cluster_nreports) == len(tr.cluster_nhyps) == tr.nof_clusters == R.t_nclusters(ref.t), lambda: "cluster counts: nof_clusters %d, statistics %s" % (tr.nof_clusters, st))
        if any(h >= 10000 for _, _, h in rst):
            raise Discard()  # near the hypothesis limit
        check(sorted(st) == sorted(rst), lambda: "cluster statistics (targets, reports, hypotheses) %s, C++ %s" % (sorted(st), sorted(rst)))
        for i, k in enumerate(rcid):
            check(tr.cluster_nreports[k] == rcid.count(k), "cluster_nreports is not the number of reports with that cluster id")
        if any(a for a, _, _ in st):
            c.label("targets corrected")
            seen += 1
        stale = away  # targets that were not corrected keep the cluster of an earlier correction
        compare(c, tr, ref, ids, origin, runner, "after correction at %g" % now, stale, rcid, [cid[i] for i in range(len(nes))])
    if seen:
        c.nontrivial()


def compare(c, tr, ref, ids, origin, runner, what, stale, rcid=(), ref_rcid=()):
    ask = (lambda name, *a: runner(getattr(runner.app, name)(*a))) if runner else (lambda name, *a: getattr(tr, name)(*a))
    pt = ask("get_targets")
    rt = ref.targets()
    pairs = match(pt, rt, ids, what)
    if not stale:
        partition([t.cid for t, _ in pairs] + list(rcid), [q["cid"] for _, q in pairs] + list(ref_rcid), what)
    check(abs(ask("enof_targets") - R.t_enof(ref.t, None)) < 1e-6, what + ": expected number of targets")
    lims = [c.pick([0.7, 0.3, 0.5, 0.05]), 0.7]
    fragile = any(abs(q["r"] - l) < 1e-6 for q in rt for l in lims)
    if not fragile:
        check(ask("nof_targets") == R.t_nof(ref.t, None, d(0), 1), what + ": number of targets")
        check(ask("nof_targets", lims[0]) == R.t_nof(ref.t, None, d(lims[0]), 0), what + ": number of targets with a limit")
        if not runner:
            check(tr.nof_targets(r_lim=lims[0]) == R.t_nof(ref.t, None, d(lims[0]), 0), what + ": number of targets with a limit")
    # a window
    ne = sorted([c.real(-250, 250), c.real(-250, 250)]) + sorted([c.real(-250, 250), c.real(-250, 250)])
    a = np.ravel(cf.ne2ll(np.array([ne[0], ne[2]]), origin))
    b = np.ravel(cf.ne2ll(np.array([ne[1], ne[3]]), origin))
    box = arr([a[0], a[1], b[0], b[1]])
    pb = lmb.AABBox(*box)
    qs = tr.get_targets(pb)
    match(qs, ref.targets(box), ids, what + " in a window")
    if 0 < len(qs) < len(pt):
        c.label("window splits the targets")
    check(abs(ask("enof_targets", pb) - R.t_enof(ref.t, p(box))) < 1e-6, what + ": expected number in a window")
    if not fragile:
        check(ask("nof_targets", pb) == R.t_nof(ref.t, p(box), d(0), 1), what + ": number in a window")
        check(ask("nof_targets", pb, lims[0]) == R.t_nof(ref.t, p(box), d(lims[0]), 0), what + ": number in a window with a limit")
        if not runner:
            check(tr.nof_targets(aabbox=pb, r_lim=lims[0]) == R.t_nof(ref.t, p(box), d(lims[0]), 0), what + ": number in a window with a limit")
    # density over the window: sampled, so compared by mass along both axes
    if c.flag(0.3) and b[0] - a[0] > 1e-5 and b[1] - a[1] > 1e-5:
        nx, ny = c.integer(1, 9), c.integer(1, 9)
        m = np.asarray(tr.pos_phd(pb, np.array([nx, ny])))
        o = np.zeros((nx, ny))
        R.t_phd(ref.t, p(box), nx, ny, p(o))
        check(m.shape == (nx, ny), lambda: "density has shape %s for %dx%d cells" % (m.shape, nx, ny))
        lim = 0.2 * len(pt) + 1e-9
        for ax in (0, 1):
            check(np.abs(np.cumsum(m.sum(axis=ax)) - np.cumsum(o.sum(axis=ax))).max() < lim, what + ": density")
        c.label("density")
    # scores
    n = c.draw(4)
    xs = [np.concatenate((np.ravel(cf.ne2ll(np.array([c.real(-200, 200), c.real(-200, 200)]), origin)), [c.real(-2, 2), c.real(-2, 2)])) for _ in range(n)]
    xs += [q["x"] + np.array([c.real(-1e-5, 1e-5), c.real(-1e-5, 1e-5), 0, 0]) for q in rt[:2]]
    cc, pp = c.pick([1.0, 10.0, 100.0]), c.pick([1.0, 2.0])
    for g, name in ((0, "ospa"), (1, "gospa")):
        s = getattr(tr, name)([shape1(c, x) for x in xs], cc, pp)
        r = R.t_score(ref.t, g, p(arr(xs)), len(xs), d(cc), d(pp))
        check(abs(s - r) < 1e-4 * (1 + abs(r)), lambda: "%s: %s is %.9g, C++ %.9g" % (what, name, s, r))
    match(tr.get_targets(), ref.targets(), ids, what + " and scoring")


# ------------------------------------------------------------ attributes
BUF = 20000


def text(f, *a):
    o = ctypes.create_string_buffer(BUF)
    f(*a, o, BUF)
    return o.value.decode()


def sym(c, n):
    M = np.array([[c.any_double() for _ in range(n)] for _ in range(n)])
    return M


def target(c):
    """A target summary with arbitrary content (through its pickle interface) or from a tracker."""
    x, P = np.array([c.any_double() for _ in range(4)]), sym(c, 4)
    st = (x, P, c.any_double(), c.draw(1 << 32), c.draw(1 << 32))
    t = lmb.Target.__new__(lmb.Target)
    t.__setstate__(st)
    return t, st


def eq_target(t, st):
    return same(np.ravel(t.x), st[0]) and same(t.P, st[1]) and same(t.r, st[2]) and t.id == st[3] and t.cid == st[4]


def attributes(c):
    k = c.draw(9)
    org = np.array([c.real(-70, 70), c.real(-170, 170)])
    if k == 0:
        c.label("Params")
        o, v0 = lmb.Params(), np.zeros(8)
        R.params_default(p(v0))
        cur = dict(zip(PARAMS, v0))
        for _ in range(c.integer(0, 10)):
            n, v = c.pick(PARAMS), c.any_double()
            c.note("%s=%r" % (n, v))
            setattr(o, n, v)
            cur[n] = v
        for n in PARAMS:
            check(same(getattr(o, n), cur[n]), lambda: "Params.%s is %r, expected %r" % (n, getattr(o, n), cur[n]))
        t, ref = lmb.Tracker(o), Ref([cur[n] for n in PARAMS])
        got = np.zeros(8)
        R.t_getparams(ref.t, p(got))
        for i, n in enumerate(PARAMS):
            check(same(getattr(t.params, n), got[i]), "Tracker.params." + n)
    elif k == 1:
        c.label("PositionSensor")
        o = lmb.PositionSensor()
        fov, s, pv = np.zeros((2, 4)), np.zeros(3), np.zeros((2, 2))
        R.sensor_default(p(fov), p(s), p(pv))
        cur = {"lambdaB": s[0], "pD": s[1], "kappa": s[2]}
        for _ in range(c.integer(0, 8)):
            n = c.pick(["lambdaB", "pD", "kappa", "pv", "fov"])
            if n == "pv":
                pv = sym(c, 2)
                o.pv = shape2(c, pv)
            elif n == "fov":
                fov = np.array([[c.any_double() for _ in range(4)] for _ in range(2)])
                if c.flag():
                    o.fov = lmb.BBox(fov)
                else:
                    o.fov.corners = fov
            else:
                cur[n] = c.any_double()
                setattr(o, n, cur[n])
            c.note(n)
        for n in cur:
            check(same(getattr(o, n), cur[n]), "PositionSensor." + n)
        check(same(o.pv, pv) and same(o.fov.corners, fov), "PositionSensor.pv or fov")
    elif k == 2:
        c.label("models")
        v, Q, w = np.zeros(1), np.zeros((4, 4)), np.zeros(2)
        R.nm_default(p(v), p(Q)), R.cv_default(p(w))
        o = lmb.NM()
        check(same(o.pS, v[0]) and same(o.Q, Q), "NM()")
        a, M = c.any_double(), sym(c, 4)
        o = lmb.NM(a, shape2(c, M))
        check(same(o.pS, a) and same(o.Q, M), "NM(pS, Q)")
        b = c.any_double()
        o.pS = b
        check(same(o.pS, b) and same(o.Q, M), "NM.pS")
        M = sym(c, 4)
        o.Q = M
        check(same(o.pS, b) and same(o.Q, M), "NM.Q")
        o = lmb.CV()
        check(same([o.pS, o.q], w), "CV()")
        a, b = c.any_double(), c.any_double()
        for o in (lmb.CV(a, b), lmb.CV(q=b, pS=a), lmb.CV(a, q=b)):
            check(same([o.pS, o.q], [a, b]), "CV(pS, q)")
        o = lmb.CV(a)
        check(same([o.pS, o.q], [a, w[1]]), "CV(pS)")
        o = lmb.CV(q=b)
        check(same([o.pS, o.q], [w[0], b]), "CV(q=)")
        o.pS = a
        check(same([o.pS, o.q], [a, b]), "CV.pS")
        o.q = w[0]
        check(same([o.pS, o.q], [a, w[0]]), "CV.q")
    elif k == 3:
        c.label("BBox")
        o, e = lmb.BBox(), np.zeros((2, 4))
        R.b_default(p(e))
        check(same(o.corners, e), "BBox()")
        v = arr([c.any_double() for _ in range(4)])
        ab, w = lmb.AABBox(*v), np.zeros(4)
        R.a_new(p(v), p(w))
        R.b_from_aab(p(w), p(e))
        check(same(lmb.BBox(ab).corners, e), "BBox(AABBox)")
        M = np.array([[c.any_double() for _ in range(4)] for _ in range(2)])
        o = lmb.BBox(shape2(c, M))
        check(same(o.corners, M), "BBox(corners)")
        M[c.draw(2), c.draw(4)] = c.any_double()
        o.corners = M
        check(same(o.corners, M), "BBox.corners")
        R.b_aabbox(p(arr(M)), p(w))
        a = o.aabbox()
        check(isinstance(a, lmb.AABBox) and same(list(a.min) + list(a.max), w), "BBox.aabbox")
        check(repr(o) == text(R.b_repr, p(arr(M))), "repr of BBox")
        check(json.loads(repr(o))["type"] == "BBox", "repr of BBox")
        M = np.array([[org[0] + c.real(-1, 1) for _ in range(4)], [org[1] + c.real(-1, 1) for _ in range(4)]])
        o.corners = M
        R.b_nebbox(p(arr(M)), p(org), p(e))
        check(close(o.nebbox(shape1(c, org)).corners, e), "BBox.nebbox")
        check(same(o.corners, M), "nebbox changed the box")
    elif k == 4:
        c.label("AABBox")
        o, w = lmb.AABBox(), np.zeros(4)
        R.a_default(p(w))
        check(same(list(o.min) + list(o.max), w), "AABBox()")
        v = arr([c.any_double() for _ in range(4)])
        o = lmb.AABBox(*v)
        R.a_new(p(v), p(w))
        check(same(list(o.min) + list(o.max), w), "AABBox(...)")
        check(repr(o) == text(R.a_repr, p(w)), "repr of AABBox")
        a, b = [c.any_double(), c.any_double()], [c.any_double(), c.any_double()]
        o.min = a
        check(same(o.min, a) and same(o.max, w[2:]), "AABBox.min")
        o.max = b
        check(same(o.min, a) and same(o.max, b), "AABBox.max")
        v = arr([org[0] + c.real(-1, 1), org[1] + c.real(-1, 1), org[0] + c.real(-1, 1), org[1] + c.real(-1, 1)])
        o = lmb.AABBox(*v)
        R.a_new(p(v), p(w))
        e = np.zeros(4)
        R.a_ne(p(w), p(org), p(e))
        q = o.neaabbox(shape1(c, org))
        check(close(list(q.min) + list(q.max), e), "AABBox.neaabbox")
        v = arr([c.real(-9000, 9000) for _ in range(4)])
        o = lmb.AABBox(*v)
        R.a_new(p(v), p(w))
        R.a_ll(p(w), p(org), p(e))
        q = o.llaabbox(shape1(c, org))
        check(close(list(q.min) + list(q.max), e), "AABBox.llaabbox")
    elif k == 5:
        c.label("Gaussian")
        x, P, w = np.array([c.any_double() for _ in range(4)]), sym(c, 4), c.any_double()
        o = lmb.Gaussian(shape1(c, x), shape2(c, P))
        check(same(np.ravel(o.m), x) and same(o.P, P) and o.w == 1, "Gaussian(state, cov)")
        o = lmb.Gaussian(w=w, cov=P, state=x) if c.flag() else lmb.Gaussian(x, P, w)
        check(same(np.ravel(o.m), x) and same(o.P, P) and same(o.w, w), "Gaussian(state, cov, w)")
        for _ in range(c.integer(1, 3)):
            j = c.draw(3)
            if j == 0:
                w = c.any_double()
                o.w = w
            elif j == 1:
                x = np.array([c.any_double() for _ in range(4)])
                o.m = shape1(c, x)
            else:
                P = sym(c, 4)
                o.P = shape2(c, P)
            check(same(np.ravel(o.m), x) and same(o.P, P) and same(o.w, w), "Gaussian attributes after setting one")
        check(repr(o) == text(R.g_repr, p(arr(x)), p(arr(P)), d(w)), "repr of Gaussian")
        j = json.loads(repr(o))
        check(near(np.array(j["x"]).ravel(), x) and near(j["P"], P), "repr of Gaussian")
    elif k == 6:
        c.label("GaussianReport")
        x, P, kp = np.array([c.any_double(), c.any_double()]), sym(c, 2), c.any_double()
        o = lmb.GaussianReport(shape1(c, x), shape2(c, P))
        check(same(np.ravel(o.x), x) and same(o.P, P) and o.kappa == 1 and o.cid == 0, "GaussianReport(state, cov)")
        s = lmb.PositionSensor()
        s.kappa = kp
        s.pD, s.lambdaB = c.any_double(), c.any_double()
        for o in (lmb.GaussianReport(x, P, kp), lmb.GaussianReport(kappa=kp, state=x, cov=P), lmb.GaussianReport(s, x, P), lmb.GaussianReport(cov=P, state=x, sensor=s)):
            check(same(np.ravel(o.x), x) and same(o.P, P) and same(o.kappa, kp) and o.cid == 0, "GaussianReport constructors")
        s.kappa = 0.125
        check(same(o.kappa, kp), "a report's kappa follows the sensor")
        for _ in range(c.integer(1, 3)):
            j = c.draw(3)
            if j == 0:
                kp = c.any_double()
                o.kappa = kp
            elif j == 1:
                x = np.array([c.any_double(), c.any_double()])
                o.x = shape1(c, x)
            else:
                P = sym(c, 2)
                o.P = shape2(c, P)
            check(same(np.ravel(o.x), x) and same(o.P, P) and same(o.kappa, kp) and o.cid == 0, "GaussianReport attributes after setting one")
        check(repr(o) == text(R.r_repr, p(arr(x)), p(arr(P)), d(kp)), "repr of GaussianReport")
        x, P, n, e = org + np.array([c.real(-1, 1), c.real(-1, 1)]), spd(c, 2, 0.01, 100), c.scale(0.1, 10), np.zeros((2, 4))
        o = lmb.GaussianReport(x, P)
        R.r_nebbox(p(arr(x)), p(arr(P)), p(org), d(n), 0, p(e))
        check(close(o.nebbox(org, n).corners, e, 1e-8) and close(o.nebbox(nstd=n, origin=shape1(c, org)).corners, e, 1e-8), "GaussianReport.nebbox")
        R.r_nebbox(p(arr(x)), p(arr(P)), p(org), d(0), 1, p(e))
        check(close(o.nebbox(org).corners, e, 1e-8), "GaussianReport.nebbox default")
        try:
            o.cid = 3
            raise Fail("GaussianReport.cid is writable")
        except AttributeError:
            pass
    elif k == 7:
        c.label("Target")
        t, st = target(c)
        check(eq_target(t, st), "Target attributes")
        for n in ("x", "P", "r", "id", "cid"):
            try:
                setattr(t, n, getattr(t, n))
                raise Fail("Target.%s is writable" % n)
            except AttributeError:
                pass
        check(repr(t) == text(R.s_repr, p(arr(st[0])), p(arr(st[1])), d(st[2]), ctypes.c_int(st[3] - (1 << 32) if st[3] >> 31 else st[3]), ctypes.c_int(st[4] - (1 << 32) if st[4] >> 31 else st[4])), "repr of Target")
        x = np.concatenate((org + np.array([c.real(-1, 1), c.real(-1, 1)]), [1, 2]))
        P = spd(c, 4, 0.01, 100)
        n, e = c.scale(0.1, 10), np.zeros((2, 4))
        t = lmb.Target.__new__(lmb.Target)
        t.__setstate__((x, P, 0.5, 1, 2))
        R.s_nebbox(p(arr(x)), p(arr(P)), p(org), d(n), 0, p(e))
        check(close(t.nebbox(org, n).corners, e, 1e-8) and close(t.nebbox(nstd=n, origin=shape1(c, org)).corners, e, 1e-8), "Target.nebbox")
        R.s_nebbox(p(arr(x)), p(arr(P)), p(org), d(0), 1, p(e))
        check(close(t.nebbox(org).corners, e, 1e-8), "Target.nebbox default")
    else:
        c.label("views")
        # arrays obtained from an object stay valid when the object is gone
        x, P = np.array([c.any_double(), c.any_double()]), sym(c, 2)
        vs = []
        for _ in range(c.integer(1, 20)):
            o = lmb.GaussianReport(x, P)
            vs.append((o.x, o.P))
            b = lmb.BBox(np.arange(8.0).reshape(2, 4))
            t, st = target(c) if c.flag(0.2) else (None, None)
            vs.append((np.ravel(lmb.Tracker().params.r_lim), None))
            if t:
                tx, tP = t.x, t.P
                del t
                gc.collect()
                check(same(np.ravel(tx), st[0]) and same(tP, st[1]), "array of a collected Target")
            del o, b
        gc.collect()
        junk = [lmb.GaussianReport(x * 0 + 7, P * 0 + 7) for _ in range(20)]
        for a, b in vs[::2]:
            check(same(np.ravel(a), x) and same(b, P), "array of a collected report")
        prm = lmb.Tracker(lmb.Params()).params
        gc.collect()
        check(prm.nhyp_max == 100, "params of a collected tracker")
        del junk
    c.nontrivial()


# ------------------------------------------------------------ pickling
def pickling(c):
    proto = c.integer(2, 5)
    k = c.draw(5)
    trip = [lambda o: pickle.loads(pickle.dumps(o, protocol=proto)), copy.copy, copy.deepcopy,
            lambda o: pickle.loads(pickle.dumps({"a": [o, (o,)]}, protocol=proto))["a"][1][0]][c.draw(4)]
    c.note("protocol %d" % proto)
    c.nontrivial()
    if k == 0:
        c.label("pickle Target")
        t, st = target(c)
        q = trip(t)
        check(type(q) is lmb.Target and eq_target(q, st) and eq_target(t, st), lambda: "target %s became %s" % (t, q))
        check(q is not t, "same object")
        q = trip(q)
        check(eq_target(q, st), "second round trip")
    elif k == 1:
        c.label("pickle report")
        # reports with a cluster id come from a correction
        tr, s = lmb.Tracker(), lmb.PositionSensor()
        s.fov = lmb.BBox(lmb.AABBox(-1, -1, 1, 1))
        n = c.integer(1, 5)
        rs = [lmb.GaussianReport(np.array([c.real(-0.5, 0.5), c.real(-0.5, 0.5)]), spd(c, 2, 0.01, 10), c.scale(1e-6, 1)) for _ in range(n)]
        rs = tr.correct(s, rs, 0.0)
        if c.flag():
            for r in rs:
                r.x, r.P, r.kappa = np.array([c.any_double(), c.any_double()]), sym(c, 2), c.any_double()
        for a, b in zip(rs, trip(rs)):
            check(type(b) is lmb.GaussianReport and same(a.x, b.x) and same(a.P, b.P) and same(a.kappa, b.kappa) and a.cid == b.cid and type(b.cid) is int, lambda: "report %s cid %d kappa %r became %s cid %d kappa %r" % (a, a.cid, a.kappa, b, b.cid, b.kappa))
        # and they still work
        tr2 = lmb.Tracker()
        tr2.correct(s, [trip(r) for r in rs if np.abs(r.x).max() < 0.6 and np.allclose(r.P, r.P.T)][:1], 0.0)
    elif k == 2:
        c.label("pickle BBox")
        M = np.array([[c.any_double() for _ in range(4)] for _ in range(2)])
        q = trip(lmb.BBox(M))
        check(type(q) is lmb.BBox and same(q.corners, M), lambda: "box %s became %s" % (fmt(M), fmt(q.corners)))
    elif k == 3:
        c.label("pickle AABBox")
        o = lmb.AABBox(*[c.any_double() for _ in range(4)])
        q = trip(o)
        check(type(q) is lmb.AABBox and same(q.min, o.min) and same(q.max, o.max), lambda: "box %s became %s" % (o, q))
    else:
        c.label("pickle: bad state")
        cls, n = c.pick([(lmb.Target, 5), (lmb.GaussianReport, 4), (lmb.BBox, 8), (lmb.AABBox, 4)])
        m = c.pick([i for i in range(10) if i != n])
        o = cls.__new__(cls)
        try:
            o.__setstate__(tuple(0.0 for _ in range(m)))
            raise Fail("%s accepted a state of %d elements" % (cls.__name__, m))
        except RuntimeError:
            pass


# ------------------------------------------------------------ coordinate functions
CF = [("nedrot", 3, 0), ("lla2ecef", 3, 0), ("ecef2ned", 3, 3), ("lla2ned", 3, 3), ("ecef2lla", 3, 0), ("ned2ecef", 3, 3), ("ned2lla", 3, 3),
      ("nerot", 2, 0), ("ll2ecef", 2, 0), ("ecef2ne", 3, 2), ("ll2ne", 2, 2), ("ecef2ll", 3, 0), ("ne2ecef", 2, 2), ("ne2ll", 2, 2)]


def coordinates(c):
    i = c.draw(len(CF))
    name, na, nb = CF[i]
    src = name.split("2")[0]
    ll = lambda n: [c.real(-89, 89), c.real(-179, 179), c.real(-500, 12000)][:n]  # noqa
    if src in ("lla", "ll", "nedrot", "nerot"):
        a = np.array(ll(na))
    elif src == "ecef":
        a = np.ravel(cf.lla2ecef(np.array(ll(3))))
    else:
        a = np.array([c.real(-30000, 30000) for _ in range(na)])
    b = np.array(ll(nb)) if nb else None
    args = [shape1(c, a)] + ([shape1(c, b)] if nb else [])
    c.note("%s(%s%s)" % (name, fmt(a), ", " + fmt(b) if nb else ""))
    got = np.asarray(getattr(cf, name)(*args))
    o = np.zeros(9)
    k = R.f(i, p(arr(a)), p(arr(b)) if nb else None, p(o))
    rows, cols = k // 10, k % 10
    want = o[:rows * cols].reshape((rows, cols) if cols > 1 else (rows,))
    check(got.shape == want.shape or got.shape == (rows, cols), lambda: "%s has shape %s, C++ %s" % (name, got.shape, want.shape))
    check(np.all(np.abs(got.ravel() - want.ravel()) <= 1e-8 * (1 + np.abs(want.ravel()).max() * 1e-6)), lambda: "%s: %s, C++ %s" % (name, fmt(got), fmt(want)))
    check(same(arr(a), arr(args[0])), "the argument was changed")
    c.label(name)
    c.nontrivial()


# ------------------------------------------------------------ boxes of Gaussians
def gaussians(c):
    P, m, n, e = spd(c, 2, 0.01, 100), np.array([c.real(-100, 100), c.real(-100, 100)]), c.scale(0.1, 10), np.zeros((2, 4))
    b = lmb.BBox()
    corners = b.corners.copy()
    try:  # bound as a method taking the mean and the covariance
        lmb.BBox.from_gaussian(b, m, P, n)
    except TypeError:
        raise Fail("BBox.from_gaussian cannot be called")
    R.b_gauss(p(m), p(arr(P)), d(n), p(e))
    check(not same(b.corners, corners), "BBox.from_gaussian did nothing")
    check(close(b.corners, e), lambda: "BBox.from_gaussian: %s, C++ %s" % (fmt(b.corners), fmt(e)))
    b = lmb.BBox()
    b.from_gaussian(cov=P, mean=m)
    R.b_gauss(p(m), p(arr(P)), d(2.0), p(e))
    check(close(b.corners, e), "BBox.from_gaussian default")
    c.label("from_gaussian")
    c.nontrivial()


# ------------------------------------------------------------ application and errors
class Boom(Exception):
    pass


class Fake:
    """Stands in for a tracker: echoes calls, or raises."""

    def __init__(self, result, error):
        self.result, self.error, self.calls = result, error, []

    def __getattr__(self, name):
        def f(*a):
            self.calls.append((name, a))
            if self.error:
                raise self.error
            return self.result
        return f


def application(c):
    L = Loop()
    try:
        app = L.app
        check(inspect.iscoroutinefunction(app.predict), "predict is not a coroutine")
        name, n, fixed = c.pick([("predict", 3, True), ("correct", 3, True), ("get_targets", 0, True), ("enof_targets", c.draw(2), False), ("nof_targets", c.draw(3), False)])
        args = [object() for _ in range(n)]
        res = c.pick([None, 0, 1.5, [], [object()], object(), "text", float("nan")])
        err = c.pick([None, None, Boom("x"), ValueError("y"), TypeError(), RuntimeError("z")])
        app.tracker = Fake(res, err)
        c.note("%s with %d arguments, result %r, error %r" % (name, n, res, err))
        try:
            got = L(getattr(app, name)(*args))
            check(err is None, lambda: "%s swallowed %r and returned %r" % (name, err, got))
            check(got is res, lambda: "%s returned %r, the tracker %r" % (name, got, res))
        except Fail:
            raise
        except Exception as e:
            check(e is err, lambda: "%s raised %r, the tracker %r" % (name, e, err))
        check(app.tracker.calls == [(name, tuple(args))], lambda: "%s called %r" % (name, app.tracker.calls))
        # several at once: each gets its own result
        m = c.integer(2, 6)
        vals = [object() for _ in range(m)]
        fakes = [Fake(v, Boom(str(i)) if c.flag(0.3) else None) for i, v in enumerate(vals)]

        async def many():
            out = []
            for f in fakes:
                out.append(app._get(f.anything, 1, 2))
            return await asyncio.gather(*out, return_exceptions=True)
        for f, v in zip(fakes, L(many())):
            check(v is (f.error or f.result), "concurrent calls got each other's results")
        # the density sample
        app.tracker = lmb.Tracker()
        app.region = lmb.AABBox(-0.01, -0.01, 0.01, 0.01)
        nx, ny = c.integer(1, 8), c.integer(1, 8)
        app.phdsize = np.array([nx, ny])
        add = c.pick([0.0, 0.25, 3.0])
        app.unknown = add if c.flag() else np.full((nx, ny), add)
        phd = L(app.sample_phd())
        check(np.shape(phd) == (nx, ny) and np.all(phd == add), lambda: "sample_phd of an empty tracker: %s" % fmt(phd))
        if c.flag():
            s = lmb.PositionSensor()
            s.fov = lmb.BBox(lmb.AABBox(-1, -1, 1, 1))
            app.tracker.correct(s, [lmb.GaussianReport(np.zeros(2), np.eye(2))], 0.0)
            r = app.tracker.enof_targets()
            phd = L(app.sample_phd())
            check(abs(phd.sum() - r - add * nx * ny) < 1e-6, "sample_phd does not add up to the expected number of targets")
        for coro in (app.scans(), app.run()):
            try:
                L(coro)
                raise Fail("an abstract method did nothing")
            except NotImplementedError:
                pass
        c.label("application " + name + (" error" if err else ""))
        c.nontrivial()
    finally:
        L.close()


def errors(c):
    """Calls with arguments of the wrong shape or type raise and change nothing."""
    tr, s = lmb.Tracker(), lmb.PositionSensor()
    s.fov = lmb.BBox(lmb.AABBox(-1, -1, 1, 1))
    rep = lmb.GaussianReport(np.zeros(2), np.eye(2))
    tr.correct(s, [rep, lmb.GaussianReport(np.array([0.1, 0.1]), np.eye(2))], 0.0)
    before = [repr(t) for t in tr.get_targets()]
    calls = {
        "report of 3 coordinates": lambda: lmb.GaussianReport(np.zeros(3), np.eye(2)),
        "report with a 3x3 covariance": lambda: lmb.GaussianReport(np.zeros(2), np.eye(3)),
        "report x": lambda: setattr(rep, "x", np.zeros(4)),
        "report P": lambda: setattr(rep, "P", np.zeros((2, 3))),
        "NM": lambda: lmb.NM(1.0, np.eye(3)),
        "CV": lambda: lmb.CV("a"),
        "correct without scan": lambda: tr.correct(s, None, 0.0),
        "correct with a wrong element": lambda: tr.correct(s, [rep, 1], 0.0),
        "correct without sensor": lambda: tr.correct(None, [rep], 0.0),
        "predict": lambda: tr.predict(s, 1.0, 0.0),
        "predict None": lambda: tr.predict(None, 1.0, 0.0),
        "get_targets": lambda: tr.get_targets(3),
        "enof_targets": lambda: tr.enof_targets("x"),
        "nof_targets": lambda: tr.nof_targets("x"),
        "ospa": lambda: tr.ospa([np.zeros(3)], 1.0, 2.0),
        "gospa": lambda: tr.gospa([np.zeros(2)], 1.0, 2.0),
        "pos_phd": lambda: tr.pos_phd(lmb.AABBox(0, 0, 1, 1), np.array([1, 2, 3])),
        "BBox": lambda: lmb.BBox(np.zeros((4, 2))),
        "AABBox": lambda: lmb.AABBox(1, 2, 3),
        "AABBox.min": lambda: setattr(lmb.AABBox(), "min", [1, 2, 3]),
        "ll2ne": lambda: cf.ll2ne(np.zeros(3), np.zeros(2)),
        "params": lambda: setattr(tr, "params", 3),
        "nof_clusters": lambda: setattr(tr, "nof_clusters", 3),
        "cluster_nhyps": lambda: setattr(tr, "cluster_nhyps", []),
    }
    for _ in range(c.integer(1, 6)):
        n = c.pick(sorted(calls))
        c.note(n)
        try:
            calls[n]()
            raise Fail("no error from: " + n)
        except (TypeError, AttributeError, ValueError):
            pass
    check([repr(t) for t in tr.get_targets()] == before and same(np.ravel(rep.x), [0, 0]) and same(rep.P, np.eye(2)), "a rejected call changed something")
    c.label("errors")
    c.nontrivial()


def prop(c):
    k = c.draw(20)
    (scenario if k < 9 else attributes if k < 13 else pickling if k < 15 else coordinates if k < 17 else gaussians if k < 18 else application if k < 19 else errors)(c)


RULE = ("Scenarios of 2-6 corrections with predictions of either model, random parameters, sensors and reports built through every constructor "
        "and setter, run through the Python module (directly or through the asynchronous application) and through the C++ tracker: targets, ids over "
        "time, clusters, statistics, counts with and without a window or limit, density and scores must agree after every step; every exposed attribute "
        "set and read back bit for bit; objects through pickle protocols 2-5 and copy; coordinate functions, boxes and printed forms against C++; "
        "results and errors through the application; calls with wrong arguments. Non-trivial: a scenario corrected an existing target, or the other kinds ran to their end.")

if __name__ == "__main__":
    sys.exit(pbt.main("C28", prop, 16000, RULE, ["positions away from poles and the antimeridian", "sampled densities are compared by mass along the axes"], 160000, limit=60, t0=T0))
