"""C30: plots show the estimates where and as they are."""
import asyncio
import json
import math
import os
import sys
import time
import types
import warnings

T0 = time.time()
V = os.environ["VERIF_DIR"]
sys.path.insert(0, V + "/lib")
import pbt_py as pbt  # noqa
from pbt_py import check, Discard, Fail  # noqa
import pybuild  # noqa
import numpy as np  # noqa
import matplotlib  # noqa
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa
from matplotlib.patches import Ellipse, Polygon, Rectangle  # noqa
from matplotlib.image import AxesImage  # noqa

D = pybuild.package()
sys.path.insert(0, D)
import lmb  # noqa
import clmb  # noqa
warnings.simplefilter("ignore")
check(os.path.dirname(lmb.__file__) == D + "/lmb", "wrong module")

A, F = 6378137.0, 1 / 298.257223563
E2 = F * (2 - F)


def ecef(ll):
    la, lo = np.radians(ll[0]), np.radians(ll[1])
    n = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
    return np.array([n * math.cos(la) * math.cos(lo), n * math.cos(la) * math.sin(lo), n * (1 - E2) * math.sin(la)])


def ne(ll, origin):
    """North and east of a point seen from the origin (own implementation)."""
    la, lo = np.radians(origin[0]), np.radians(origin[1])
    d = ecef(ll) - ecef(origin)
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    e = np.array([-math.sin(lo), math.cos(lo), 0])
    return np.array([n @ d, e @ d])


def ll_near(north, east, origin):
    """A latitude and longitude about there."""
    return np.array([origin[0] + north / 111000.0, origin[1] + east / (111000.0 * math.cos(math.radians(origin[0])))])


def fmt(a):
    return np.array2string(np.asarray(a, float), precision=6, separator=",").replace("\n", "")


# ------------------------------------------------------------ what was drawn
def fresh():
    plt.figure(1)
    plt.clf()
    return plt.gca()


def drawn(artist, pts, ax):
    """Where the artist's own points end up, in the axes' data coordinates."""
    return ax.transData.inverted().transform(artist.get_transform().transform(pts))


CIRCLE = np.array([[math.cos(a), math.sin(a)] for a in np.arange(16) * math.pi / 8])


def outline(e, ax):
    return drawn(e, CIRCLE, ax)


def check_ellipse(e, mean_xy, cov_xy, nstd, ax, what):
    """The outline is the nstd contour of the covariance about the mean, in x-y order."""
    pts = outline(e, ax) - mean_xy
    scale = nstd * math.sqrt(np.trace(cov_xy))
    # the precision of the axes' coordinates far from zero
    slack = 1e-6 + 1e-9 * (abs(mean_xy[0]) + abs(mean_xy[1]) + sum(map(abs, ax.get_xlim() + ax.get_ylim()))) / math.sqrt(np.linalg.eigvalsh(cov_xy)[0]) / nstd
    check(np.abs(pts.sum(axis=0) / 16).max() < 1e-6 * scale + 1e-6 + 1e-9 * np.abs(mean_xy).sum(), lambda: "%s: ellipse centred on %s, estimate at %s" % (what, fmt(pts.mean(axis=0) + mean_xy), fmt(mean_xy)))
    q = np.einsum("ij,jk,ik->i", pts, np.linalg.inv(cov_xy), pts) / nstd ** 2
    check(np.abs(q - 1).max() < slack * 10, lambda: "%s: outline at %s of the %g-sigma contour (covariance in x-y %s)" % (what, fmt(np.sqrt(q)), nstd, fmt(cov_xy)))
    # all the way round
    ang = np.unwrap(np.arctan2(pts[:, 1], pts[:, 0]))
    check(abs(abs(ang[-1] - ang[0]) / (2 * math.pi) - 15 / 16) < 0.2, what + ": outline does not go round")


def ellipses(ax):
    return [p for p in list(ax.patches) + list(ax.artists) if isinstance(p, Ellipse)]


def polygons(ax):
    return [p for p in list(ax.patches) + list(ax.artists) if isinstance(p, Polygon)]


def corners(p, ax):
    v = drawn(p, p.get_path().vertices, ax)
    if len(v) == 5 and np.allclose(v[0], v[-1]):
        v = v[:-1]
    return v


def lines(ax):
    return [(np.column_stack([np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()]), l) for l in ax.lines]


def tol(*xs):
    return 1e-5 + 1e-8 * max([0.0] + [float(np.abs(x).max()) for x in xs if np.size(x)])


def take(pool, test, what):
    """Removes and returns the first element that passes."""
    for i, x in enumerate(pool):
        if test(x):
            return pool.pop(i)
    raise Fail(what)


def same_ring(v, w):
    """The same closed outline: equal corners from some start, in either direction."""
    if v.shape != w.shape:
        return False
    t = tol(v, w)
    n = len(v)
    return any(np.abs(np.roll(u, k, axis=0) - w).max() < t for u in (v, v[::-1]) for k in range(n))


def check_gauss_box(pool, mean, cov, nstd, ax, what):
    """One polygon is the rectangle along the covariance's axes, nstd deviations wide (all in x-y)."""
    inv = np.linalg.inv(cov)
    cond = np.linalg.cond(cov)

    def good(p):
        v = corners(p, ax)
        if v.shape != (4, 2):
            return False
        d = v - mean
        sc = math.sqrt(np.trace(cov)) * nstd
        if np.abs(d.sum(axis=0)).max() > 1e-6 * sc + 4 * tol(v):
            return False
        q = np.einsum("ij,jk,ik->i", d, inv, d) / (2 * nstd ** 2)
        slack = 1e-6 * cond + tol(v) * 10 / math.sqrt(np.linalg.eigvalsh(cov)[0]) / nstd
        e1, e2 = v[1] - v[0], v[2] - v[1]
        return np.abs(q - 1).max() < slack and abs(e1 @ inv @ e2) / (4 * nstd ** 2) < slack
    take(pool, good, what)


# ------------------------------------------------------------ generators
def spd2(c, lo=0.01, hi=1e4):
    k = c.draw(5)
    a, b = c.scale(lo, hi), c.scale(lo, hi)
    if k == 0:
        return np.diag([a, b])
    if k == 1:
        return np.eye(2) * a
    if k == 2:  # nearly singular
        b = a * 10 ** c.real(-6, -3)
    t = c.real(-math.pi, math.pi) if k < 4 else c.integer(-8, 8) * math.pi / 4
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    M = R @ np.diag([a, b]) @ R.T
    return (M + M.T) / 2


def flip(M):
    return np.asarray(M)[::-1, ::-1]


def gen_origin(c):
    return np.array([c.real(-70, 70), c.real(-170, 170)])


def gen_cov4(c):
    P = np.eye(4) * c.scale(0.1, 10)
    P[:2, :2] = spd2(c, 0.1, 1000)
    return P


def make_target(c, tid, origin, pos):
    """A target summary with given content."""
    ll = ll_near(pos[0], pos[1], origin)
    P = gen_cov4(c)
    r = c.pick([c.unit(), 0.3, 0.7, 1.0])
    cid = c.draw(9)
    t = lmb.Target.__new__(lmb.Target)
    t.__setstate__((np.array([ll[0], ll[1], c.real(-5, 5), c.real(-5, 5)]), P, r, tid, cid))
    return t


def gen_history(c, origin, fov=True):
    ids = [c.draw(2000) for _ in range(c.integer(0, 4))]
    ids = list(dict.fromkeys(ids))
    pos = {i: [c.real(-3000, 3000), c.real(-3000, 3000)] for i in ids}
    hist = []
    for k in range(c.integer(1, 6)):
        ts = []
        for i in ids:
            pos[i] = [pos[i][0] + c.real(-50, 50), pos[i][1] + c.real(-50, 50)]
            if c.flag(0.8):
                ts.append(make_target(c, i, origin, pos[i]))
        if len(ts) > 1 and c.flag(0.3):
            ts.reverse()
        h = {"targets": ts}
        if fov and c.flag(0.3):
            h["fov"] = lmb.BBox(np.column_stack([ll_near(c.real(-5000, 5000), c.real(-5000, 5000), origin) for _ in range(4)])) if c.flag(0.7) else None
        hist.append(h)
    return hist


def gen_reports(c, origin):
    s, tr = lmb.PositionSensor(), lmb.Tracker()
    s.fov = lmb.BBox(lmb.AABBox(origin[0] - 1, origin[1] - 1, origin[0] + 1, origin[1] + 1))
    rs = [lmb.GaussianReport(ll_near(c.real(-3000, 3000), c.real(-3000, 3000), origin), spd2(c, 0.1, 1000), 0.001) for _ in range(c.integer(0, 5))]
    return tr.correct(s, rs, 0.0) if rs and c.flag(0.7) else rs  # with cluster numbers


def show(c, hist, origin):
    c.note("origin %s" % fmt(origin))
    for h in hist:
        c.note("[" + " ".join("%d(r=%.3g ne=%s P=%s)" % (t.id, t.r, fmt(ne(t.x[:2], origin)), fmt(t.P[:2, :2])) for t in h["targets"]) + (" fov" if h.get("fov") else "") + "]")


# ------------------------------------------------------------ expectations
def expect_scan(reports, origin, ax, pl, el, po, tx, covellipse, draw_bbox, show_id, show_cid):
    for k, r in enumerate(reports):
        p = ne(r.x, origin)[::-1]
        take(pl, lambda q: q[0].shape == (1, 2) and np.abs(q[0][0] - p).max() < tol(p), "no marker at the report at x-y %s" % fmt(p))
        if covellipse:
            near_el(el, p, flip(r.P), 2, ax, "report %d" % k)
        if draw_bbox:
            check_gauss_box(po, p, flip(r.P), 2.0, ax, "no box of the report at x-y %s with covariance %s" % (fmt(p), fmt(r.P)))
        for flag, val in ((show_id, k), (show_cid, r.cid)):
            if flag:
                take(tx, lambda t: t.get_text() == str(val) and np.abs(np.array(t.get_position(), float).ravel() - p).max() < 100, "no label %s at the report at x-y %s" % (val, fmt(p)))


def near_el(pool, p, cov, nstd, ax, what):
    """Finds the ellipse centred there and checks it; several at one place are tried in turn."""
    err = None
    for i, e in enumerate(pool):
        try:
            check_ellipse(e, p, cov, nstd, ax, what)
            pool.pop(i)
            return
        except Fail as f:
            if err is None or "centred" in str(err):
                err = f
    raise err or Fail(what + ": no ellipse")


def expect_tracks(hist, origin, ax, pl, el, po, tx, covellipse, draw_bbox, min_r, r_values, show_id, show_cid):
    if not hist:
        return 0
    fov = hist[-1].get("fov")
    if fov:
        want = np.array([ne(fov.corners[:, j], origin)[::-1] for j in range(4)])
        take(po, lambda q: same_ring(corners(q, ax), want), "the field of view is not drawn at %s" % fmt(want))
    live = [t for t in hist[-1]["targets"] if t.r >= min_r]
    for t in live:
        pts = np.array([ne(u.x[:2], origin)[::-1] for h in hist for u in h["targets"] if u.id == t.id])
        last = pts[-1]
        take(pl, lambda q: q[1].get_linestyle() not in ("None", "") and q[1].get_marker() in ("None", None, "") and q[0].shape == pts.shape and np.abs(q[0] - pts).max() < tol(pts), "no track of target %d along x-y %s" % (t.id, fmt(pts)))
        take(pl, lambda q: q[1].get_marker() not in ("None", None, "") and q[0].shape == (1, 2) and np.abs(q[0][0] - last).max() < tol(last), "no marker at target %d at x-y %s" % (t.id, fmt(last)))
        if covellipse:
            near_el(el, last, flip(t.P[:2, :2]), 2, ax, "target %d" % t.id)
            near_el(el, last, flip(t.P[:2, :2]), 2, ax, "target %d" % t.id)
        if draw_bbox:
            check_gauss_box(po, last, flip(t.P[:2, :2]), 2.0, ax, "no box of target %d at x-y %s with covariance %s" % (t.id, fmt(last), fmt(t.P[:2, :2])))
        for flag, val in ((r_values, "{0:.2f}".format(t.r)), (show_id, str(t.id)), (show_cid, str(t.cid))):
            if flag:
                take(tx, lambda q: q.get_text() == val and np.abs(np.array(q.get_position(), float).ravel() - last).max() < 100, "no label %s at target %d" % (val, t.id))
    return len(live)


def nothing_left(pl, el, po, tx, what):
    for n, p in (("lines", pl), ("ellipses", el), ("boxes", po), ("labels", tx)):
        check(not p, lambda: "%s: %d more %s than what there is to show" % (what, len(p), n))


def pools(ax):
    return lines(ax), ellipses(ax), polygons(ax), list(ax.texts)


# ------------------------------------------------------------ lmb.plot
def t_ellipse(c):
    ax = fresh()
    n = c.integer(1, 3)
    items = []
    if c.flag(0.3):
        plt.plot([c.real(-100, 100), c.real(100, 5000)], [c.real(-100, 100), c.real(100, 9000)])  # other scales on the axes
    for _ in range(n):
        cov, pos, nstd = spd2(c), np.array([c.real(-1000, 1000), c.real(-1000, 1000)]), c.pick([2, 1, 3, c.scale(0.1, 10)])
        shape = c.draw(2)
        args = (cov if c.flag() else np.asfortranarray(cov), pos if shape == 0 else pos.tolist())
        kw = {"alpha": 0.5} if c.flag(0.3) else {}
        e = lmb.plot.cov_ellipse(*args, **kw) if nstd == 2 and c.flag() else lmb.plot.cov_ellipse(*args, nstd=nstd, **kw)
        items.append((e, cov, pos, nstd))
        c.note("cov %s pos %s nstd %g" % (fmt(cov), fmt(pos), nstd))
        if kw:
            check(e.get_alpha() == 0.5, "options are not passed on")
    check(len(ellipses(ax)) == n and all(any(e is q for q in ellipses(ax)) for e, _, _, _ in items), "the ellipse is not on the axes")
    for e, cov, pos, nstd in items:
        check_ellipse(e, pos[::-1], flip(cov), nstd, ax, "cov_ellipse")
        if abs(cov[0, 1]) > 1e-3 * np.trace(cov):
            c.label("tilted ellipse")
    c.nontrivial()


def t_bbox(c):
    ax = fresh()
    M = np.array([[c.real(-1000, 1000) for _ in range(4)] for _ in range(2)])
    obj = M if c.flag() else lmb.BBox(M)
    kw = c.pick([{}, {"alpha": 0.7}, {"color": "r"}])
    lmb.plot.bbox(obj, **kw) if c.flag(0.3) else lmb.plot.bbox(obj, c.draw(100), c.draw(10), **kw)
    po = polygons(ax)
    check(len(po) == 1 and len(ax.patches) == 1, "bbox: not one polygon")
    want = M[::-1].T
    check(same_ring(corners(po[0], ax), want), lambda: "bbox drawn at %s, corners (x-y) %s" % (fmt(corners(po[0], ax)), fmt(want)))
    if "alpha" in kw:
        check(po[0].get_alpha() == 0.7, "bbox: options are not passed on")
    c.label("bbox")
    c.nontrivial()


def t_scan(c):
    ax = fresh()
    origin = gen_origin(c)
    rs = gen_reports(c, origin)
    o = {k: c.flag() for k in ("covellipse", "draw_bbox", "clustercolor", "show_id", "show_cid")}
    used = {k: v for k, v in o.items() if not (k == "covellipse" and v and c.flag())}
    c.note("%s %s" % ([(fmt(ne(r.x, origin)), fmt(r.P)) for r in rs], used))
    lmb.plot.scan(rs, origin, c=c.draw(50), **used)
    pl, el, po, tx = pools(ax)
    expect_scan(rs, origin, ax, pl, el, po, tx, o["covellipse"], o["draw_bbox"], o["show_id"], o["show_cid"])
    nothing_left(pl, el, po, tx, "scan")
    c.label("scan")
    if rs:
        c.nontrivial()


def t_tracks(c):
    ax = fresh()
    origin = gen_origin(c)
    hist = [] if c.flag(0.03) else gen_history(c, origin)
    o = {k: c.flag() for k in ("covellipse", "draw_bbox", "clustercolor", "r_values", "show_id", "show_cid")}
    min_r = c.pick([0, 0.3, 0.7, c.unit()])
    used = {k: v for k, v in o.items() if not (k == "covellipse" and v and c.flag())}
    if min_r or c.flag():
        used["min_r"] = min_r
    show(c, hist, origin)
    c.note(str(used))
    lmb.plot.tracks(hist, origin, c=c.draw(50), **used)
    pl, el, po, tx = pools(ax)
    n = expect_tracks(hist, origin, ax, pl, el, po, tx, o["covellipse"], o["draw_bbox"], min_r, o["r_values"], o["show_id"], o["show_cid"])
    nothing_left(pl, el, po, tx, "tracks")
    c.label("tracks")
    if n:
        c.nontrivial()
    if hist and n < len({t.id for h in hist for t in h["targets"]}):
        c.label("targets not to be shown")


def check_image(ax, phd, extent, what):
    im = [i for i in ax.get_images() if isinstance(i, AxesImage)]
    check(len(im) == 1, what + ": not one image")
    im = im[0]
    check(np.array_equal(np.asarray(im.get_array()), phd), what + ": the image is not the density")
    e = im.get_extent()
    nr, nc = phd.shape
    want = extent or (-0.5, nc - 0.5, -0.5, nr - 0.5)
    # the first row is the southernmost, the first column the westernmost, however that is encoded
    south, west = (e[2], e[0]) if im.origin == "lower" else (e[3], e[0])
    north, east = (e[3], e[1]) if im.origin == "lower" else (e[2], e[1])
    check(np.allclose((west, east, south, north), want, rtol=1e-9, atol=1e-6), lambda: "%s: image spans west %g east %g south %g north %g, the region is %s" % (what, west, east, south, north, want))
    lo, hi = im.get_clim()
    check(phd.max() <= 0 or lo == 0 and hi == phd.max(), lambda: "%s: colours for %g to %g, density up to %g" % (what, lo, hi, phd.max()))


def t_phd(c):
    ax = fresh()
    nr, nc = c.integer(1, 7), c.integer(1, 7)
    phd = np.array([[c.unit() for _ in range(nc)] for _ in range(nr)]) * c.scale(1e-3, 10)
    ext = None
    if c.flag():
        x, y = c.real(-100, 100), c.real(-100, 100)
        ext = (x, x + c.scale(1, 100), y, y + c.scale(1, 100))
    lmb.plot.phd(phd, **({"extent": ext} if ext else {}))
    check_image(ax, phd, ext, "phd")
    check(len(plt.gcf().axes) == 2, "no colour bar")
    c.label("phd")
    c.nontrivial()


def t_application(c):
    """Tracks, reports and density of an actual tracker, through the application."""
    ax = fresh()
    loop = asyncio.new_event_loop()
    app = lmb.Application(loop)
    try:
        origin = gen_origin(c)
        real = c.flag(0.5)
        a, b = ll_near(c.real(-6000, -3500), c.real(-6000, -3500), origin), ll_near(c.real(3500, 6000), c.real(3500, 6000), origin)
        app.region, app.origin = lmb.AABBox(a[0], a[1], b[0], b[1]), origin
        app.tracker, app.unknown = lmb.Tracker(), c.pick([0.0, 0.1])
        app.phdsize = np.array([c.integer(1, 12), c.integer(1, 12)])
        if real:
            s = lmb.PositionSensor()
            s.fov = lmb.BBox(app.region)
            s.pD, s.kappa = 0.9, 1e-4
            truth = [[c.real(-3000, 3000), c.real(-3000, 3000), c.real(-5, 5), c.real(-5, 5)] for _ in range(c.integer(0, 3))]
            hist, reports = [], []
            for k in range(c.integer(1, 4)):
                if k:
                    loop.run_until_complete(app.predict(lmb.CV(0.99, 1.0), k, k - 1))
                reports = [lmb.GaussianReport(s, ll_near(t[0] + c.real(-2, 2), t[1] + c.real(-2, 2), origin), spd2(c, 0.5, 20)) for t in truth]
                reports = loop.run_until_complete(app.correct(s, reports, k))
                hist.append({"targets": loop.run_until_complete(app.get_targets()), "reports": reports, "fov": s.fov})
                for t in truth:
                    t[0] += t[2]
                    t[1] += t[3]
            phd = loop.run_until_complete(app.sample_phd())
        else:
            hist, reports = gen_history(c, origin), gen_reports(c, origin)
            phd = np.array([[c.unit() for _ in range(5)] for _ in range(4)])
        show(c, hist, origin)
        c.note("reports %s" % [(fmt(ne(r.x, origin)), fmt(r.P)) for r in reports])
        app.plot_tracks(phd, reports, hist)
        lo, hi = ne(app.region.min, origin), ne(app.region.max, origin)
        ext = (lo[1], hi[1], lo[0], hi[0])
        check(plt.gca() is ax, "plot_tracks left other axes active")
        check_image(ax, phd, ext, "plot_tracks")
        check(np.allclose(ax.get_xlim(), ext[:2], atol=1e-5) and np.allclose(ax.get_ylim(), ext[2:], atol=1e-5), lambda: "plot_tracks shows x %s y %s, the region is %s" % (ax.get_xlim(), ax.get_ylim(), ext))
        pl, el, po, tx = pools(ax)
        live = {t.id for t in hist[-1]["targets"] if t.r >= 0.3}
        check(len([q for q in pl if q[0].shape[0] == 1 and q[1].get_marker() == "s"]) == len(live), "plot_tracks: not one marker for each target with r of at least 0.3")
        covr = len(el) - 2 * len(live)
        check(covr in (0, len(reports)), "plot_tracks: number of ellipses")
        box = len(po) - (1 if hist[-1].get("fov") else 0)
        expect_tracks(hist, origin, ax, pl, el, po, tx, True, True, 0.3, False, False, False)
        expect_scan(reports, origin, ax, pl, el, po, tx, covr > 0, True, False, True)
        nothing_left(pl, el, po, tx, "plot_tracks")
        check(box == len(live) + len(reports), "plot_tracks: number of boxes")
        plt.gcf().canvas.draw()  # and it can be rendered
        c.label("application" + (", real tracker" if real else ""))
        if live or reports:
            c.nontrivial()
    finally:
        app._executor.shutdown(wait=False)
        loop.close()


def t_stats(c):
    ax = fresh()
    loop = asyncio.new_event_loop()
    app = lmb.Application(loop)
    try:
        k = c.integer(0, 8)
        nrep = [float(c.draw(9)) if c.flag(0.8) else float("nan") for _ in range(k + 1)]
        nt, nv = [c.real(0, 9) for _ in range(k + 1)], [c.draw(9) for _ in range(k + 1)]
        app.plot_stats(k, nrep, nt, nv)
        got = {l.get_label(): d for d, l in lines(ax)}
        xs = np.arange(k + 1)
        m = np.isfinite(nrep)
        for name, x, y in (("Estimate", xs, nt), ("Reports", xs[m], np.array(nrep)[m]), ("Verified", xs, nv)):
            check(name in got and np.array_equal(got[name], np.column_stack([x, y]).reshape(-1, 2)), lambda: "plot_stats: " + name)
        check(len(got) == 3, "plot_stats: lines")
        c.label("plot_stats")
        c.nontrivial()
    finally:
        app._executor.shutdown(wait=False)
        loop.close()


# ------------------------------------------------------------ clmb (plain x-y)
def t_clmb_ellipse(c):
    ax = fresh()
    cov, pos, nstd = spd2(c), np.array([c.real(-1000, 1000), c.real(-1000, 1000)]), c.pick([2, 1, c.scale(0.1, 10)])
    M = np.matrix(cov) if c.flag(0.3) else cov
    e = clmb.plot_cov_ellipse(M, pos) if nstd == 2 else clmb.plot_cov_ellipse(M, pos, nstd)
    c.note("cov %s pos %s nstd %g" % (fmt(cov), fmt(pos), nstd))
    check(len(ellipses(ax)) == 1 and ellipses(ax)[0] is e, "the ellipse is not on the axes")
    check_ellipse(e, pos, cov, nstd, ax, "clmb.plot_cov_ellipse")
    c.label("clmb ellipse")
    c.nontrivial()


def gauss_json(c):
    return [{"w": c.scale(0.05, 0.9), "x": [c.real(-500, 500) for _ in range(4)], "P": gen_cov4(c).tolist()} for _ in range(c.integer(1, 3))]


def particles_json(c):
    n = c.integer(3, 12)
    w = np.array([c.real(0.1, 1) for _ in range(n)])
    w /= w.sum()
    return {"type": "PF", "w": w.tolist(), "x": [[c.real(-500, 500) for _ in range(n)] for _ in range(4)]}


def t_clmb_trace(c):
    ax = fresh()
    ts, kinds = [], []
    for i in range(c.integer(1, 3)):
        t = clmb.Target({"id": c.draw(500)})
        pf = c.flag(0.35)
        states = []
        for k in range(c.integer(1, 5)):
            pdf = particles_json(c) if pf else {"type": "GM", "c": gauss_json(c)}
            r, cid = c.unit(), c.draw(5)
            t.add_state({"cid": cid, "r": r, "la": "c", "pdf": pdf})
            check(t.r == r and t.cid == cid and len(t.history) == k + 1, "Target.add_state")
            states.append(pdf)
        ts.append(t)
        kinds.append(states)
        c.note("%d: %s" % (t.id, json.dumps(states)[:300]))
    o = {k: c.flag() for k in ("covellipse", "r_values", "track_id", "trace", "velocity")}
    back = c.pick([None, 1, 2])
    used = {k: v for k, v in o.items()}
    clmb.plot_traces(ts, c.draw(10), max_back=back, **used)
    pl, el, po, tx = pools(ax)
    for t, states in zip(ts, kinds):
        means, vels = [], []
        for s in states[-(back or 0):]:
            if s["type"] == "GM":
                m = sum(g["w"] * np.array(g["x"]) for g in s["c"])
            else:
                m = np.array(s["x"]) @ np.array(s["w"])
            means.append(m[:2])
            vels.append(m[2:4])
        means = np.array(means)
        last = means[-1]
        if o["trace"]:
            take(pl, lambda q: q[0].shape == means.shape and np.abs(q[0] - means).max() < 1e-6, "no trace along %s" % fmt(means))
        if o["velocity"]:
            v = vels[-1]
            n = np.linalg.norm(v)
            v = v * (15 / n) if n > 15 else v
            seg = np.array([last, last + v])
            take(pl, lambda q: q[0].shape == (2, 2) and np.abs(q[0] - seg).max() < 1e-6, "no velocity from %s" % fmt(seg))
        if o["covellipse"]:
            s = states[-1]
            if s["type"] == "GM":
                for g in s["c"]:
                    for _ in range(2):
                        near_el(el, np.array(g["x"][:2]), np.array(g["P"])[:2, :2], 2, ax, "component")
            else:
                X, w = np.array(s["x"]), np.array(s["w"])
                d = X - (X @ w)[:, None]
                cov = ((w * d) @ d.T / (1 - (w * w).sum()))[:2, :2]
                for _ in range(2):
                    near_el(el, last, cov, 2, ax, "particles")
        if o["r_values"]:
            take(tx, lambda q: q.get_text() == "{0:.2f}".format(t.r) and np.abs(np.array(q.get_position(), float) - last).max() < 1e-6, "no existence label")
        if o["track_id"]:
            take(tx, lambda q: q.get_text() == str(t.id) and np.abs(np.array(q.get_position(), float) - last).max() < 1e-6, "no id label")
    nothing_left(pl, el, po, tx, "plot_traces")
    c.label("clmb traces")
    c.nontrivial()


def t_clmb_scan(c):
    ax = fresh()
    rs = [types.SimpleNamespace(z=np.array([c.real(-500, 500), c.real(-500, 500)]), R=spd2(c, 0.1, 1000)) for _ in range(c.integer(0, 4))]
    cov = c.flag()
    clmb.plot_scan(types.SimpleNamespace(reports=rs), covellipse=cov)
    pl, el, po, tx = pools(ax)
    want = np.array([r.z for r in rs]).reshape(-1, 2)
    take(pl, lambda q: q[0].shape == want.shape and (not rs or np.abs(q[0] - want).max() < 1e-9) and q[1].get_linestyle() == "None", "reports are not marked at %s" % fmt(want))
    if cov:
        for r in rs:
            near_el(el, r.z, r.R, 2, ax, "report")
    nothing_left(pl, el, po, tx, "clmb.plot_scan")
    c.label("clmb scan")
    if rs:
        c.nontrivial()


def t_clmb_bbox(c):
    ax = fresh()
    x, y = sorted([c.real(-500, 500), c.real(-500, 500)]), sorted([c.real(-500, 500), c.real(-500, 500)])
    obj = types.SimpleNamespace(bbox=lambda: (x[0], x[1], y[0], y[1]))
    if c.flag():
        obj.id = c.draw(100)
    clmb.plot_bbox(obj)
    re = [p for p in ax.patches if isinstance(p, Rectangle)]
    check(len(re) == 1, "clmb.plot_bbox: not one rectangle")
    v = drawn(re[0], re[0].get_path().vertices[:4], ax)
    check(np.allclose([v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()], x + y, atol=1e-6), "clmb.plot_bbox: corners")
    c.label("clmb bbox")
    c.nontrivial()


def prop(c):
    k = c.draw(40)
    for n, f in ((8, t_ellipse), (11, t_bbox), (17, t_scan), (25, t_tracks), (27, t_phd), (30, t_application), (31, t_stats), (34, t_clmb_ellipse), (38, t_clmb_trace), (39, t_clmb_scan), (40, t_clmb_bbox)):
        if k < n:
            return f(c)


RULE = ("Random covariances (isotropic, axis-aligned, tilted, nearly singular), positions and deviations; random histories of 0-4 targets over 1-6 scans with "
        "targets coming and going, fields of view and reports with cluster numbers, plotted with random options, directly and through the application "
        "(half of those from a running tracker with its sampled density); traces of mixtures and particle clouds by clmb. The artists on the axes are mapped "
        "through their own transforms to data coordinates and matched one to one with what must be shown: ellipse outlines against the sigma contour, boxes, "
        "tracks, markers and labels at local coordinates computed independently, images and axis limits at the region. Non-trivial: something had to be shown.")

if __name__ == "__main__":
    sys.exit(pbt.main("C30", prop, 4000, RULE, ["covariances are positive definite", "colours and line styles are not checked"], 40000, limit=60, t0=T0))
