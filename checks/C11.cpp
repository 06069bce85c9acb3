// C11: clustering and its bookkeeping against an independent union-find over
// box overlaps, along short histories.
#include "refstep.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    Tracker tr(gen_params(c));
    c.check(tr.nof_clusters == 0, "clusters before the first correction");
    tr.params.nhyp_max = std::min(tr.params.nhyp_max, 20.0);
    tr.params.cov_lim = 1e6;
    SceneOpt o;
    o.maxT = 10; o.maxR = 10; o.maxC = 3; o.place = c.pick({250.0, 40.0, 15.0}); o.crowd = 1;
    Scene s = gen_scene(c, o, tr.params.r_lim);
    if (c.coin(30)) {  // a chain of targets and reports, each touching the next only
        V2 p(c.sym(50), c.sym(50));
        int n = c.i(2, 8);
        double step = c.real(4, 9), th = c.real(-M_PI, M_PI);
        for (int i = 0; i < n; ++i) {
            V2 m = p + i * step * V2(std::cos(th), std::sin(th));
            if (i % 2) {
                s.reports.push_back({m, M2::Identity() * c.real(1, 6), 1e-3});
            } else {
                Comp q; q.x << m, 0, 0; q.P = M4::Identity() * c.real(1, 6); q.w = 1;
                s.targets.push_back({0.7, {q}});
            }
        }
        c.shuffle(s.reports);
        c.shuffle(s.targets);
        c.label("chain");
    }
    show_scene(c, s);
    place(tr, s);
    prelude(c, tr, s);
    ExactSensor se;
    se.fov = box_around(s.origin, 0.3, 0.3);
    if (c.coin(30)) {  // a field of view that misses some places
        LL m = cf::ne2ll(V2(c.sym(200), c.sym(200)), s.origin);
        double h = c.logreal(10, 600) / 111000;
        se.fov = box_around(m, h, h / std::cos(m[0] * M_PI / 180));
        c.label("partial view");
    }
    se.pD_ = c.pick({0.9, 0.5, 1.0});
    se.lambdaB = c.pick({1.0, 0.0, 3.0});
    StepAspects a;
    a.update = a.births = a.limits = a.untouched = false;
    double t = 0;
    int rounds = c.i(1, 3);
    for (int k = 0; k < rounds; ++k) {
        if (k) {
            CV m(0.99, 0.1);
            tr.predict(m, t + tr.params.tscale, t);
            t += tr.params.tscale;
            for (auto& r : s.reports) { r.z += V2(c.sym(5), c.sym(5)); }
            if (!s.reports.empty() && c.coin(30)) { s.reports.erase(s.reports.begin() + c.u(s.reports.size())); }
        }
        Scan z = scan_of(s);
        Scan z0 = z;
        StepInfo f = step_and_compare(c, tr, se, z, t, [&](const V2&) { return se.pD_; }, true, a);
        if (f.ambiguous) { c.label("too close to call"); return; }
        // newborns carry the cluster of a report at their position
        for (auto& b : f.after) {
            if (find(f.before, b.id)) { continue; }
            bool near = false, ok = false;
            for (size_t j = 0; j < z.size(); ++j) {
                if (metres(z0[j].x, b.pos()) < 1e-3) { near = true; ok = ok || z[j].cid == b.cid; }
            }
            c.check(near, "newborn without a report at its place");
            c.check(ok, "newborn carries another cluster id than its report");
        }
        size_t big = 0, chain = 0, multi = 0;
        for (size_t q = 0; q < f.k.reps.size(); ++q) {
            big += f.k.reps[q].size() >= 2 && f.k.tgts[q].size() >= 1;
            chain += f.k.reps[q].size() >= 2 && f.k.tgts[q].size() >= 2;
            multi += !f.k.reps[q].empty();
        }
        if (multi >= 2 && big) { c.nontrivial(); }
        if (chain) { c.label("several targets and reports in one cluster"); }
        if (f.k.reps.size() > f.k.with_reports) { c.label("unreached targets in view"); }
    }
}
PBT_MAIN({"C11",
    "up to 18 targets and 14 reports in up to three places or in chains, one to three scans, full and partial views; non-trivial: at least two clusters with reports, one of them with two reports and a target",
    prop, 60000, 1500000, 8, 60,
    {"a report's box is the two-sigma rectangle of its covariance, a target's box the one it is indexed under (C09 checks that box)",
     "scenes where some overlap is within 5 cm of touching are skipped"}})
