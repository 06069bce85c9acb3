// C19: invariants of every reachable state, along random histories, under
// AddressSanitizer and UndefinedBehaviorSanitizer.
#include "hist.hpp"
using namespace lx;

static void invariants(Case& c, Tracker& tr, const std::string& when) {
    std::set<unsigned> ids;
    double sum = 0;
    unsigned conf = 0;
    for (auto t : tr.targettree.targets) {
        TS s = snap1(t);
        std::string w = when + ": target " + std::to_string(s.id) + ": ";
        c.check(ids.insert(s.id).second, w + "id not unique");
        c.check(std::isfinite(s.r) && s.r >= 0 && s.r <= 1 + 1e-9, w + "existence probability " + c.num(s.r));
        c.check(s.r >= tr.params.r_lim * (1 - 1e-12), w + "existence probability " + c.num(s.r) + " below the limit");
        c.check(!s.c.empty() && s.c.size() <= 200, w + std::to_string(s.c.size()) + " components");
        double ws = 0;
        for (auto& k : s.c) {
            c.check(std::isfinite(k.w) && k.w >= 0 && k.w <= 1 + 1e-9, w + "component weight " + c.num(k.w));
            ws += k.w;
            c.check(k.x.allFinite() && std::fabs(k.x[0]) <= 90 && std::fabs(k.x[1]) <= 360, w + "state not finite or not on the globe");
            c.check(k.P.allFinite(), w + "covariance not finite");
            M4 D = M4::Zero(), N;
            for (int i = 0; i < 4; ++i) { c.check(k.P(i, i) > 0, w + "variance not positive"); D(i, i) = 1 / std::sqrt(k.P(i, i)); }
            N = D * k.P * D;
            c.check((N - N.transpose()).cwiseAbs().maxCoeff() < 1e-6, w + "covariance not symmetric");
            Eigen::SelfAdjointEigenSolver<M4> es(0.5 * (N + N.transpose()));
            c.check(es.eigenvalues()[0] > -1e-9, w + "covariance not positive definite");
        }
        c.near(ws, 1, 1e-9, 0, w + "sum of component weights");
        for (int d = 0; d < 2; ++d) { c.check(std::isfinite(s.box.min[d]) && std::isfinite(s.box.max[d]) && s.box.min[d] <= s.box.max[d], w + "box"); }
        sum += s.r;
        conf += s.r >= 0.7;
    }
    c.near(tr.enof_targets(), sum, 1e-12, 1e-12, when + ": expected number of targets");
    c.check(tr.nof_targets() == conf, when + ": confirmed number of targets");
}

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.partial = true;
    o.minSteps = 3;
    o.maxSteps = c.tier && c.coin(20) ? 60 : 14;
    o.maxObjects = 6;
    o.maxClutter = 4;
    o.maxReports = 12;
    o.crowd = 1;
    o.kmin = c.coin(20) ? 1e-14 : 1e-6;
    o.kmax = c.coin(20) ? 100 : 1e-2;
    History h = gen_history(c, o);
    h.params.nhyp_max = std::min(h.params.nhyp_max, 60.0);
    if (c.coin(25)) {  // extreme but valid covariances
        double f = c.pick({1e-6, 1e-3, 1e2, 1e4});
        for (auto& op : h.ops) { for (auto& r : op.reps) { if (c.coin(50)) { r.P *= f; } } }
        c.label("extreme covariances");
    }
    bool sampled = c.coin(15);
    show_history(c, h);
    c.show("real sensor", sampled);
    Tracker tr(h.params);
    start(tr, h);
    std::map<const Target*, unsigned> who;
    unsigned next = h.initial.size();
    std::set<unsigned> ok;  // targets already within the uncertainty limit
    size_t births = 0, deaths = 0, updates = 0;
    for (size_t k = 0; k < h.ops.size(); ++k) {
        auto& op = h.ops[k];
        std::string when = "step " + std::to_string(k);
        Snap before = snap(tr);
        std::map<const Target*, unsigned> prev;
        for (auto t : tr.targettree.targets) { prev[t] = t->id; }
        if (sampled) { apply<Sensor>(tr, op); } else { apply<ExactSensor>(tr, op); }
        invariants(c, tr, when);
        std::set<unsigned> live;
        unsigned top = next;
        for (auto t : tr.targettree.targets) {
            live.insert(t->id);
            bool old = find(before, t->id) != nullptr;
            if (old) {
                c.check(prev.count(t) && prev[t] == t->id, when + ": a living target changed identity");
            } else {
                c.check(op.kind == HOp::CORRECT, when + ": a prediction created a target");
                c.check(t->id >= next, when + ": id " + std::to_string(t->id) + " reused");
                top = std::max(top, t->id + 1);
                ++births;
            }
            double u = avg_poscov(snap1(t).c).norm();
            bool within = u <= tr.params.cov_lim * (1 + 1e-4);
            if (op.kind != HOp::CORRECT) { c.check(within, when + ": position uncertainty " + c.num(u) + " beyond the limit after a prediction"); }
            else if (old && ok.count(t->id)) { c.check(within, when + ": position uncertainty " + c.num(u) + " beyond the limit after a correction"); }
            if (within) { ok.insert(t->id); }
        }
        for (auto& b : before) { deaths += !live.count(b.id); }
        next = top;
        updates += op.kind == HOp::CORRECT && !op.reps.empty() && !before.empty();
        if (c.coin(15)) {
            Tracker::TargetStates truth;
            int n = c.i(0, 3);
            for (int i = 0; i < n; ++i) { V4 x; x << cf::ne2ll(V2(c.sym(200), c.sym(200)), h.origin), 0, 0; truth.push_back(x); }
            double v = c.coin() ? tr.ospa(truth, 100, 2) : tr.gospa(truth, 100, 1);
            c.check(std::isfinite(v) && v >= 0, when + ": score " + c.num(v));
            auto m = tr.pos_phd(AABBox(h.origin[0] - 0.002, h.origin[1] - 0.002, h.origin[0] + 0.002, h.origin[1] + 0.002), Eigen::Array2i(c.i(1, 9), c.i(1, 9)));
            c.check(m.allFinite() && m.minCoeff() >= 0, when + ": density map");
            invariants(c, tr, when + " after queries");
        }
    }
    if (births) { c.label("births"); }
    if (deaths) { c.label("deaths"); }
    if (sampled) { c.label("real sensor"); }
    if (births && deaths && updates >= 2) { c.nontrivial(); }
}
PBT_MAIN({"C19",
    "histories of 3-14 (thorough: to 60) predictions and corrections with births, deaths, clutter, duplicates, partial views, extreme covariances and clutter densities; non-trivial: at least one birth, one death and two corrections of existing targets",
    prop, 5000, 150000, 8, 60,
    {"newborns and targets placed by the test are exempt from the uncertainty limit until first predicted"}})
