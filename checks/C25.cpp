// C25: lists and counts against the live targets, by region and threshold; and
// what a target list is worth after copying, moving and sorting.
#include "hist.hpp"
using namespace lx;
using Summary = lmb::TargetSummary_<4>;
using Summaries = Tracker::TargetSummaries;

struct Truth { unsigned id, cid; double r; V4 mean; M4 cov; };
static Truth truth_of(const TS& s) {
    Truth t;
    t.id = s.id; t.cid = s.cid; t.r = s.r;
    t.mean = s.mean();
    t.cov.setZero();
    LL o = t.mean.head<2>();
    V4 lm = V4::Zero();
    std::vector<V4> lx_;
    for (auto& k : s.c) { V4 x = k.x; x.head<2>() = cf::ll2ne(V2(k.x.head<2>()), o); lx_.push_back(x); lm += k.w * x; }
    for (size_t i = 0; i < s.c.size(); ++i) { t.cov += s.c[i].w * (s.c[i].P + (lx_[i] - lm) * (lx_[i] - lm).transpose()); }
    return t;
}
static void match(Case& c, const Summary& s, const Truth& t, const std::string& w) {
    c.check(s.id == t.id && s.cid == t.cid, w + "ids");
    c.check(s.r == t.r && s.w == t.r, w + "existence probability " + c.num(s.r) + " / " + c.num(s.w) + " expected " + c.num(t.r));
    c.check(metres(s.x.head<2>(), t.mean.head<2>()) < 1e-6 && (s.x - t.mean).tail<2>().norm() <= 1e-9 * (1 + t.mean.tail<2>().norm()), w + "mean");
    double d = pdiff(s.P, t.cov);
    c.check(d < 1e-6, w + "covariance off by " + c.num(d));
    c.check(s.mean() == s.x && s.cov() == s.P, w + "mean() and cov()");
}
static void same_set(Case& c, const Summaries& got, const std::map<unsigned, Truth>& want, const std::string& w) {
    c.check(got.size() == want.size(), w + std::to_string(got.size()) + " targets listed, expected " + std::to_string(want.size()));
    std::set<unsigned> seen;
    for (auto& s : got) {
        c.check(want.count(s.id) && seen.insert(s.id).second, w + "unexpected or repeated target " + std::to_string(s.id));
        match(c, s, want.at(s.id), w + "target " + std::to_string(s.id) + ": ");
    }
}

static void prop(Case& c) {
    layout(c);
    Tracker tr;
    if (c.coin(60)) {
        SceneOpt o;
        o.maxT = c.coin(10) ? 30 : 8; o.maxR = 0; o.crowd = 1;
        Scene s = gen_scene(c, o, tr.params.r_lim);
        show_scene(c, s);
        place(tr, s);
        for (auto t : tr.targettree.targets) { t->cid = c.u(50); if (c.coin(20)) { t->r = 0.7; } }
    } else {
        HistOpt o;
        o.maxSteps = 5; o.maxReports = 6;
        History h = gen_history(c, o);
        show_history(c, h);
        tr.params = h.params;
        tr.params.nhyp_max = std::min(20.0, h.params.nhyp_max);
        start(tr, h);
        for (auto& op : h.ops) { apply<ExactSensor>(tr, op); }
        c.label("after a history");
    }
    Snap s = snap(tr);
    std::map<unsigned, Truth> all;
    double sum = 0;
    for (auto& t : s) { all[t.id] = truth_of(t); sum += t.r; if (t.c.size() > 1) { c.label("mixture"); } }
    Summaries list = tr.get_targets();
    same_set(c, list, all, "all: ");
    c.near(tr.enof_targets(), sum, 1e-12, 1e-12, "expected number");
    double lim = c.coin(30) ? 0.7 : c.coin(30) && !s.empty() ? s[c.u(s.size())].r : c.unit();
    auto count = [&](const Snap& q) { unsigned n = 0; for (auto& t : q) { n += t.r >= lim; } return n; };
    c.check(tr.nof_targets(lim) == count(s), "confirmed number");
    lim = 0.7;
    c.check(tr.nof_targets() == count(s), "confirmed number at the default threshold");
    // regions
    int nq = 4;
    bool split = false;
    for (int q = 0; q < nq && !s.empty(); ++q) {
        AABBox box;
        int kind = c.i(0, 4);
        const TS& t = s[c.u(s.size())];
        double h0 = t.box.max[0] - t.box.min[0], h1 = t.box.max[1] - t.box.min[1];
        if (kind == 0) { box = AABBox(t.pos()[0] - 5, t.pos()[1] - 5, t.pos()[0] + 5, t.pos()[1] + 5); }
        if (kind == 1) { box = AABBox(t.pos()[0] + 6, t.pos()[1] + 6, t.pos()[0] + 7, t.pos()[1] + 7); }
        if (kind == 2) { box = AABBox(t.box.max[0], t.box.max[1], t.box.max[0] + h0 * c.real(0, 3), t.box.max[1] + h1 * c.real(0, 3)); c.label("touching region"); }
        if (kind >= 3) { double a = t.pos()[0] + c.sym(3 * h0), b = t.pos()[1] + c.sym(3 * h1); box = AABBox(a, b, a + c.sym(5 * h0), b + c.sym(5 * h1)); }
        std::map<unsigned, Truth> in;
        Snap sub;
        double rs = 0;
        for (auto& u : s) {
            if (u.box.min[0] <= box.max[0] && u.box.max[0] >= box.min[0] && u.box.min[1] <= box.max[1] && u.box.max[1] >= box.min[1]) { in[u.id] = all[u.id]; sub.push_back(u); rs += u.r; }
        }
        same_set(c, tr.get_targets(box), in, "region: ");
        c.near(tr.enof_targets(box), rs, 1e-12, 1e-12, "expected number in the region");
        lim = c.coin(30) ? s[c.u(s.size())].r : c.unit();
        c.check(tr.nof_targets(box, lim) == count(sub), "confirmed number in the region");
        lim = 0.7;
        c.check(tr.nof_targets(box) == count(sub), "confirmed number in the region at the default threshold");
        if (kind == 0 && in.size() == s.size()) { c.label("covering region"); }
        if (kind == 1 && in.empty()) { c.label("disjoint region"); }
        if (!in.empty() && in.size() < s.size()) { split = true; }
    }
    // the list is a value: copies, moves, storage, sorting
    Summaries copy(list), assigned;
    assigned = list;
    for (auto& e : list) { e.w = -1; e.x.setConstant(7); e.id = 99999; e.cid = 7; }
    same_set(c, copy, all, "copied list: ");
    same_set(c, assigned, all, "assigned list: ");
    Summaries().swap(list);
    same_set(c, copy, all, "copied list, original gone: ");
    Summaries grown;
    for (auto& e : copy) { grown.push_back(e); }
    for (auto& e : assigned) { e.w = -2; }
    same_set(c, grown, all, "list built by push_back: ");
    Summaries moved(std::move(copy));
    c.shuffle(moved);
    same_set(c, moved, all, "shuffled list: ");
    std::sort(moved.begin(), moved.end());
    for (size_t i = 1; i < moved.size(); ++i) { c.check(moved[i - 1].r <= moved[i].r, "sorted by weight"); }
    same_set(c, moved, all, "sorted list: ");
    if (!s.empty()) {  // later changes of the tracker do not reach the list
        std::vector<Summary> kept = tr.get_targets();
        CV m(0.5, 1);
        tr.predict(m, 1, 0);
        same_set(c, kept, all, "list kept across a prediction: ");
    }
    if (split && s.size() >= 2) { c.nontrivial(); }
}
PBT_MAIN({"C25",
    "0-30 targets placed or reached by a history, four regions each; non-trivial: at least two targets and a region holding some but not all of them",
    prop, 80000, 1500000, 8, 60, {}})
