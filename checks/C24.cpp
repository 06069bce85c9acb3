// C24: a tracker that is queried against one that is not.
#include "hist.hpp"
using namespace lx;

static std::string text(const Tracker& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
static bool identical(const Snap& a, const Snap& b) {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].id != b[i].id || a[i].cid != b[i].cid || a[i].r != b[i].r || a[i].c.size() != b[i].c.size() || a[i].box.min != b[i].box.min || a[i].box.max != b[i].box.max) { return false; }
        for (size_t k = 0; k < a[i].c.size(); ++k) { if (a[i].c[k].x != b[i].c[k].x || a[i].c[k].P != b[i].c[k].P || a[i].c[k].w != b[i].c[k].w) { return false; } }
    }
    return true;
}
struct Q {
    int kind; AABBox box; Eigen::Array2i size; Tracker::TargetStates truth; LL origin; double c, p, r;
};
static Q gen_query(Case& c, const History& h) {
    Q q;
    q.kind = c.i(0, 9);
    double far = c.pick({1.0, 30.0, 1000.0});  // up to hundreds of kilometres off
    LL a = cf::ne2ll(V2(c.sym(200 * far), c.sym(200 * far)), h.origin);
    q.box = AABBox(a[0], a[1], a[0] + c.logreal(1e-5, 0.5), a[1] + c.logreal(1e-5, 0.5));
    if (c.coin(30)) { q.box = AABBox(h.origin[0] - 0.5, h.origin[1] - 0.5, h.origin[0] + 0.5 + c.real(0, 5), h.origin[1] + 0.5 + c.real(0, 5)); }
    q.size = Eigen::Array2i(c.i(1, 12), c.i(1, 12));
    int n = c.i(0, 3);
    for (int i = 0; i < n; ++i) { V4 x; x << cf::ne2ll(V2(c.sym(100 * far), c.sym(100 * far)), h.origin), c.sym(5), c.sym(5); q.truth.push_back(x); }
    q.origin = c.coin() ? a : h.origin;
    q.c = c.logreal(1, 1000);
    q.p = c.pick({1.0, 2.0, 3.0});
    q.r = c.unit();
    return q;
}
static double ask(Tracker& t, const Q& q) {
    switch (q.kind) {
        case 0: return t.get_targets().size();
        case 1: return t.get_targets(q.box).size();
        case 2: return t.enof_targets();
        case 3: return t.enof_targets(q.box);
        case 4: return t.nof_targets(q.r);
        case 5: return t.nof_targets(q.box, q.r);
        case 6: t.pos_phd(q.box, q.size); return 0;
        case 7: return q.p > 1.5 ? t.ospa(q.truth, q.c, q.p) : t.gospa(q.truth, q.c, q.p);
        case 8: return q.p > 1.5 ? t.ospa(q.truth, q.origin, q.c, q.p) : t.gospa(q.truth, q.origin, q.c, q.p);
        default: return text(t).size();
    }
}

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.pDmax = 0.95;  // near-certain detection of near-certain targets leaves the outcome of a miss to rounding
    o.partial = true;
    o.maxSteps = 6; o.maxObjects = 3; o.maxClutter = 2; o.maxReports = 5; o.maxInitial = 3; o.crowd = 1;
    o.duplicates = false;
    o.params = c.coin();
    History h = gen_history(c, o);
    twin_limits(h.params);
    show_history(c, h);
    Tracker a(h.params), b(h.params);
    start(a, h);
    start(b, h);
    std::map<unsigned, unsigned> pairing;
    bool late = false, asked = false;
    for (size_t k = 0; k <= h.ops.size(); ++k) {
        int nq = c.i(0, 3);
        for (int i = 0; i < nq; ++i) {
            Q q = gen_query(c, h);
            c.show("query", q.kind);
            Snap s = snap(a);
            std::string t = text(a);
            double v = ask(a, q), w = ask(a, q);
            c.check(identical(s, snap(a)), "step " + std::to_string(k) + ": query " + std::to_string(q.kind) + " changed the targets");
            c.check(t == text(a), "step " + std::to_string(k) + ": query " + std::to_string(q.kind) + " changed the textual output");
            c.check(v == w || (std::isnan(v) && std::isnan(w)), "repeating query " + std::to_string(q.kind) + " gave " + c.num(w) + " after " + c.num(v));
            if (!s.empty()) { asked = true; c.label("query " + std::to_string(q.kind)); }
        }
        if (k == h.ops.size()) { break; }
        apply<ExactSensor>(a, h.ops[k]);
        apply<ExactSensor>(b, h.ops[k]);
        if (at_hyp_limit(b)) { c.label("hypothesis limit reached"); break; }
        std::string d = twin_compare(snap(a), snap(b), h.params, pairing);
        if (d == "close") { c.label("too close to call"); return; }
        c.check(d.empty(), "step " + std::to_string(k) + ": the queried tracker went another way: " + d);
        late = late || (asked && !a.targettree.targets.empty() && h.ops[k].kind == HOp::CORRECT);
    }
    if (late) { c.nontrivial(); }
}
PBT_MAIN({"C24",
    "histories of 2-6 steps run twice, once with queries of ten kinds interleaved (regions and truths up to hundreds of kilometres away); non-trivial: a correction of existing targets follows a query of existing targets",
    prop, 16000, 300000, 8, 60, {"detection probabilities are exact, so queries that draw random numbers do not shift the update"}})
