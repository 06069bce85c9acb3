// C09: the index against the target list, after every step of a history.
#include "hist.hpp"
using namespace lx;

template<typename T> struct Elem;
template<class D, class E, int N, class F, int A, int B> struct Elem<RTree<D, E, N, F, A, B>> { using type = E; };

static void audit(Case& c, Tracker& tr, const std::string& when) {
    auto& tt = tr.targettree;
    std::map<const Target*, int> seen;
    decltype(tt.tree)::Iterator it;
    int n = 0;
    for (tt.tree.GetFirst(it); !tt.tree.IsNull(it); tt.tree.GetNext(it)) {
        Target* t = *it;
        ++seen[t];
        ++n;
        c.check(std::find(tt.targets.begin(), tt.targets.end(), t) != tt.targets.end(), when + ": the index holds a removed target");
        typename Elem<decltype(tt.tree)>::type lo[2], hi[2];
        it.GetBounds(lo, hi);
        AABBox b = t->llaabbox();
        c.check(lo[0] == b.min[0] && lo[1] == b.min[1] && hi[0] == b.max[0] && hi[1] == b.max[1], when + ": indexed under another box than its own");
    }
    c.check(n == static_cast<int>(tt.targets.size()), when + ": " + std::to_string(n) + " index entries for " + std::to_string(tt.targets.size()) + " targets");
    c.check(tt.tree.Count() == n, when + ": Count()");
    for (auto t : tt.targets) { c.check(seen[t] == 1, when + ": a target is indexed " + std::to_string(seen[t]) + " times"); }
    for (auto t : tt.targets) {
        // the box is the current one: made from the current density
        TS s = snap1(t);
        AABBox want = ref_box(s.c, tr.params.nstd, s.pos());
        double scale = 0.02 + 1e-3 * (std::fabs(want.max[0] - want.min[0]) + std::fabs(want.max[1] - want.min[1])) * 111000;
        double kl = std::cos(s.pos()[0] * M_PI / 180);
        for (int d = 0; d < 2; ++d) {
            double k = 111000 * (d ? kl : 1);
            c.check(std::fabs(want.min[d] - s.box.min[d]) * k <= scale && std::fabs(want.max[d] - s.box.max[d]) * k <= scale,
                    when + ": box of target " + std::to_string(s.id) + " is not that of its density: off by " + c.num((want.min[d] - s.box.min[d]) * k) + ", " + c.num((want.max[d] - s.box.max[d]) * k) + " m");
        }
    }
}
static void region(Case& c, Tracker& tr, const AABBox& q, const std::string& when) {
    auto got = tr.targettree.query(q);
    std::multiset<unsigned> g, w;
    for (auto t : got) { g.insert(t->id); }
    for (auto t : tr.targettree.targets) {
        AABBox b = t->llaabbox();
        if (b.min[0] <= q.max[0] && b.max[0] >= q.min[0] && b.min[1] <= q.max[1] && b.max[1] >= q.min[1]) { w.insert(t->id); }
    }
    c.check(g == w, when + ": region query returned " + std::to_string(g.size()) + " targets, expected " + std::to_string(w.size()));
}
static void point(Case& c, Tracker& tr, const LL& p, const std::string& when) {
    auto got = tr.targettree.query(p);
    std::multiset<unsigned> g, w;
    for (auto t : got) { g.insert(t->id); }
    for (auto t : tr.targettree.targets) {
        AABBox b = t->llaabbox();
        if (b.min[0] <= p[0] && b.max[0] >= p[0] && b.min[1] <= p[1] && b.max[1] >= p[1]) { w.insert(t->id); }
    }
    c.check(g == w, when + ": point query returned " + std::to_string(g.size()) + " targets, expected " + std::to_string(w.size()));
}

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.partial = true;
    o.maxInitial = c.coin(10) ? 25 : 5;
    o.maxSteps = 8;
    o.maxObjects = 6;
    o.maxReports = 10;
    o.crowd = 1;
    History h = gen_history(c, o);
    h.params.nhyp_max = std::min(h.params.nhyp_max, 30.0);
    show_history(c, h);
    Tracker tr(h.params);
    start(tr, h);
    audit(c, tr, "start");
    size_t most = 0, removed = 0, updates = 0;
    std::set<unsigned> dead, live;
    for (size_t k = 0; k < h.ops.size(); ++k) {
        std::string when = "step " + std::to_string(k);
        apply<ExactSensor>(tr, h.ops[k]);
        audit(c, tr, when);
        std::set<unsigned> now;
        for (auto t : tr.targettree.targets) { now.insert(t->id); }
        for (auto i : live) { if (!now.count(i)) { ++removed; dead.insert(i); } }
        for (auto i : now) { c.check(!dead.count(i), when + ": removed target is back"); }
        live = now;
        most = std::max(most, now.size());
        updates += !now.empty();
        if (c.coin(30)) {  // queries that must not disturb the index
            Tracker::TargetStates truth;
            int n = c.i(0, 2);
            for (int i = 0; i < n; ++i) { V4 x; x << cf::ne2ll(V2(c.sym(500), c.sym(500)), h.origin), 0, 0; truth.push_back(x); }
            switch (c.draw(4)) {
                case 0: tr.ospa(truth, h.origin + LL(c.sym(0.5), c.sym(0.5)), 50, 2); break;
                case 1: tr.gospa(truth, h.origin + LL(c.sym(0.5), c.sym(0.5)), 50, 2); break;
                case 2: tr.pos_phd(AABBox(h.origin[0] - 0.01, h.origin[1] - 0.01, h.origin[0] + 0.02, h.origin[1] + 0.02), Eigen::Array2i(5, 5)); break;
                default: tr.get_targets(); break;
            }
            audit(c, tr, when + " after a query");
        }
        if (c.coin(30)) { region(c, tr, AABBox(h.origin[0] - 1, h.origin[1] - 3, h.origin[0] + 1, h.origin[1] + 3), when); }
        for (int q = 0; q < 3; ++q) {
            V2 a(c.sym(150), c.sym(150)), b = a + V2(c.real(0, 80), c.real(0, 80));
            if (!tr.targettree.targets.empty() && c.coin()) {  // around, at, or touching a target
                AABBox tb = tr.targettree.targets[c.u(tr.targettree.targets.size())]->llaabbox();
                switch (c.draw(4)) {
                    case 0: region(c, tr, tb, when); break;
                    case 1: region(c, tr, AABBox(tb.max[0], tb.max[1], tb.max[0] + 1e-4, tb.max[1] + 1e-4), when); break;
                    case 2: point(c, tr, LL(tb.min[0], tb.max[1]), when); break;
                    default: point(c, tr, LL((tb.min[0] + tb.max[0]) / 2, (tb.min[1] + tb.max[1]) / 2), when);
                }
                continue;
            }
            LL la = cf::ne2ll(a, h.origin), lb = cf::ne2ll(b, h.origin);
            region(c, tr, AABBox(la[0], la[1], lb[0], lb[1]), when);
            point(c, tr, la, when);
        }
    }
    if (most > 8) { c.label("index deeper than one node"); }
    if (removed) { c.label("targets removed"); }
    if (removed && updates >= 2 && most >= 2) { c.nontrivial(); }
}
PBT_MAIN({"C09",
    "histories of 2-8 predictions and corrections over up to 25 targets with births and deaths, queries between; non-trivial: at least two targets at once, at least two steps with targets, and some target removed",
    prop, 20000, 400000, 8, 60, {}})
