// C32: two far-apart groups in one tracker against each group on its own.
#include "hist.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.pDmax = 0.95;  // near-certain detection of near-certain targets leaves the outcome of a miss to rounding
    o.minSteps = o.maxSteps = c.i(1, 6);
    o.maxObjects = 3; o.maxClutter = 1; o.maxReports = 4; o.maxInitial = 4;
    o.duplicates = false;
    o.params = c.coin();
    History h = gen_history(c, o);
    twin_limits(h.params);
    // Group B: its own targets and reports, on the same steps
    double th = c.real(-M_PI, M_PI), dist = c.pick({6000.0, 20000.0, 30000.0});
    LL ob = cf::ne2ll(V2(dist * std::cos(th), dist * std::sin(th)), h.origin);
    std::vector<Scene::T> bt;
    int nb = c.i(0, 4);
    for (int i = 0; i < nb; ++i) {
        Scene::T t;
        t.r = gen_r(c, h.params.r_lim);
        Comp q;
        q.x << c.sym(40), c.sym(40), c.sym(6), c.sym(6);
        q.P = gen_cov4(c, 0.4, 5);
        q.w = 1;
        t.c.push_back(q);
        bt.push_back(t);
    }
    // Births either off, or sure for every report of the first scan and then off
    bool birth = c.coin();
    bool first = true;
    Tracker both(h.params), a(h.params), b(h.params);
    if (birth) { h.initial.clear(); bt.clear(); }
    for (auto& t : h.initial) { add_target(both, t.r, t.c, h.origin); add_target(a, t.r, t.c, h.origin); }
    for (auto& t : bt) { add_target(both, t.r, t.c, ob); add_target(b, t.r, t.c, ob); }
    show_history(c, h);
    c.show("distance", dist); c.show("births", birth); c.show("B targets", bt.size());
    std::map<unsigned, unsigned> pa, pb;
    size_t multi = 0;
    for (size_t k = 0; k < h.ops.size(); ++k) {
        HOp op = h.ops[k], oa = op, obp = op;
        if (op.kind == HOp::CORRECT) {
            obp.reps.clear();
            int n = c.i(0, 4);
            for (int i = 0; i < n; ++i) {
                V2 m(c.sym(60), c.sym(60));
                if (!b.targettree.targets.empty() && c.coin(70)) { m = cf::ll2ne(V2(b.targettree.targets[c.u(b.targettree.targets.size())]->pos()), ob) + V2(c.sym(4), c.sym(4)); }
                obp.reps.push_back({cf::ne2ll(m, ob), gen_cov2(c, 0.5, 4), c.logreal(1e-6, 1e-2)});
            }
            double lb = birth && first ? 1000.0 : 0.0;
            oa.lambdaB = obp.lambdaB = lb;
            op = oa;
            std::vector<HRep> all = oa.reps;
            all.insert(all.end(), obp.reps.begin(), obp.reps.end());
            c.shuffle(all);
            op.reps = all;
            first = false;
        }
        size_t ha = a.targettree.targets.size(), hb = b.targettree.targets.size();
        apply<ExactSensor>(both, op);
        apply<ExactSensor>(a, oa);
        apply<ExactSensor>(b, obp);
        if (at_hyp_limit(a) || at_hyp_limit(b) || at_hyp_limit(both)) { c.label("hypothesis limit reached"); break; }
        Snap s = snap(both), sa, sb;
        for (auto& t : s) { (metres(t.pos(), h.origin) < metres(t.pos(), ob) ? sa : sb).push_back(t); }
        std::string d = twin_compare(sa, snap(a), h.params, pa);
        std::string e = twin_compare(sb, snap(b), h.params, pb);
        if (d == "close" || e == "close") { c.label("too close to call"); return; }
        c.check(d.empty(), "step " + std::to_string(k) + ", first group: " + d);
        c.check(e.empty(), "step " + std::to_string(k) + ", second group: " + e);
        if (op.kind == HOp::CORRECT) {
            c.check(both.nof_clusters == a.nof_clusters + b.nof_clusters, "clusters of the two groups are not separate");
            if (ha && hb && !oa.reps.empty() && !obp.reps.empty()) { ++multi; }
        }
    }
    if (birth) { c.label("with births"); }
    if (multi) { c.nontrivial(); }
}
PBT_MAIN({"C32",
    "two groups 6-30 km apart, 1-6 common steps, tracked together and apart; births either off or certain in the first scan; non-trivial: a scan with targets and reports in both groups",
    prop, 36000, 400000, 8, 60, {}})
