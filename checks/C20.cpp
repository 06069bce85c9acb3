// C20: permuted reports and varied thread counts against the plain run.
#include "hist.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.pDmax = 0.95;  // near-certain detection of near-certain targets leaves the outcome of a miss to rounding
    o.maxSteps = 6; o.maxObjects = 4; o.maxClutter = 2; o.maxReports = 6; o.maxInitial = 6; o.crowd = 1;
    o.duplicates = false;
    o.params = c.coin();
    History h = gen_history(c, o);
    twin_limits(h.params);
    show_history(c, h);
    bool perm = c.coin(60);
    int threads = c.coin(60) ? c.i(2, 8) : 1;
    if (!perm && threads == 1) { perm = true; }
    c.show("permuted", perm); c.show("threads", threads);
    Tracker a(h.params), b(h.params);
    start(a, h);
    start(b, h);
    std::map<unsigned, unsigned> pairing;
    size_t multi = 0;
    for (size_t k = 0; k < h.ops.size(); ++k) {
        HOp op = h.ops[k], alt = op;
        std::vector<size_t> order;
        for (size_t i = 0; i < op.reps.size(); ++i) { order.push_back(i); }
        if (perm) { c.shuffle(order); }
        for (size_t i = 0; i < order.size(); ++i) { alt.reps[i] = op.reps[order[i]]; }
        size_t had = a.targettree.targets.size();
        omp_set_num_threads(1);
        Scan za = apply<ExactSensor>(a, op);
        omp_set_num_threads(threads);
        Scan zb = apply<ExactSensor>(b, alt);
        if (at_hyp_limit(a) || at_hyp_limit(b)) { c.label("hypothesis limit reached"); break; }
        Snap sa = snap(a), sb = snap(b);
        std::string d = twin_compare(sa, sb, h.params, pairing);
        if (d == "close") { c.label("too close to call"); return; }
        c.check(d.empty(), "step " + std::to_string(k) + ": " + d);
        if (op.kind == HOp::CORRECT) {
            c.check(a.nof_clusters == b.nof_clusters, "number of clusters differs");
            std::multiset<std::vector<int>> ca, cb;
            for (unsigned i = 0; i < a.nof_clusters; ++i) { ca.insert({a.cluster_ntargets[i], a.cluster_nreports[i]}); cb.insert({b.cluster_ntargets[i], b.cluster_nreports[i]}); }
            c.check(ca == cb, "cluster sizes differ");
            // the same reports together
            for (size_t i = 0; i < order.size(); ++i) { for (size_t j = 0; j < i; ++j) {
                c.check((za[order[i]].cid == za[order[j]].cid) == (zb[i].cid == zb[j].cid), "reports grouped differently");
                } }
            for (size_t i = 0; i < order.size(); ++i) { c.near(zb[i].rB, za[order[i]].rB, 1e-5, 0, "birth weight of a report"); c.check(metres(zb[i].x, za[order[i]].x) < 1e-4, "report moved"); }
            if (op.reps.size() >= 2 && had >= 1) { multi += 1; }
        } else if (had >= 2) { multi += 1; }
    }
    if (perm) { c.label("permuted"); }
    if (threads > 1) { c.label("several threads"); }
    if (multi >= 2) { c.nontrivial(); }
}
PBT_MAIN({"C20",
    "histories of 2-6 steps run twice: in order on one thread, and with every scan permuted and/or on 2-8 threads; non-trivial: at least two steps with several reports and an existing target, or predictions of several targets",
    prop, 16000, 150000, 4, 60,
    {"hypothesis and component limits are wide, so truncation cannot break ties differently", "existence limits: targets within 1e-4 of a threshold end the comparison"}})
