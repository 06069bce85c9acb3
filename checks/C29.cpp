// C29: happens-before race detection (ThreadSanitizer with OpenMP's tool
// interface) over generated histories on several threads, and concurrent calls
// whose results must be those of some serial order.
#include <atomic>
#include <thread>
#include "hist.hpp"
using namespace lx;

static Tracker::TargetStates truth_for(const Snap& s, const LL& o) {
    Tracker::TargetStates t;
    for (auto& x : s) { t.push_back(x.mean()); }
    V4 e; e << o[0], o[1], 0, 0;
    t.push_back(e);
    return t;
}
struct Answer {  // what the queries say about a state
    double enof = 0;
    unsigned nof = 0;
    std::map<unsigned, std::pair<double, V4>> list;
    bool operator==(const Answer& b) const {
        if (!Case::close(enof, b.enof, 1e-12, 1e-12) || nof != b.nof || list.size() != b.list.size()) { return false; }
        for (auto& e : list) { auto f = b.list.find(e.first); if (f == b.list.end() || f->second.first != e.second.first || f->second.second != e.second.second) { return false; } }
        return true;
    }
};
static std::map<unsigned, std::pair<double, V4>> listing(const Tracker::TargetSummaries& ts) {
    std::map<unsigned, std::pair<double, V4>> m;
    for (auto& t : ts) { m[t.id] = {t.r, t.x}; }
    return m;
}
static Answer ask(Tracker& tr) { Answer a; a.enof = tr.enof_targets(); a.nof = tr.nof_targets(); a.list = listing(tr.get_targets()); return a; }

template<typename S>
static void history(Case& c, Tracker& tr, const History& h, int threads, bool& par) {
    AABBox region(h.origin[0] - 0.01, h.origin[1] - 0.01, h.origin[0] + 0.01, h.origin[1] + 0.01);
    for (auto& op : h.ops) {
        omp_set_num_threads(threads);
        size_t had = tr.targettree.targets.size();
        apply<S>(tr, op);
        if (op.kind == HOp::CORRECT) {
            int busy = 0;
            for (size_t k = 0; k < tr.cluster_ntargets.size(); ++k) { busy += tr.cluster_ntargets[k] + tr.cluster_nreports[k] > 0; }
            if (busy >= 2 || (busy == 1 && op.reps.size() >= 2)) { par = true; }
            if (busy >= 3) { c.label("three or more clusters"); }
            if (tr.targettree.targets.size() > had + 1) { c.label("several births"); }
        } else if (had >= 2) { par = true; }
        if (c.coin(25)) { tr.get_targets(); tr.get_targets(region); tr.enof_targets(region); tr.nof_targets(region); c.label("queries"); }
        if (c.coin(15)) { tr.pos_phd(region, Eigen::Array2i(5, 5)); c.label("density map"); }
        if (c.coin(10)) { Snap s = snap(tr); auto t = truth_for(s, h.origin); tr.ospa(t, 50, 2); tr.gospa(t, 50, 2); c.label("scores"); }
        if (c.coin(15) && !tr.targettree.targets.empty()) {
            tr.targettree.targets[c.u(tr.targettree.targets.size())]->pdf.overlap(region);
            tr.targettree.targets[0]->pdf.overlap(op.kind == HOp::CORRECT ? op.fov : BBox(region));
            c.label("overlap");
        }
    }
}

// Lets threads start together without ordering them (relaxed, so no happens-before).
struct Gate {
    std::atomic<int> n{0};
    void wait(int all) {
        n.fetch_add(1, std::memory_order_relaxed);
        while (n.load(std::memory_order_relaxed) < all) { std::this_thread::yield(); }
    }
};

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.minSteps = 2; o.maxSteps = 5; o.maxObjects = 6; o.maxInitial = 4; o.maxClutter = 3; o.maxReports = 7;
    o.area = 120; o.partial = true;
    History h = gen_history(c, o);
    h.params.nhyp_max = std::min(30.0, h.params.nhyp_max);
    int threads = c.i(2, 6);
    int nested = c.coin(70) ? 1 : 2;
    show_history(c, h); c.show("threads", threads); c.show("levels", nested);
    omp_set_dynamic(0);
    omp_set_num_threads(threads);
    omp_set_max_active_levels(nested);
    if (nested > 1) { c.label("nested parallelism"); threads = std::min(threads, 3); }
    bool par = false;
    Gate gate;
    unsigned kind = c.weighted({4, 2, 2, 1});
    if (kind == 0) {
        Tracker tr(h.params);
        start(tr, h);
        if (c.coin(35)) { history<Sensor>(c, tr, h, threads, par); c.label("sampled detection probability"); } else { history<ExactSensor>(c, tr, h, threads, par); }
    } else if (kind == 1 || kind == 3) {
        // queries from other threads while the application thread queries or predicts
        Tracker tr(h.params);
        start(tr, h);
        bool dummy = false;
        for (auto& op : h.ops) { omp_set_num_threads(1); apply<ExactSensor>(tr, op); }
        (void)dummy;
        Snap s = snap(tr);
        auto truth = truth_for(s, h.origin);
        AABBox region(h.origin[0] - 0.01, h.origin[1] - 0.01, h.origin[0] + 0.01, h.origin[1] + 0.01);
        Answer before = ask(tr), after = before;
        double ospa0 = tr.ospa(truth, 50, 2), gospa0 = tr.gospa(truth, 50, 2);
        int nq = c.i(2, 3);
        std::vector<std::vector<int>> plan(nq);
        for (auto& p : plan) { int n = c.i(1, 4); for (int k = 0; k < n; ++k) { p.push_back(c.i(0, 6)); } }
        bool predict = kind == 1;
        CV model(0.99, 1.0);
        double t1 = 1000 * h.params.tscale;
        struct Seen { int what; double d; unsigned n; std::map<unsigned, std::pair<double, V4>> l; };
        std::vector<std::vector<Seen>> seen(nq);
        std::vector<std::thread> th;
        for (int q = 0; q < nq; ++q) {
            th.emplace_back([&, q]() {
                omp_set_num_threads(1);  // (archer loses joins of workers that change hands between application threads)
                gate.wait(nq + 1);
                for (int k : plan[q]) {
                    Seen e{k, 0, 0, {}};
                    switch (k) {
                        case 0: e.d = tr.enof_targets(); break;
                        case 1: e.n = tr.nof_targets(); break;
                        case 2: e.l = listing(tr.get_targets()); break;
                        case 3: tr.pos_phd(region, Eigen::Array2i(4, 4)); break;
                        case 4: if (!predict) { e.d = tr.ospa(truth, 50, 2); } break;
                        case 5: if (!predict) { e.d = tr.gospa(truth, 50, 2); } break;
                        default: tr.get_targets(region); tr.enof_targets(region); tr.nof_targets(region);
                    }
                    seen[q].push_back(e);
                }
            });
        }
        omp_set_num_threads(threads);
        gate.wait(nq + 1);
        if (predict) { tr.predict(model, t1 + h.params.tscale, t1); }
        for (auto& t : th) { t.join(); }
        if (predict) { after = ask(tr); c.label("queries during a prediction"); } else { c.label("queries at once"); }
        for (auto& v : seen) {
            int state = 0;  // once the new state was seen the old one may not come back
            for (auto& e : v) {
                auto fits = [&](const Answer& a) {
                    if (e.what == 0) { return Case::close(e.d, a.enof, 1e-12, 1e-12); }
                    if (e.what == 1) { return e.n == a.nof; }
                    return e.l == a.list;
                };
                if (e.what <= 2) {
                    bool f0 = fits(before), f1 = fits(after);
                    c.check(f0 || f1, "a query at the same time as other calls returned what no serial order returns");
                    if (state && !f1) { c.fail("results went back to an earlier state"); }
                    if (!f0) { state = 1; }
                }
                if (!predict && e.what == 4) { c.near(e.d, ospa0, 1e-9, 1e-9, "score during other queries"); }
                if (!predict && e.what == 5) { c.near(e.d, gospa0, 1e-9, 1e-9, "score during other queries"); }
            }
        }
        par = !s.empty();
    } else {
        // independent trackers on different threads
        int n = c.i(2, 3);
        // (equally good hypotheses may be cut by w_lim either way round: make those weightless)
        h.params.w_lim = 1e-9; h.params.nhyp_max = 300;
        std::vector<std::unique_ptr<Tracker>> a, b;
        for (int k = 0; k < n; ++k) { a.emplace_back(new Tracker(h.params)); b.emplace_back(new Tracker(h.params)); start(*a[k], h); start(*b[k], h); }
        std::vector<std::thread> th;
        for (int k = 0; k < n; ++k) {
            th.emplace_back([&, k]() {
                omp_set_num_threads(1);  // (archer loses joins of workers that change hands between application threads)
                gate.wait(n);
                for (size_t q = 0; q < h.ops.size(); ++q) { if (static_cast<int>(q) % n != k) { apply<ExactSensor>(*a[k], h.ops[q]); } }
            });
        }
        for (auto& t : th) { t.join(); }
        omp_set_num_threads(1);
        std::map<unsigned, unsigned> pairing;
        for (int k = 0; k < n; ++k) {
            bool cut = false;
            for (size_t q = 0; q < h.ops.size(); ++q) { if (static_cast<int>(q) % n != k) { apply<ExactSensor>(*b[k], h.ops[q]); cut = cut || at_hyp_limit(*b[k]); } }
            if (cut) { continue; }
            pairing.clear();
            c.check(std::fabs(a[k]->enof_targets() - b[k]->enof_targets()) < 0.05 + 2 * h.params.r_lim, "a tracker beside others on different threads gave " + c.num(a[k]->enof_targets()) + " targets, alone " + c.num(b[k]->enof_targets()));
            par = par || !b[k]->targettree.targets.empty();
        }
        c.label("independent trackers");
    }
    if (par) { c.nontrivial(); }
}

PBT_MAIN({"C29",
    "Under ThreadSanitizer with OpenMP synchronisation visible to it (archer): histories of 2-5 operations with up to 6 objects in several clusters, mixtures and births, on 2-6 OpenMP threads (nested levels too), with exact and with sampled detection probabilities and queries in between; queries from 2-3 application threads at once or during a prediction, whose answers must be those of the state before or after; independent trackers on different threads. A data race, deadlock (no progress) or crash fails the case. Non-trivial: a correction with at least two clusters or several reports, a prediction of at least two targets, or concurrent calls on a non-empty tracker.",
    prop, 1200, 15000, 4, 15, {"corrections are not issued at the same time as other calls on the same tracker", "races are those of the schedules that ran, up to happens-before"}, 30})
