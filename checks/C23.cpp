// C23: OSPA and GOSPA against direct minimisation over pairings.
#include "lmbx.hpp"
#include "assign.hpp"
using namespace lx;
using Truth = Tracker::TargetStates;

// Means of the targets in the frame of o.
static std::vector<V4> local_means(const Snap& s, const LL& o) {
    std::vector<V4> m;
    for (auto& t : s) {
        V4 x = V4::Zero();
        for (auto& k : t.c) { V4 y = k.x; y.head<2>() = cf::ll2ne(V2(k.x.head<2>()), o); x += k.w * y; }
        m.push_back(x);
    }
    return m;
}
static std::vector<V4> local_truth(const Truth& t, const LL& o) {
    std::vector<V4> m;
    for (auto& x : t) { V4 y = x; y.head<2>() = cf::ll2ne(V2(x.head<2>()), o); m.push_back(y); }
    return m;
}
// Sum over the best pairing of min(d,c)^p, everything of the smaller set paired.
static double best(const std::vector<V4>& a, const std::vector<V4>& b, double c, double p) {
    auto &s = a.size() <= b.size() ? a : b, &l = a.size() <= b.size() ? b : a;
    if (s.empty()) { return 0; }
    refassign::Mat C(s.size(), std::vector<double>(l.size()));
    for (size_t i = 0; i < s.size(); ++i) { for (size_t j = 0; j < l.size(); ++j) { C[i][j] = std::pow(std::min(c, (s[i] - l[j]).norm()), p); } }
    return l.size() <= 8 ? refassign::exhaustive(C) : refassign::hungarian(C);
}
static double ref_ospa(const std::vector<V4>& a, const std::vector<V4>& b, double c, double p) {
    double n = std::max(a.size(), b.size());
    if (n == 0) { return 0; }
    double diff = std::fabs(static_cast<double>(a.size()) - static_cast<double>(b.size()));
    return std::pow((best(a, b, c, p) + diff * std::pow(c, p)) / n, 1 / p);
}
static double ref_gospa(const std::vector<V4>& a, const std::vector<V4>& b, double c, double p) {
    double diff = std::fabs(static_cast<double>(a.size()) - static_cast<double>(b.size()));
    return std::pow(best(a, b, c, p) + diff * std::pow(c, p) / 2, 1 / p);
}

static void prop(Case& c) {
    Tracker tr;
    LL o = gen_origin(c);
    int big = c.coin(8) ? (c.tier ? 80 : 45) : 0;
    int M = big ? c.i(big / 2, big) : c.i(0, 7);
    double span = c.pick({30.0, 300.0, 3.0});
    std::vector<V2> spots;
    for (int i = 0; i < M; ++i) {
        std::vector<Comp> cs;
        V2 m(c.sym(span), c.sym(span));
        if (!spots.empty() && c.coin(15)) { m = c.pick(spots); }
        spots.push_back(m);
        int nc = c.coin(70) ? 1 : c.i(2, 3);
        for (int k = 0; k < nc; ++k) {
            Comp q;
            q.x << m + V2(c.sym(5), c.sym(5)), c.sym(10), c.sym(10);
            q.P = M4::Identity();
            q.w = c.real(0.1, 1);
            cs.push_back(q);
        }
        add_target(tr, c.real(0.1, 1), cs, o);
    }
    Snap s = snap(tr);
    Truth truth;
    int kind = c.u(6);
    bool exact = kind == 0, simple = true;
    for (auto& t : s) { simple = simple && t.c.size() == 1; }
    if (exact) {  // the very same set, in another order
        for (auto& t : s) { truth.push_back(t.mean()); }
        c.shuffle(truth);
    } else {
        int N = big ? c.i(big / 2, big) : c.i(0, 7);
        for (int j = 0; j < N; ++j) {
            V4 x;
            if (!s.empty() && c.coin(60)) {
                x = s[c.u(s.size())].mean();
                V2 ne = cf::ll2ne(V2(x.head<2>()), o) + V2(c.sym(8), c.sym(8));
                x.head<2>() = cf::ne2ll(ne, o);
                x[2] += c.sym(3); x[3] += c.sym(3);
            } else {
                x << cf::ne2ll(V2(c.sym(span), c.sym(span)), o), c.sym(10), c.sym(10);
            }
            truth.push_back(x);
        }
    }
    double cut = c.logreal(0.5, 500), p = c.pick({1.0, 2.0, 3.0, 1.5, 4.0});
    if (c.describe) {
        c.desc << "c=" << cut << " p=" << p << " targets ";
        for (auto& t : s) { c.desc << "(" << t.mean().transpose() << ") "; }
        c.desc << "truths ";
        for (auto& t : truth) { c.desc << "(" << t.transpose() << ") "; }
    }
    auto judge = [&](const LL& org, double got_o, double got_g, const char* frame) {
        auto a = local_means(s, org), b = local_truth(truth, org);
        double wo = ref_ospa(a, b, cut, p), wg = ref_gospa(a, b, cut, p);
        double tol = exact ? std::pow(1e-9, 1.0 / p) + 1e-6 : 1e-6;
        // a p:th root amplifies rounding near zero
        auto same = [&](double x, double y, double n) { return Case::close(std::pow(x, p), std::pow(y, p), 1e-7 * n * (1 + std::pow(std::min(cut, 1.0), p)), 1e-7) || Case::close(x, y, tol, 1e-7); };
        double n = std::max<double>(1, std::max(a.size(), b.size()));
        if (!same(got_o, wo, 1)) { c.fail(std::string("OSPA (") + frame + ") is " + c.num(got_o) + ", by definition " + c.num(wo)); }
        if (!same(got_g, wg, n)) { c.fail(std::string("GOSPA (") + frame + ") is " + c.num(got_g) + ", by definition " + c.num(wg)); }
        c.check(got_o >= 0 && got_o <= cut * (1 + 1e-9), "OSPA outside [0, c]");
        c.check(got_g >= 0, "negative GOSPA");
        return wo;
    };
    LL other = c.coin() ? o : LL(cf::ne2ll(V2(c.sym(2000), c.sym(2000)), o));
    judge(other, tr.ospa(truth, other, cut, p), tr.gospa(truth, other, cut, p), "given origin");
    double o1 = tr.ospa(truth, cut, p), g1 = tr.gospa(truth, cut, p), w = 0;
    size_t n = s.size() + truth.size();
    if (n) {
        LL cen = LL::Zero();
        for (auto& t : s) { cen += t.pos(); }
        for (auto& t : truth) { cen += t.head<2>(); }
        cen /= n;
        w = judge(cen, o1, g1, "common centroid");
    } else {
        c.check(o1 == 0 && g1 == 0, "score of two empty sets");
        c.label("both empty");
    }
    if (exact && (simple || p == 1)) {
        // targets and truths agree to rounding in the local frame
        c.check(o1 <= 2e-3 && g1 <= 2e-2, "identical sets score " + c.num(o1) + " and " + c.num(g1));
        c.label("identical");
    }
    if (s.size() != truth.size()) { c.check(o1 > 0 && g1 > 0, "different sets score zero"); }
    // order of the truths
    Truth sh = truth;
    c.shuffle(sh);
    auto close = [&](double x, double y) { return Case::close(std::pow(x, p), std::pow(y, p), 1e-9 * (1 + n) * (1 + std::pow(std::min(cut, 1.0), p)), 1e-9) || Case::close(x, y, 1e-6, 1e-9); };
    c.check(close(tr.ospa(sh, cut, p), o1), "OSPA depends on the order of truths");
    c.check(close(tr.gospa(sh, cut, p), g1), "GOSPA depends on the order of truths");
    // order of the targets
    if (s.size() > 1) {
        c.shuffle(tr.targettree.targets);
        c.check(close(tr.ospa(truth, cut, p), o1), "OSPA depends on the order of targets");
        c.check(close(tr.gospa(truth, cut, p), g1), "GOSPA depends on the order of targets");
    }
    // growing cut-off
    double c2 = cut * c.real(1, 3);
    c.check(tr.ospa(truth, c2, p) >= o1 - 1e-6 - 1e-9 * o1, "OSPA decreases with the cut-off");
    c.check(tr.gospa(truth, c2, p) >= g1 - 1e-6 - 1e-9 * g1, "GOSPA decreases with the cut-off");
    if (s.size() >= 2 && truth.size() >= 2 && w > 1e-3 && w < cut * 0.999) { c.nontrivial(); }
    if (big) { c.label("dozens"); }
}

PBT_MAIN({"C23",
    "0-7 (at times up to 45, thorough 80) targets of 1-3 components and as many truths, near, far, coinciding or identical, cut-offs 0.5-500 m, orders 1-4, centroid and "
    "given origins; scores against minimisation over all pairings, order independence, monotonicity in the cut-off, bounds; non-trivial: at least two of each and a score "
    "strictly between 0 and the cut-off",
    prop, 120000, 1000000, 8, 20,
    {"orders are at least 1", "distances include the velocity difference, as the score does"}})
