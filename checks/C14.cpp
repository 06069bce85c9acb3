// C14: pruning, adding and merging of mixtures against a sort-and-cut model.
#include "lmbx.hpp"
using namespace lx;

struct Out { std::vector<Comp> c; };

static Comp gen_comp(Case& c, const std::vector<Comp>& seen) {
    Comp q;
    if (!seen.empty() && c.coin(10)) { q = c.pick(seen); } else {
        q.x << c.sym(100), c.sym(100), c.sym(20), c.sym(20);
        q.P = gen_cov4(c, 0.1, 20, 0.05, 5);
    }
    switch (c.u(6)) {
        case 0: q.w = c.pick({0.1, 0.25, 0.5, 0.01, 1.0}); break;   // ties
        case 1: q.w = c.logreal(1e-7, 1); break;
        case 2: q.w = 0; if (c.coin(70)) { q.w = c.real(0.01, 1); } break;
        default: q.w = c.real(0.01, 1); break;
    }
    return q;
}
static void norm(std::vector<Comp>& v) { double s = 0; for (auto& k : v) { s += k.w; } if (s > 0) { for (auto& k : v) { k.w /= s; } } }
static void moments(const std::vector<Comp>& v, V4& m, M4& P) {
    m.setZero(); P.setZero();
    for (auto& k : v) { m += k.w * k.x; }
    for (auto& k : v) { P += k.w * (k.P + (k.x - m) * (k.x - m).transpose()); }
}
template<typename G> static void fill(G& g, const std::vector<Comp>& v) { g.c.clear(); for (auto& k : v) { g.c.emplace_back(k.x, k.P, k.w); } }

// g must hold exactly the components of want (sorted, normalised); components
// of equal weight may come in any order, and any of those tied at the cut.
template<typename G>
static void cmp(Case& c, const G& g, const std::vector<Comp>& want, const std::vector<Comp>& pool, bool loose, const std::string& what) {
    c.check(g.c.size() == want.size() || loose, what + ": " + std::to_string(g.c.size()) + " components, expected " + std::to_string(want.size()));
    if (loose) { return; }
    double s = 0;
    for (size_t k = 0; k < g.c.size(); ++k) {
        s += g.c[k].w;
        if (k) { c.check(g.c[k].w <= g.c[k - 1].w, what + ": not in descending order of weight"); }
        c.near(g.c[k].w, want[k].w, 1e-12, 1e-9, what + ": weight of component " + std::to_string(k));
    }
    if (!g.c.empty()) { c.near(s, 1, 1e-9, 0, what + ": sum of the weights"); }
    // the components themselves, as a multiset out of the inputs of that weight
    double total = 0;
    for (size_t k = 0; k < want.size(); ++k) { total = std::max(total, want[k].w); }
    std::vector<char> used(pool.size(), 0);
    for (auto& q : g.c) {
        bool ok = false;
        for (size_t k = 0; k < pool.size() && !ok; ++k) {
            if (!used[k] && pool[k].x == q.x && pool[k].P == q.P && Case::close(pool[k].w, q.w, 1e-12, 1e-9)) { used[k] = 1; ok = true; }
        }
        c.check(ok, what + ": a component is not one of the inputs with its weight");
    }
}
// pool: the candidates with weights on the same scale as the result
static std::vector<Comp> scaled(std::vector<Comp> v, double f) { for (auto& k : v) { k.w *= f; } return v; }

template<int CAP>
static void run(Case& c) {
    using G = lmb::GM<4, CAP>;
    lmb::Params p;
    p.cw_lim = c.pick({0.01, 0.1, 1e-4, 0.3, 1e-12});
    int op = c.u(4);
    int big = CAP < 50 ? 3 * CAP : c.coin(10) ? 300 : 12;
    std::vector<Comp> seen;
    auto gen = [&](int lo, int hi) {
        std::vector<Comp> v;
        int n = c.i(lo, hi);
        for (int k = 0; k < n; ++k) { v.push_back(gen_comp(c, seen)); seen.push_back(v.back()); }
        return v;
    };
    auto prune = [&](std::vector<Comp> v, bool& tie, bool& near) {
        std::vector<Comp> k;
        for (auto& q : v) { if (std::fabs(q.w - p.cw_lim) < 1e-12 * p.cw_lim && q.w != p.cw_lim) { near = true; } if (!(q.w < p.cw_lim)) { k.push_back(q); } }
        std::stable_sort(k.begin(), k.end(), [](const Comp& a, const Comp& b) { return a.w > b.w; });
        if (k.size() > CAP) { tie = k[CAP].w == k[CAP - 1].w; k.resize(CAP); }
        return k;
    };
    auto show = [&](const std::vector<Comp>& v) { if (c.describe) { c.desc << "["; for (auto& q : v) { c.desc << q.w << " "; } c.desc << "] "; } };
    if (c.describe) { c.desc << "cap " << CAP << " limit " << p.cw_lim << " op " << op << ": "; }
    bool tie = false, near = false;
    if (op < 3) {
        std::vector<Comp> a = gen(0, big), b = op ? gen(0, big) : std::vector<Comp>();
        if (c.coin(60)) { norm(a); norm(b); }
        show(a); show(b);
        G g(&p), h(&p);
        fill(g, a); fill(h, b);
        std::vector<Comp> all = a;
        all.insert(all.end(), b.begin(), b.end());
        auto want = prune(all, tie, near);
        double s = 0;
        for (auto& k : want) { s += k.w; }
        if (near || std::fabs(s - 1e-8) < 1e-9) { c.discard(); }
        if (s > 1e-8) { for (auto& k : want) { k.w /= s; } } else { want.clear(); }
        auto pool = scaled(all, s > 1e-8 ? 1 / s : 1);
        const char* name = op == 0 ? "prune" : op == 1 ? "sum" : "sum in place";
        if (op == 0) {
            g.prune();
            cmp(c, g, want, pool, false, name);
        } else if (op == 1) {
            G r = g + h;
            cmp(c, r, want, pool, false, name);
            c.check(g.c.size() == a.size() && h.c.size() == b.size(), "a sum changes its operands");
            for (size_t k = 0; k < a.size(); ++k) { c.check(g.c[k].w == a[k].w && g.c[k].x == a[k].x && g.c[k].P == a[k].P, "a sum changes its left operand"); }
            for (size_t k = 0; k < b.size(); ++k) { c.check(h.c[k].w == b[k].w && h.c[k].x == b[k].x, "a sum changes its right operand"); }
        } else {
            G r = (g += h);
            cmp(c, g, want, pool, false, name);
            c.check(r.c.size() == g.c.size(), "value of the sum in place");
            for (size_t k = 0; k < b.size(); ++k) { c.check(h.c[k].w == b[k].w && h.c[k].x == b[k].x, "a sum in place changes its right operand"); }
        }
        c.check(want.size() <= CAP, "model");
        if (want.size() < all.size() && !want.empty()) { c.nontrivial(); c.label(all.size() > CAP ? "capped" : "pruned"); }
        if (want.size() == all.size() && !want.empty()) {
            V4 m, m2; M4 P, P2;
            moments(want, m, P);
            G r(&p);
            fill(r, all); r.prune();
            m2 = r.mean(); P2 = r.cov();
            for (int k = 0; k < 4; ++k) { c.near(m2[k], m[k], 1e-8, 0, "mean after an addition that dropped nothing"); }
            c.check(pdiff(P2, P) < 1e-8, "covariance after an addition that dropped nothing");
            c.label("nothing dropped");
        }
        c.label(name);
    } else {
        int J = c.i(1, 6);
        std::vector<G> pdfs;
        std::vector<Comp> all;
        Eigen::Array<double, 1, Eigen::Dynamic> w(1, J);
        Eigen::MatrixXd W(3, J + 1);
        W.setConstant(0.77);
        double wm = 0;
        std::vector<std::vector<Comp>> in;
        for (int j = 0; j < J; ++j) {
            auto v = gen(c.coin(10) ? 0 : 1, J > 3 ? big / 2 + 1 : big);
            norm(v);
            w(0, j) = c.coin(10) ? 0.0 : c.coin(25) ? c.logreal(1e-7, 1) : c.real(0.01, 1);
            W(1, j) = w(0, j);
            in.push_back(v);
            show(v);
            if (c.describe) { c.desc << "x" << w(0, j) << " "; }
            G g(&p);
            fill(g, v);
            pdfs.push_back(g);
            for (auto k : v) { k.w *= w(0, j); all.push_back(k); wm += k.w; }
        }
        bool amb = false;
        auto want = ref_reduce(all, p.cw_lim, CAP, &amb);
        std::vector<Comp> sorted = all;
        std::stable_sort(sorted.begin(), sorted.end(), [](const Comp& a, const Comp& b) { return a.w > b.w; });
        double kept = 0;
        for (size_t k = 0; k < want.size(); ++k) { kept += sorted[k].w; }
        if (std::fabs(kept - 1e-8) < 1e-9) { c.discard(); }
        G r(&p);
        if (c.coin(30)) { fill(r, gen(1, 3)); }  // what was there before
        if (c.coin()) { G::join(r, w, pdfs); } else { G::join(r, W.block(1, 0, 1, J), pdfs); }
        if (kept <= 1e-8) {
            c.check(r.c.empty(), "merging without weight leaves components");
            c.label("no weight");
        } else if (amb) {
            // a tie at the cut: which of the tied ones stay is open, the rest is not
            c.check(r.c.size() <= CAP, "more components than the cap");
            double s = 0;
            for (size_t k = 0; k < r.c.size(); ++k) { s += r.c[k].w; if (k) { c.check(r.c[k].w <= r.c[k - 1].w, "merged: not in descending order"); } }
            c.near(s, 1, 1e-9, 0, "merged: sum of the weights");
            c.label("tie at the cut");
            if (r.c.size() == want.size()) { cmp(c, r, want, scaled(all, 1 / kept), false, "merged (tie)"); }
        } else {
            cmp(c, r, want, scaled(all, 1 / kept), false, "merged");
            if (want.size() < all.size()) { c.nontrivial(); c.label(want.size() == CAP ? "capped" : "pruned"); }
            else {
                V4 m; M4 P;
                moments(want, m, P);
                V4 m2 = r.mean();
                for (int k = 0; k < 4; ++k) { c.near(m2[k], m[k], 1e-8, 0, "mean after a merge that dropped nothing"); }
                c.check(pdiff(r.cov(), P) < 1e-8, "covariance after a merge that dropped nothing");
                c.label("nothing dropped");
            }
        }
        c.label("merge");
    }
    // moments of an arbitrary normalised mixture
    auto v = gen(1, 8);
    norm(v);
    double ws = 0;
    for (auto& k : v) { ws += k.w; }
    if (ws > 0.5) {
        G g(&p);
        fill(g, v);
        V4 m, m2 = g.mean(); M4 P, P2 = g.cov();
        moments(v, m, P);
        V2 gp = g.pos(), gv = g.vel();
        M2 gpc = g.poscov(), gvc = g.velcov();
        for (int k = 0; k < 4; ++k) { c.near(m2[k], m[k], 1e-9, 0, "mixture mean"); }
        c.check(pdiff(P2, P) < 1e-9, "mixture covariance");
        c.check((gp - m.head<2>()).norm() < 1e-9 && (gv - m.tail<2>()).norm() < 1e-9, "mixture position or velocity");
        c.check((gpc - P.topLeftCorner<2, 2>()).norm() < 1e-9 * (1 + P.norm()) && (gvc - P.bottomRightCorner<2, 2>()).norm() < 1e-9 * (1 + P.norm()), "covariance of the position or velocity");
        V4 x = m + V4(c.sym(10), c.sym(10), c.sym(5), c.sym(5));
        M4 about = P + (m - x) * (m - x).transpose();
        c.check(pdiff(g.cov(x), about) < 1e-9, "second moment about a given point");
    }
}

static void prop(Case& c) {
    switch (c.u(4)) {
        case 0: run<200>(c); break;
        case 1: run<5>(c); break;
        case 2: run<1>(c); break;
        default: run<12>(c); break;
    }
}

PBT_MAIN({"C14",
    "mixtures of 0-300 components with ties, zero and tiny weights and repeated components, pruned, added (both forms) and merged from 1-6 mixtures with "
    "unnormalised mixing weights, under component caps 1, 5, 12 and 200 and weight limits 1e-12 to 0.3; non-trivial: something is dropped and something is kept",
    prop, 120000, 2000000, 8, 30,
    {"weights are finite and not negative", "total weights within rounding of the 1e-8 cut-off are not judged"}})
