// C07: ranked assignments against full enumeration.
#include "murty.hpp"
#include "costgen.hpp"
#include <queue>
using pbt::Case;
using refassign::Mat;
using refassign::INF;

static void enumerate(const Mat& C, size_t i, unsigned used, double cost, std::vector<double>& out) {
    if (i == C.size()) { out.push_back(cost); return; }
    for (size_t j = 0; j < C[i].size(); ++j) {
        if (!(used >> j & 1) && C[i][j] != INF) { enumerate(C, i + 1, used | 1u << j, cost + C[i][j], out); }
    }
}

static void prop(Case& c) {
    bool large = c.coin(6);
    Mat C;
    int n, m;
    if (!large) {
        n = c.i(1, 5);
        m = n + c.i(0, n >= 5 ? 2 : 4);
        if (n <= 2 && c.coin(10)) { m = c.i(n, 14); }
        C = costgen::matrix(c, n, m);
    } else {
        n = c.i(4, 12);
        int k = c.i(1, 8);
        m = k + 2 * n;
        // tracker shape: reports | missed (diagonal) | absent (diagonal)
        double none = c.coin() ? INF : 30000;
        C.assign(n, std::vector<double>(m, none));
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < k; ++j) { if (c.coin(70)) { C[i][j] = c.sym(20); } }
            C[i][k + i] = c.real(0, 10);
            C[i][k + n + i] = c.real(0, 10);
        }
        c.label("tracker-shaped");
    }
    if (c.coin(3)) {  // any unit of cost
        int e = c.i(-900, 900);
        for (auto& r : C) { for (double& v : r) { v = std::ldexp(v, e); } }
        c.label("extreme unit of cost");
    }
    c.show("rows", n); c.show("cols", m);
    costgen::show(c, "C", C);
    lap::CostMatrix M(n, m);
    double scale = 0;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { M(i, j) = C[i][j]; if (C[i][j] != INF) { scale = std::max(scale, std::fabs(C[i][j])); } } }
    double tol = 1e-9 * scale * n;

    std::vector<double> all;
    bool exhaustive = !large;
    if (exhaustive) {
        enumerate(C, 0, 0, 0, all);
        std::sort(all.begin(), all.end());
        if (all.size() > 1500) { c.label("over 1500 assignments (first 200 drawn)"); }
        c.label(all.empty() ? "infeasible" : all.size() < 10 ? "1-9 assignments" : "10+ assignments");
        bool ties = false;
        for (size_t k = 1; k < all.size(); ++k) { ties |= all[k] - all[k - 1] <= tol; }
        if (ties) { c.label("ties"); }
        if (all.size() > 2) { c.nontrivial(); }
    } else {
        c.nontrivial();
    }
    size_t limit = exhaustive ? (all.size() > 1500 ? 200 : all.size() + 1) : c.coin(10) ? 200 : 40;
    if (!exhaustive) { all.clear(); for (auto& a : refassign::kbest(C, limit)) { all.push_back(a.cost); } }

    lap::Murty murty(M);
    std::set<std::vector<int>> seen;
    double prev = -INF;
    size_t k = 0;
    bool use_tuple = c.coin(20);
    lap::Assignment x;
    double cost;
    for (; k < limit; ++k) {
        bool ok;
        if (use_tuple) { std::tie(ok, cost, x) = murty.draw_tuple(); } else { ok = murty.draw(x, cost); }
        if (!ok) { break; }
        c.check(x.rows() == n, "solution has the wrong length");
        std::vector<int> v(n);
        std::set<int> cols;
        double sum = 0;
        for (int i = 0; i < n; ++i) {
            c.check(x[i] >= 0 && x[i] < m, "column out of range");
            c.check(C[i][x[i]] != INF, "forbidden pair in draw " + std::to_string(k));
            v[i] = x[i];
            cols.insert(x[i]);
            sum += C[i][x[i]];
        }
        c.check(static_cast<int>(cols.size()) == n, "column used twice in draw " + std::to_string(k));
        c.near(cost, sum, tol, 0, "reported cost of draw " + std::to_string(k));
        c.check(sum >= prev - tol, "draw " + std::to_string(k) + " is cheaper than the one before: " + c.num(sum) + " after " + c.num(prev));
        prev = std::max(prev, sum);
        c.check(seen.insert(v).second, "draw " + std::to_string(k) + " repeats an assignment");
        if (exhaustive) {
            c.check(k < all.size(), "more draws than assignments exist");
            c.near(sum, all[k], tol, 0, "draw " + std::to_string(k) + " is not the next best");
        } else {
            c.check(k < all.size(), "more draws than assignments exist");
            c.near(sum, all[k], tol, 0, "draw " + std::to_string(k) + " of a larger problem is not the next best");
        }
    }
    if (exhaustive && all.size() <= 1500) {
        c.check(k == all.size(), "only " + std::to_string(k) + " of " + std::to_string(all.size()) + " assignments drawn");
        for (int r = 0; r < 2; ++r) { c.check(!murty.draw(x, cost), "draws again after exhaustion"); }
    }
    if (!exhaustive) {
        c.check(k == all.size(), "enumeration of a larger problem ended early");
    }
}

PBT_MAIN({"C07",
    "A case is a cost matrix of 1..5 rows by up to 14 columns drawn to exhaustion (oracle: all assignments enumerated and sorted) or, 6%, a tracker-shaped one of up to 12x32 with up to 200 draws (oracle: independent Murty over an independent Hungarian solver); ties, negatives, forbidden entries, infeasible ones. Non-trivial: more than two assignments exist.",
    prop, 36000, 1000000, 8, 20,
    {}})
