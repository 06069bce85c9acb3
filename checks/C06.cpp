// C06: linear assignment against exhaustive search / an independent Hungarian
// solver, in both storage orders, with dual certificates.
#include "rlapjv.h"
#include "costgen.hpp"
using pbt::Case;
using refassign::Mat;
using refassign::INF;

template<typename M>
static void one(Case& c, const Mat& C0, bool feas, double best, const char* what) {
    int n = C0.size(), m = C0[0].size();
    M C(n, m);
    double scale = 0;
    bool choice = true;  // every row has at least two allowed columns
    for (int i = 0; i < n; ++i) {
        int k = 0;
        for (int j = 0; j < m; ++j) { C(i, j) = C0[i][j]; if (C0[i][j] != INF) { scale = std::max(scale, std::fabs(C0[i][j])); ++k; } }
        choice = choice && k >= 2;
    }
    M Corig = C;
    lap::Assignment x(n);
    lap::Dual u(n), v(m);
    x.setConstant(12345); u.setConstant(7); v.setConstant(-7);
    bool ok = lap::lap(C, x, u, v);
    std::string w(what);
    c.check(ok == feas, w + (feas ? ": feasible problem reported infeasible" : ": infeasible problem reported solved"));
    c.check((C.array() == Corig.array()).all(), w + ": cost matrix modified");
    if (!feas) { return; }
    std::vector<char> used(m, 0);
    double cost = 0;
    for (int i = 0; i < n; ++i) {
        c.check(x[i] >= 0 && x[i] < m, w + ": row assigned outside the matrix");
        c.check(!used[x[i]], w + ": column used twice");
        used[x[i]] = 1;
        c.check(C0[i][x[i]] != INF, w + ": forbidden pair selected");
        cost += C0[i][x[i]];
    }
    double tol = 1e-9 * scale * n;
    c.check(cost <= best + tol, w + ": assignment costs " + c.num(cost) + " but " + c.num(best) + " is possible");
    c.near(lap::cost(C, x), cost, tol, 0, w + ": cost()");
    if (choice) {
        double dual = 0;
        for (int i = 0; i < n; ++i) {
            c.check(std::isfinite(u[i]), w + ": row price not finite");
            for (int j = 0; j < m; ++j) {
                if (C0[i][j] == INF) { continue; }
                double r = C0[i][j] - u[i] - v[j];
                c.check(r >= -tol, w + ": negative reduced cost " + c.num(r));
                if (x[i] == j) { c.check(std::fabs(r) <= tol, w + ": selected pair has reduced cost " + c.num(r)); }
            }
            dual += u[i];
        }
        for (int j = 0; j < m; ++j) { c.check(v[j] <= tol, w + ": positive column price"); dual += used[j] ? v[j] : 0; if (!used[j]) { c.check(std::fabs(v[j]) <= tol, w + ": unused column has a price"); } }
        c.near(dual, cost, tol * (n + m), 0, w + ": prices do not certify the cost");
        c.label("certified");
    }
    lap::Assignment y = lap::lap(C);
    double cy = 0;
    c.check(y.rows() == n, w + ": solution size");
    for (int i = 0; i < n; ++i) { c.check(y[i] >= 0 && y[i] < m, w + ": short form out of range"); cy += C0[i][y[i]]; }
    c.near(cy, cost, tol, 0, w + ": short form finds a different cost");
}

static void prop(Case& c) {
    bool large = c.coin(4);
    int n, m;
    if (!large) {
        n = c.i(1, 7);
        m = n + (c.coin() ? 0 : c.i(0, 10 - n));
    } else {
        n = c.i(8, c.coin(15) ? 60 : 20);
        m = n + (c.coin() ? 0 : c.i(0, 20));
        c.label("large");
        if (n > 30) { c.label("more than 30 rows"); }
    }
    Mat C = costgen::matrix(c, n, m);
    if (c.coin(8) && n > 1) {  // Hall violation: k rows sharing k-1 columns
        int k = c.i(2, n);
        for (int i = 0; i < k; ++i) { for (int j = 0; j < m; ++j) { if (j >= k - 1) { C[i][j] = INF; } } }
        c.label("Hall violation");
    }
    if (c.coin(4)) {  // any unit of cost
        int e = c.i(-900, 900);
        for (auto& r : C) { for (double& v : r) { v = std::ldexp(v, e); } }
        c.label("extreme unit of cost");
    }
    c.show("rows", n); c.show("cols", m);
    costgen::show(c, "C", C);
    bool feas = refassign::feasible(C);
    double best = INF;
    if (feas) { best = large ? refassign::hungarian(C) : refassign::exhaustive(C); }
    c.label(feas ? "feasible" : "infeasible");
    if (n == m) { c.label("square"); }
    if (n > 1) { c.nontrivial(); }
    one<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(c, C, feas, best, "row-major");
    one<Eigen::MatrixXd>(c, C, feas, best, "column-major");
    if (n == 3 && m == 3) { one<Eigen::Matrix<double, 3, 3>>(c, C, feas, best, "fixed column-major"); one<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>(c, C, feas, best, "fixed row-major"); }
}

PBT_MAIN({"C06",
    "A case is a cost matrix, 1..7 rows by up to 10 columns (exhaustive oracle) or, 4% of cases, 8..60 rows by up to 80 columns (independent Hungarian oracle); entries small integers with ties, reals, wide magnitudes, negative values, tracker-like 30000 entries; 0..80% forbidden; cyclic optima, duplicate rows, Hall violations; both storage orders. Non-trivial: more than one row.",
    prop, 260000, 3000000, 8, 10,
    {"price certificate checked when every row has at least two allowed columns", "a case using more than 10 s of CPU is a hang (typical: below a millisecond)"}})
