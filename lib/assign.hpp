// Independent reference solvers for assignment problems (rows <= cols).
#pragma once
#include <cmath>
#include <limits>
#include <queue>
#include <vector>

namespace refassign {
using Mat = std::vector<std::vector<double>>;
const double INF = std::numeric_limits<double>::infinity();

// Exhaustive: minimum cost over all injections rows -> cols (DP over column sets); INF if infeasible.
inline double exhaustive(const Mat& C) {
    size_t n = C.size(), m = n ? C[0].size() : 0;
    std::vector<double> dp(size_t(1) << m, INF), nx;
    dp[0] = 0;
    for (size_t i = 0; i < n; ++i) {
        nx.assign(dp.size(), INF);
        for (size_t s = 0; s < dp.size(); ++s) {
            if (dp[s] == INF) { continue; }
            for (size_t j = 0; j < m; ++j) {
                if (!(s >> j & 1) && C[i][j] != INF) {
                    double v = dp[s] + C[i][j];
                    if (v < nx[s | size_t(1) << j]) { nx[s | size_t(1) << j] = v; }
                }
            }
        }
        dp.swap(nx);
    }
    double b = INF;
    for (double v : dp) { b = std::min(b, v); }
    return b;
}

// Maximum matching over allowed pairs (augmenting paths).
inline bool feasible(const Mat& C) {
    size_t n = C.size(), m = n ? C[0].size() : 0;
    std::vector<int> col(m, -1);
    for (size_t i = 0; i < n; ++i) {
        std::vector<char> seen(m, 0);
        // iterative DFS via recursion lambda
        struct R {
            static bool go(const Mat& C, size_t i, std::vector<int>& col, std::vector<char>& seen) {
                for (size_t j = 0; j < col.size(); ++j) {
                    if (C[i][j] == INF || seen[j]) { continue; }
                    seen[j] = 1;
                    if (col[j] < 0 || go(C, col[j], col, seen)) { col[j] = i; return true; }
                }
                return false;
            }
        };
        if (!R::go(C, i, col, seen)) { return false; }
    }
    return true;
}

// Hungarian algorithm (e-maxx formulation), forbidden pairs as a large cost.
// Precondition: feasible.
inline double hungarian(const Mat& C0, std::vector<int>* sol = nullptr) {
    size_t n = C0.size(), m = n ? C0[0].size() : 0;
    double mx = 0;
    for (auto& r : C0) { for (double v : r) { if (v != INF) { mx = std::max(mx, std::fabs(v)); } } }
    double big = (mx > 0 ? mx : 1) * 4 * (n + 1);
    std::vector<double> u(n + 1, 0), v(m + 1, 0);
    std::vector<int> p(m + 1, 0), way(m + 1, 0);
    for (size_t i = 1; i <= n; ++i) {
        p[0] = i;
        size_t j0 = 0;
        std::vector<double> minv(m + 1, INF);
        std::vector<char> used(m + 1, 0);
        do {
            used[j0] = 1;
            size_t i0 = p[j0], j1 = 0;
            double delta = INF;
            for (size_t j = 1; j <= m; ++j) {
                if (used[j]) { continue; }
                double c = C0[i0 - 1][j - 1] == INF ? big : C0[i0 - 1][j - 1];
                double cur = c - u[i0] - v[j];
                if (cur < minv[j]) { minv[j] = cur; way[j] = j0; }
                if (minv[j] < delta) { delta = minv[j]; j1 = j; }
            }
            for (size_t j = 0; j <= m; ++j) {
                if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else { minv[j] -= delta; }
            }
            j0 = j1;
        } while (p[j0] != 0);
        do { size_t j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    double cost = 0;
    if (sol) { sol->assign(n, -1); }
    for (size_t j = 1; j <= m; ++j) {
        if (p[j]) { cost += C0[p[j] - 1][j - 1]; if (sol) { (*sol)[p[j] - 1] = j - 1; } }
    }
    return cost;
}

// The k cheapest, by partitioning around optima of the solver above.
struct Ranked { double cost; std::vector<int> x; };
inline std::vector<Ranked> kbest(const Mat& C, size_t k) {
    struct Node {
        double cost;
        std::vector<int> x;
        Mat C;
        size_t fixed;  // rows decided
        bool operator<(const Node& o) const { return cost > o.cost; }
    };
    auto solve = [](Node& q) {
        if (!feasible(q.C)) { return false; }
        q.cost = hungarian(q.C, &q.x);
        return true;
    };
    std::vector<Ranked> out;
    std::priority_queue<Node> queue;
    Node first{0, {}, C, 0};
    if (solve(first)) { queue.push(first); }
    while (out.size() < k && !queue.empty()) {
        Node q = queue.top();
        queue.pop();
        out.push_back({q.cost, q.x});
        if (out.size() == k) { break; }
        for (size_t i = q.fixed; i < C.size(); ++i) {
            Node s{0, {}, q.C, i};
            s.C[i][q.x[i]] = INF;
            if (solve(s)) { queue.push(s); }
            for (size_t j = 0; j < q.C[i].size(); ++j) { if (static_cast<int>(j) != q.x[i]) { q.C[i][j] = INF; } }
        }
    }
    return out;
}
}  // namespace refassign
