// Cost matrices for the assignment checks.
#pragma once
#include "assign.hpp"
#include "pbt.hpp"

namespace costgen {
using refassign::INF;
using refassign::Mat;

inline double entry(pbt::Case& c, int kind) {
    switch (kind) {
        case 0: return c.i(0, 3);                       // many ties
        case 1: return c.i(-5, 20);
        case 2: return c.real(0, 10);
        case 3: return c.sym(100);
        case 4: return c.logreal(1e-6, 1e4) * (c.coin(20) ? -1 : 1);
        default: return c.coin(70) ? c.real(-20, 40) : 30000;  // costs as the tracker makes them
    }
}

inline Mat matrix(pbt::Case& c, int n, int m) {
    int kind = c.i(0, 5);
    int forbid = c.pick({0, 0, 10, 30, 60, 80});
    Mat C(n, std::vector<double>(m));
    for (auto& r : C) { for (double& v : r) { v = entry(c, kind); if (forbid && c.coin(forbid)) { v = INF; } } }
    if (c.coin(15)) {  // a square cyclic structure: optimum and its transpose differ
        for (int i = 0; i < n; ++i) { C[i][(i + 1) % m] = -50 - c.i(0, 3); }
        c.label("cyclic");
    }
    if (n > 1 && m > 1 && c.coin(8)) {  // rows competing for a few cheap columns, everything else far dearer
        int k = c.i(1, std::min(n, m) - 1);
        double dear = c.logreal(1, 1e10), fine = c.logreal(1e-4, 1);
        for (auto& r : C) { for (int j = 0; j < m; ++j) { r[j] = (j < k ? 0 : dear) + c.unit() * fine; } }
        c.label("contested columns");
    }
    if (n > 1 && c.coin(10)) {  // duplicated rows
        C[c.u(n)] = C[c.u(n)];
    }
    if (forbid) { c.label("forbidden entries"); }
    return C;
}

inline void show(pbt::Case& c, const char* name, const Mat& C) {
    if (!c.describe) { return; }
    std::ostringstream s;
    s.precision(17);
    s << "[";
    for (auto& r : C) { s << "["; for (double v : r) { s << v << ","; } s << "]"; }
    s << "]";
    c.show(name, s.str());
}
}  // namespace costgen
