// Tail bounds and exact masses for the checks of randomised estimates.
#pragma once
#include "lmbx.hpp"

namespace lx {
static const double X = 30;  // -log of the probability of a false alarm, per comparison

// Estimate ph of p out of n independent draws (Bernstein).
inline double bern(double p, double n) { return std::sqrt(2 * X * p * (1 - p) / n) + 2 * X / (3 * n); }

// Mass of a Gaussian inside a convex quadrilateral: integral over one axis of
// the whitened plane of the conditional probability along the other.
inline double mass(const V2& m, const M2& P, const Eigen::Matrix<double, 2, 4>& q) {
    Eigen::LLT<M2> llt(P);
    Eigen::Matrix<double, 2, 4> w = llt.matrixL().solve(Eigen::Matrix<double, 2, 4>(q.colwise() - m));
    double a = std::max(-9.0, w.row(0).minCoeff()), b = std::min(9.0, w.row(0).maxCoeff());
    if (a >= b) { return 0; }
    auto f = [&](double u) {
        double lo = 1e300, hi = -1e300;
        for (int i = 0; i < 4; ++i) {
            V2 s = w.col(i), e = w.col((i + 1) % 4);
            if ((s[0] <= u) == (e[0] <= u)) { continue; }
            double y = s[1] + (e[1] - s[1]) * (u - s[0]) / (e[0] - s[0]);
            lo = std::min(lo, y); hi = std::max(hi, y);
        }
        if (hi < lo) { return 0.0; }
        return std::exp(-u * u / 2) / std::sqrt(2 * M_PI) * 0.5 * (std::erfc(-hi / M_SQRT2) - std::erfc(-lo / M_SQRT2));
    };
    const int K = 2000;  // midpoint rule
    double s = 0, h = (b - a) / K;
    for (int k = 0; k < K; ++k) { s += f(a + (k + 0.5) * h); }
    return s * h;
}

}  // namespace lx
