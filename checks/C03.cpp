// C03: boxes of a Gaussian against the closed form of the n-sigma ellipse.
#include "pbt.hpp"
#include "gaussian.hpp"
using pbt::Case;
using namespace lmb;
using V2 = Eigen::Vector2d;
using M2 = Eigen::Matrix2d;

template<int S>
static void members(Case& c, const V2& x, const M2& P, double n, const BBox& want, const AABBox& wanta, double tol) {
    typename Gaussian_<S>::State xs;
    typename Gaussian_<S>::Covariance Ps;
    xs.setConstant(c.sym(5));
    xs.template head<2>() = x;
    Ps.setIdentity();
    Ps *= 3;
    Ps.template topLeftCorner<2, 2>() = P;
    Gaussian_<S> g(xs, Ps, 0.5);
    c.check((g.bbox(n).corners - want.corners).cwiseAbs().maxCoeff() <= tol, "Gaussian bbox is not the box of its position part");
    auto a = g.aabbox(n);
    for (int k = 0; k < 2; ++k) {
        c.near(a.min[k], wanta.min[k], tol, 0, "Gaussian aabbox min");
        c.near(a.max[k], wanta.max[k], tol, 0, "Gaussian aabbox max");
    }
    c.check((g.bbox().corners - BBox(x, P, 2.0).corners).cwiseAbs().maxCoeff() <= tol, "default nstd of Gaussian bbox is not 2");
}

static void checkbox(Case& c, const BBox& b, const V2& x, const M2& P, double n, const std::string& w) {
    double sc = n * n * P.trace();
    double loc = x.cwiseAbs().maxCoeff();
    double eps = 1e-9 * sc + 4e-15 * loc * std::sqrt(sc);
    V2 h1 = (b.corners.col(0) - b.corners.col(1)) / 2, h2 = (b.corners.col(1) - b.corners.col(2)) / 2;
    c.check((b.corners.rowwise().mean() - x).norm() <= 1e-9 * std::sqrt(sc) + 1e-14 * loc, w + ": not centred at the mean");
    c.check(((b.corners.col(3) - b.corners.col(2)) / 2 - h1).norm() <= 1e-8 * std::sqrt(sc) + 1e-14 * loc, w + ": not a parallelogram");
    c.check(std::fabs(h1.dot(h2)) <= eps, w + ": not a rectangle");
    c.check((h1 * h1.transpose() + h2 * h2.transpose() - n * n * P).cwiseAbs().maxCoeff() <= eps,
            w + ": half sides are not n standard deviations along the principal axes");
}

static void prop(Case& c) {
    double big = c.logreal(1e-4, 1e4), ratio = c.coin(20) ? 1 : c.logreal(1, 1e3);  // std deviations
    double small = big / ratio;
    double th;
    switch (c.weighted({5, 2, 1})) {
        case 0: th = c.real(0, M_PI); break;
        case 1: th = c.pick({0.0, M_PI / 2, M_PI / 4, 3 * M_PI / 4}); break;
        default: th = c.pick({0.0, M_PI / 2}) + c.logreal(1e-9, 1e-2); break;
    }
    double n = c.coin(30) ? c.pick({1.0, 2.0, 1.9, 3.0}) : c.logreal(0.01, 20);
    double far = c.coin(60) ? 0 : c.logreal(1e-3, 1e6);
    V2 x(c.sym(far), c.sym(far));
    double co = std::cos(th), si = std::sin(th);
    double a = big * big, b = small * small;
    M2 P;
    P << a * co * co + b * si * si, (a - b) * co * si, (a - b) * co * si, a * si * si + b * co * co;
    c.show("x", x.transpose()); c.show("P", P.format(eigenformat)); c.show("nstd", n);
    if (ratio > 1.5 && std::fabs(std::sin(2 * th)) > 0.05) { c.nontrivial(); c.label("oriented"); }
    if (ratio > 1.5 && std::fabs(std::sin(2 * th)) <= 0.05) { c.nontrivial(); c.label("axis-aligned anisotropic"); }
    if (ratio > 100) { c.label("thin"); }

    double sc = n * std::sqrt(P.trace()), loc = x.cwiseAbs().maxCoeff();
    auto half2 = [&](const AABBox& q, int k) { double h = (q.max[k] - q.min[k]) / 2; return h * h; };
    auto checkaa = [&](const AABBox& q, const V2& m, const M2& Q, double nn, const std::string& w) {
        double s2 = nn * nn * Q.trace();
        double eps = 1e-9 * s2 + 1e-14 * loc * std::sqrt(s2) + 1e-26 * loc * loc;
        for (int k = 0; k < 2; ++k) {
            c.near(half2(q, k), nn * nn * Q(k, k), eps, 0, w + ": squared half extent along axis " + std::to_string(k));
            c.near((q.min[k] + q.max[k]) / 2, m[k], 1e-9 * std::sqrt(s2) + 1e-14 * loc, 0, w + ": centre along axis " + std::to_string(k));
            c.check(q.min[k] <= q.max[k], w + ": min > max");
        }
    };
    AABBox A(x, P, n);
    checkaa(A, x, P, n, "AABBox(x,P,n)");
    AABBox A0(P, n);
    checkaa(A0, V2::Zero(), P, n, "AABBox(P,n)");
    checkaa(AABBox(x, P), x, P, 2.0, "AABBox(x,P) default nstd");
    BBox B(x, P, n);
    checkbox(c, B, x, P, n, "BBox(x,P,n)");
    checkbox(c, BBox(P, n), V2::Zero(), P, n, "BBox(P,n)");
    BBox B2; B2.from_gaussian(x, P, n);
    checkbox(c, B2, x, P, n, "from_gaussian");
    AABBox A2; A2.from_gaussian(x, P, n);
    checkaa(A2, x, P, n, "AABBox::from_gaussian");

    // Hull of the oriented box: exactly the corner extremes; contains the ellipse's own bounds.
    AABBox H = B.aabbox();
    for (int k = 0; k < 2; ++k) {
        double lo = 1e300, hi = -1e300;
        for (int q = 0; q < 4; ++q) { lo = std::min(lo, B.corners(k, q)); hi = std::max(hi, B.corners(k, q)); }
        c.check(H.min[k] == lo && H.max[k] == hi, "aabbox of a BBox is not the extent of its corners");
        c.check(H.min[k] <= A.min[k] + 1e-8 * sc + 1e-14 * loc && H.max[k] >= A.max[k] - 1e-8 * sc - 1e-14 * loc, "oriented box does not cover the n-sigma ellipse");
    }
    AABBox fp;
    Eigen::Matrix<double, 2, Eigen::Dynamic> pts = B.corners;
    fp.from_points(pts);
    for (int k = 0; k < 2; ++k) { c.check(fp.min[k] == H.min[k] && fp.max[k] == H.max[k], "from_points is not the extent of the points"); }
    // Corner constructor normalises order.
    AABBox q(A.max[0], A.min[1], A.min[0], A.max[1]);
    c.check(q.min == A.min && q.max == A.max, "AABBox from two opposite corners depends on their order");
    // BBox of an AABBox: same extent, rectangle.
    BBox ba(A);
    auto ra = ba.aabbox();
    c.check(ra.min == A.min && ra.max == A.max, "BBox(AABBox) has a different extent");
    for (int k = 0; k < 4; ++k) {
        V2 u = ba.corners.col(k), v = ba.corners.col((k + 1) % 4);
        c.check((u[0] == v[0]) != (u[1] == v[1]) || A.min[0] == A.max[0] || A.min[1] == A.max[1], "BBox(AABBox) corners are not in cyclic order");
    }
    members<2>(c, x, P, n, B, A, 1e-12 * (sc + loc));
    members<4>(c, x, P, n, B, A, 1e-12 * (sc + loc));
    // nebbox: the box around the converted mean.
    cf::LL o(c.sym(70), c.sym(170));
    V2 ll = o + V2(c.sym(0.05), c.sym(0.05));
    Eigen::Vector4d s(ll[0], ll[1], 1, 2);
    Eigen::Matrix4d P4 = Eigen::Matrix4d::Identity();
    P4.topLeftCorner<2, 2>() = P;
    BBox nb = Gaussian_<4>(s, P4).nebbox(o, n);
    checkbox(c, nb, cf::ll2ne(ll, o), P, n, "nebbox");
    checkbox(c, Gaussian_<4>(s, P4).nebbox(o), cf::ll2ne(ll, o), P, 2.0, "nebbox default nstd");
}

PBT_MAIN({"C03",
    "A case is a 2x2 SPD covariance built from two standard deviations (ratio 1..1000) and an orientation (uniform, exact axis multiples, tiny tilts), a mean (0 or up to 1e6), nstd 0.01..20. Non-trivial: axis ratio > 1.5.",
    prop, 1200000, 12000000, 8, 10,
    {"tolerance 1e-9 relative to n^2 trace(P)"}})
