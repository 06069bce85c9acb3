// C15: statistics of the random sampling, with bounds that a correct sampler
// exceeds with probability below exp(-30) per comparison.
#include "stat.hpp"
using namespace lx;

// Sum of n squared standard normals: bounds of Laurent and Massart.
static void chi2(Case& c, double sum, double n, const std::string& what) {
    double hi = 2 * std::sqrt(n * X) + 2 * X, lo = 2 * std::sqrt(n * X);
    if (!(sum - n <= hi && n - sum <= lo)) { c.fail(what + ": variance is " + c.num(sum / n) + " times what it should be (n = " + c.num(n) + ")"); }
}
static void mean0(Case& c, double sum, double n, const std::string& what) {
    double z = sum / std::sqrt(n);
    if (!(std::fabs(z) <= std::sqrt(2 * X))) { c.fail(what + ": mean is off by " + c.num(sum / n) + " standard deviations (n = " + c.num(n) + ")"); }
}
static void white_stats(Case& c, const Eigen::MatrixXd& y, const std::string& what) {
    int S = y.rows(), n = y.cols();
    if (n == 0) { return; }
    for (int i = 0; i < S; ++i) { mean0(c, y.row(i).sum(), n, what); }
    for (int i = 0; i < S; ++i) {
        for (int j = i; j < S; ++j) {
            for (int sg = 0; sg < (i == j ? 1 : 2); ++sg) {
                Eigen::RowVectorXd u = i == j ? Eigen::RowVectorXd(y.row(i)) : Eigen::RowVectorXd((y.row(i) + (sg ? -1 : 1) * y.row(j)) / std::sqrt(2.0));
                chi2(c, u.squaredNorm(), n, what + (i == j ? "" : " (correlation)"));
            }
        }
    }
    // consecutive samples are independent: lagged products have mean 0 and variance 1
    if (n > 400) {
        for (int i = 0; i < S; ++i) {
            double s = 0;
            for (int k = 0; k + 1 < n; ++k) { s += y(i, k) * y(i, k + 1); }
            c.check(std::fabs(s) / n <= std::sqrt(4 * X / n) + 4 * X / n, what + ": consecutive samples are correlated");
        }
    }
}
static const double MARK = 1.25e99;
static void all_filled(Case& c, const Eigen::MatrixXd& m, const std::string& what) {
    for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { c.check(std::isfinite(m(i, j)) && std::fabs(m(i, j)) < 1e90, what + ": sample " + std::to_string(j) + " is not filled in row " + std::to_string(i)); } }
}

template<int S>
static void gaussian(Case& c) {
    using G = lmb::Gaussian_<S>;
    Eigen::Matrix<double, S, S> A;
    Eigen::Matrix<double, S, 1> x;
    double k = c.pick({1.0, 10.0, 0.01});
    for (int i = 0; i < S; ++i) { x[i] = c.sym(100); for (int j = 0; j < S; ++j) { A(i, j) = c.sym(k) * (i == 0 ? c.logreal(0.1, 10) : 1); } }
    Eigen::Matrix<double, S, S> P = A * A.transpose() + Eigen::Matrix<double, S, S>::Identity() * c.logreal(1e-4, 1) * k * k;
    P = 0.5 * (P + P.transpose().eval());
    int n = c.pick({1, 2, 7, 60, 500, 3000, 3000, 12000});
    if (c.describe) { c.desc << S << "-D Gaussian, " << n << " samples, P diag " << P.diagonal().transpose() << "; "; }
    G g(x, P);
    Eigen::Matrix<double, S, Eigen::Dynamic> s(S, n);
    s.setConstant(MARK);
    bool direct = c.coin(30);
    if (direct) { lmb::nrand(s, x, P); } else { g.sample(s); }
    all_filled(c, s, "Gaussian samples");
    Eigen::MatrixXd PD = P; Eigen::LLT<Eigen::MatrixXd> llt(PD);
    Eigen::MatrixXd y = llt.matrixL().solve(Eigen::MatrixXd(s.colwise() - x));
    white_stats(c, y, std::to_string(S) + "-dimensional samples");
    if (S >= 2) {
        Eigen::Matrix<double, 2, Eigen::Dynamic> q(2, n);
        q.setConstant(MARK);
        g.sample_pos(q);
        all_filled(c, q, "position samples");
        Eigen::MatrixXd P2 = P.topLeftCorner(2, 2); Eigen::LLT<Eigen::MatrixXd> l2(P2);
        white_stats(c, l2.matrixL().solve(Eigen::MatrixXd(q.colwise() - x.template head<2>())), "position samples");
    }
    if (n >= 500) { c.nontrivial(); }
    c.label("Gaussian");
}
template<> void gaussian<1>(Case& c) {
    int n = c.pick({1, 50, 2000, 20000});
    Eigen::MatrixXd y(1, n);
    for (int k = 0; k < n; ++k) { y(0, k) = lmb::nrand(); }
    white_stats(c, y, "normal numbers");
    double cuts[] = {-2, -1, 0, 0.5, 1.5};
    for (double q : cuts) {
        double p = 0.5 * std::erfc(-q / std::sqrt(2)), f = 0;
        for (int k = 0; k < n; ++k) { f += y(0, k) < q; }
        c.check(std::fabs(f / n - p) <= bern(p, n), "normal numbers below " + c.num(q));
    }
    for (int k = 0; k < n; ++k) { y(0, k) = lmb::urand(); c.check(y(0, k) >= 0 && y(0, k) < 1, "uniform number outside [0,1)"); }
    for (double p : {0.1, 0.25, 0.5, 0.8}) {
        double f = 0;
        for (int k = 0; k < n; ++k) { f += y(0, k) < p; }
        c.check(std::fabs(f / n - p) <= bern(p, n), "uniform numbers below " + c.num(p));
    }
    if (n >= 500) { c.nontrivial(); }
    c.label("scalar");
}

static std::vector<Comp> gen_mix(Case& c, int maxn, double scale) {
    std::vector<Comp> v;
    int n = c.i(1, maxn);
    double ws = 0;
    for (int k = 0; k < n; ++k) {
        Comp q;
        q.x << c.sym(scale), c.sym(scale), c.sym(10), c.sym(10);
        q.P = gen_cov4(c, 0.5, 10);
        q.w = c.coin(15) ? c.logreal(1e-4, 0.1) : c.real(0.1, 1);
        ws += q.w;
        v.push_back(q);
    }
    for (auto& q : v) { q.w /= ws; }
    return v;
}
static PDF as_pdf(lmb::Params& p, const std::vector<Comp>& v) { PDF g(&p); for (auto& q : v) { g.c.emplace_back(q.x, q.P, q.w); } return g; }

static void mixture(Case& c) {  // components far apart, so that samples can be attributed
    lmb::Params p;
    auto v = gen_mix(c, 6, 10);
    for (size_t k = 0; k < v.size(); ++k) { v[k].x[0] += 3000.0 * k; }
    c.shuffle(v);
    auto g = as_pdf(p, v);
    int n = c.pick({1, 2, 3, 10, 100, 1000, 5000});
    if (c.describe) { c.desc << v.size() << " components, " << n << " samples, weights"; for (auto& q : v) { c.desc << " " << q.w; } c.desc << "; "; }
    for (int what = 0; what < 2; ++what) {
        int rows = what ? 2 : 4;
        Eigen::MatrixXd s(rows, n);
        if (what) {
            Eigen::Matrix<double, 2, Eigen::Dynamic> t(2, n);
            t.setConstant(MARK);
            g.sample_pos(t);
            s = t;
        } else {
            Eigen::Matrix<double, 4, Eigen::Dynamic> t(4, n);
            t.setConstant(MARK);
            g.sample(t);
            s = t;
        }
        all_filled(c, s, what ? "mixture position samples" : "mixture samples");
        double total = 0;
        for (auto& q : v) {
            std::vector<int> mine;
            for (int k = 0; k < n; ++k) { if (std::fabs(s(0, k) - q.x[0]) < 1500) { mine.push_back(k); } }
            total += mine.size();
            c.check(std::fabs(mine.size() - q.w * n) <= n * bern(q.w, n) + 1.5,
                    "a component of weight " + c.num(q.w) + " gets " + std::to_string(mine.size()) + " of " + std::to_string(n) + " samples");
            Eigen::MatrixXd P = q.P.topLeftCorner(rows, rows);
            Eigen::MatrixXd y(rows, mine.size());
            for (size_t k = 0; k < mine.size(); ++k) { y.col(k) = s.col(mine[k]) - q.x.head(rows); }
            Eigen::LLT<Eigen::MatrixXd> llt(P);
            white_stats(c, llt.matrixL().solve(y), "samples of a mixture component");
        }
        c.check(total == n, "samples away from every component");
    }
    if (n >= 100 && v.size() > 1) { c.nontrivial(); }
    c.label("mixture");
}

static void region(Case& c) {
    lmb::Params p;
    auto v = gen_mix(c, c.coin() ? 1 : 4, 30);
    auto g = as_pdf(p, v);
    auto& t = v[c.u(v.size())];
    // a rectangle near some component
    V2 mid = t.x.head<2>() + V2(c.sym(15), c.sym(15));
    double hx = c.logreal(0.3, 60), hy = c.logreal(0.3, 60), th = c.coin(30) ? 0 : c.real(-M_PI, M_PI);
    int kind = c.u(8);
    if (kind == 6) { hx = hy = 1000; }                    // covers everything
    if (kind == 7) { mid += V2(3000, -2000); }            // far away
    if (kind >= 6) { th = c.coin() ? 0 : th; }
    Eigen::Matrix<double, 2, 4> q;
    M2 R; R << std::cos(th), -std::sin(th), std::sin(th), std::cos(th);
    q.col(0) = mid + R * V2(hx, hy); q.col(1) = mid + R * V2(hx, -hy); q.col(2) = mid + R * V2(-hx, -hy); q.col(3) = mid + R * V2(-hx, hy);
    if (c.describe) { c.desc << v.size() << " components, region at " << mid.transpose() << " half sizes " << hx << ", " << hy << " angle " << th << "; "; }
    BBox box(q);
    AABBox ab(mid[0] - hx, mid[1] - hy, mid[0] + hx, mid[1] + hy);
    Eigen::Matrix<double, 2, 4> qa;
    qa << ab.max[0], ab.max[0], ab.min[0], ab.min[0], ab.max[1], ab.min[1], ab.min[1], ab.max[1];
    const int N = 1000;  // samples per estimate
    auto judge = [&](const std::function<double(const lmb::Gaussian_<4>&)>& one, const std::function<double()>& whole, const Eigen::Matrix<double, 2, 4>& poly, double factor, const std::string& what) {
        double tp = 0, tb = 0;
        for (size_t k = 0; k < v.size(); ++k) {
            double pk = std::min(1.0, std::max(0.0, mass(v[k].x.head<2>(), v[k].P.topLeftCorner<2, 2>(), poly)));
            double e = one(g.c[k]);
            c.check(e >= 0 && e <= factor, what + ": estimate outside [0," + c.num(factor) + "]: " + c.num(e));
            double b = bern(pk, N) * factor;
            if (!(std::fabs(e - pk * factor) <= b + 1e-9)) { c.fail(what + ": estimated mass of a component is " + c.num(e) + ", true " + c.num(pk * factor) + " (allowed error " + c.num(b) + ")"); }
            if (kind == 6) { c.check(e == factor, what + ": a region covering everything does not hold all the mass"); }
            if (kind == 7) { c.check(e == 0, what + ": a far away region holds mass"); }
            tp += v[k].w * pk;
            tb += v[k].w * bern(pk, N);
        }
        double e = whole();
        c.check(e >= 0 && e <= factor * (1 + 1e-9), what + ": mixture estimate outside [0,1]");
        if (!(std::fabs(e - tp * factor) <= tb * factor + 1e-9)) { c.fail(what + ": estimated mass of the mixture is " + c.num(e) + ", true " + c.num(tp * factor)); }
        if (kind == 6) { c.near(e, factor, 1e-9, 0, what + ": a region covering everything"); }
        if (kind == 7) { c.check(e == 0, what + ": a far away region holds mass"); }
        if (tp > 0.02 && tp < 0.98) { c.nontrivial(); c.label("partial"); }
    };
    judge([&](const lmb::Gaussian_<4>& k) { return k.overlap(box); }, [&] { return g.overlap(box); }, q, 1, "oriented region");
    judge([&](const lmb::Gaussian_<4>& k) { return k.overlap(ab); }, [&] { return g.overlap(ab); }, qa, 1, "axis-aligned region");
    // detection probability: the same mass for a field of view given in degrees
    LL o = gen_origin(c);
    Sensor se;
    for (int k = 0; k < 4; ++k) { se.fov.corners.col(k) = cf::ne2ll(V2(q.col(k)), o); }
    se.pD_ = c.coin(20) ? 1.0 : c.realb(0, 1);
    judge([&](const lmb::Gaussian_<4>& k) { return se.pD(k, o); }, [&] { return se.pD(g, o); }, q, se.pD_, "detection probability");
    c.label(kind == 6 ? "covering" : kind == 7 ? "far away" : "near");
}

static void raster(Case& c) {
    lmb::Params p;
    auto v = gen_mix(c, c.coin() ? 1 : 4, 30);
    bool gl = c.coin();
    V2 scale = gl ? V2(1e-5, 2e-5) : V2(1, 1);  // the density may be used in any unit
    for (auto& q : v) { q.x.head<2>() = q.x.head<2>().cwiseProduct(scale); q.P.topLeftCorner<2, 2>() = scale.asDiagonal() * q.P.topLeftCorner<2, 2>() * scale.asDiagonal(); }
    auto g = as_pdf(p, v);
    int n = c.i(1, 300);
    Eigen::Array<double, 2, Eigen::Dynamic> pts(2, n);
    Eigen::Array<double, 1, Eigen::Dynamic> res(1, n), old;
    for (int k = 0; k < n; ++k) {
        auto& t = v[c.u(v.size())];
        double far = c.coin(20) ? 200 : 15;
        pts(0, k) = t.x[0] + c.sym(far) * scale[0]; pts(1, k) = t.x[1] + c.sym(far) * scale[1];
        res(0, k) = c.coin(30) ? c.real(0, 2) : 0;
    }
    old = res;
    double amount = c.coin(30) ? 1.0 : c.real(0, 3);
    bool single = c.coin();
    if (single) { g.c[0].sampled_pos_pdf(pts, res, amount); } else { g.sampled_pos_pdf(pts, res, amount); }
    Eigen::ArrayXd want = Eigen::ArrayXd::Zero(n);
    double put = 0;
    for (size_t k = 0; k < (single ? 1 : v.size()); ++k) {
        M2 P = v[k].P.topLeftCorner<2, 2>(), Pi = P.inverse();
        Eigen::ArrayXd d(n);
        for (int i = 0; i < n; ++i) { V2 e = pts.col(i).matrix() - v[k].x.head<2>(); d[i] = std::exp(-0.5 * e.dot(Pi * e)) / (2 * M_PI * std::sqrt(P.determinant())); }
        double s = d.sum(), m = amount * (single ? 1 : v[k].w);
        if (std::fabs(s - 1e-7) < 1e-11) { c.discard(); }
        if (s > 1e-7) { want += d / s * m; put += m; }
    }
    for (int i = 0; i < n; ++i) { c.near(res(0, i) - old(0, i), want[i], 1e-9, 1e-6, "rasterised density at point " + std::to_string(i)); }
    c.near(res.sum() - old.sum(), put, 1e-8, 1e-8, "rasterised mass");
    if (put > 0 && n > 1) { c.nontrivial(); }
    c.label("raster");
}

// Known findings, tried only when asked for (run.py does, see known_findings.json).
static void known(Case& c, const std::string& what) {
    if (what == "default-view") {  // a sensor as constructed claims to see latitudes -90..90, longitudes 0..180
        lmb::PositionSensor<Tracker::Target> s;
        s.pD_ = 0.9;
        LL o(58.3887657, 15.6965082);
        lmb::Gaussian_<4> g(V4(V4::Zero()), M4(M4::Identity()), 1.0);
        c.near(s.pD(g, o), 0.9, 1e-9, 0, "detection probability in the middle of a sensor's default field of view");
    }
}

static void prop(Case& c) {
    if (const char* k = getenv("PBT_KNOWN")) { known(c, k); return; }
    switch (c.u(10)) {
        case 0: gaussian<1>(c); break;
        case 1: gaussian<2>(c); break;
        case 2: gaussian<3>(c); break;
        case 3: gaussian<4>(c); break;
        case 4: mixture(c); break;
        case 5: case 6: raster(c); break;
        default: region(c); break;
    }
}

PBT_MAIN({"C15",
    "up to 20000 samples per case of normal and uniform numbers, Gaussians in 2-4 dimensions with full covariance, mixtures with unequal weights; estimated mass in oriented "
    "and axis-aligned regions and fields of view against numerical integration; rasterised densities against direct evaluation; statistics are judged by tail bounds a "
    "correct sampler exceeds with probability below exp(-30) each; non-trivial: at least 100 samples, or a region holding 2-98% of the mass, or mass placed on several points",
    prop, 10000, 300000, 8, 60,
    {"covariances are positive definite", "the sampler is seeded per case, so that results are reproducible", "mass estimates use 1000 samples per component"}})
