// Shared by the tracker checks: types, generators of scenes, snapshots and an
// independent reference model of one correction.
#pragma once
#include <random>
#include <omp.h>
#include "lmb.hpp"
#include "gm.hpp"
#include "models.hpp"
#include "assign.hpp"
#include "pbt.hpp"

namespace pbt_rng {
template<typename T> auto seed(T& g, uint32_t s, int) -> decltype(g.seed(s), void()) { g.seed(s); }
template<typename T> void seed(T&, uint32_t, long) {}
template<typename T> auto reset(T& d, int) -> decltype(d.reset(), void()) { d.reset(); }
template<typename T> void reset(T&, long) {}
}
namespace pbt_fallback { static int gen = 0, ndist = 0, udist = 0; }
using pbt_fallback::gen;
using pbt_fallback::ndist;
using pbt_fallback::udist;
// Targets are kept in sets ordered by address, so where the allocator puts them
// decides the order in which they are processed.  Blocks of that size come from
// a small stock, taken in an order drawn by the case (0: the allocator's own).
namespace pbt_layout {
static thread_local uint64_t state = 0;
static thread_local bool busy = false;
static const size_t SIZE = sizeof(lmb::SILMB<lmb::GM<4>>::Target);
inline void* take(size_t n) {
    static thread_local void* stock[8];
    if (!state || busy || n != SIZE) { return malloc(n); }
    for (auto& b : stock) { if (!b) { b = malloc(n); } }
    state = pbt::mix(state);
    auto& b = stock[state % 8];
    void* r = b;
    b = malloc(n);
    return r;
}
}
#if !__has_feature(thread_sanitizer)
void* operator new(size_t n) {
    void* p = pbt_layout::take(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
#endif

namespace lmb { namespace pbt_inner {
inline void reseed(uint64_t s) {  // finds lmb's generator if there is one of that name
    pbt_rng::seed(gen, static_cast<uint32_t>(s ^ (s >> 32)), 0);
    pbt_rng::reset(ndist, 0);
    pbt_rng::reset(udist, 0);
    pbt_layout::state = 0;
}
} }

namespace lx {
using pbt::Case;
inline void layout(Case& c) { pbt_layout::state = c.draw(64); }

using PDF = lmb::GM<4>;
using Tracker = lmb::SILMB<PDF>;
using Target = Tracker::Target;
using Report = lmb::GaussianReport_<2>;
using Scan = std::vector<Report>;
using Sensor = lmb::PositionSensor<Target>;
using CV = lmb::CV<Target>;
using NM = lmb::NM<Target>;
using V2 = Eigen::Vector2d;
using V4 = Eigen::Vector4d;
using M2 = Eigen::Matrix2d;
using M4 = Eigen::Matrix4d;
using LL = cf::LL;
using lmb::AABBox;
using lmb::BBox;

static const bool reseed_installed = (pbt::reset_hook = &lmb::pbt_inner::reseed, true);

// A sensor whose detection probability is exact (no sampling): constant, or
// varying with the component's geographic position.
struct ExactSensor : public Sensor {
    double slope = 0;           // per degree
    LL centre = LL::Zero();
    double at(const V2& ll) const {
        double f = 0.5 + 0.5 * std::tanh(slope * ((ll[0] - centre[0]) + 0.5 * (ll[1] - centre[1])));
        return slope == 0 ? this->pD_ : this->pD_ * f;
    }
    template<typename G>
    double pD(const G& g, const LL& origin) const {
        if (slope == 0) { return this->pD_; }
        return at(cf::ne2ll(V2(g.x.template head<2>()), origin));
    }
};

// ------------------------------------------------------------ snapshots
struct Comp {
    V4 x;
    M4 P;
    double w;
};

struct TS {
    unsigned id, cid;
    double r;
    std::vector<Comp> c;
    AABBox box;
    V4 mean() const { V4 m = V4::Zero(); for (auto& k : c) { m += k.w * k.x; } return m; }
    M4 avgcov() const { M4 m = M4::Zero(); for (auto& k : c) { m += k.w * k.P; } return m; }
    LL pos() const { return mean().head<2>(); }
};
using Snap = std::vector<TS>;

inline TS snap1(const Target* t) {
    TS s;
    s.id = t->id; s.cid = t->cid; s.r = t->r;
    for (auto& g : t->pdf.c) { s.c.push_back({g.x, g.P, g.w}); }
    s.box = const_cast<Target*>(t)->llaabbox();
    return s;
}
inline Snap snap(const Tracker& tr) {
    Snap s;
    for (auto t : tr.targettree.targets) { s.push_back(snap1(t)); }
    std::sort(s.begin(), s.end(), [](const TS& a, const TS& b) { return a.id < b.id; });
    return s;
}
inline const TS* find(const Snap& s, unsigned id) {
    for (auto& t : s) { if (t.id == id) { return &t; } }
    return nullptr;
}

inline std::string str(const TS& t) {
    std::ostringstream o;
    o.precision(12);
    o << "{id " << t.id << " cid " << t.cid << " r " << t.r << " c[";
    for (auto& k : t.c) { o << "(" << k.w << "; " << k.x.transpose() << "; diag " << k.P.diagonal().transpose() << ")"; }
    o << "]}";
    return o.str();
}

// Distance in metres between two geographic points.
inline double metres(const V2& a, const V2& b) { return (cf::ll2ecef(a) - cf::ll2ecef(b)).norm(); }
inline double norm360(double d) { return d - 360 * std::floor((d + 180) / 360); }

struct Tol { double pos = 1e-6, vel = 1e-7, P = 1e-7, w = 1e-7, r = 1e-7; };

inline double pdiff(const M4& a, const M4& b) {  // covariance difference relative to the standard deviations
    double m = 0;
    for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) {
        double s = std::sqrt(std::max(std::fabs(a(i, i)), std::fabs(b(i, i))) * std::max(std::fabs(a(j, j)), std::fabs(b(j, j)))) + 1e-30;
        double d = std::fabs(a(i, j) - b(i, j)) / s;
        if (!(d <= m)) { m = d; }
    } }
    return m;
}
inline bool same(const Comp& a, const Comp& b, const Tol& t) {
    return metres(a.x.head<2>(), b.x.head<2>()) <= t.pos && (a.x - b.x).tail<2>().norm() <= t.vel * (1 + a.x.tail<2>().norm())
        && pdiff(a.P, b.P) <= t.P && std::fabs(a.w - b.w) <= t.w;
}
// The two mixtures as multisets; components lighter than slack on either side may be unmatched.
inline std::string same_mixture(const std::vector<Comp>& a, const std::vector<Comp>& b, const Tol& t, double slack = 0) {
    std::vector<char> used(b.size(), 0);
    for (auto& k : a) {
        bool hit = false;
        for (size_t j = 0; j < b.size() && !hit; ++j) { if (!used[j] && same(k, b[j], t)) { used[j] = 1; hit = true; } }
        if (!hit && !(k.w < slack)) { std::ostringstream o; o.precision(15); o << "component w " << k.w << " x " << k.x.transpose() << " has no counterpart among " << b.size();
            double best = 1e300; const Comp* bc = nullptr; for (auto& q : b) { double d = metres(q.x.head<2>(), k.x.head<2>()) + std::fabs(q.w - k.w); if (d < best) { best = d; bc = &q; } }
            if (bc) { o << " (nearest w " << bc->w << " x " << bc->x.transpose() << ", " << metres(bc->x.head<2>(), k.x.head<2>()) << " m, P differs " << pdiff(bc->P, k.P) << ")"; }
            return o.str(); }
    }
    for (size_t j = 0; j < b.size(); ++j) { if (!used[j] && !(b[j].w < slack)) { std::ostringstream o; o.precision(15); o << "extra component w " << b[j].w << " x " << b[j].x.transpose(); return o.str(); } }
    return "";
}

// ------------------------------------------------------------ generators
inline LL gen_origin(Case& c) {
    switch (c.draw(6)) {
        case 0: return LL(58.3887657, 15.6965082);
        case 1: return LL(c.sym(75), c.sym(175));
        case 2: return LL(c.sym(1e-3), c.sym(1e-3));
        case 3: return LL(-c.real(5, 70), c.sym(175));
        case 4: return LL(c.real(5, 70), -c.real(5, 175));
        default: return LL(c.sym(75), c.sym(175));
    }
}
inline M2 gen_cov2(Case& c, double smin, double smax) {
    double a = c.logreal(smin, smax), b = c.coin(20) ? a : c.logreal(smin, smax), th = c.coin(25) ? 0 : c.real(-M_PI, M_PI);
    M2 R; R << std::cos(th), -std::sin(th), std::sin(th), std::cos(th);
    M2 P = R * V2(a * a, b * b).asDiagonal() * R.transpose();
    P(1, 0) = P(0, 1);
    return P;
}
inline M4 gen_cov4(Case& c, double smin, double smax, double vmin = 0.05, double vmax = 4) {
    M4 P = M4::Zero();
    M2 A = gen_cov2(c, smin, smax), B = gen_cov2(c, vmin, vmax);
    P.topLeftCorner<2, 2>() = A;
    P.bottomRightCorner<2, 2>() = B;
    if (c.coin(70)) {  // cross covariance A^(1/2) K B^(1/2) with ||K|| < 1
        M2 K; K << c.sym(0.6), c.sym(0.6), c.sym(0.6), c.sym(0.6);
        double n = K.operatorNorm();
        if (n > 0.9) { K *= 0.9 / n; }
        M2 LA = A.llt().matrixL(), LB = B.llt().matrixL();
        M2 X = LA * K * LB.transpose();
        P.topRightCorner<2, 2>() = X;
        P.bottomLeftCorner<2, 2>() = X.transpose();
    }
    return P;
}

// A target as placed: position in metres around the scene's origin.
inline PDF make_pdf(Tracker& tr, const std::vector<Comp>& local, const LL& origin) {
    PDF pdf(&tr.params);
    double ws = 0;
    for (auto& k : local) { ws += k.w; }
    for (auto& k : local) { pdf.c.emplace_back(k.x, k.P, k.w / ws); }
    pdf.eta = 1;
    pdf.origin = origin;
    pdf.transform_to_global();
    // as the tracker does: boxes are made in the target's own frame
    pdf.transform_to_local(pdf.pos());
    pdf.transform_to_global();
    return pdf;
}
inline Target* add_target(Tracker& tr, double r, const std::vector<Comp>& local, const LL& origin, double t0 = 0) {
    return tr.targettree.new_target(r, make_pdf(tr, local, origin), t0);
}
inline Report make_report(const V2& ne, const M2& R, const LL& origin, double kappa) {
    return Report(cf::ne2ll(ne, origin), R, kappa);
}
inline BBox box_around(const LL& o, double halfdeg_lat, double halfdeg_lon) {
    BBox::Corners k;
    k << o[0] + halfdeg_lat, o[0] + halfdeg_lat, o[0] - halfdeg_lat, o[0] - halfdeg_lat,
         o[1] + halfdeg_lon, o[1] - halfdeg_lon, o[1] - halfdeg_lon, o[1] + halfdeg_lon;
    return BBox(k);
}

struct SceneOpt {
    int minT = 0, maxT = 4, minR = 0, maxR = 4, maxC = 3;
    double smax = 6;        // position standard deviations
    double kmin = 1e-6, kmax = 1e-1;
    bool groups = true;     // several places
    double place = 250;     // distance between places
    int crowd = 0;          // how often (percent) a crowd stands beside
    int chain = 0;          // how often (per mille) a cluster of many targets stands beside
};
struct Scene {
    LL origin;
    struct T { double r; std::vector<Comp> c; };
    struct R { V2 z; M2 P; double kappa; };
    std::vector<T> targets;
    std::vector<R> reports;
    std::vector<V2> places;
    int chain = 0;          // targets in a large cluster
};
// limits under which a large cluster can be told by its few best hypotheses
inline bool chain_limits(Case& c, const Scene& s, lmb::Params& p) {
    if (!s.chain) { return false; }
    p.nhyp_max = s.chain > 60 ? 1 : c.i(1, s.chain > 30 ? 2 : 6);
    p.cov_lim = 1e6;
    return true;
}
inline double gen_r(Case& c, double rlim) {
    switch (c.draw(9)) {
        case 6: return 1.0;
        case 8: return 1 - c.logreal(1e-7, 1e-2);  // almost certain
        case 7: return rlim * 1.0001;
        default: return c.real(std::max(rlim * 1.01, 0.02), 0.999);
    }
}
// Hundreds of single targets, each on its own, some with a report near, and
// reports on their own: sizes at which limits of containers would show.
inline void add_crowd(Case& c, Scene& s, bool reports) {
    int n = c.i(40, 700);
    std::mt19937_64 g(c.u(1 << 20));
    auto U = [&](double a, double b) { return a + (b - a) * (g() >> 11) * (1.0 / 9007199254740992.0); };
    double share = U(0, 1), gap = c.pick({150.0, 300.0});
    for (int i = 0; i < n; ++i) {
        V2 m(-3000 - gap * (i / 26) - U(0, 20), gap * (i % 26 - 13) + U(0, 20));
        Comp q;
        q.x << m, U(-5, 5), U(-5, 5);
        q.P = M4::Identity();
        q.P(0, 0) = U(0.5, 6); q.P(1, 1) = U(0.5, 6); q.P(0, 1) = q.P(1, 0) = U(-0.3, 0.3);
        q.w = 1;
        if (U(0, 1) < 0.9) { s.targets.push_back({U(0.3, 0.95), {q}}); }
        if (reports && U(0, 1) < share) {
            M2 P = M2::Identity();
            P(0, 0) = U(0.5, 3); P(1, 1) = U(0.5, 3);
            s.reports.push_back({m + V2(U(-0.7, 0.7), U(-0.7, 0.7)), P, 1e-3});
        }
    }
    c.label("crowd");
}
// A single cluster of many targets, under one report that may be any of them:
// the joint weights of its hypotheses are products of that many factors.
inline void add_chain(Case& c, Scene& s) {
    int n = c.coin(80) ? c.i(8, 24) : c.i(40, 130);
    std::mt19937_64 g(c.u(1 << 20));
    auto U = [&](double a, double b) { return a + (b - a) * (g() >> 11) * (1.0 / 9007199254740992.0); };
    double kappa = c.pick({1e-3, 1.0, 1e-6, 1e-30, 1e-90}), gap = c.pick({12.0, 30.0, 60.0}), sd = c.pick({1.0, 5.0, 15.0});
    double share = c.pick({1.0, 0.9, 0.3, 0.0}), sure = c.pick({0.0, 0.5, 1.0});
    int side = 1 + static_cast<int>(std::sqrt(n));
    V2 off(4000, 0);
    for (int i = 0; i < n; ++i) {
        V2 m = off + V2(gap * (i / side) + U(0, 5), gap * (i % side - side / 2) + U(0, 5));
        Comp q;
        q.x << m, U(-5, 5), U(-5, 5);
        q.P = M4::Identity();
        q.P(0, 0) = sd * sd * U(0.5, 2); q.P(1, 1) = sd * sd * U(0.5, 2); q.P(0, 1) = q.P(1, 0) = sd * sd * U(-0.3, 0.3);
        q.w = 1;
        s.targets.push_back({U(0, 1) < sure ? 1 - std::pow(10, U(-6, -2)) : U(0.3, 0.98), {q}});
        if (U(0, 1) < share) {
            M2 P = M2::Identity() * sd * sd;
            P(0, 0) *= U(0.5, 1); P(1, 1) *= U(0.5, 1);
            s.reports.push_back({m + sd * V2(U(-1, 1), U(-1, 1)), P, kappa});
        }
    }
    double w = gap * side;
    s.reports.push_back({off + V2(w / 2, 0), M2::Identity() * w * w, std::min(kappa, 1e-6)});
    c.label("many targets in one cluster");
    s.chain = n;
}
inline Scene gen_scene(Case& c, const SceneOpt& o, double rlim) {
    Scene s;
    s.origin = gen_origin(c);
    int np = o.groups ? c.i(1, 3) : 1;
    for (int k = 0; k < np; ++k) { s.places.push_back(k == 0 ? V2(0, 0) : V2(c.sym(o.place) * 2, o.place * k)); }
    int nt = c.i(o.minT, o.maxT), nr = c.i(o.minR, o.maxR);
    for (int i = 0; i < nt; ++i) {
        V2 m = s.places[c.u(np)] + V2(c.sym(12), c.sym(12));
        int nc = c.coin(60) ? 1 : c.i(1, o.maxC);
        Scene::T t;
        t.r = gen_r(c, rlim);
        for (int k = 0; k < nc; ++k) {
            Comp q;
            q.x << m + V2(c.sym(8), c.sym(8)), c.sym(20), c.sym(20);
            q.P = gen_cov4(c, 0.3, o.smax);
            q.w = c.real(0.05, 1);
            t.c.push_back(q);
        }
        s.targets.push_back(t);
    }
    for (int j = 0; j < nr; ++j) {
        V2 m;
        if (!s.targets.empty() && c.coin(70)) {  // near a target's component
            auto& t = s.targets[c.u(s.targets.size())];
            m = t.c[c.u(t.c.size())].x.head<2>() + V2(c.sym(6), c.sym(6));
        } else {
            m = s.places[c.u(np)] + V2(c.sym(40), c.sym(40));
        }
        if (!s.reports.empty() && c.coin(8)) {  // the same place, known better or worse
            s.reports.push_back({s.reports.back().z, s.reports.back().P * c.logreal(0.02, 100), c.logreal(o.kmin, o.kmax)});
        } else {
            s.reports.push_back({m, gen_cov2(c, 0.3, 5), c.logreal(o.kmin, o.kmax)});
        }
    }
    if (o.crowd && c.coin(o.crowd)) { add_crowd(c, s, o.maxR > 0); }
    else if (o.chain && c.u(1000) < static_cast<uint64_t>(o.chain)) { add_chain(c, s); }
    return s;
}
inline void place(Tracker& tr, const Scene& s) { for (auto& t : s.targets) { add_target(tr, t.r, t.c, s.origin); } }
inline Scan scan_of(const Scene& s) { Scan z; for (auto& r : s.reports) { z.push_back(make_report(r.z, r.P, s.origin, r.kappa)); } return z; }
inline void show_scene(Case& c, const Scene& s) {
    if (!c.describe) { return; }
    c.desc.precision(8);
    c.desc << "origin(" << s.origin.transpose() << ") ";
    for (auto& t : s.targets) { c.desc << "T{r=" << t.r; for (auto& k : t.c) { c.desc << " (w=" << k.w << " ne=" << k.x.transpose() << " sd=" << k.P.diagonal().cwiseSqrt().transpose() << ")"; } c.desc << "} "; }
    for (auto& r : s.reports) { c.desc << "Z{" << r.z.transpose() << " P=" << r.P(0, 0) << "," << r.P(0, 1) << "," << r.P(1, 1) << " k=" << r.kappa << "} "; }
}

// ------------------------------------------------------------ reference model
// Box of a mixture, as geographic rectangle: hull of the components' n-sigma
// rectangles in the target's local frame.
inline AABBox ref_box(const std::vector<Comp>& c, double nstd, const LL& o) {
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    for (auto& k : c) {
        V2 p = cf::ll2ne(V2(k.x.head<2>()), o);
        for (int d = 0; d < 2; ++d) {
            double h = nstd * std::sqrt(k.P(d, d));
            lo[d] = std::min(lo[d], p[d] - h);
            hi[d] = std::max(hi[d], p[d] + h);
        }
    }
    LL a = cf::ne2ll(V2(lo[0], lo[1]), o), b = cf::ne2ll(V2(hi[0], hi[1]), o);
    return AABBox(a[0], a[1], b[0], b[1]);
}
// Signed overlap of two geographic rectangles in metres (negative: separated).
inline double overlap_m(const AABBox& a, const AABBox& b) {
    double k = 111000, kl = k * std::max(0.1, std::cos(a.min[0] * M_PI / 180));
    double d0 = std::min(a.max[0], b.max[0]) - std::max(a.min[0], b.min[0]);
    double d1 = std::min(a.max[1], b.max[1]) - std::max(a.min[1], b.min[1]);
    return std::min(d0 * k, d1 * kl);
}
// Gap (positive) or depth (negative) between convex quadrilaterals, SAT, in the units of the corners scaled by s.
inline double sat_gap(const Eigen::Matrix<double, 2, 4>& A, const Eigen::Matrix<double, 2, 4>& B) {
    double g = -1e300;
    for (int side = 0; side < 2; ++side) {
        auto& Q = side ? B : A;
        for (int i = 0; i < 4; ++i) {
            V2 e = Q.col((i + 1) % 4) - Q.col(i);
            V2 n(-e[1], e[0]);
            if (n.norm() == 0) { continue; }
            n.normalize();
            double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
            for (int k = 0; k < 4; ++k) {
                double pa = n.dot(A.col(k)), pb = n.dot(B.col(k));
                a0 = std::min(a0, pa); a1 = std::max(a1, pa); b0 = std::min(b0, pb); b1 = std::max(b1, pb);
            }
            g = std::max(g, std::max(a0 - b1, b0 - a1));
        }
    }
    return g;
}

struct Clustering {
    bool ambiguous = false;                 // some overlap too close to call
    std::vector<std::vector<int>> reps, tgts;  // per cluster; those with reports first
    size_t with_reports = 0;
    std::vector<int> rep_cluster, tgt_cluster;  // -1: not in any
};
// targets in view -> inview flags
inline Clustering ref_clusters(const Snap& s, const Scan& z, const std::vector<char>& inview, double margin = 0.05) {
    Clustering r;
    size_t T = s.size(), N = z.size();
    std::vector<int> p(T + N);
    for (size_t i = 0; i < p.size(); ++i) { p[i] = i; }
    std::function<int(int)> root = [&](int a) { while (p[a] != a) { a = p[a]; } return a; };
    std::vector<char> hit(T, 0);
    for (size_t j = 0; j < N; ++j) {
        double h0 = 2 * std::sqrt(z[j].P(0, 0)), h1 = 2 * std::sqrt(z[j].P(1, 1));
        LL o = z[j].x;
        LL a = cf::ne2ll(V2(-h0, -h1), o), b = cf::ne2ll(V2(h0, h1), o);
        AABBox box(a[0], a[1], b[0], b[1]);
        for (size_t i = 0; i < T; ++i) {
            double m = overlap_m(s[i].box, box);
            if (std::fabs(m) < margin) { r.ambiguous = true; }
            if (m > 0) { p[root(i)] = root(T + j); hit[i] = 1; }
        }
    }
    r.rep_cluster.assign(N, -1);
    r.tgt_cluster.assign(T, -1);
    std::map<int, int> num;
    for (size_t j = 0; j < N; ++j) {
        int q = root(T + j);
        if (!num.count(q)) { num[q] = r.reps.size(); r.reps.emplace_back(); r.tgts.emplace_back(); }
        r.reps[num[q]].push_back(j);
        r.rep_cluster[j] = num[q];
    }
    for (size_t i = 0; i < T; ++i) { if (hit[i]) { int q = num[root(i)]; r.tgts[q].push_back(i); r.tgt_cluster[i] = q; } }
    r.with_reports = r.reps.size();
    for (size_t i = 0; i < T; ++i) {
        if (!hit[i] && inview[i]) { r.tgt_cluster[i] = r.reps.size(); r.reps.emplace_back(); r.tgts.push_back({static_cast<int>(i)}); }
    }
    return r;
}

// Mixture reduction: heaviest first, stop below the relative limit or at the cap.
inline std::vector<Comp> ref_reduce(std::vector<Comp> all, double cw_lim, size_t cap, bool* ambiguous = nullptr) {
    std::stable_sort(all.begin(), all.end(), [](const Comp& a, const Comp& b) { return a.w > b.w; });
    std::vector<Comp> out;
    double ws = 0;
    for (auto& k : all) {
        if (out.size() >= cap) { if (ambiguous && k.w > 0 && k.w >= out.back().w * (1 - 1e-9)) { *ambiguous = true; } break; }
        ws += k.w;
        double q = k.w / ws;
        if (ambiguous && std::fabs(q - cw_lim) < 1e-9 * cw_lim) { *ambiguous = true; }
        if (q < cw_lim) { if (ambiguous && !out.empty() && k.w > 0 && k.w >= out.back().w * (1 - 1e-9)) { *ambiguous = true; } break; }
        out.push_back(k);
    }
    double s = 0;
    for (auto& k : out) { s += k.w; }
    for (auto& k : out) { k.w /= s; }
    return out;
}

struct HypResult {
    Eigen::MatrixXd R;      // M x (N+1), normalised
    int n = 0;              // hypotheses evaluated
    int total = 0;          // hypotheses with non-zero weight
    bool ambiguous = false; // a tie or a threshold too close at the cut
    double wsum = 0;
};
// L: M x N detection terms r*g, miss: r*(1-pd), none: 1-r.
inline HypResult ref_hypotheses(const Eigen::MatrixXd& L, const Eigen::VectorXd& miss, const Eigen::VectorXd& none, double w_lim, double nhyp_max, bool all) {
    int M = L.rows(), N = L.cols();
    struct H { double lw; std::vector<int> a; };
    std::vector<H> hs;
    std::vector<int> a(M, 0);
    std::vector<char> used(N, 0);
    std::function<void(int, double)> rec = [&](int i, double lw) {
        if (i == M) { hs.push_back({lw, a}); return; }
        if (miss[i] > 0) { a[i] = N; rec(i + 1, lw + std::log(miss[i])); }
        if (none[i] > 0) { a[i] = N + 1; rec(i + 1, lw + std::log(none[i])); }
        for (int j = 0; j < N; ++j) {
            if (used[j] || !(L(i, j) > 0)) { continue; }
            used[j] = 1; a[i] = j;
            rec(i + 1, lw + std::log(L(i, j)));
            used[j] = 0;
        }
    };
    const bool large = !all && (M > 6 || (nhyp_max < 10 && std::pow(N + 2, M) > 2e4));
    if (large) {  // too many to enumerate: the best ranked ones, one more than asked for
        refassign::Mat C(M, std::vector<double>(N + 2 * M, refassign::INF));
        for (int i = 0; i < M; ++i) {
            for (int j = 0; j < N; ++j) { if (L(i, j) > 0) { C[i][j] = -std::log(L(i, j)); } }
            if (miss[i] > 0) { C[i][N + i] = -std::log(miss[i]); }
            if (none[i] > 0) { C[i][N + M + i] = -std::log(none[i]); }
        }
        size_t k = static_cast<size_t>(std::max(1.0, nhyp_max));
        for (auto& q : refassign::kbest(C, M > 60 && k == 1 ? 1 : k + 1)) {
            H h{-q.cost, std::vector<int>(M)};
            for (int i = 0; i < M; ++i) { h.a[i] = q.x[i] < N ? q.x[i] : q.x[i] < N + M ? N : N + 1; }
            hs.push_back(h);
        }
    } else {
        rec(0, 0);
    }
    std::stable_sort(hs.begin(), hs.end(), [](const H& x, const H& y) { return x.lw > y.lw; });
    HypResult r;
    r.R = Eigen::MatrixXd::Zero(M, N + 1);
    r.total = hs.size();
    for (size_t k = 0; k < hs.size(); ++k) {
        double w = std::exp(hs[k].lw - hs[0].lw);  // only relative weights matter
        r.wsum += w;
        for (int i = 0; i < M; ++i) { if (hs[k].a[i] <= N) { r.R(i, hs[k].a[i]) += w; } }
        ++r.n;
        if (all) { continue; }
        double q = w / r.wsum;
        if (std::fabs(q - w_lim) <= 1e-7 * w_lim) { r.ambiguous = true; }
        if (q < w_lim || r.n >= nhyp_max) {
            if (k + 1 < hs.size() && hs[k].lw - hs[k + 1].lw < (large ? 1e-6 : 1e-9)) { r.ambiguous = true; }
            break;
        }
    }
    if (r.wsum > 0) { r.R /= r.wsum; r.wsum *= std::exp(hs[0].lw); }
    return r;
}

struct RefUpdate {
    bool ambiguous = false;
    HypResult h;
    std::vector<double> r;                    // existence after
    std::vector<std::vector<Comp>> mix;       // posterior mixtures (global)
    std::vector<double> rB;                   // per report of the cluster
};
// Correct one cluster. pd(component global position) gives the detection probability.
template<typename PD>
RefUpdate ref_update(const Snap& s, const std::vector<int>& ti, const Scan& z, const std::vector<int>& rj, const lmb::Params& p, PD pd, bool all_hyps) {
    RefUpdate u;
    int M = ti.size(), N = rj.size();
    LL o = LL::Zero();
    for (int i : ti) { o += s[i].pos(); }
    for (int j : rj) { o += z[j].x; }
    o /= (M + N);
    Eigen::MatrixXd L(M, N);
    Eigen::VectorXd miss(M), none(M);
    std::vector<std::vector<std::vector<Comp>>> post(M, std::vector<std::vector<Comp>>(N + 1));
    for (int i = 0; i < M; ++i) {
        const TS& t = s[ti[i]];
        double eta = 0;
        for (auto& k : t.c) {
            double d = pd(V2(k.x.head<2>()));
            eta += k.w * d;
            Comp q = k;
            q.x.head<2>() = cf::ll2ne(V2(k.x.head<2>()), o);
            post[i][N].push_back(q);
        }
        miss[i] = t.r * std::max(0.0, 1 - eta);
        if (1 - eta < 1e-13) { miss[i] = 0; }
        none[i] = t.r < 1 ? 1 - t.r : 0;
        for (int j = 0; j < N; ++j) {
            const Report& y = z[rj[j]];
            V2 m = cf::ll2ne(V2(y.x), o);
            double sum = 0;
            for (auto& k : post[i][N]) {
                M2 A = k.P.topLeftCorner<2, 2>(), S = A + y.P;
                V2 e = m - k.x.head<2>();
                double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
                M2 Si; Si << S(1, 1), -S(0, 1), -S(1, 0), S(0, 0);
                Si /= det;
                double lik = std::exp(-0.5 * e.dot(Si * e)) / (2 * M_PI * std::sqrt(det));
                Comp q;
                Eigen::Matrix<double, 4, 2> G = k.P.leftCols<2>() * Si;
                q.x = k.x + G * e;
                q.P = k.P - G * k.P.topRows<2>();
                q.w = k.w * pd(V2(t.c[&k - &post[i][N][0]].x.head<2>())) * lik / y.kappa;
                sum += q.w;
                post[i][j].push_back(q);
            }
            if (std::fabs(sum - 1e-8) < 1e-13) { u.ambiguous = true; }
            if (sum > 1e-8) { for (auto& q : post[i][j]) { q.w /= sum; } } else { post[i][j].clear(); sum = 0; }
            L(i, j) = t.r * sum;
        }
    }
    u.h = ref_hypotheses(L, miss, none, p.w_lim, p.nhyp_max, all_hyps);
    u.ambiguous = u.ambiguous || u.h.ambiguous;
    for (int j = 0; j < N; ++j) { u.rB.push_back(1 - u.h.R.col(j).sum()); }
    for (int i = 0; i < M; ++i) {
        double r = u.h.R.row(i).sum();
        if (std::fabs(r - 1e-6) < 1e-12) { u.ambiguous = true; }
        std::vector<Comp> mixt;
        if (r >= 1e-6) {
            for (int j = 0; j <= N; ++j) { for (auto q : post[i][j]) { q.w *= u.h.R(i, j); mixt.push_back(q); } }
            mixt = ref_reduce(mixt, p.cw_lim, 200, &u.ambiguous);
            for (auto& q : mixt) { q.x.head<2>() = cf::ne2ll(V2(q.x.head<2>()), o); }
        } else {
            r = 0;
        }
        u.r.push_back(r);
        u.mix.push_back(mixt);
    }
    return u;
}
inline M2 avg_poscov(const std::vector<Comp>& c) { M2 P = M2::Zero(); for (auto& k : c) { P += k.w * k.P.topLeftCorner<2, 2>(); } return P; }
// +1 viable, -1 not, 0 too close to tell
inline int ref_viable(double r, const std::vector<Comp>& c, const lmb::Params& p) {
    double n = c.empty() ? 0 : avg_poscov(c).norm();
    if (std::fabs(r - p.r_lim) < 1e-9 || std::fabs(n - p.cov_lim) < 1e-6 * p.cov_lim) { return 0; }
    return r >= p.r_lim && n <= p.cov_lim ? 1 : -1;
}

inline lmb::Params gen_params(Case& c) {
    lmb::Params p;
    if (c.coin(40)) { return p; }
    p.w_lim = c.pick({0.01, 0.1, 1e-4, 0.3, 1e-8});
    p.r_lim = c.pick({0.05, 0.01, 0.1, 0.3, 0.001});
    p.nhyp_max = c.pick({100, 1, 2, 5, 1000});
    p.rB_max = c.pick({0.8, 0.5, 0.95, 0.4});
    p.nstd = c.pick({1.9, 1.0, 3.0, 2.5});
    p.cw_lim = c.pick({0.01, 0.1, 1e-4, 1e-8});
    p.cov_lim = c.pick({150.0, 1000.0, 40.0});
    p.tscale = c.pick({1.0, 1000.0, 0.5});
    return p;
}
}  // namespace lx
