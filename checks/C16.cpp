// C16: the particle representation against direct evaluation over its particles.
#include "stat.hpp"
#include "pf.hpp"
#include <omp.h>
#include <map>
using namespace lx;


// Detection probability as a function of the particle, so that each has its own.
struct PSensor : public Sensor {
    double slope = 0;
    V2 centre = V2::Zero();
    mutable LL seen = LL::Zero();
    double at(const V2& p) const { return pD_ * (slope == 0 ? 1.0 : 0.5 + 0.5 * std::tanh(slope * (p[0] - centre[0] + p[1] - centre[1]))); }
    template<typename P> double pD(const P& p, const LL& o) const { seen = o; V2 q(p.p[0], p.p[1]); return at(q); }
};

template<unsigned N> struct Cloud { std::vector<V4> x; std::vector<double> w; };
template<unsigned N> static Cloud<N> take(const lmb::PF<4, N>& f) {
    Cloud<N> k;
    for (unsigned i = 0; i < N; ++i) { k.x.push_back(f.x.col(i).matrix()); k.w.push_back(f.w[i]); }
    return k;
}
template<unsigned N> static void moments(const Cloud<N>& k, V4& m, M4& P) {
    m.setZero(); P.setZero();
    for (unsigned i = 0; i < N; ++i) { m += k.w[i] * k.x[i]; }
    for (unsigned i = 0; i < N; ++i) { P += k.w[i] * (k.x[i] - m) * (k.x[i] - m).transpose(); }
}
template<unsigned N> static void audit(Case& c, lmb::PF<4, N>& f, const std::string& when) {
    auto k = take<N>(f);
    V4 m; M4 P;
    moments<N>(k, m, P);
    double s = 0, s2 = 0;
    for (double w : k.w) { c.check(w >= 0, when + ": negative weight"); s += w; s2 += w * w; }
    c.near(s, 1, 1e-9, 0, when + ": sum of the weights");
    V4 gm = f.mean();
    M4 gc = f.cov(), gc2 = f.cov(gm);
    double sc = 1e-9 * (1 + m.norm());
    for (int i = 0; i < 4; ++i) {
        c.near(gm[i], m[i], sc, 0, when + ": mean");
        for (int j = 0; j < 4; ++j) {
            double t = 1e-9 * std::sqrt(P(i, i) * P(j, j)) + sc * sc;
            c.near(gc(i, j), P(i, j), t, 0, when + ": covariance");
            c.near(gc2(i, j), P(i, j), t, 0, when + ": covariance about the mean");
        }
    }
    V2 gp = f.pos();
    M2 pc = f.poscov();
    c.check(gp == gm.template head<2>() && (pc - gc.template topLeftCorner<2, 2>()).norm() == 0, when + ": position moments");
    V4 a = m + V4(1, -2, 0.5, 3);
    M4 about = P + (m - a) * (m - a).transpose();
    c.check((f.cov(a) - about).norm() <= 1e-8 * (1 + about.norm()), when + ": second moment about a given point");
    c.near(f.neff(), 1 / s2, 1e-9, 1e-9, when + ": effective sample size");
    c.check(f.neff() <= N * (1 + 1e-9) && f.neff() >= 1 - 1e-9, when + ": effective sample size outside [1, N]");
}

struct StateLess { bool operator()(const V4& a, const V4& b) const { return std::lexicographical_compare(a.data(), a.data() + 4, b.data(), b.data() + 4); } };

// Systematic resampling: every particle is copied its weight times N, rounded up or down.
template<unsigned N> static void resampling(Case& c, lmb::PF<4, N>& f, int threads) {
    auto b = take<N>(f);
    struct Run { double w = 0; int runs = 0, n = 0; };
    std::map<V4, Run, StateLess> of;
    for (unsigned i = 0; i < N; ++i) {
        Run& r = of[b.x[i]];
        r.w += b.w[i];
        if (!i || b.x[i] != b.x[i - 1]) { ++r.runs; }
    }
    // (a fork for each update of a small cloud costs more than the update)
    omp_set_num_threads(threads);
    f.valid = true;
    f.resample();
    omp_set_num_threads(1);
    auto a = take<N>(f);
    c.check(f.valid, "resampling gives the cloud up");
    for (unsigned i = 0; i < N; ++i) {
        c.near(a.w[i], 1.0 / N, 1e-15, 0, "weight after resampling");
        auto q = of.find(a.x[i]);
        c.check(q != of.end(), "resampling makes up a particle");
        ++q->second.n;
    }
    for (auto& q : of) {
        c.check(std::fabs(q.second.n - N * q.second.w) < q.second.runs * (1 + 1e-9) + N * 1e-12,
                "a particle of weight " + c.num(q.second.w) + " of a cloud of " + std::to_string(N) + " was resampled " + std::to_string(q.second.n) + " times");
    }
}
// ... and on average exactly its weight times N
static void resampling_is_fair(Case& c) {
    lmb::Params p;
    const int K = 4000;
    V4 w;
    double a = c.real(0.01, 1), b = c.real(0.01, 1), d = c.real(0.01, 1), s = a + b + d;
    M4 P = M4::Identity();
    V4 x;
    x << 10, 10, 0, 0;
    auto g = std::make_unique<lmb::PF<4, 3>>(&p, x, P);
    std::array<double, 3> in{a / s, b / s, d / s}, n{0, 0, 0};
    for (int i = 0; i < 3; ++i) { g->x.col(i) = i; g->w[i] = in[i]; }
    for (int k = 0; k < K; ++k) {
        auto h = *g;
        h.valid = true;
        h.resample();
        for (int i = 0; i < 3; ++i) { n[std::min(2, std::max(0, static_cast<int>(h.x(0, i))))] += 1; }
    }
    c.show("weights", in[0]); c.show("", in[1]); c.show("", in[2]);
    for (int i = 0; i < 3; ++i) {
        double e = 3 * in[i], fl = std::floor(e), fr = e - fl, got = n[i] / K - fl;
        c.check(std::fabs(got - fr) <= bern(fr, K) + 1e-9, "a particle of weight " + c.num(in[i]) + " of three was resampled " + c.num(n[i] / K) + " times on average");
    }
    c.label("fairness of resampling");
    c.nontrivial();
}

template<unsigned N> static void run(Case& c) {
    using F = lmb::PF<4, N>;
    lmb::Params p;
    LL o = gen_origin(c);
    if (std::fabs(o[0]) > 70) { o[0] = 60; }
    // created in geographic coordinates: a cloud a few metres to kilometres wide
    double k = c.pick({1e-6, 1e-5, 1e-4});
    M4 P = gen_cov4(c, 0.5, 30);
    P.topRows<2>() *= k; P.leftCols<2>() *= k;
    V4 x;
    x << o, c.sym(20), c.sym(20);
    p.nstd = c.real(0.5, 4);
    auto f = std::make_unique<F>(&p, x, P);
    c.check(f->valid, "a new cloud is not in use");
    {
        auto l = take<N>(*f);  // its box is that of its moments in its own frame
        V2 m = V2::Zero();
        M2 S = M2::Zero();
        std::vector<V2> ne;
        for (unsigned i = 0; i < N; ++i) { ne.push_back(cf::ll2ne(V2(l.x[i].template head<2>()), f->origin)); m += l.w[i] * ne.back(); }
        for (unsigned i = 0; i < N; ++i) { S += l.w[i] * (ne[i] - m) * (ne[i] - m).transpose(); }
        if (S.determinant() > 1e-6 * S.trace() * S.trace()) {
            // corner order and direction of the axes are free
            AABBox want = BBox(m, S, p.nstd).llbbox(f->origin).aabbox(), got = f->llaabbox();
            for (int d = 0; d < 2; ++d) {
                double size = want.max[d] - want.min[d];
                c.check(std::fabs(got.min[d] - want.min[d]) + std::fabs(got.max[d] - want.max[d]) < 1e-5 * size + 1e-9, "the box of a new cloud is not that of its moments");
            }
        }
    }
    {
        auto w = take<N>(*f);
        for (double v : w.w) { c.near(v, 1.0 / N, 1e-15, 0, "initial weight"); }
        Eigen::LLT<M4> llt(P);
        V4 sum = V4::Zero();
        M4 S = M4::Zero();
        for (auto& q : w.x) {
            V4 d = q - x;
            V4 y = llt.matrixL().solve(d);
            sum += y;
            S += y * y.transpose();
        }
        for (int i = 0; i < 4; ++i) {
            c.check(std::fabs(sum[i]) / std::sqrt(N) <= std::sqrt(2 * X) + 1e-3, "initial mean is off by " + c.num(sum[i] / N) + " standard deviations");
            for (int j = i; j < 4; ++j) {
                for (int sg = -1; sg <= 1; sg += 2) {
                    double v = i == j ? S(i, i) : 0.5 * (S(i, i) + S(j, j) + 2 * sg * S(i, j));
                    c.check(v - N <= 2 * std::sqrt(N * X) + 2 * X + 0.1 && N - v <= 2 * std::sqrt(N * X) + 0.1, "initial covariance is " + c.num(v / N) + " times the Gaussian's along a direction");
                }
            }
        }
        audit<N>(c, *f, "created");
    }
    f->transform_to_local();
    audit<N>(c, *f, "in the local frame");
    int ops = c.i(1, 6);
    bool updated = false;
    for (int n = 0; n < ops; ++n) {
        auto b = take<N>(*f);
        V4 m; M4 C;
        moments<N>(b, m, C);
        switch (c.u(5)) {
            case 0: {
                double d = c.coin(10) ? 0 : c.logreal(0.01, 10);
                M4 A = M4::Identity();
                A(0, 2) = A(1, 3) = d;
                if (c.coin(30)) { for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { A(i, j) = c.sym(1.5); } } }
                M4 Q = M4::Zero();
                f->linear_update(A, Q);
                auto a = take<N>(*f);
                for (unsigned i = 0; i < N; ++i) {
                    V4 w = A * b.x[i];
                    c.check((a.x[i] - w).norm() <= 1e-9 * (1 + w.norm()), "a motion update does not map particle " + std::to_string(i) + " by the transition");
                    c.check(a.w[i] == b.w[i], "a motion update changes a weight");
                }
                c.label("motion");
                break;
            }
            case 1: case 2: {
                PSensor se;
                se.pD_ = c.coin(20) ? 1.0 : c.realb(0, 1);
                bool real_sensor = c.coin(25);
                if (c.coin(60)) { se.slope = c.sym(0.3); se.centre = m.head<2>(); }
                double spread = std::sqrt(std::max(C(0, 0), C(1, 1))) + 0.1;
                V2 zp = m.head<2>() + V2(c.sym(1), c.sym(1)) * spread * (c.coin(20) ? 20 : 1.5);
                M2 R = gen_cov2(c, 0.3 * spread, 5 * spread);
                Report z(zp, R, c.coin(30) ? 1.0 : c.logreal(1e-9, 1));
                const bool miss = c.coin(25);  // nothing was reported
                Sensor ps;
                Eigen::Matrix<double, 2, 4> quad;
                if (real_sensor) {  // the deployed sensor: a particle is detectable inside the field of view
                    V2 mid = m.head<2>() + V2(c.sym(1), c.sym(1)) * spread;
                    double h = spread * c.real(0.3, 3);
                    quad << mid[0] + h, mid[0] + h, mid[0] - h, mid[0] - h, mid[1] + h, mid[1] - h, mid[1] - h, mid[1] + h;
                    for (int i = 0; i < 4; ++i) { ps.fov.corners.col(i) = cf::ne2ll(V2(quad.col(i)), f->origin); }
                    ps.pD_ = se.pD_;
                }
                double sum = 0, edge = 0;
                std::vector<double> want;
                for (unsigned i = 0; i < N; ++i) {
                    V2 e = zp - b.x[i].template head<2>();
                    double lik = std::exp(-0.5 * e.dot(R.inverse() * e)) / (2 * M_PI * std::sqrt(R.determinant()));
                    double pd = se.at(b.x[i].template head<2>());
                    if (real_sensor) {
                        double g = 1e300;
                        g = std::min({quad(0, 0) - b.x[i][0], b.x[i][0] - quad(0, 2), quad(1, 0) - b.x[i][1], b.x[i][1] - quad(1, 1)});
                        if (std::fabs(g) < 1e-4 * spread + 1e-4) { edge = 1; }
                        pd = g > 0 ? se.pD_ : 0;
                    }
                    want.push_back(miss ? b.w[i] * (1 - pd) : b.w[i] * pd * lik / z.kappa);
                    sum += want.back();
                }
                if (edge || std::fabs(sum - 1e-8) < 1e-13) { break; }
                double eta = miss ? (real_sensor ? f->missed(ps) : f->missed(se)) : real_sensor ? f->correct(z, ps) : f->correct(z, se);
                if (sum < 1e-8) {
                    c.check(eta == 0, "an update without evidence reports " + c.num(eta));
                    c.label("no evidence");
                    return;  // the cloud is given up
                }
                if (!real_sensor) { c.check(se.seen == f->origin, "the detection probability is asked for in another frame"); }
                c.near(eta, sum, 0, 1e-8, "evidence");
                auto a = take<N>(*f);
                for (unsigned i = 0; i < N; ++i) {
                    c.near(a.w[i], want[i] / sum, 1e-12, 1e-8, "weight of particle " + std::to_string(i) + " after an update");
                    c.check(a.x[i] == b.x[i], "a measurement update moves a particle");
                }
                updated = true;
                c.label(miss ? "missed detection" : real_sensor ? "update through the field of view" : "update");
                break;
            }
            case 3: {
                int threads = c.coin(25) ? c.i(2, 4) : 1;
                resampling<N>(c, *f, threads);
                if (c.coin(50)) { f->valid = false; }  // as clouds come
                updated = true;
                c.label(threads > 1 ? "resampling on several threads" : "resampling");
                break;
            }
            default: {  // merging
                int J = c.i(1, 3);
                std::vector<F> in;
                Eigen::Matrix<double, 1, Eigen::Dynamic> W(1, J);
                struct Q { double w; V4 x; };
                std::vector<Q> all;
                for (int j = 0; j < J; ++j) {
                    F g = *f;
                    if (j) { g.x.row(0) += c.sym(50); for (unsigned i = 0; i < N; ++i) { g.w[i] *= 1 + 0.9 * std::sin(0.7 * i * (j + 1)); } g.normalize(); }
                    in.push_back(g);
                    W[j] = c.coin(10) ? 0.0 : c.real(0.01, 1);
                    for (unsigned i = 0; i < N; ++i) { all.push_back({W[j] * g.w[i], g.x.col(i).matrix()}); }
                }
                std::sort(all.begin(), all.end(), [](const Q& a, const Q& b) { return a.w > b.w; });
                double sum = 0;
                for (unsigned i = 0; i < N; ++i) { sum += all[i].w; }
                if (sum < 1e-7) { break; }
                f->valid = c.coin(30);  // (a cloud in use is resampled as well)
                const bool use = f->valid;
                F::join(*f, W, in);
                auto a = take<N>(*f);
                if (use) {
                    c.check(f->valid, "merging gives the cloud up");
                    std::map<V4, std::array<double, 3>, StateLess> of;  // weight kept, entries, copies after
                    for (size_t q = 0; q < all.size(); ++q) {
                        bool tie = Case::close(all[q].w, all[N - 1].w, 1e-14, 1e-9);
                        if (q >= N && !tie) { break; }
                        auto& e = of[all[q].x];
                        e[0] += q < N ? all[q].w / sum : 0;
                        e[1] += tie ? 1 + N * all[q].w / sum : 1;
                    }
                    for (unsigned i = 0; i < N; ++i) {
                        c.near(a.w[i], 1.0 / N, 1e-15, 0, "weight after merging and resampling");
                        auto q = of.find(a.x[i]);
                        c.check(q != of.end(), "merging makes up a particle, or keeps a light one");
                        q->second[2] += 1;
                    }
                    for (auto& q : of) {
                        c.check(std::fabs(q.second[2] - N * q.second[0]) < q.second[1] * (1 + 1e-9) + N * 1e-12,
                                "a particle of weight " + c.num(q.second[0]) + " of a merged cloud of " + std::to_string(N) + " was resampled " + c.num(q.second[2]) + " times");
                    }
                    updated = true;
                    c.label("merge and resample");
                    break;
                }
                std::vector<char> used(all.size(), 0);
                size_t start = 0;
                for (unsigned i = 0; i < N; ++i) {
                    c.near(a.w[i], all[i].w / sum, 1e-14, 1e-9, "weight " + std::to_string(i) + " of the merged cloud");
                    bool ok = false;
                    while (start < all.size() && used[start]) { ++start; }
                    for (size_t q = start; q < all.size() && !ok; ++q) {
                        if (used[q] || !Case::close(all[q].w / sum, a.w[i], 1e-14, 1e-9)) { if (all[q].w / sum < a.w[i] * (1 - 1e-6) - 1e-13) { break; } continue; }
                        if (all[q].x == a.x[i]) { used[q] = 1; ok = true; }
                    }
                    c.check(ok, "particle " + std::to_string(i) + " of the merged cloud is not an input of its weight");
                }
                updated = true;
                c.label("merge");
            }
        }
        audit<N>(c, *f, "after operation " + std::to_string(n));
    }
    // back in geographic coordinates, with the box of a cloud in use
    {
        auto b = take<N>(*f);
        f->valid = true;
        p.nstd = c.real(0.5, 4);
        V2 m = f->pos();
        M2 pc = f->poscov();
        if (pc.determinant() > 1e-9 * pc.trace() * pc.trace()) {
            f->transform_to_global();
            BBox want = BBox(m, pc, p.nstd).llbbox(f->origin);
            c.check((f->bbox.corners - want.corners).norm() <= 1e-9 * (1 + want.corners.norm()), "the box of a cloud is not that of its moments");
            AABBox hull = want.aabbox();
            c.check(std::fabs(f->aabbox.min[0] - hull.min[0]) + std::fabs(f->aabbox.min[1] - hull.min[1]) + std::fabs(f->aabbox.max[0] - hull.max[0]) + std::fabs(f->aabbox.max[1] - hull.max[1]) < 1e-9,
                    "the axis-aligned box of a cloud does not enclose its box");
            AABBox ll = f->llaabbox();
            c.check(ll.min == f->aabbox.min && ll.max == f->aabbox.max, "the geographic box of a cloud is not the box it keeps");
            double h0 = hull.max[0] - hull.min[0], h1 = hull.max[1] - hull.min[1];
            V2 at(hull.min[0] + c.real(-1, 2) * h0, hull.min[1] + c.real(-1, 2) * h1);
            AABBox region(at[0], at[1], at[0] + 0.3 * h0, at[1] + 0.3 * h1);
            double gap = std::max(std::max(region.min[0] - hull.max[0], hull.min[0] - region.max[0]) / h0, std::max(region.min[1] - hull.max[1], hull.min[1] - region.max[1]) / h1);
            if (std::fabs(gap) > 1e-3) { c.check(f->intersects(region) == (gap < 0), "a cloud's box is said to meet a region it does not, or the other way round"); }
            for (unsigned i = 0; i < N; ++i) {
                V2 g = cf::ne2ll(V2(b.x[i].template head<2>()), f->origin);
                c.check((f->x.col(i).template head<2>().matrix() - g).norm() < 1e-11 && f->x.col(i).template tail<2>().matrix() == b.x[i].template tail<2>(), "particle moved on the way back from the local frame");
            }
            c.label("box of a cloud in use");
        }
    }
    if (updated) { c.nontrivial(); }
}

static void prop(Case& c) {
    switch (c.u(20) ? c.u(4) : 9) {
        case 9: resampling_is_fair(c); break;
        case 0: run<700>(c); break;
        case 1: run<3>(c); break;
        default: run<60>(c); break;
    }
}

PBT_MAIN({"C16",
    "clouds of 3, 60 and 700 particles drawn from Gaussians in geographic coordinates, then 1-6 motion updates (constant velocity and arbitrary matrices), "
    "measurement updates and missed detections (per-particle detection probability, or the real sensor's field of view) and merges, in the local frame; every weight and particle "
    "against direct evaluation, moments and effective sample size recomputed after each; non-trivial: at least one measurement update, missed detection or merge",
    prop, 30000, 400000, 8, 60,
    {"clouds are a few metres to kilometres wide and away from poles and antimeridian", "process noise is not judged (see DESIGN.md)"}})
