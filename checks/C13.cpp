// C13: measurement updates against the Bayes posterior in information form,
// computed in extended precision.
#include "lmbx.hpp"
using namespace lx;
using L4 = Eigen::Matrix<long double, 4, 4>;
using L2 = Eigen::Matrix<long double, 2, 2>;
using V4l = Eigen::Matrix<long double, 4, 1>;
using V2l = Eigen::Matrix<long double, 2, 1>;

struct Post { V4 x; M4 P; double w; double q; };

static Post bayes(const Comp& k, const Report& z, double pd) {
    L4 P = k.P.cast<long double>();
    L2 R = z.P.cast<long double>();
    L4 Pi = P.inverse();
    L2 Ri = R.inverse();
    L4 I = Pi;
    I.topLeftCorner<2, 2>() += Ri;
    L4 Pn = I.inverse();
    V4l b = Pi * k.x.cast<long double>();
    V2l zz = z.x.cast<long double>();
    b.head<2>() += Ri * zz;
    V4l xn = Pn * b;
    L2 S = P.topLeftCorner<2, 2>() + R;
    V2l e = zz - k.x.cast<long double>().head<2>();
    long double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    long double q = (S(1, 1) * e[0] * e[0] - (S(0, 1) + S(1, 0)) * e[0] * e[1] + S(0, 0) * e[1] * e[1]) / det;
    long double lik = expl(-q / 2) / (2 * M_PIl * sqrtl(det));
    Post p;
    p.x = xn.cast<double>();
    p.P = Pn.cast<double>();
    p.w = static_cast<double>(k.w * pd * lik / z.kappa);
    p.q = q;
    return p;
}
static void cmp(Case& c, const V4& x, const M4& P, const Post& e, const M4& prior, double extra, const std::string& what) {
    // error allowed: rounding in units of the prior's standard deviations
    for (int k = 0; k < 4; ++k) {
        double sd = std::sqrt(prior(k, k));
        c.near(x[k], e.x[k], 1e-7 * sd * (1 + std::sqrt(e.q)) + extra, 1e-12, what + ": posterior mean, state " + std::to_string(k));
        for (int j = 0; j < 4; ++j) { c.near(P(k, j), e.P(k, j), 1e-7 * sd * std::sqrt(prior(j, j)), 0, what + ": posterior covariance " + std::to_string(k) + std::to_string(j)); }
    }
    V4 d = prior.diagonal().cwiseSqrt().cwiseInverse();
    M4 N = d.asDiagonal() * P * d.asDiagonal(), M = d.asDiagonal() * (prior - P) * d.asDiagonal();
    c.check((N - N.transpose()).norm() < 1e-8, what + ": posterior covariance is not symmetric");
    N = 0.5 * (N + N.transpose().eval());
    M = 0.5 * (M + M.transpose().eval());
    Eigen::SelfAdjointEigenSolver<M4> a(N), b(M);
    c.check(a.eigenvalues()[0] > 0, what + ": posterior covariance is not positive definite");
    c.check(b.eigenvalues()[0] > -1e-8, what + ": posterior covariance exceeds the prior");
}

static Report gen_report(Case& c, const std::vector<Comp>& cs, double scale) {
    auto& k = cs[c.u(cs.size())];
    V2 m = k.x.head<2>();
    double sd = std::sqrt(k.P(0, 0));
    switch (c.u(5)) {
        case 0: break;                                                  // spot on
        case 1: case 2: m += V2(c.gauss(), c.gauss()) * sd; break;
        case 3: m += V2(c.sym(1), c.sym(1)) * 6 * sd; break;
        default: m += V2(c.sym(scale), c.sym(scale)); break;            // maybe far
    }
    return Report(m, gen_cov2(c, 0.05, 30), c.coin(30) ? 1.0 : c.logreal(1e-8, 10));
}

static void likelihood(Case& c) {  // any dimension
    int n = c.i(1, 4);
    Eigen::MatrixXd A(n, n), S;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { A(i, j) = c.sym(3); } }
    S = A * A.transpose() + Eigen::MatrixXd::Identity(n, n) * c.logreal(0.01, 10);
    Eigen::VectorXd d(n);
    for (int i = 0; i < n; ++i) { d[i] = c.sym(c.pick({1.0, 5.0, 30.0})); }
    Eigen::LLT<Eigen::MatrixXd> llt(S);
    Eigen::VectorXd y = llt.matrixL().solve(d);
    double ld = 0;
    for (int i = 0; i < n; ++i) { ld += std::log(llt.matrixL()(i, i)); }
    double want = std::exp(-0.5 * y.squaredNorm() - ld - 0.5 * n * std::log(2 * M_PI));
    Eigen::MatrixXd Si = S.inverse();
    Report z(V2(0, 0), M2::Identity());
    c.near(z.likelihood(d, Si), want, 1e-300, 1e-7 * (1 + y.squaredNorm()), "density of a " + std::to_string(n) + "-dimensional innovation");
    c.label("density");
    if (want > 0) { c.nontrivial(); }
}

static void prop(Case& c) {
    if (c.u(6) == 5) { likelihood(c); return; }
    lmb::Params p;
    std::vector<Comp> cs;
    int n = c.coin(40) ? 1 : c.i(1, 12);
    double ws = 0, scale = c.pick({30.0, 300.0, 5000.0});
    for (int k = 0; k < n; ++k) {
        Comp q;
        q.x << c.sym(scale), c.sym(scale), c.sym(40), c.sym(40);
        if (k && c.coin()) { q.x.head<2>() = cs[0].x.head<2>() + V2(c.sym(10), c.sym(10)); }
        q.P = gen_cov4(c, 0.05, 50, 0.01, 10);
        q.w = c.coin(10) ? 1e-9 : c.real(0.05, 1);
        ws += q.w;
        cs.push_back(q);
    }
    for (auto& q : cs) { q.w /= ws; }
    ExactSensor se;
    se.pD_ = c.coin(20) ? 1.0 : c.realb(0, 1);
    LL org = gen_origin(c);
    if (c.coin(50)) { se.slope = c.sym(3000); se.centre = org; c.label("position-dependent detection"); }
    Report z = gen_report(c, cs, scale);
    if (c.describe) {
        c.desc << "z " << z.x.transpose() << " R " << z.P(0, 0) << "," << z.P(0, 1) << "," << z.P(1, 1) << " kappa " << z.kappa << " pD " << se.pD_ << " slope " << se.slope << "; ";
        for (auto& q : cs) { c.desc << "(w " << q.w << " x " << q.x.transpose() << " sd " << q.P.diagonal().cwiseSqrt().transpose() << ") "; }
    }
    auto pd = [&](const Comp& k) { return se.slope == 0 ? se.pD_ : se.at(cf::ne2ll(V2(k.x.head<2>()), org)); };
    std::vector<Post> want;
    double sum = 0;
    bool close = false, near_report = false;
    for (auto& k : cs) { want.push_back(bayes(k, z, pd(k))); sum += want.back().w; near_report = near_report || want.back().q < 20; }

    {   // one Gaussian
        lmb::Gaussian_<4> g(cs[0].x, cs[0].P, cs[0].w);
        double w = g.correct(z, se, org);
        cmp(c, g.x, g.P, want[0], cs[0].P, 0, "Gaussian");
        c.near(w, want[0].w, 1e-300, 1e-7 * (1 + want[0].q), "weight returned for a Gaussian");
        c.check(w == g.w, "returned weight is not the component's");
    }
    auto mix = [&](const std::vector<int>& order) {
        PDF m(&p);
        for (int k : order) { m.c.emplace_back(cs[k].x, cs[k].P, cs[k].w); }
        m.origin = org;
        return m;
    };
    std::vector<int> id(n);
    for (int k = 0; k < n; ++k) { id[k] = k; }
    PDF m = mix(id);
    double eta = m.correct(z, se);
    double qmin = 1e300;
    for (auto& e : want) { if (e.w > sum * 1e-3) { qmin = std::min(qmin, e.q); } }
    double rel = 1e-7 * (1 + (qmin < 1e299 ? qmin + 60 : 60));
    close = std::fabs(sum - 1e-8) < 1e-8 * rel * 10;
    if (!close && sum < 1e-8) {
        c.check(m.c.empty() && eta == 0 && m.eta == 0, "a mixture without evidence is kept or reports evidence");
        c.label("no evidence");
    } else if (!close) {
        c.check(m.c.size() == cs.size(), "the update changes the number of components");
        c.near(eta, sum, 0, rel, "evidence");
        c.check(eta == m.eta, "returned evidence differs from the stored one");
        double s1 = 0;
        for (int k = 0; k < n; ++k) {
            cmp(c, m.c[k].x, m.c[k].P, want[k], cs[k].P, 0, "component");
            c.near(m.c[k].w, want[k].w / sum, 1e-12, 2 * rel + 1e-7 * want[k].q, "component weight");
            s1 += m.c[k].w;
        }
        c.near(s1, 1, 1e-9, 0, "sum of the weights");
        // any other order of the components
        std::vector<int> perm = id;
        c.shuffle(perm);
        PDF o = mix(perm);
        double eta2 = o.correct(z, se);
        c.near(eta2, eta, 0, 1e-9, "evidence depends on the order of components");
        for (int k = 0; k < n; ++k) {
            auto &a = o.c[k], &b = m.c[perm[k]];
            c.check(a.x == b.x && a.P == b.P, "a component's posterior depends on the order");
            c.near(a.w, b.w, 1e-15, 1e-9, "a component's weight depends on the order");
        }
        c.label("evidence");
        if (near_report && se.pD_ > 0) { c.nontrivial(); }
        // a second report: the update composes
        if (c.coin(40)) {
            Report z2 = gen_report(c, cs, scale);
            std::vector<Post> w2;
            double sum2 = 0, q2 = 1e300;
            for (int k = 0; k < n; ++k) {
                Comp q{m.c[k].x, 0.5 * (m.c[k].P + m.c[k].P.transpose()), m.c[k].w};
                w2.push_back(bayes(q, z2, pd(q)));
                sum2 += w2.back().w;
            }
            for (auto& e : w2) { if (e.w > sum2 * 1e-3) { q2 = std::min(q2, e.q); } }
            double rel2 = 1e-6 * (61 + (q2 < 1e299 ? q2 : 0));
            std::vector<M4> pr;
            for (auto& g : m.c) { pr.push_back(g.P); }
            double e2 = m.correct(z2, se);
            if (sum2 > 1.1e-8) {
                c.near(e2, sum2, 0, rel2, "evidence of a second report");
                for (int k = 0; k < n; ++k) {
                    cmp(c, m.c[k].x, m.c[k].P, w2[k], cs[k].P, 1e-6, "component after a second report");
                    c.near(m.c[k].w, w2[k].w / sum2, 1e-10, 2 * rel2 + 1e-6 * w2[k].q, "component weight after a second report");
                }
                c.label("two reports");
            }
        }
    }
}

PBT_MAIN({"C13",
    "Gaussians and mixtures of 1-12 components with full 4-D covariances (position 0.05-50 m) corrected with one or two reports from spot-on to far away, constant or "
    "position-dependent detection probability, clutter densities 1e-8 to 10; posterior, weights and evidence against the information-form Bayes update in extended "
    "precision; innovation densities in 1-4 dimensions; non-trivial: evidence above the cut-off and a report within sqrt(20) standard deviations of a component",
    prop, 200000, 3000000, 8, 30,
    {"covariances are positive definite with condition number up to about 1e10", "evidence within rounding of the 1e-8 cut-off is not judged"}})
