// C12: prediction against the closed form, on targets in their own frame and
// through the tracker, with composition over time.
#include "lmbx.hpp"
using namespace lx;

static M4 Fm(double d) { M4 F = M4::Identity(); F(0, 2) = F(1, 3) = d; return F; }
static M4 Qm(double d, double q) {
    M4 Q = M4::Zero();
    for (int k = 0; k < 2; ++k) { Q(k, k) = d * d * d / 3 * q; Q(k, k + 2) = Q(k + 2, k) = d * d / 2 * q; Q(k + 2, k + 2) = d * q; }
    return Q;
}
struct Model {
    bool cv;
    double pS, q;
    M4 Q;
    M4 F(double d) const { return cv ? Fm(d) : M4(M4::Identity()); }
    M4 N(double d) const { return cv ? Qm(d, q) : Q; }
    double S(double d) const { return cv ? std::pow(pS, d) : pS; }
    void on(Target* t, double time, double last) const {
        if (cv) { CV m(pS, q); m(t, time, last); } else { NM m(pS, Q); m(t, time, last); }
    }
    void on(Tracker& tr, double time, double last) const {
        if (cv) { CV m(pS, q); tr.predict(m, time, last); } else { NM m(pS, Q); tr.predict(m, time, last); }
    }
    // through the target's own predict, as the tracker does
    void full(Target* t, double time, double last) const {
        if (cv) { CV m(pS, q); t->predict(m, time, last); } else { NM m(pS, Q); t->predict(m, time, last); }
    }
};
static Model gen_model(Case& c) {
    Model m;
    m.cv = c.coin(75);
    m.pS = c.coin(25) ? 1.0 : c.real(0.2, 1.0);
    m.q = c.coin(15) ? 0.0 : c.logreal(1e-3, 50);
    m.Q = c.coin(20) ? M4(M4::Zero()) : gen_cov4(c, 0.1, 8, 0.01, 5);
    if (c.describe) { c.desc << (m.cv ? "CV" : "NM") << " pS=" << m.pS << " q=" << m.q << "; "; }
    return m;
}
static void cmp(Case& c, const Comp& got, const V4& x, const M4& P, double w, double ax, double ap, const std::string& what) {
    for (int k = 0; k < 4; ++k) { c.near(got.x[k], x[k], ax, 1e-12, what + ": state " + std::to_string(k)); }
    double d = pdiff(got.P, P);
    c.check(d <= ap, what + ": covariance differs by " + c.num(d));
    c.near(got.w, w, 1e-12, 0, what + ": component weight");
}

static void local(Case& c) {
    lmb::Params p;
    p.tscale = c.pick({1.0, 1000.0, 0.5, 60.0});
    Model m = gen_model(c);
    std::vector<Comp> cs;
    int n = c.i(1, 5);
    double ws = 0;
    for (int k = 0; k < n; ++k) {
        Comp q;
        q.x << c.sym(500), c.sym(500), c.sym(40), c.sym(40);
        q.P = gen_cov4(c, 0.05, 50, 0.01, 10);
        q.w = c.real(0.05, 1);
        ws += q.w;
        cs.push_back(q);
    }
    for (auto& q : cs) { q.w /= ws; }
    double r = c.realb(0, 1);
    auto make = [&]() {
        PDF pdf(&p);
        for (auto& q : cs) { pdf.c.emplace_back(q.x, q.P, q.w); }
        return std::unique_ptr<Target>(new Target(r, std::move(pdf), &p, 0));
    };
    double d1 = c.coin(15) ? 0.0 : c.logreal(1e-3, 100), d2 = c.coin(15) ? 0.0 : c.logreal(1e-3, 100);
    double t0 = c.pick({0.0, 1e3, 1.5e9, -50.0});
    double t1 = t0 + d1 * p.tscale, t2 = t1 + d2 * p.tscale;
    d1 = (t1 - t0) / p.tscale; d2 = (t2 - t1) / p.tscale;  // as representable
    double D = (t2 - t0) / p.tscale;
    if (c.describe) { c.desc << n << " components, dt " << d1 << " + " << d2 << " from " << t0 << " tscale " << p.tscale << "; "; }
    auto a = make();
    bool full = c.coin();
    double pm[4];
    {
        CV e(m.pS, m.q);
        V4 x = e.predict(a->pdf, d1);
        V4 mean = V4::Zero();
        for (auto& q : cs) { mean += q.w * q.x; }
        V4 want = Fm(d1) * mean;
        for (int k = 0; k < 4; ++k) { c.near(x[k], want[k], 1e-9, 1e-12, "extrapolated mean"); pm[k] = x[k]; }
    }
    if (full) { m.full(a.get(), t1, t0); } else { m.on(a.get(), t1, t0); }
    c.check(a->pdf.c.size() == cs.size(), "prediction changes the number of components");
    V4 got = a->pdf.mean();
    for (int i = 0; i < n; ++i) {
        auto& g = a->pdf.c[i];
        cmp(c, {g.x, g.P, g.w}, m.F(d1) * cs[i].x, m.F(d1) * cs[i].P * m.F(d1).transpose() + m.N(d1), cs[i].w, 1e-9, 1e-11, "predicted component");
        if (d1 == 0 && m.cv) { c.check(g.x == cs[i].x && g.P == cs[i].P, "a zero interval changes a component"); }
    }
    if (m.cv) { for (int k = 0; k < 4; ++k) { c.near(pm[k], got[k], 1e-9, 1e-11, "extrapolated mean differs from the predicted mean"); } }
    c.near(a->r, r * m.S(d1), 1e-13, 1e-12, "existence probability");
    if (full) { c.check(a->last_action == lmb::ACTION_PREDICT, "last action"); }
    if (m.cv) {  // two steps equal one
        auto b = make();
        if (full) { m.full(a.get(), t2, t1); m.full(b.get(), t2, t0); } else { m.on(a.get(), t2, t1); m.on(b.get(), t2, t0); }
        for (int i = 0; i < n; ++i) {
            auto &g = a->pdf.c[i], &h = b->pdf.c[i];
            cmp(c, {g.x, g.P, g.w}, h.x, h.P, h.w, 1e-6 * (D + 1e-3), 1e-6, "two steps against one");
        }
        c.near(a->r, b->r, 1e-12, 1e-9, "existence after two steps against one");
    }
    // a bare Gaussian
    lmb::Gaussian_<4> g(cs[0].x, cs[0].P, cs[0].w);
    g.linear_update(m.F(d1), m.N(d1));
    cmp(c, {g.x, g.P, g.w}, m.F(d1) * cs[0].x, m.F(d1) * cs[0].P * m.F(d1).transpose() + m.N(d1), cs[0].w, 1e-9, 1e-11, "Gaussian");
    if (d1 > 0 && (m.cv || m.Q.norm() > 0)) { c.nontrivial(); }
    c.label(m.cv ? "local CV" : "local NM");
}

static void tracker(Case& c) {
    Tracker tr(gen_params(c));
    tr.params.r_lim = c.coin() ? 1e-12 : tr.params.r_lim;
    tr.params.cov_lim = c.coin(80) ? 1e15 : tr.params.cov_lim;
    Tracker tw(tr.params);
    SceneOpt o;
    o.minT = 1; o.maxT = 6; o.maxR = 0; o.maxC = 4; o.crowd = 1;
    Scene s = gen_scene(c, o, tr.params.r_lim);
    show_scene(c, s);
    place(tr, s);
    place(tw, s);
    Model m = gen_model(c);
    double t = c.pick({0.0, 1e3, 1.5e9});
    int steps = c.i(1, 4);
    double total = 0, tstart = t, travelled = 0;
    double lat = std::min(std::fabs(s.origin[0]), 80.0) * M_PI / 180;
    bool removed = false;
    for (int k = 0; k < steps; ++k) {
        Snap before = snap(tr);
        double d = c.coin(12) ? 0.0 : c.logreal(1e-2, 30), t1 = t + d * tr.params.tscale;
        d = (t1 - t) / tr.params.tscale;
        if (c.describe) { c.desc << "predict " << d << "; "; }
        m.on(tr, t1, t);
        Snap after = snap(tr);
        size_t alive = 0;
        for (auto& b : before) {
            LL org = b.pos();
            std::vector<Comp> want;
            for (auto& q : b.c) {
                Comp w = q;
                w.x.head<2>() = cf::ll2ne(V2(q.x.head<2>()), org);
                w.x = m.F(d) * w.x;
                w.P = m.F(d) * q.P * m.F(d).transpose() + m.N(d);
                w.x.head<2>() = cf::ne2ll(V2(w.x.head<2>()), org);
                want.push_back(w);
            }
            double r = b.r * m.S(d);
            const TS* g = find(after, b.id);
            int v = 0;
            double pn = 0;
            for (auto& q : want) { pn += q.w * q.P.topLeftCorner<2, 2>().norm(); }
            if (r > tr.params.r_lim * (1 + 1e-9) && pn < 0.5 * tr.params.cov_lim) { v = 1; }
            if (r < tr.params.r_lim * (1 - 1e-9)) { v = -1; }
            if (v > 0) { c.check(g != nullptr, "a viable target disappeared in a prediction"); }
            if (v < 0) { c.check(g == nullptr, "a target below the existence limit survived a prediction"); }
            if (!g) { removed = true; continue; }
            ++alive;
            c.near(g->r, r, 1e-12, 1e-10, "existence probability of a predicted target");
            c.check(g->c.size() == want.size(), "prediction changes the number of components");
            for (size_t i = 0; i < want.size(); ++i) {
                double dist = metres(g->c[i].x.head<2>(), want[i].x.head<2>());
                c.check(dist <= 1e-5, "a component moved to " + c.num(dist) + " m from where its velocity takes it");
                c.check((g->c[i].x - want[i].x).tail<2>().norm() <= 1e-9 * (1 + want[i].x.tail<2>().norm()), "velocity of a predicted component");
                double pd = pdiff(g->c[i].P, want[i].P);
                c.check(pd <= 1e-9, "covariance of a predicted component differs by " + c.num(pd));
                c.near(g->c[i].w, want[i].w, 1e-12, 1e-10, "component weight after prediction");
            }
        }
        c.check(after.size() == alive, "prediction creates targets");
        travelled += 45 * d;
        total += d;
        t = t1;
    }
    if (m.cv && !removed) {  // once over the whole interval
        m.on(tw, t, tstart);
        Snap a = snap(tr), b = snap(tw);
        c.check(a.size() == b.size(), "stepwise prediction keeps other targets than one over the whole interval");
        double tol = 1e-4 + 3 * travelled * (travelled + 50) * (1 + std::tan(lat + 0.02)) / 6.3e6;
        for (size_t i = 0; i < a.size(); ++i) {
            c.near(a[i].r, b[i].r, 1e-12, 1e-8, "existence after stepwise prediction");
            for (size_t k = 0; k < a[i].c.size(); ++k) {
                double dist = metres(a[i].c[k].x.head<2>(), b[i].c[k].x.head<2>());
                c.check(dist <= tol, "stepwise prediction ends " + c.num(dist) + " m from prediction over the whole interval (allowed " + c.num(tol) + ")");
                c.check((a[i].c[k].x - b[i].c[k].x).tail<2>().norm() <= 1e-9 * (1 + b[i].c[k].x.tail<2>().norm()), "velocity after stepwise prediction");
                c.check(pdiff(a[i].c[k].P, b[i].c[k].P) <= 1e-6, "covariance after stepwise prediction");
            }
        }
        c.label("composed");
    }
    if (total > 0) { c.nontrivial(); }
    c.label(m.cv ? "tracker CV" : "tracker NM");
}

static void prop(Case& c) { if (c.u(2)) { tracker(c); } else { local(c); } }

PBT_MAIN({"C12",
    "targets of 1-5 components with correlated position and velocity predicted over 0-100 time units (time scales 0.5-1000, epochs up to 1.5e9) by both models, directly and through "
    "trackers of 1-6 targets over 1-4 steps at random places on the globe; each component against the closed form, steps against one long step, the offered "
    "extrapolation against the predicted mean; non-trivial: a non-zero interval with a model that changes something",
    prop, 150000, 2000000, 8, 30,
    {"latitudes up to 75 degrees and away from the antimeridian"}})
