// Histories: sequences of predictions and corrections, generated up front so
// that they can be replayed on several trackers, transformed or interleaved.
#pragma once
#include "lmbx.hpp"

namespace lx {
struct HRep { LL x; M2 P; double kappa; int object = -1; };
struct HOp {
    enum Kind { PREDICT_CV, PREDICT_NM, CORRECT } kind = CORRECT;
    double t = 0, t0 = 0;
    double pS = 1, q = 1;
    M4 Q = M4::Zero();
    std::vector<HRep> reps;
    double pD = 0.9, lambdaB = 1;
    M2 pv = M2::Identity();
    BBox fov;
    bool partial = false;
};
struct History {
    LL origin;
    lmb::Params params;
    std::vector<HOp> ops;
    std::vector<Scene::T> initial;  // targets present from the start (metres)
};
struct HistOpt {
    int minSteps = 2, maxSteps = 8;
    int maxObjects = 5;
    int maxClutter = 3;
    int maxInitial = 3;
    bool partial = false;        // partial fields of view
    bool wide_limits = false;    // no truncation
    bool params = true;          // vary the parameters
    bool nm = true;
    double area = 60;            // metres
    double kmin = 1e-6, kmax = 1e-2;
    int maxReports = 9;
    bool duplicates = true;
    double pDmax = 1.0;
    int crowd = 0;               // how often (percent) a crowd of targets and reports stands beside
};
inline History gen_history(Case& c, const HistOpt& o) {
    History h;
    h.origin = gen_origin(c);
    if (o.params) { h.params = gen_params(c); }
    if (o.wide_limits) { h.params.w_lim = 1e-13; h.params.nhyp_max = 1e9; h.params.cw_lim = 1e-9; }
    double area = c.pick({1.0, 0.3, 5.0, 20.0}) * o.area;
    struct Obj { V2 p, v; double sd; };
    std::vector<Obj> objs;
    int no = c.i(0, o.maxObjects);
    for (int i = 0; i < no; ++i) { objs.push_back({V2(c.sym(area), c.sym(area)), V2(c.sym(5), c.sym(5)), c.logreal(0.5, 4)}); }
    int ni = c.i(0, o.maxInitial);
    for (int i = 0; i < ni; ++i) {
        Scene::T t;
        t.r = gen_r(c, h.params.r_lim);
        V2 m(c.sym(area), c.sym(area));
        if (!objs.empty() && c.coin(60)) { m = objs[c.u(objs.size())].p + V2(c.sym(4), c.sym(4)); }
        int nc = c.coin(70) ? 1 : 2;
        for (int k = 0; k < nc; ++k) {
            Comp q;
            q.x << m + V2(c.sym(5), c.sym(5)), c.sym(6), c.sym(6);
            q.P = gen_cov4(c, 0.4, 5);
            q.w = c.real(0.1, 1);
            t.c.push_back(q);
        }
        h.initial.push_back(t);
    }
    double pD = c.pick({0.9, 0.99, 1.0, 0.6, 0.3}), lambdaB = c.pick({1.0, 0.5, 0.1, 3.0, 0.0});
    pD = std::min(pD, o.pDmax);
    double pS = c.pick({1.0, 0.99, 0.9, 0.5}), q = c.pick({1.0, 0.1, 5.0, 0.0});
    double ts = h.params.tscale, time = 0;
    int steps = c.i(o.minSteps, o.maxSteps);
    for (int k = 0; k < steps; ++k) {
        double dt = c.pick({1.0, 0.0, 0.5, 2.0, 10.0});
        if (c.coin(75)) {
            HOp p;
            p.kind = o.nm && c.coin(15) ? HOp::PREDICT_NM : HOp::PREDICT_CV;
            p.t0 = time * ts;
            p.t = (time + dt) * ts;
            p.pS = pS; p.q = q;
            if (p.kind == HOp::PREDICT_NM) { p.Q = gen_cov4(c, 0.1, 2, 0.05, 1); }
            h.ops.push_back(p);
            time += dt;
            for (auto& b : objs) { b.p += dt * b.v; }
        }
        if (c.coin(12)) { continue; }
        HOp z;
        z.t = time * ts;
        z.pD = pD; z.lambdaB = lambdaB;
        if (c.coin(20)) { z.pv = gen_cov2(c, 0.1, 5); }
        z.fov = box_around(h.origin, 0.4, 0.4 / std::cos(h.origin[0] * M_PI / 180));
        if (o.partial && c.coin(40)) {
            z.partial = true;
            V2 m(c.sym(2 * area), c.sym(2 * area));
            double th = c.coin(40) ? 0 : c.real(-M_PI, M_PI), a = c.logreal(2, 3 * area), b = c.logreal(2, 3 * area);
            V2 e1(std::cos(th) * a, std::sin(th) * a), e2(-std::sin(th) * b, std::cos(th) * b);
            BBox::Corners k4;
            k4 << m + e1 + e2, m - e1 + e2, m - e1 - e2, m + e1 - e2;
            z.fov = BBox(k4).llbbox(h.origin);
        }
        for (size_t i = 0; i < objs.size(); ++i) {
            if (static_cast<int>(z.reps.size()) >= o.maxReports) { break; }
            if (!c.coin(85)) { continue; }
            M2 R = gen_cov2(c, 0.5, 4);
            V2 e(c.gauss(), c.gauss());
            V2 m = objs[i].p + R.llt().matrixL() * e;
            z.reps.push_back({cf::ne2ll(m, h.origin), R, c.logreal(o.kmin, o.kmax), static_cast<int>(i)});
        }
        int nc = c.i(0, o.maxClutter);
        for (int i = 0; i < nc && static_cast<int>(z.reps.size()) < o.maxReports; ++i) {
            z.reps.push_back({cf::ne2ll(V2(c.sym(1.5 * area), c.sym(1.5 * area)), h.origin), gen_cov2(c, 0.3, 6), c.logreal(o.kmin, o.kmax)});
        }
        if (!z.reps.empty() && c.coin(15) && static_cast<int>(z.reps.size()) < o.maxReports) {  // the same place, known better or worse
            HRep r = z.reps[c.u(z.reps.size())];
            r.P *= c.logreal(0.02, 400);
            if (c.coin()) { r.kappa = c.logreal(o.kmin, o.kmax); }
            if (c.coin()) { z.reps.push_back(r); } else { z.reps.insert(z.reps.begin(), r); }
        }
        if (o.duplicates && !z.reps.empty() && c.coin(6) && static_cast<int>(z.reps.size()) < o.maxReports) { z.reps.push_back(z.reps[c.u(z.reps.size())]); }
        h.ops.push_back(z);
    }
    if (o.crowd && c.coin(o.crowd)) {
        Scene s;
        s.origin = h.origin;
        add_crowd(c, s, true);
        h.initial.insert(h.initial.end(), s.targets.begin(), s.targets.end());
        for (auto& z : h.ops) {
            if (z.kind != HOp::CORRECT) { continue; }
            for (auto& r : s.reports) { z.reps.push_back({cf::ne2ll(r.z, h.origin), r.P, r.kappa}); }
            if (c.coin()) { break; }
        }
    }
    return h;
}
inline Scan scan_of(const HOp& z) {
    Scan s;
    for (auto& r : z.reps) { s.emplace_back(r.x, r.P, r.kappa); }
    return s;
}
template<typename S>
S sensor_of(const HOp& z) {
    S s;
    s.fov = z.fov;
    s.pD_ = z.pD;
    s.lambdaB = z.lambdaB;
    s.pv = z.pv;
    return s;
}
inline void start(Tracker& tr, const History& h) { for (auto& t : h.initial) { add_target(tr, t.r, t.c, h.origin); } }
// Applies one operation; S is the sensor type for corrections.
template<typename S>
Scan apply(Tracker& tr, const HOp& op) {
    if (op.kind == HOp::PREDICT_CV) { CV m(op.pS, op.q); tr.predict(m, op.t, op.t0); return {}; }
    if (op.kind == HOp::PREDICT_NM) { NM m(op.pS, op.Q); tr.predict(m, op.t, op.t0); return {}; }
    Scan z = scan_of(op);
    tr.correct(sensor_of<S>(op), z, op.t);
    return z;
}
inline void show_history(Case& c, const History& h) {
    if (!c.describe) { return; }
    auto& d = c.desc;
    d.precision(7);
    d << "origin(" << h.origin.transpose() << ") params(w_lim " << h.params.w_lim << " r_lim " << h.params.r_lim << " nhyp_max " << h.params.nhyp_max << " rB_max " << h.params.rB_max
      << " nstd " << h.params.nstd << " cw_lim " << h.params.cw_lim << " cov_lim " << h.params.cov_lim << " tscale " << h.params.tscale << ") ";
    for (auto& t : h.initial) { d << "T{r=" << t.r; for (auto& k : t.c) { d << " (w=" << k.w << " ne=" << k.x.transpose() << ")"; } d << "} "; }
    for (auto& o : h.ops) {
        if (o.kind != HOp::CORRECT) { d << (o.kind == HOp::PREDICT_CV ? "CV(" : "NM(") << o.t0 << "->" << o.t << " pS=" << o.pS << " q=" << o.q << ") "; continue; }
        d << "Z[pD=" << o.pD << " lB=" << o.lambdaB << (o.partial ? " partial" : "");
        for (auto& r : o.reps) { d << " (" << cf::ll2ne(r.x, h.origin).transpose() << " P=" << r.P(0, 0) << "," << r.P(0, 1) << "," << r.P(1, 1) << " k=" << r.kappa << ")"; }
        d << "] ";
    }
}

// ------------------------------------------------ comparing two trackers' states
// Matches the targets of a and b one to one (ids may differ when ids = false). fb maps b's states to a's frame.
inline std::string same_targets(const Snap& a, const Snap& b, const Tol& t, bool ids, std::map<unsigned, unsigned>* pairing = nullptr, double slack = 0) {
    if (a.size() != b.size()) { return std::to_string(a.size()) + " targets against " + std::to_string(b.size()); }
    std::vector<char> used(b.size(), 0);
    for (auto& x : a) {
        bool hit = false;
        std::string why = "no counterpart";
        for (size_t j = 0; j < b.size() && !hit; ++j) {
            if (used[j] || (ids && b[j].id != x.id)) { continue; }
            if (pairing) {
                auto p = pairing->find(x.id);
                if (p != pairing->end() && p->second != b[j].id) { continue; }
            }
            if (!Case::close(x.r, b[j].r, t.r, t.r)) { if (ids) { why = "existence " + Case::num(x.r) + " against " + Case::num(b[j].r); } continue; }
            std::string d = same_mixture(x.c, b[j].c, t, slack);
            if (!d.empty()) { why = d; continue; }
            used[j] = 1;
            hit = true;
            if (pairing) { (*pairing)[x.id] = b[j].id; }
        }
        if (!hit) { std::string s = "target " + str(x) + ": " + why + "; others:"; for (auto& y : b) { s += " " + str(y); } return s; }
    }
    return "";
}
}  // namespace lx

namespace lx {
// ---- twin runs whose results agree up to rounding
struct TwinTol {
    Tol t;
    double slack = 1e-4;   // components lighter than this may be missing
    double rclose = 1e-4;  // targets this close to the existence limit may be missing
    TwinTol() { t.pos = 1e-4; t.vel = 1e-4; t.P = 1e-5; t.w = 1e-5; t.r = 1e-5; }
};
inline void twin_limits(lmb::Params& p) { p.w_lim = 1e-9; p.nhyp_max = 1500; p.cw_lim = 1e-7; }
inline bool at_hyp_limit(const Tracker& t) {
    for (int n : t.cluster_nhyps) { if (n >= t.params.nhyp_max) { return true; } }
    return false;
}
// "" same; "close" a target at a threshold made the difference; otherwise what differs.
inline std::string twin_compare(const Snap& a, const Snap& b, const lmb::Params& p, std::map<unsigned, unsigned>& pairing, const TwinTol& tt = {}) {
    std::vector<char> used(b.size(), 0);
    std::map<unsigned, unsigned> inv;
    for (auto& q : pairing) { inv[q.second] = q.first; }
    auto threshold = [&](const TS& t) {
        double n = avg_poscov(t.c).norm();
        return std::fabs(t.r - p.r_lim) < tt.rclose * (1 + p.r_lim) || std::fabs(n - p.cov_lim) < 1e-4 * p.cov_lim;
    };
    std::string bad;
    bool close = false;
    for (auto& x : a) {
        bool hit = false;
        std::string why = "no counterpart";
        auto pr = pairing.find(x.id);
        for (size_t j = 0; j < b.size() && !hit; ++j) {
            if (used[j]) { continue; }
            if (pr != pairing.end() ? pr->second != b[j].id : inv.count(b[j].id) != 0) { continue; }
            if (!Case::close(x.r, b[j].r, tt.t.r, tt.t.r)) { why = "existence " + Case::num(x.r) + " against " + Case::num(b[j].r); continue; }
            std::string d = same_mixture(x.c, b[j].c, tt.t, tt.slack);
            if (!d.empty()) { why = d; continue; }
            used[j] = 1;
            hit = true;
            pairing[x.id] = b[j].id;
        }
        if (!hit) {
            if (threshold(x)) { close = true; } else if (bad.empty()) { bad = "target " + str(x) + ": " + why; for (auto& y : b) { bad += " | " + str(y); } }
        }
    }
    for (size_t j = 0; j < b.size(); ++j) {
        if (used[j]) { continue; }
        if (threshold(b[j])) { close = true; } else if (bad.empty()) { bad = "extra target " + str(b[j]) + " not among"; for (auto& y : a) { bad += " | " + str(y); } }
    }
    if (close) { return "close"; }
    return bad;
}
// Smallest distance from touching between a report's box and a target's box, in metres.
inline double touching_margin(const Snap& s, const HOp& op) {
    double m = 1e300;
    for (auto& r : op.reps) {
        double h0 = 2 * std::sqrt(r.P(0, 0)), h1 = 2 * std::sqrt(r.P(1, 1));
        LL a = cf::ne2ll(V2(-h0, -h1), r.x), b = cf::ne2ll(V2(h0, h1), r.x);
        AABBox box(a[0], a[1], b[0], b[1]);
        for (auto& t : s) { m = std::min(m, std::fabs(overlap_m(t.box, box))); }
    }
    return m;
}
}  // namespace lx
