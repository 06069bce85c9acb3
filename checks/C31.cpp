// C31: simulated targets with known truth, reported once per scan; confirmation,
// identity, accuracy, disappearance, and independence of the others.
#include "hist.hpp"
using namespace lx;

struct Obj {
    V2 p0, v;
    double sd;      // report noise
    int from, to;   // reported in scans [from, to)
    int drop;       // one scan in between without a report, or -1
};
struct Sim {
    LL o;
    lmb::Params params;
    std::vector<Obj> objs;
    std::vector<double> dt;  // dt[k]: time from scan k-1 to k
    double pD, pS, q, sv, lambdaB, eps;
    bool real;
    std::vector<std::vector<V2>> w;  // whitened noise [scan][object]
    std::vector<std::vector<M2>> R;
};
static V2 at(const Sim& s, int i, double t) { return s.objs[i].p0 + t * s.objs[i].v; }

template<typename S>
static void correct(const Sim& s, Tracker& tr, int k, double t, const std::vector<char>& off, std::vector<int>* who, Scan* out) {
    Scan z;
    for (size_t i = 0; i < s.objs.size(); ++i) {
        auto& b = s.objs[i];
        if (k < b.from || k >= b.to || k == b.drop || off[i]) { continue; }
        M2 L = s.R[k][i].llt().matrixL();
        V2 m = at(s, i, t) + L * s.w[k][i];
        double a2 = s.sv * s.sv * 9, g = 1 / (2 * M_PI * std::sqrt((s.R[k][i] * 2 + a2 * M2::Identity()).determinant()));
        z.emplace_back(cf::ne2ll(m, s.o), s.R[k][i], s.eps * g);
        if (who) { who->push_back(i); }
    }
    S se;
    se.fov = box_around(s.o, 0.4, 0.4 / std::cos(s.o[0] * M_PI / 180));
    se.pD_ = s.pD;
    se.lambdaB = s.lambdaB;
    se.pv = s.sv * s.sv * M2::Identity();
    tr.correct(se, z, t * s.params.tscale);
    if (out) { *out = z; }
}
static void step(const Sim& s, Tracker& tr, int k, double t, const std::vector<char>& off, std::vector<int>* who = nullptr, Scan* out = nullptr) {
    if (k > 0) { CV m(s.pS, s.q); tr.predict(m, t * s.params.tscale, (t - s.dt[k]) * s.params.tscale); }
    if (s.real) { correct<Sensor>(s, tr, k, t, off, who, out); } else { correct<ExactSensor>(s, tr, k, t, off, who, out); }
}

static void prop(Case& c) {
    layout(c);
    Sim s;
    s.o = gen_origin(c);
    int n = c.i(1, 6), scans = c.i(6, 15);
    s.params.tscale = c.pick({1.0, 1000.0, 0.1});
    s.params.nhyp_max = c.pick({100, 20, 1000});
    s.params.w_lim = c.pick({0.01, 1e-4, 0.05});
    s.params.cw_lim = c.pick({0.01, 1e-3, 0.05});
    s.params.rB_max = c.pick({0.8, 0.5, 0.95});
    s.pD = c.pick({0.9, 0.95, 0.99, 0.999, 1.0});
    s.pS = c.pick({0.99, 0.999, 0.995});
    s.q = c.pick({0.1, 0.01, 1.0, 0.5});
    s.sv = c.logreal(0.5, 5);
    s.lambdaB = c.pick({1.0, 0.5, 2.0}) * (c.coin() ? 1 : n);
    s.eps = c.logreal(1e-9, 1e-6);
    s.real = c.coin(15);
    // Reports within the gates for certain: small deviations for the default gate, larger ones for wider gates
    bool tight = c.coin(30);
    s.params.nstd = tight ? 1.9 : c.pick({4.0, 6.0});
    double nmax = tight ? 0.35 : 1.1, vmax = tight ? 0.5 : 1.5;
    double sdmax = 4, dtmax = 3;
    double grid = c.pick({700.0, 1500.0, 3000.0}), turn = c.real(-M_PI, M_PI);
    for (int i = 0; i < n; ++i) {
        Obj b;
        double x = (i % 3 - 1) * grid + c.sym(50), y = (i / 3) * grid + c.sym(50);
        b.p0 << std::cos(turn) * x - std::sin(turn) * y, std::sin(turn) * x + std::cos(turn) * y;
        b.v << c.sym(vmax * s.sv), c.sym(vmax * s.sv);
        if (c.coin(15)) { b.v.setZero(); }
        b.sd = c.logreal(0.3, sdmax);
        b.from = c.coin(70) ? 0 : c.i(0, scans - 4);
        b.to = c.coin(75) ? scans : c.i(b.from + 1, scans);
        b.drop = -1;
        if (s.pD <= 0.95 && c.coin(20) && b.from + 4 < b.to - 1) { b.drop = c.i(b.from + 4, b.to - 1); }
        s.objs.push_back(b);
    }
    double dt0 = c.real(0.3, dtmax);
    bool even = c.coin();
    for (int k = 0; k < scans; ++k) {
        s.dt.push_back(even ? dt0 : c.real(0.3, dtmax));
        s.w.emplace_back();
        s.R.emplace_back();
        for (int i = 0; i < n; ++i) {
            V2 w(c.gauss(), c.gauss());
            if (w.norm() > nmax) { w *= nmax / w.norm(); }
            s.w[k].push_back(w);
            if (k == 0 || c.coin(20)) { s.R[k].push_back(gen_cov2(c, 0.5 * s.objs[i].sd, s.objs[i].sd)); } else { s.R[k].push_back(s.R[k - 1][i]); }
        }
    }
    // apart all the time: further out until no two come near one another
    for (bool apart = false; !apart;) {
        apart = true;
        double t = 0;
        for (int k = 0; k < scans; ++k) {
            t += k ? s.dt[k] : 0;
            for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { apart = apart && (at(s, i, t) - at(s, j, t)).norm() > 600; } }
        }
        if (!apart) { for (auto& b : s.objs) { b.p0 *= 1.5; } }
    }
    s.params.cov_lim = 1.6 * 1.5 * (2 * sdmax * sdmax + 4 * dtmax * dtmax * s.sv * s.sv + 8 * s.q * dtmax * dtmax * dtmax);
    if (c.describe) {
        c.desc << "origin " << s.o.transpose() << " scans " << scans << " pD " << s.pD << " pS " << s.pS << " q " << s.q << " sv " << s.sv << " lambdaB " << s.lambdaB << " eps " << s.eps << " tscale " << s.params.tscale << " rB_max " << s.params.rB_max << (s.real ? " real sensor" : "") << " dt";
        for (double d : s.dt) { c.desc << " " << d; }
        for (auto& b : s.objs) { c.desc << " {" << b.p0.transpose() << " v " << b.v.transpose() << " sd " << b.sd << " scans " << b.from << "-" << b.to << " drop " << b.drop << "}"; }
    }

    Tracker tr(s.params), other(s.params);
    int stop = -1;  // this object's track is compared away: the twin never saw it
    if (n >= 2 && c.coin(30) && !s.real) {
        stop = c.u(n);
        bool shared = false;  // births of one scan share the birth intensity
        for (int i = 0; i < n; ++i) { shared = shared || (i != stop && s.objs[i].from == s.objs[stop].from); }
        if (shared) { stop = -1; }
    }
    std::vector<char> none(n, 0), without(n, 0);
    if (stop >= 0) { without[stop] = 1; }
    std::vector<unsigned> id(n, ~0u);
    std::vector<int> seen(n, 0), missed(n, 0);
    double t = 0;
    bool gone = false;
    std::map<unsigned, unsigned> pairing;
    for (int k = 0; k < scans; ++k) {
        if (k) { t += s.dt[k]; }
        std::vector<int> who;
        Scan z;
        step(s, tr, k, t, none, &who, &z);
        auto list = tr.get_targets();
        std::string ctx = "scan " + std::to_string(k) + ": ";
        std::vector<char> reported(n, 0);
        std::vector<int> zi(n, -1);
        for (size_t j = 0; j < who.size(); ++j) { reported[who[j]] = 1; ++seen[who[j]]; zi[who[j]] = j; }
        unsigned expect = 0, maybe = 0;
        Tracker::TargetStates truth;
        std::vector<char> owned(list.size(), 0);
        for (int i = 0; i < n; ++i) {
            if (!seen[i]) { continue; }
            LL here = cf::ne2ll(at(s, i, t), s.o), next = cf::ne2ll(at(s, i, t + 0.1), s.o);
            V4 x; x << here, cf::ll2ne(next, here) / 0.1;
            missed[i] = reported[i] ? 0 : missed[i] + 1;
            std::string w = ctx + "object " + std::to_string(i) + ": ";
            // tracks near it
            std::vector<size_t> near;
            for (size_t q = 0; q < list.size(); ++q) { if (metres(list[q].x.head<2>(), here) < 250) { near.push_back(q); owned[q] = 1; } }
            if (reported[i] && seen[i] >= 3 && missed[i] == 0) {
                std::vector<size_t> conf;
                for (auto q : near) { if (list[q].r >= 0.7) { conf.push_back(q); } }
                c.check(conf.size() == 1, w + std::to_string(conf.size()) + " confirmed tracks (" + std::to_string(near.size()) + " in all) after " + std::to_string(seen[i]) + " reports");
                auto& T = list[conf[0]];
                c.check(id[i] == ~0u || id[i] == T.id, w + "its identity changed from " + std::to_string(id[i]) + " to " + std::to_string(T.id));
                id[i] = T.id;
                V4 e;
                e.head<2>() = cf::ll2ne(V2(T.x.head<2>()), here);
                e.tail<2>() = T.x.tail<2>() - x.tail<2>();
                double d2 = e.dot(T.P.ldlt().solve(e));
                c.check(d2 >= 0 && d2 < 60, w + "estimate off by " + c.num(std::sqrt(std::fabs(d2))) + " standard deviations: " + c.num(e[0]) + " " + c.num(e[1]) + " m, " + c.num(e[2]) + " " + c.num(e[3]) + " m/s");
                double tp = T.P.topLeftCorner<2, 2>().trace(), rp = s.R[k][i].trace();
                c.check(tp <= 1.02 * rp, w + "position covariance " + c.num(tp) + " no better than the report's " + c.num(rp));
                c.check(tr.cluster_ntargets.at(z[zi[i]].cid) == static_cast<int>(near.size()), w + "its cluster holds " + std::to_string(tr.cluster_ntargets.at(z[zi[i]].cid)) + " targets");
                ++expect;
                truth.push_back(x);
            } else if (id[i] != ~0u && !reported[i] && k < s.objs[i].to) {  // the dropped report
                bool there = false;
                for (auto q : near) { there = there || list[q].id == id[i]; }
                c.check(there, w + "track lost after a single missed report");
                ++maybe;
                c.label("dropped report");
            } else if (k >= s.objs[i].to) {
                if (missed[i] >= 9) { c.check(near.empty(), w + "still tracked " + std::to_string(missed[i]) + " scans after its last report"); gone = true; }
                maybe += near.size();
            } else {
                maybe += near.size();
            }
        }
        for (size_t q = 0; q < list.size(); ++q) { c.check(owned[q], ctx + "a track near no object"); }
        unsigned nof = tr.nof_targets();
        c.check(nof >= expect && nof <= expect + maybe, ctx + std::to_string(nof) + " confirmed targets for " + std::to_string(expect) + " objects");
        if (!maybe && expect == list.size() && expect > 0) {
            double o = tr.ospa(truth, 100, 2);
            double worst = 0;
            for (int i = 0; i < n; ++i) { worst = std::max(worst, s.objs[i].sd); }
            c.check(o < 4 * worst + 0.5, ctx + "score against the truth " + c.num(o));
        }
        if (who.size() >= 1) { c.check(tr.nof_clusters >= who.size(), ctx + "well-separated reports share a cluster"); }
        // the other objects' tracks do not notice that this one exists
        if (stop >= 0) {
            step(s, other, k, t, without);
            Snap a = snap(tr), b = snap(other), a1;
            LL here = cf::ne2ll(at(s, stop, t), s.o);
            for (auto& q : a) { if (metres(q.pos(), here) >= 250) { a1.push_back(q); } }
            TwinTol tt;
            std::string d = twin_compare(a1, b, s.params, pairing, tt);
            if (d == "close") { stop = -1; }
            else { c.check(d.empty(), ctx + "other tracks changed by an object far away: " + d); }
        }
    }
    int confirmed = 0;
    for (int i = 0; i < n; ++i) { confirmed += id[i] != ~0u; }
    if (confirmed) { c.nontrivial(); }
    if (confirmed >= 2) { c.label("several confirmed objects"); }
    if (gone) { c.label("object stopped being reported"); }
    if (stop >= 0) { c.label("compared with a run without one object"); }
}
PBT_MAIN({"C31",
    "1-6 objects at least 500 m apart anywhere on the globe, moving at constant velocity up to 0.5 (default gate) or 1.5 (gates of 4 and 6) standard deviations of the initial velocity per axis, appearing and stopping at any scan, reported once per scan (one dropped report when detection is not near-certain) with noise inside 0.35 or 1.1 standard deviations of the stated covariance over 6-15 scans 0.3-3 s apart; detection probabilities 0.9-1, survival 0.99-0.999, low clutter density. From the third report on: exactly one confirmed track, same identity, error within sqrt(60) standard deviations, covariance below the report's; gone 9 scans after the last report; other objects' tracks as in a run without it. Non-trivial: at least one object confirmed.",
    prop, 20000, 400000, 8, 60,
    {"births are possible in every scan, but the clutter density is low enough for reports of tracked objects not to cause any"}})
