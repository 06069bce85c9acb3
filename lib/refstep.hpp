// One correction, compared with the reference model.
#pragma once
#include "lmbx.hpp"

namespace lx {
struct StepAspects { bool update = true, births = true, limits = true, partition = true, untouched = true; };

struct StepInfo {
    Clustering k;
    Snap before, after;
    std::vector<RefUpdate> u;
    std::vector<double> rB;
    bool ambiguous = false;
    size_t births = 0, removed = 0;
    int maxn = 0;
};

// Whether the target's oriented box is in the field of view: 1, 0, or -1 when too close to call.
inline int ref_inview(const TS& t, const BBox& fov, double nstd) {
    // everything in metres around the target
    LL o = t.pos();
    Eigen::Matrix<double, 2, 4> F, B;
    double kl = 111000 * std::cos(o[0] * M_PI / 180);
    for (int i = 0; i < 4; ++i) { F.col(i) << (fov.corners(0, i) - o[0]) * 111000, (fov.corners(1, i) - o[1]) * kl; }
    M2 P = M2::Zero();
    V2 m = V2::Zero();
    std::vector<V2> ne;
    for (auto& k : t.c) { ne.push_back(cf::ll2ne(V2(k.x.head<2>()), o)); m += k.w * ne.back(); }
    for (size_t i = 0; i < t.c.size(); ++i) { P += t.c[i].w * (t.c[i].P.topLeftCorner<2, 2>() + (ne[i] - m) * (ne[i] - m).transpose()); }
    Eigen::SelfAdjointEigenSolver<M2> es(P);
    V2 a = nstd * std::sqrt(es.eigenvalues()[0]) * es.eigenvectors().col(0), b = nstd * std::sqrt(es.eigenvalues()[1]) * es.eigenvectors().col(1);
    B << m + a + b, m + a - b, m - a - b, m - a + b;
    double g = sat_gap(F, B);
    double tol = 0.5 + 0.01 * P.trace();
    AABBox fb(fov.corners.row(0).minCoeff(), fov.corners.row(1).minCoeff(), fov.corners.row(0).maxCoeff(), fov.corners.row(1).maxCoeff());
    double ov = overlap_m(t.box, fb);
    if (g > tol || ov < -0.5) { return 0; }
    if (ov < 0.5) { return -1; }
    if (g < -tol) { return 1; }
    return -1;
}

// What happened before must only matter through the targets: a tracker that has
// been through some scans already ...
inline void prelude(Case& c, Tracker& tr, const Scene& s) {
    if (!c.coin(35)) { return; }
    c.label("after earlier scans");
    int n = c.i(1, 2);
    double t = -20 * tr.params.tscale;
    for (int k = 0; k < n; ++k) {
        if (c.coin(50)) {
            double dt = c.pick({0.1, 1.0, 5.0}) * tr.params.tscale;
            if (c.coin(70)) { CV m(0.99, 0.1); tr.predict(m, t + dt, t); } else { NM m(0.99, M4::Identity() * 0.1); tr.predict(m, t + dt, t); }
            t += dt;
            c.show("before", "prediction");
        } else {
            ExactSensor se;
            se.fov = box_around(s.origin, 0.3, 0.3);
            se.pD_ = c.pick({0.1, 0.5});
            se.lambdaB = 0;
            Scan z = scan_of(s);
            size_t keep = c.u(3);
            if (z.size() > keep) { z.erase(z.begin() + keep, z.end()); }
            tr.correct(se, z, t);
            c.show("before, scan of", z.size());
        }
    }
}
// ... and another tracker that has just seen the same targets under another sensor.
template<typename S>
void other_tracker(Case& c, const Tracker& tr, const S& sensor, const Scan& z, double time) {
    if (!c.coin(12)) { return; }
    c.label("another tracker before");
    Tracker o(tr.params);
    for (auto* t : tr.targettree.targets) { PDF p(t->pdf); p.params = &o.params; o.targettree.new_target(c.coin(50) ? t->r : c.real(0.1, 0.9), std::move(p), t->t0); }
    S se = sensor;
    se.pD_ = c.pick({0.3, 0.9});
    double h = c.logreal(1e-4, 0.1);
    if (c.coin(70)) { for (int i = 0; i < 4; ++i) { se.fov.corners(0, i) += h; } }
    Scan y = z;
    if (c.coin(50)) { for (auto& r : y) { r.P *= 2.0; r.x[0] += 1e-5; } }
    o.correct(se, y, time);
}

template<typename S, typename PD>
StepInfo step_and_compare(Case& c, Tracker& tr, const S& sensor, Scan& z, double time, PD pd, bool all_hyps, const StepAspects& as = {}) {
    StepInfo f;
    const lmb::Params p = tr.params;
    f.before = snap(tr);
    const Scan z0 = z;
    std::vector<char> inview;
    for (auto& t : f.before) {
        int v = ref_inview(t, sensor.fov, p.nstd);
        if (v < 0) { f.ambiguous = true; }
        inview.push_back(v == 1);
    }
    unsigned idc = 0;
    for (auto& t : f.before) { idc = std::max(idc, t.id + 1); }
    f.k = ref_clusters(f.before, z0, inview);
    f.ambiguous = f.ambiguous || f.k.ambiguous;

    other_tracker(c, tr, sensor, z, time);
    tr.correct(sensor, z, time);
    f.after = snap(tr);
    if (f.ambiguous) { return f; }

    size_t K = f.k.reps.size();
    const bool hyps = as.update || as.births || as.limits;
    f.rB.assign(z0.size(), 1.0);
    for (size_t q = 0; q < K; ++q) {
        if (f.k.tgts[q].empty() || !hyps) { f.u.emplace_back(); continue; }
        f.u.push_back(ref_update(f.before, f.k.tgts[q], z0, f.k.reps[q], p, pd, all_hyps));
        RefUpdate& u = f.u.back();
        for (size_t i = 0; i < f.k.tgts[q].size(); ++i) {  // evidence made of rounding noise only
            const TS& t = f.before[f.k.tgts[q][i]];
            bool certain = false;
            for (auto& k : t.c) { certain = certain || pd(V2(k.x.head<2>())) > 1 - 1e-12; }
            if (certain && u.h.wsum < 1e-6 && t.r > 1 - 1e-6) { u.ambiguous = true; }
        }
        for (size_t j = 0; j < f.k.reps[q].size(); ++j) { f.rB[f.k.reps[q][j]] = u.rB[j]; }
    }
    for (auto& u : f.u) { f.ambiguous = f.ambiguous || u.ambiguous; }
    if (f.ambiguous) { return f; }

    // ---- partition bookkeeping
    if (as.partition) {
        c.check(tr.nof_clusters == K, "number of clusters " + std::to_string(tr.nof_clusters) + ", expected " + std::to_string(K));
        c.check(tr.cluster_ntargets.size() == K && tr.cluster_nreports.size() == K && tr.cluster_nhyps.size() == K, "cluster statistics have the wrong length");
        std::map<int, unsigned> cid;  // reference cluster -> published id
        std::set<unsigned> seen;
        auto bind = [&](int q, unsigned id, const char* what) {
            c.check(id < K, std::string(what) + " has cluster id " + std::to_string(id) + " of " + std::to_string(K));
            if (!cid.count(q)) { c.check(seen.insert(id).second, "two separate clusters share id " + std::to_string(id)); cid[q] = id; }
            c.check(cid[q] == id, std::string(what) + " split from its cluster");
        };
        for (size_t j = 0; j < z.size(); ++j) { bind(f.k.rep_cluster[j], z[j].cid, "report"); }
        for (size_t i = 0; i < f.before.size(); ++i) {
            if (f.k.tgt_cluster[i] < 0) { continue; }
            if (const TS* t = find(f.after, f.before[i].id)) { bind(f.k.tgt_cluster[i], t->cid, "target"); }
        }
        // Clusters whose targets all died are only visible in the statistics: compare those as multisets
        std::multiset<std::pair<int, int>> want, got;
        for (size_t q = 0; q < K; ++q) {
            want.insert({static_cast<int>(f.k.tgts[q].size()), static_cast<int>(f.k.reps[q].size())});
            got.insert({tr.cluster_ntargets[q], tr.cluster_nreports[q]});
        }
        c.check(want == got, "cluster sizes differ");
        for (auto& q : cid) {
            c.check(tr.cluster_ntargets[q.second] == static_cast<int>(f.k.tgts[q.first].size()), "cluster_ntargets of a cluster");
            c.check(tr.cluster_nreports[q.second] == static_cast<int>(f.k.reps[q.first].size()), "cluster_nreports of a cluster");
            int n = tr.cluster_nhyps[q.second];
            auto& tg = f.k.tgts[q.first];
            if (tg.empty()) { c.check(n == 0, "hypotheses counted in a cluster without targets"); continue; }
            if (as.limits && !all_hyps) {
                RefUpdate& u = f.u[q.first];
                bool exhausted = u.h.n == u.h.total && u.h.total > 0;
                f.maxn = std::max(f.maxn, n);
                c.check(n >= 1 && n <= std::max(1.0, p.nhyp_max), "number of hypotheses " + std::to_string(n) + " outside the limit");
                if (u.h.total > 0) {
                    c.check(n == u.h.n || (exhausted && n > u.h.n), "evaluated " + std::to_string(n) + " hypotheses, expected " + std::to_string(u.h.n));
                }
            }
        }
    }

    // ---- existing targets
    Tol tol;
    for (size_t i = 0; i < f.before.size(); ++i) {
        const TS& b = f.before[i];
        const TS* a = find(f.after, b.id);
        int q = f.k.tgt_cluster[i];
        if (q < 0) {
            if (!as.untouched) { continue; }
            c.check(a, "target outside the field of view disappeared");
            c.check(a->r == b.r && a->c.size() == b.c.size(), "target outside the field of view changed");
            for (size_t k = 0; k < a->c.size(); ++k) { c.check(a->c[k].x == b.c[k].x && a->c[k].P == b.c[k].P && a->c[k].w == b.c[k].w, "density of a target outside the field of view changed"); }
            continue;
        }
        if (!hyps) { continue; }
        size_t pos = std::find(f.k.tgts[q].begin(), f.k.tgts[q].end(), static_cast<int>(i)) - f.k.tgts[q].begin();
        const RefUpdate& u = f.u[q];
        int via = ref_viable(u.r[pos], u.mix[pos], p);
        if (via == 0) { continue; }
        if (via < 0) { ++f.removed; }
        if (as.limits) {
            c.check(via > 0 || !a, "target outside the limits survived: expected r " + c.num(u.r[pos]) + (a ? " " + str(*a) : std::string()));
            c.check(via < 0 || a, "target within the limits was removed: r " + c.num(u.r[pos]));
        }
        if (via < 0 || !as.update) { continue; }
        c.check(a, "target " + std::to_string(b.id) + " is gone, expected existence probability " + c.num(u.r[pos]));
        c.near(a->r, u.r[pos], 1e-9, 1e-7, "existence probability of target " + std::to_string(b.id));
        // hypotheses left out by even the widest limits weigh little beside the others, but not beside an unlikely target
        double lost = all_hyps ? 1e-9 / std::max(u.r[pos], 1e-6) : 0;
        tol.w = 1e-7 + lost;
        std::string d = same_mixture(u.mix[pos], a->c, tol, 1e-10 + lost);
        c.check(d.empty(), "density of target " + std::to_string(b.id) + ": " + d);
    }

    // ---- births
    if (!as.births) { return f; }
    double sum = 0;
    for (double b : f.rB) { sum += b; }
    std::vector<size_t> born;
    bool unsure = std::fabs(sum - p.r_lim) < 1e-9;
    for (size_t j = 0; j < z0.size(); ++j) {
        double nr = sum > 0 ? f.rB[j] * sensor.lambdaB / sum : 0;
        if (std::fabs(nr - p.r_lim) < 1e-8) { unsure = true; }
        if (sum >= p.r_lim && nr >= p.r_lim) { born.push_back(j); }
    }
    if (unsure) { f.ambiguous = true; return f; }
    std::vector<TS> fresh;
    for (auto& t : f.after) { if (!find(f.before, t.id)) { fresh.push_back(t); } }
    f.births = fresh.size();
    if (as.births) {
        c.check(fresh.size() == born.size(), "expected " + std::to_string(born.size()) + " births, got " + std::to_string(fresh.size()));
        std::set<unsigned> ids;
        std::vector<char> used(fresh.size(), 0);
        for (size_t j : born) {
            double nr = std::min(f.rB[j] * sensor.lambdaB / sum, p.rB_max);
            Comp want;
            want.x << z0[j].x, 0, 0;
            want.P.setZero();
            want.P.topLeftCorner<2, 2>() = z0[j].P;
            want.P.bottomRightCorner<2, 2>() = sensor.pv;
            want.w = 1;
            Tol bt;
            bt.pos = 1e-4;  // the report's own round trip through its cluster's frame
            bool hit = false;
            for (size_t k = 0; k < fresh.size() && !hit; ++k) {
                if (used[k] || fresh[k].c.size() != 1 || !same(fresh[k].c[0], want, bt) || !Case::close(fresh[k].r, nr, 1e-9, 1e-7)) { continue; }
                if (fresh[k].cid != z[j].cid) { continue; }
                hit = used[k] = 1;
            }
            c.check(hit, "no newborn matches report " + std::to_string(j) + " (birth probability " + c.num(nr) + ", cluster " + std::to_string(z[j].cid) + ")");
        }
        for (auto& t : fresh) {
            c.check(t.id >= idc, "newborn reuses id " + std::to_string(t.id));
            c.check(ids.insert(t.id).second, "two newborns share an id");
        }
    }
    return f;
}
}  // namespace lx
