// C33: hypothesis, existence, uncertainty and component limits, in short
// histories of corrections and predictions under varied parameters.
#include "refstep.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    Tracker tr(gen_params(c));
    lmb::Params& p = tr.params;
    if (c.coin(70)) { p.nhyp_max = c.pick({1, 2, 3, 7, 20, 1000}); }
    if (c.coin(70)) { p.w_lim = c.pick({0.5, 0.1, 1e-3, 1e-6, 0.9}); }
    if (c.coin(50)) { p.cov_lim = c.logreal(5, 300); }
    SceneOpt o;
    o.minT = 1; o.maxT = 3; o.maxR = 3; o.smax = 12; o.crowd = 1; o.chain = 5;
    Scene s = gen_scene(c, o, p.r_lim);
    bool heavy = c.coin(4);
    if (heavy) {  // mixtures large enough for the component cap
        p.cw_lim = 1e-12;
        p.cov_lim = 1e6;
        for (size_t i = 0; i < std::min<size_t>(2, s.targets.size()); ++i) {
            auto& t = s.targets[i];
            Comp q = t.c[0];
            t.c.clear();
            int n = c.i(60, 199);
            uint64_t h = c.draw(1u << 30);
            for (int k = 0; k < n; ++k) {
                Comp e = q;
                for (int d = 0; d < 2; ++d) { h = pbt::mix(h); e.x[d] += (h % 10000) * 1e-3 - 5; }
                h = pbt::mix(h);
                e.w = 0.5 + (h % 10000) * 1e-4;
                t.c.push_back(e);
            }
        }
        c.label("component cap");
    }
    chain_limits(c, s, p);
    show_scene(c, s);
    c.show("w_lim", p.w_lim); c.show("nhyp_max", p.nhyp_max); c.show("r_lim", p.r_lim); c.show("cov_lim", p.cov_lim); c.show("cw_lim", p.cw_lim);
    place(tr, s);
    prelude(c, tr, s);
    ExactSensor se;
    se.fov = box_around(s.origin, 0.3, 0.3);
    se.pD_ = c.pick({0.9, 0.5, 1.0, 0.99});
    se.lambdaB = 0;
    if (s.chain) { se.pD_ = c.pick({0.9, 0.5, 0.99, 1 - 1e-7}); }
    StepAspects a;
    a.births = a.untouched = false;
    a.update = heavy;
    double t = 0;
    int rounds = heavy ? 1 : c.i(1, 3), removed = 0, cut = 0;
    for (int k = 0; k < rounds; ++k) {
        if (k) {
            CV m(c.pick({1.0, 0.9, 0.5}), c.pick({0.1, 1.0, 10.0}));
            double dt = c.pick({1.0, 0.5, 3.0});
            Snap b = snap(tr);
            tr.predict(m, t + dt * p.tscale, t);
            t += dt * p.tscale;
            Snap f = snap(tr);
            for (auto& q : b) {
                double r = q.r * std::pow(m.pS, dt);
                std::vector<Comp> mix = q.c;
                for (auto& e : mix) {
                    M4 F = M4::Identity();
                    F(0, 2) = F(1, 3) = dt;
                    e.P = F * e.P * F.transpose();
                    e.P(0, 0) += m.q * dt * dt * dt / 3;
                    e.P(1, 1) += m.q * dt * dt * dt / 3;
                }
                int v = ref_viable(r, mix, p);
                const TS* n = find(f, q.id);
                c.check(v <= 0 || n, "a predicted target within the limits was removed");
                c.check(v >= 0 || !n, "a predicted target beyond the limits was kept");
                removed += v < 0;
            }
        }
        Scan z = scan_of(s);
        StepInfo f = step_and_compare(c, tr, se, z, t, [&](const V2&) { return se.pD_; }, false, a);
        for (auto& q : f.after) {
            c.check(q.r >= p.r_lim * (1 - 1e-12), "target below the existence limit kept");
            c.check(avg_poscov(q.c).norm() <= p.cov_lim * (1 + 1e-6), "target beyond the uncertainty limit kept");
            c.check(q.c.size() <= 200, "mixture of " + std::to_string(q.c.size()) + " components");
            if (q.c.size() == 200) { c.label("mixture at the cap"); }
        }
        if (f.ambiguous) { c.label("too close to call"); return; }
        removed += f.removed;
        for (auto& u : f.u) { if (u.h.n < u.h.total) { ++cut; } }
    }
    if (cut) { c.label("hypotheses cut"); }
    if (removed) { c.label("target removed"); }
    if (cut || removed || heavy) { c.nontrivial(); }
}
PBT_MAIN({"C33",
    "1-3 targets and 0-3 reports under varied limits, up to three scans with predictions between, a few with mixtures of 60-199 components; non-trivial: hypotheses were cut off, a target had to be removed, or the component cap was exercised",
    prop, 80000, 1500000, 8, 60,
    {"position uncertainty is the norm of the mixture's average position covariance"}})
