// C17: a correction equals the sum over all joint association hypotheses,
// enumerated by brute force per cluster; with finite limits, the truncated sum.
#include "refstep.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    Tracker tr(gen_params(c));
    bool wide = c.coin(60);
    if (wide) { tr.params.w_lim = 1e-12; tr.params.nhyp_max = 1e9; tr.params.cw_lim = 1e-12; }
    tr.params.r_lim = std::min(tr.params.r_lim, 0.05);
    tr.params.cov_lim = 1e6;
    SceneOpt o;
    o.maxT = 4; o.maxR = 4; o.minT = 2; o.minR = c.coin(70) ? 2 : 0; o.crowd = 1; o.chain = 5;
    if (c.tier && c.coin(20)) { o.maxT = 5; o.maxR = 5; }
    o.groups = c.coin(40);
    switch (c.draw(16)) {  // clusters of few targets and many reports, and the other way round
        case 1: o.minT = 1; o.maxT = 2; o.minR = 5; o.maxR = 14; o.groups = false; break;
        case 2: o.minT = 3; o.maxT = 3; o.minR = 4; o.maxR = 8; o.groups = false; break;
        case 3: o.minT = 4; o.maxT = 6; o.minR = 1; o.maxR = 2; o.groups = false; break;
    }
    Scene s = gen_scene(c, o, tr.params.r_lim);
    if (chain_limits(c, s, tr.params)) { wide = false; if (tr.params.w_lim < 1e-9) { tr.params.w_lim = 1e-3; } if (tr.params.cw_lim < 1e-9) { tr.params.cw_lim = 1e-3; } }
    show_scene(c, s);
    place(tr, s);
    prelude(c, tr, s);
    Scan z = scan_of(s);
    int kind = c.weighted({4, 4, 1});
    double pd = c.pick({0.9, 1.0, 0.5, 0.99, 0.1, 0.0});
    if (s.chain) { pd = c.pick({0.9, 0.5, 0.99, 1 - 1e-7}); }
    c.show("pD", pd); c.show("kind", kind); c.show("w_lim", tr.params.w_lim); c.show("nhyp_max", tr.params.nhyp_max); c.show("cw_lim", tr.params.cw_lim);
    StepAspects a;
    a.births = a.limits = a.partition = false;
    StepInfo f;
    if (kind < 2) {
        ExactSensor se;
        se.fov = box_around(s.origin, 0.3, 0.3);
        se.pD_ = pd;
        se.lambdaB = 0;
        if (kind == 1) { se.slope = c.sym(3e4); se.centre = s.origin; c.label("position-dependent detection"); }
        f = step_and_compare(c, tr, se, z, 1, [&](const V2& p) { return se.at(p); }, wide, a);
    } else {
        Sensor se;
        se.fov = box_around(s.origin, 0.3, 0.3);
        se.pD_ = pd;
        se.lambdaB = 0;
        c.label("real sensor");
        f = step_and_compare(c, tr, se, z, 1, [&](const V2&) { return pd; }, wide, a);
    }
    if (f.ambiguous) { c.label("too close to call"); return; }
    int big = 0;
    for (size_t q = 0; q < f.u.size(); ++q) {
        if (f.k.tgts[q].size() >= 2 && f.k.reps[q].size() >= 2) { big = 1; }
    }
    for (size_t q = 0; q < f.u.size(); ++q) {
        if (!f.k.tgts[q].empty() && f.k.reps[q].size() > 8) { c.label("more than eight reports in a cluster"); break; }
    }
    if (big) { c.label(wide ? "joint association, all hypotheses" : "joint association, truncated"); c.nontrivial(); }
}
PBT_MAIN({"C17",
    "scenes of 1-4 targets (mixtures of 1-3 components) and 0-4 reports (at times up to 14 reports or up to 6 targets) around 1-3 places, any hemisphere; non-trivial: some cluster holds at least two targets and two reports and nothing is too close to a threshold to call",
    prop, 60000, 1000000, 8, 60,
    {"cluster membership is taken from an independent overlap computation; scenes with overlaps within 5 cm are skipped",
     "weights below 1e-10 are not compared"}})
