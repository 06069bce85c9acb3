// C18: births against the reference rule, with the association probabilities
// from exhaustive enumeration.
#include "refstep.hpp"
using namespace lx;

static void prop(Case& c) {
    layout(c);
    Tracker tr(gen_params(c));
    tr.params.rB_max = c.pick({0.8, 0.5, 0.95, 1.0, 0.35});
    tr.params.cov_lim = c.coin(80) ? 1e6 : 150;
    SceneOpt o;
    o.maxT = c.coin(30) ? 0 : 3; o.crowd = 1; o.chain = 5;
    o.maxR = 5; o.minR = c.coin(95) ? 1 : 0;
    bool many = c.coin(6);
    if (many) { o.maxT = 2; o.minR = 5; o.maxR = 14; }
    Scene s = gen_scene(c, o, tr.params.r_lim);
    chain_limits(c, s, tr.params);
    show_scene(c, s);
    place(tr, s);
    prelude(c, tr, s);
    Scan z = scan_of(s);
    ExactSensor se;
    se.fov = box_around(s.origin, 0.3, 0.3);
    se.pD_ = c.pick({0.9, 1.0, 0.5, 0.99, 0.0});
    se.lambdaB = c.coin(40) ? c.logreal(1e-3, 20) : c.pick({1.0, 0.5, 0.1, 2.0, 0.0});
    if (z.size() > 20 && c.coin(70)) { se.lambdaB *= z.size(); }
    if (c.coin(60)) { se.pv = gen_cov2(c, 0.05, 10); }
    c.show("pD", se.pD_); c.show("lambdaB", se.lambdaB); c.show("r_lim", tr.params.r_lim); c.show("rB_max", tr.params.rB_max);
    if (s.chain) { se.pD_ = c.pick({0.9, 0.5, 0.99, 1 - 1e-7}); }
    StepAspects a;
    a.update = a.limits = a.partition = a.untouched = false;
    int rounds = many || s.chain || c.coin(70) ? 1 : 2;
    for (int k = 0; k < rounds; ++k) {  // second round: the newborns explain the same reports
        Scan y = z;
        StepInfo f = step_and_compare(c, tr, se, y, k, [&](const V2&) { return se.pD_; }, false, a);
        if (f.ambiguous) { c.label("too close to call"); return; }
        size_t partial = 0, full = 0;
        for (double b : f.rB) { partial += b > 1e-3 && b < 1 - 1e-3; full += b > 1 - 1e-3; }
        if (f.births) { c.label("births"); }
        if (f.births && f.births < z.size()) { c.label("some reports give birth, others not"); }
        if (partial) { c.label("partly explained reports"); }
        if (full && partial) { c.label("mixed"); }
        if (partial || (full && full < z.size()) || k == 1) { c.nontrivial(); }
    }
}
PBT_MAIN({"C18",
    "scenes of 0-3 targets and 0-5 (at times 14) reports, expected births from 0 to 20, corrected once or twice with the same reports; non-trivial: some report is neither certainly explained nor certainly new, or reports differ in that, or a repeated scan",
    prop, 180000, 3000000, 8, 60, {}})
