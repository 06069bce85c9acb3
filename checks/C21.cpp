// C21: a scenario shifted in longitude, or mirrored in the equator or a
// meridian, against the original.
#include "hist.hpp"
using namespace lx;

struct Map {
    double shift = 0;
    bool ns = false, ew = false;
    LL ll(const LL& p) const { return LL(ns ? -p[0] : p[0], (ew ? -p[1] : p[1]) + shift); }
    M2 cov(M2 P) const { if (ns != ew) { P(0, 1) = -P(0, 1); P(1, 0) = -P(1, 0); } return P; }
    V4 sgn() const { return V4(ns ? -1 : 1, ew ? -1 : 1, ns ? -1 : 1, ew ? -1 : 1); }
    Comp back(Comp k) const {  // mapped -> original
        k.x[1] -= shift;
        k.x = sgn().cwiseProduct(k.x);
        k.P = sgn().asDiagonal() * k.P * sgn().asDiagonal();
        return k;
    }
};

static void prop(Case& c) {
    layout(c);
    HistOpt o;
    o.pDmax = 0.95;  // near-certain detection of near-certain targets leaves the outcome of a miss to rounding
    o.maxSteps = 6; o.maxObjects = 4; o.maxClutter = 2; o.maxReports = 6; o.maxInitial = 4;
    o.duplicates = false;
    o.params = c.coin();
    o.partial = c.coin(40);
    History h = gen_history(c, o);
    twin_limits(h.params);
    double room = std::fabs(h.origin[1]);
    if (room > 175) { h.origin[1] = 170; }
    Map m;
    int kind = c.weighted({3, 2, 2, 2});
    if (kind == 0 || kind == 3) {
        // keep the shifted scenario off the antimeridian
        double lo = -176 - h.origin[1], hi = 176 - h.origin[1];
        m.shift = c.pick({1e-3, 1.0, 10.0, 90.0}) * (c.coin() ? 1 : -1) * c.real(0.5, 2);
        m.shift = std::min(std::max(m.shift, lo), hi);
    }
    if (kind == 1 || kind == 3) { m.ns = true; }
    if (kind == 2) { m.ew = true; }
    show_history(c, h);
    c.show("shift", m.shift); c.show("ns", m.ns); c.show("ew", m.ew);
    Tracker a(h.params), b(h.params);
    start(a, h);
    for (auto& t : h.initial) {  // the same targets, mapped
        PDF p = make_pdf(a, t.c, h.origin);
        PDF q(&b.params);
        for (auto& g : p.c) {
            V4 x = m.sgn().cwiseProduct(V4(g.x));
            x[1] += m.shift;
            M4 P = m.sgn().asDiagonal() * g.P * m.sgn().asDiagonal();
            q.c.emplace_back(x, P, g.w);
        }
        q.eta = 1;
        q.transform_to_local(q.pos());
        q.transform_to_global();
        b.targettree.new_target(t.r, std::move(q), 0);
    }
    std::map<unsigned, unsigned> pairing;
    size_t multi = 0;
    for (size_t k = 0; k < h.ops.size(); ++k) {
        HOp op = h.ops[k], alt = op;
        for (auto& r : alt.reps) { r.x = m.ll(r.x); r.P = m.cov(r.P); }
        for (int i = 0; i < 4; ++i) { alt.fov.corners.col(i) = m.ll(op.fov.corners.col(i)); }
        alt.Q = m.sgn().asDiagonal() * op.Q * m.sgn().asDiagonal();
        alt.pv = m.cov(op.pv);
        Snap s0 = snap(a);
        if (op.kind == HOp::CORRECT) {
            if (touching_margin(s0, op) < 0.05) { c.label("too close to call"); return; }
            if (op.partial) {  // the view's edge must not be within rounding of a target's box
                BBox fb = op.fov;
                AABBox fa(fb.corners.row(0).minCoeff(), fb.corners.row(1).minCoeff(), fb.corners.row(0).maxCoeff(), fb.corners.row(1).maxCoeff());
                for (auto& t : s0) {
                    if (std::fabs(overlap_m(t.box, fa)) < 0.05) { c.label("too close to call"); return; }
                    BBox tb = find(s0, t.id) ? a.targettree.targets[0]->pdf.bbox : BBox();
                    for (auto q : a.targettree.targets) { if (q->id == t.id) { tb = q->pdf.bbox; } }
                    if (std::fabs(sat_gap(tb.corners * 111000, fb.corners * 111000)) < 0.05) { c.label("too close to call"); return; }
                }
            }
        }
        apply<ExactSensor>(a, op);
        apply<ExactSensor>(b, alt);
        if (at_hyp_limit(a) || at_hyp_limit(b)) { c.label("hypothesis limit reached"); break; }
        Snap sa = snap(a), sb = snap(b);
        for (auto& t : sb) { for (auto& q : t.c) { q = m.back(q); } }
        std::string d = twin_compare(sa, sb, h.params, pairing);
        if (d == "close") { c.label("too close to call"); return; }
        c.check(d.empty(), "step " + std::to_string(k) + ": " + d);
        multi += !s0.empty() && !sa.empty();
    }
    c.label(kind == 0 ? "shifted" : kind == 1 ? "mirrored in the equator" : kind == 2 ? "mirrored in a meridian" : "both");
    if (multi >= 2) { c.nontrivial(); }
}
PBT_MAIN({"C21",
    "histories of 2-6 steps run twice, the second time shifted in longitude and/or mirrored; non-trivial: at least two steps that keep some target",
    prop, 24000, 300000, 8, 60,
    {"scenarios stay at least 2.5 degrees off the antimeridian", "a scan where a report's box is within 5 cm of touching a target's box (or the view's edge) ends the comparison: box conversion is not exactly mirror symmetric"}})
