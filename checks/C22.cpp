// C22: the missed-detection rule and the frame condition outside the view.
#include "refstep.hpp"
#include "stat.hpp"
using namespace lx;

// Convex quadrilateral, either winding.
static bool inside(const BBox& b, const V2& q) {
    int pos = 0, neg = 0;
    for (int i = 0; i < 4; ++i) {
        V2 e = b.corners.col((i + 1) % 4) - b.corners.col(i), d = q - b.corners.col(i);
        double x = e[0] * d[1] - e[1] * d[0];
        pos += x > 0;
        neg += x < 0;
    }
    return pos == 4 || neg == 4;
}

// Whether next to nothing of the component lies on the other side of an edge.
static bool clear_of_edges(const BBox& b, const Comp& k) {
    LL o = k.x.head<2>();
    double r = 7.5 * std::sqrt(k.P(0, 0) + k.P(1, 1)) + 0.1;
    for (int i = 0; i < 4; ++i) {
        V2 p = cf::ll2ne(V2(b.corners.col(i)), o), q = cf::ll2ne(V2(b.corners.col((i + 1) % 4)), o);
        double u = std::min(1.0, std::max(0.0, -p.dot(q - p) / (q - p).squaredNorm()));
        if ((p + u * (q - p)).norm() < r) { return false; }
    }
    return true;
}

static void prop(Case& c) {
    layout(c);
    Tracker tr(gen_params(c));
    tr.params.nhyp_max = std::max(tr.params.nhyp_max, 2.0);
    tr.params.cov_lim = c.coin(80) ? 1e6 : 150;
    SceneOpt o;
    o.maxT = 5; o.minT = 1; o.maxR = c.coin(60) ? 0 : 2;
    if (!o.maxR && c.coin(10)) { o.maxT = 30; } o.place = 800; o.crowd = 1;
    Scene s = gen_scene(c, o, tr.params.r_lim);
    show_scene(c, s);
    place(tr, s);
    prelude(c, tr, s);
    Scan z = scan_of(s);
    LL m = cf::ne2ll(V2(s.places[c.u(s.places.size())]), s.origin);
    double pd = c.pick({0.9, 1.0, 0.5, 0.0, 0.99});
    int view = c.weighted({3, 4, 3});
    BBox fov = box_around(s.origin, 0.3, 0.3);
    if (view == 1) {  // one place in view, the others far outside
        double h = c.real(120, 300);
        double th = c.real(-M_PI, M_PI);
        V2 e1(std::cos(th) * h, std::sin(th) * h), e2(-std::sin(th) * h, std::cos(th) * h);
        BBox::Corners k;
        k << e1 + e2, e1 - e2, -e1 - e2, e2 - e1;
        fov = BBox(k).llbbox(m);
    } else if (view == 2) {  // an edge through a place
        double th = c.real(-M_PI, M_PI);
        V2 e1(std::cos(th) * 150, std::sin(th) * 150), e2(-std::sin(th) * 150, std::cos(th) * 150), d = e1 * c.real(0.9, 1.1);
        BBox::Corners k;
        k << d + e1 + e2, d + e1 - e2, d - e1 - e2, d + e2 - e1;
        fov = BBox(k).llbbox(m);
        c.label("edge through the targets");
    }
    c.show("pD", pd); c.show("view", view);
    StepAspects a;
    a.births = a.partition = false;
    a.limits = true;
    StepInfo f;
    if (view != 2) {
        ExactSensor se;
        se.fov = fov; se.pD_ = pd; se.lambdaB = z.empty() ? 1.0 : 0.0;
        if (c.coin(30)) { se.slope = c.sym(3e4); se.centre = m; }
        bool far = false;
        if (c.coin(25)) {  // the real sensor, with every target entirely inside or outside
            Sensor rs;
            se.slope = 0;
            rs.fov = fov; rs.pD_ = pd; rs.lambdaB = se.lambdaB;
            for (auto& t : snap(tr)) { for (auto& k : t.c) { far = far || !clear_of_edges(fov, k); } }
            if (!far) { f = step_and_compare(c, tr, rs, z, 1, [&](const V2& q) { return inside(fov, q) ? pd : 0.0; }, false, a); c.label("real sensor"); } else { return; }
        } else {
            f = step_and_compare(c, tr, se, z, 1, [&](const V2& p) { return se.at(p); }, false, a);
        }
        if (f.ambiguous) { c.label("too close to call"); return; }
        if (z.empty()) { c.check(f.after.size() <= f.before.size(), "an empty scan created a target"); }
        size_t in = 0, out = 0;
        for (size_t i = 0; i < f.before.size(); ++i) {
            int q = f.k.tgt_cluster[i];
            if (q < 0) { ++out; continue; }
            if (!f.k.reps[q].empty()) { continue; }
            const TS& b = f.before[i];
            const TS* t = find(f.after, b.id);
            double p = 0;
            for (auto& k : b.c) { p += k.w * (se.slope == 0 ? pd : se.at(k.x.head<2>())); }
            if (p > 1 - 1e-9 && b.r > 1 - 1e-9) { continue; }
            double want = b.r * (1 - p) / (1 - b.r * p);
            if (want < 1e-6) { want = 0; }
            ++in;
            if (t) {
                c.near(t->r, want, 1e-9, 1e-9, "existence probability after a missed detection");
                Tol tol;
                std::vector<Comp> keep = ref_reduce(b.c, tr.params.cw_lim, 200);
                std::string d = same_mixture(keep, t->c, tol, 1e-12);
                c.check(d.empty(), "density of a missed target changed: " + d);
                c.check(t->r <= b.r + 1e-12, "a missed detection increased the existence probability");
                if (p < 1e-12) { c.label("no detection possible"); }
            } else {
                c.check(want < tr.params.r_lim + 1e-9 || ref_viable(want, b.c, tr.params) <= 0, "a missed target above the limit was removed");
            }
        }
        if (in && out) { c.nontrivial(); c.label("targets inside and outside the view"); }
        if (in >= 2) { c.nontrivial(); }
    } else {  // sampled coverage: only the bounds are exact
        Sensor se;
        se.fov = fov; se.pD_ = pd; se.lambdaB = 1.0;
        Scan none;
        Snap b = snap(tr);
        tr.correct(se, none, 1);
        Snap after = snap(tr);
        c.check(after.size() <= b.size(), "an empty scan created a target");
        for (auto& t : b) {
            const TS* q = find(after, t.id);
            int v = ref_inview(t, fov, tr.params.nstd);
            if (!q) { c.check(v != 0 && (t.r * (1 - pd) / std::max(1e-300, 1 - t.r * pd) < tr.params.r_lim + 1e-9 || ref_viable(t.r, t.c, tr.params) <= 0), "a missed target was removed without cause"); continue; }
            if (v == 0) { c.check(q->r == t.r, "target outside the view changed"); continue; }
            double lo = t.r < 1 || pd < 1 ? t.r * (1 - pd) / (1 - t.r * pd) : 0;
            c.check(q->r <= t.r * (1 + 1e-9) && q->r >= lo - 1e-9, "existence probability " + c.num(q->r) + " outside [" + c.num(lo) + ", " + c.num(t.r) + "]");
            if (v == 1) {  // the sampled coverage of each component is near its exact mass
                LL at = t.pos();
                BBox::Corners k;
                for (int i = 0; i < 4; ++i) { k.col(i) = cf::ll2ne(V2(fov.corners.col(i)), at); }
                double m = 0, err = 0;
                for (auto& g : t.c) {
                    double w = std::min(1.0, mass(cf::ll2ne(V2(g.x.head<2>()), at), g.P.topLeftCorner<2, 2>(), k));
                    m += g.w * w;
                    err += g.w * bern(w, 1000);
                }
                auto left = [&](double p) { p = pd * std::min(1.0, std::max(0.0, p)); return t.r * (1 - p) / std::max(1e-300, 1 - t.r * p); };
                c.check(q->r >= left(m + err + 1e-3) - 1e-9 && q->r <= left(m - err - 1e-3) + 1e-9,
                    "existence probability " + c.num(q->r) + " after a miss with coverage " + c.num(m) + " (before " + c.num(t.r) + ", pD " + c.num(pd) + ")");
                if (m > 0.1 && m < 0.9) { c.label("coverage against its exact value"); }
            }
            if (q->r > lo + 1e-3 && q->r < t.r - 1e-3) { c.label("partly covered target"); c.nontrivial(); }
        }
    }
}
PBT_MAIN({"C22",
    "1-5 (at times 30) targets in places up to 1.6 km apart, empty or small scans, views that cover all, one place, or cut through one; non-trivial: unmatched targets both inside and outside the view, two unmatched ones, or a partly covered one",
    prop, 60000, 1000000, 8, 60,
    {"at least two hypotheses per cluster are allowed (with one, the rule is truncated by configuration)"}})
