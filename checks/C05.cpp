// C05: box frame conversions against the point conversions.
#include "pbt.hpp"
#include "report.hpp"
using pbt::Case;
using namespace lmb;
using V2 = Eigen::Vector2d;
using Quad = BBox::Corners;

static void prop(Case& c) {
    double lat = c.sym(80), lon = c.sym(178);
    cf::LL o(lat, lon);
    double size = c.logreal(0.1, 2e4);
    V2 ctr(c.sym(size), c.sym(size));
    double th = c.real(0, 2 * M_PI), l = size * c.real(0.1, 1), w = size * c.real(0.01, 1);
    V2 u(std::cos(th), std::sin(th)), v(-u[1], u[0]);
    Quad q;
    q << ctr + l * u + w * v, ctr - l * u + w * v, ctr - l * u - w * v, ctr + l * u - w * v;
    c.show("origin", o.transpose()); c.show("corners", q.format(eigenformat));
    if (lat < 0) { c.label("south"); }
    if (lon < 0) { c.label("west"); }
    c.nontrivial();
    BBox b(q);
    BBox ll = b.llbbox(o);
    double R = 6.33e6, dmax = 0;
    for (int k = 0; k < 4; ++k) {
        V2 want = cf::ne2ll(V2(q.col(k)), o);
        c.check((ll.corners.col(k) - want).cwiseAbs().maxCoeff() <= 1e-13, "llbbox corner " + std::to_string(k) + " is not the converted corner");
        dmax = std::max(dmax, q.col(k).norm());
    }
    BBox ne = ll.nebbox(o);
    for (int k = 0; k < 4; ++k) {
        V2 want = cf::ll2ne(V2(ll.corners.col(k)), o);
        c.check((ne.corners.col(k) - want).cwiseAbs().maxCoeff() <= 1e-8, "nebbox corner " + std::to_string(k) + " is not the converted corner");
    }
    double flat = dmax * dmax * dmax / (2 * R * R) * 1.1 + 2e-3;
    c.check((ne.corners - q).colwise().norm().maxCoeff() <= flat, "llbbox/nebbox round trip moves a corner");
    c.check((b.corners - q).cwiseAbs().maxCoeff() == 0, "conversion modified the original box");
    // Another origin: still the point conversion.
    cf::LL o2 = o + V2(c.sym(0.05), c.sym(0.05));
    BBox n2 = ll.nebbox(o2);
    for (int k = 0; k < 4; ++k) {
        c.check((n2.corners.col(k) - cf::ll2ne(V2(ll.corners.col(k)), o2)).cwiseAbs().maxCoeff() <= 1e-8, "nebbox at another origin");
    }

    // Axis-aligned.
    AABBox a(ctr[0] - l, ctr[1] - w, ctr[0] + l, ctr[1] + w);
    AABBox same[3] = {AABBox(ctr[0] + l, ctr[1] + w, ctr[0] - l, ctr[1] - w), AABBox(ctr[0] - l, ctr[1] + w, ctr[0] + l, ctr[1] - w), AABBox(ctr[0] + l, ctr[1] - w, ctr[0] - l, ctr[1] + w)};
    for (auto& s : same) { c.check(s.min == a.min && s.max == a.max, "axis-aligned box depends on corner order"); }
    auto conv = [&](const AABBox& got, const V2& p, const V2& r, double tol, const char* what) {
        for (int k = 0; k < 2; ++k) {
            c.near(got.min[k], std::min(p[k], r[k]), tol, 0, std::string(what) + " min");
            c.near(got.max[k], std::max(p[k], r[k]), tol, 0, std::string(what) + " max");
        }
    };
    V2 mn(a.min[0], a.min[1]), mx(a.max[0], a.max[1]);
    AABBox la = a.llaabbox(o);
    conv(la, cf::ne2ll(mn, o), cf::ne2ll(mx, o), 1e-13, "llaabbox");
    AABBox na = la.neaabbox(o);
    conv(na, cf::ll2ne(V2(la.min[0], la.min[1]), o), cf::ll2ne(V2(la.max[0], la.max[1]), o), 1e-8, "neaabbox");
    AABBox na2 = la.neaabbox(o2);
    conv(na2, cf::ll2ne(V2(la.min[0], la.min[1]), o2), cf::ll2ne(V2(la.max[0], la.max[1]), o2), 1e-8, "neaabbox at another origin");
    double da = std::max(mn.norm(), mx.norm());
    double tl = std::tan(std::min(80.5, std::fabs(lat) + 0.5) * M_PI / 180);
    double bend = 1.5 * da * da * (tl + 1) / R + 1e-2;  // meridian convergence
    // Interior points of the local box stay inside the geographic one.
    for (int k = 0; k < 3; ++k) {
        V2 p(c.real(a.min[0], a.max[0]), c.real(a.min[1], a.max[1]));
        V2 pl = cf::ne2ll(p, o);
        double cl = std::cos(pl[0] * M_PI / 180) * 111e3;
        c.check(pl[0] >= la.min[0] - bend / 111e3 && pl[0] <= la.max[0] + bend / 111e3 && pl[1] >= la.min[1] - bend / cl && pl[1] <= la.max[1] + bend / cl,
                "an interior point of the local box falls outside the geographic box");
    }
    c.near((na.max[0] - na.min[0]), 2 * l, 2 * bend, 0, "round trip changes the northern extent");
    c.near((na.max[1] - na.min[1]), 2 * w, 2 * bend, 0, "round trip changes the eastern extent");

    // A report's geographic gate: two standard deviations around its position.
    double s1 = c.logreal(0.1, 2000), s2 = c.logreal(0.1, 2000), rho = c.real(-0.95, 0.95);
    Eigen::Matrix2d P; P << s1 * s1, rho * s1 * s2, rho * s1 * s2, s2 * s2;
    c.show("P", P.format(eigenformat));
    GaussianReport_<2> r(V2(lat, lon), P);
    AABBox rb = r.llaabbox();
    double tol = 1e-7 * std::max(s1, s2) / 111e3 + 1e-12;
    V2 d(2 * s1, 2 * s2);
    conv(rb, cf::ne2ll(V2(-d), o), cf::ne2ll(d, o), tol / std::cos(80.5 * M_PI / 180), "report box");
}

PBT_MAIN({"C05",
    "A case is an origin (|lat| <= 80, |lon| <= 178), an oriented and an axis-aligned local box of 0.1 m..20 km at a random offset, a second origin, interior points, and a report with a correlated covariance. All cases are non-trivial.",
    prop, 1000000, 8000000, 8, 10,
    {"point conversions themselves are decided by C02", "antimeridian and poles excluded (documented FIXME in the code)"}})
