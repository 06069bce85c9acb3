// C02: local tangent frames: axes against derivatives of the WGS-84 formula,
// isometry, inverses, flat-earth error bound, in-place variants.
#include "pbt.hpp"
#include <Eigen/Dense>
#include "cf.hpp"
using pbt::Case;

static const long double A = 6378137.0L, INVF = 298.257223563L, F = 1 / INVF, E2 = F * (2 - F);
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;

static Eigen::Matrix<long double, 3, 1> ref(long double lat, long double lon, long double alt) {
    const long double d = 3.14159265358979323846264338327950288L / 180;
    long double sl = sinl(lat * d), cl = cosl(lat * d);
    long double n = A / sqrtl(1 - E2 * sl * sl);
    return {(n + alt) * cl * cosl(lon * d), (n + alt) * cl * sinl(lon * d), (n * (1 - E2) + alt) * sl};
}

static double genlat(Case& c) {
    switch (c.weighted({6, 1, 1, 1})) {
        case 0: return c.sym(85);
        case 1: return (c.coin() ? -1 : 1) * c.real(85, 89.99);
        case 2: return c.pick({0.0, 45.0, -45.0, 60.0, -60.0});
        default: return c.sym(0.01);
    }
}

static void prop(Case& c) {
    double lat = genlat(c), lon = c.coin(85) ? c.sym(180) : c.pick({0.0, 90.0, -90.0, 179.9999, -179.9999});
    double oalt = c.coin() ? 0 : c.real(-1000, 20000);
    c.show("lat", lat); c.show("lon", lon); c.show("oalt", oalt);
    V3 o3(lat, lon, oalt);
    V2 o2(lat, lon);
    if (lat < 0) { c.label("south"); }
    if (lon < 0) { c.label("west"); }

    // Axes: north/east are directions of increasing latitude/longitude, down completes the frame.
    const long double h = 1e-5L;
    auto N = (ref(lat + h, lon, oalt) - ref(lat - h, lon, oalt)).normalized().eval();
    const long double dg = 3.14159265358979323846264338327950288L / 180;
    Eigen::Matrix<long double, 3, 1> E(-sinl(lon * dg), cosl(lon * dg), 0);
    auto D = N.cross(E).eval();
    auto R = cf::nedrot(o3);
    Eigen::Matrix3d want;
    want.row(0) = N.cast<double>(); want.row(1) = E.cast<double>(); want.row(2) = D.cast<double>();
    c.check((R - want).cwiseAbs().maxCoeff() < 1e-9, "nedrot is not the north/east/down frame");
    c.check((R * R.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-14, "nedrot not orthonormal");
    c.check((cf::nerot(o2) - want.topRows<2>()).cwiseAbs().maxCoeff() < 1e-9, "nerot is not the north/east frame");

    // 3-D: isometry and inverse for arbitrary points.
    double dist = c.coin() ? c.logreal(1e-3, 1e5) : c.logreal(1e5, 1e7);
    V3 ned(c.sym(dist), c.sym(dist), c.sym(std::min(dist, 1e6)));
    c.show("n", ned[0]); c.show("e", ned[1]); c.show("d", ned[2]);
    V3 ecef = cf::ned2ecef(ned, o3);
    V3 origin_ecef = ref(lat, lon, oalt).cast<double>();
    V3 want_ecef = origin_ecef + want.transpose() * ned;
    c.check((ecef - want_ecef).norm() < 1e-6 + 1e-8 * ned.norm(), "ned2ecef is not origin + N,E,D combination");
    V3 back = cf::ecef2ned(ecef, o3);
    c.check((back - ned).norm() < 1e-7 + 1e-14 * ned.norm(), "ecef2ned(ned2ecef) differs");
    double lat2 = std::max(-89.9, std::min(89.9, lat + c.sym(20))), lon2 = std::remainder(lon + c.sym(60), 360.0), alt2 = c.real(-1000, 50000);
    c.show("lat2", lat2); c.show("lon2", lon2); c.show("alt2", alt2);
    V3 q(lat2, lon2, alt2);
    V3 qn = cf::lla2ned(q, o3);
    V3 qe = ref(lat2, lon2, alt2).cast<double>();
    c.near(qn.norm(), (qe - origin_ecef).norm(), 1e-5, 1e-12, "lla2ned changes distances");
    c.check((qn - want * (qe - origin_ecef)).norm() < 1e-5 + 1e-8 * qn.norm(), "lla2ned components");
    c.check((cf::ecef2ned(qe, o3) - qn).norm() < 1e-5, "ecef2ned vs lla2ned");
    V3 qb = cf::ned2lla(qn, o3);
    double cl = std::cos(lat2 * M_PI / 180);
    c.near(qb[0] * 111e3, lat2 * 111e3, 2e-3, 0, "ned2lla(lla2ned) latitude");
    c.check(std::fabs(std::remainder(qb[1] - lon2, 360.0)) * 111e3 * cl < 2e-3, "ned2lla(lla2ned) longitude");
    c.near(qb[2], alt2, 2e-3, 0, "ned2lla(lla2ned) altitude");

    // 2-D: first two coordinates at zero altitude; inverse up to curvature.
    double d2 = c.coin() ? c.logreal(0.01, 1000) : c.logreal(1000, 1e5);
    double br = c.real(0, 2 * M_PI);
    V2 ne(d2 * std::cos(br), d2 * std::sin(br));
    c.show("d2", d2); c.show("bearing", br);
    double r = 6.33e6;
    double flat = d2 * d2 * d2 / (2 * r * r) * 1.1 + 2e-3;
    V2 ll = cf::ne2ll(ne, o2);
    V2 ne2 = cf::ll2ne(ll, o2);
    c.check((ne2 - ne).norm() <= flat, "ll2ne(ne2ll(ne)) differs from ne by " + c.num((ne2 - ne).norm()) + " at distance " + c.num(d2));
    V3 llz(ll[0], ll[1], 0), oz(lat, lon, 0);
    V2 nedtop = cf::lla2ned(llz, oz).head<2>();
    c.check((nedtop - ne2).norm() < 1e-6, "ll2ne is not the horizontal part of lla2ned");
    V2 ll2 = cf::ne2ll(ne2, o2);
    double d_m = std::hypot((ll2[0] - ll[0]) * 111e3, std::remainder(ll2[1] - ll[1], 360.0) * 111e3 * std::cos(ll[0] * M_PI / 180));
    c.check(d_m <= flat, "ne2ll(ll2ne(ll)) differs by " + c.num(d_m) + " m");
    V3 se = cf::ne2ecef(ne, o2);
    c.check((se - ref(ll[0], ll[1], 0).cast<double>()).norm() < 1e-2, "ne2ecef not on the surface point of ne2ll");
    c.check((cf::ecef2ne(se, o2) - ne2).norm() < 1e-2, "ecef2ne vs ll2ne");
    // Bearings: positive north increases latitude, positive east increases longitude.
    if (std::fabs(lat) < 80 && d2 > 1 && d2 < 5e4) {
        if (std::fabs(ne[0]) > d2 * 0.2) { c.check((ll[0] > lat) == (ne[0] > 0), "north offset moves latitude the wrong way"); }
        if (std::fabs(ne[1]) > d2 * 0.2) { c.check((std::remainder(ll[1] - lon, 360.0) > 0) == (ne[1] > 0), "east offset moves longitude the wrong way"); }
        c.nontrivial();
    }

    // In place, on the head of a state.
    Eigen::Vector4d s(ne[0], ne[1], c.sym(10), c.sym(10)), s0 = s;
    cf::ne2ll_i(s.head<2>(), o2);
    c.check(s.head<2>() == ll && s.tail<2>() == s0.tail<2>(), "ne2ll_i differs from ne2ll or touches other components");
    cf::ll2ne_i(s.head<2>(), o2);
    c.check(s.head<2>() == ne2 && s.tail<2>() == s0.tail<2>(), "ll2ne_i differs from ll2ne or touches other components");
}

PBT_MAIN({"C02",
    "A case is an origin (all latitudes to +-89.99, all longitudes, optional altitude), a 3-D offset up to 10000 km, a second geodetic point, and a surface offset 1 cm..100 km with a bearing. Non-trivial: surface offset > 1 m at |lat| < 80 (direction signs are decided).",
    prop, 2400000, 20000000, 8, 10,
    {"flat-Earth round-trip error bound d^3/(2 R^2) * 1.1 + 2 mm"}})
