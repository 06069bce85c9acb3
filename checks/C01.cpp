// C01: WGS-84 geodetic <-> ECEF, against the closed-form forward formula in
// long double and a Newton inverse.
#include "pbt.hpp"
#include "cf.hpp"
using pbt::Case;

static const long double A = 6378137.0L, INVF = 298.257223563L, F = 1 / INVF, E2 = F * (2 - F);

static void ref(double lat, double lon, double alt, long double o[3]) {
    const long double d = 3.14159265358979323846264338327950288L / 180;
    long double sl = sinl(lat * d), cl = cosl(lat * d);
    long double n = A / sqrtl(1 - E2 * sl * sl);
    o[0] = (n + alt) * cl * cosl(lon * d);
    o[1] = (n + alt) * cl * sinl(lon * d);
    o[2] = (n * (1 - E2) + alt) * sl;
}

static double angdiff(double a, double b) { return std::remainder(a - b, 360.0); }

static void prop(Case& c) {
    double lat, lon, alt;
    switch (c.weighted({6, 2, 2, 1, 1})) {
        case 0: lat = c.sym(90); break;
        case 1: lat = (c.coin() ? -1 : 1) * c.real(55, 59); c.label("branch-switch"); break;  // c2 = 0.3 near 56.8
        case 2: lat = (c.coin() ? -1 : 1) * (90 - c.logreal(1e-9, 1)); c.label("near-pole"); break;
        case 3: lat = c.pick({0.0, 90.0, -90.0, 45.0, -45.0}); break;
        default: lat = c.sym(1e-6); c.label("near-equator"); break;
    }
    switch (c.weighted({6, 1, 1})) {
        case 0: lon = c.sym(180); break;
        case 1: lon = c.pick({0.0, 90.0, -90.0, 180.0, -180.0}); break;
        default: lon = (c.coin() ? -1 : 1) * (180 - c.logreal(1e-9, 1)); break;
    }
    switch (c.weighted({3, 3, 1, 1})) {
        case 0: alt = 0; break;
        case 1: alt = c.real(-11000, 10000); break;
        case 2: alt = c.real(10000, 1000000); c.label("orbit"); break;
        default: alt = c.sym(1e-3); break;
    }
    c.show("lat", lat); c.show("lon", lon); c.show("alt", alt);
    if (lat < 0) { c.label("south"); }
    if (lon < 0) { c.label("west"); }
    if (std::fabs(lat) > 56.8) { c.label("high-latitude-branch"); }
    if (lat != 0 && lon != 0) { c.nontrivial(); }

    Eigen::Vector3d lla(lat, lon, alt);
    Eigen::Vector2d ll(lat, lon);
    long double r[3];
    ref(lat, lon, alt, r);
    Eigen::Vector3d e = cf::lla2ecef(lla);
    for (int k = 0; k < 3; ++k) { c.near(e[k], static_cast<double>(r[k]), 1e-6, 0, "lla2ecef[" + std::to_string(k) + "]"); }
    ref(lat, lon, 0, r);
    Eigen::Vector3d e0 = cf::ll2ecef(ll);
    for (int k = 0; k < 3; ++k) { c.near(e0[k], static_cast<double>(r[k]), 1e-6, 0, "ll2ecef[" + std::to_string(k) + "]"); }

    // Tolerance: a millimetre on the ground.
    const double deg_m = 111000.0;
    double coslat = std::cos(lat * M_PI / 180);
    auto same = [&](double la, double lo, const char* what) {
        c.near(la * deg_m, lat * deg_m, 1e-3, 0, std::string(what) + " latitude");
        double dl = angdiff(lo, lon) * deg_m * coslat;
        c.check(std::fabs(dl) <= 1e-3, std::string(what) + " longitude: got " + c.num(lo) + " expected " + c.num(lon));
        c.check(la >= -90.0000001 && la <= 90.0000001 && lo >= -180.0000001 && lo <= 180.0000001, std::string(what) + " out of range");
    };
    Eigen::Vector3d b = cf::ecef2lla(e);
    same(b[0], b[1], "ecef2lla");
    c.near(b[2], alt, 1e-3, 0, "ecef2lla altitude");
    Eigen::Vector2d b0 = cf::ecef2ll(e0);
    same(b0[0], b0[1], "ecef2ll at zero altitude");
    Eigen::Vector2d b1 = cf::ecef2ll(e);
    same(b1[0], b1[1], "ecef2ll above the surface");
    c.near(b1[0], b[0], 1e-12, 0, "ecef2ll vs ecef2lla latitude");
    c.near(b1[1], b[1], 1e-12, 0, "ecef2ll vs ecef2lla longitude");
    // Types other than the plain vectors (blocks of a state) are accepted too.
    Eigen::Matrix<double, 5, 1> st; st << lat, lon, alt, 7, 8;
    Eigen::Vector3d e2 = cf::lla2ecef(st.head<3>().eval());
    c.check(e2 == e, "lla2ecef depends on the vector type");
}

PBT_MAIN({"C01",
    "A case is one (lat, lon, alt): uniform, or concentrated at the inverse's branch switch (|lat| 55..59), the poles, the equator, the antimeridian and exact axis values; altitude 0, -11..10 km, up to 1000 km. Non-trivial: lat and lon both non-zero.",
    prop, 3000000, 40000000, 8, 10,
    {"WGS-84 defining constants a and 1/f; long double libm trigonometry is the reference"}})
