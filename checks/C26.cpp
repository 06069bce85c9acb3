// C26: the position density map against the exact mass of every cell.
#include "stat.hpp"
using namespace lx;

static Eigen::Matrix<double, 2, 4> rect(double x0, double y0, double x1, double y1) {
    Eigen::Matrix<double, 2, 4> q;
    q << x1, x1, x0, x0, y1, y0, y0, y1;
    return q;
}

static void prop(Case& c) {
    Tracker tr;
    LL o = gen_origin(c);
    tr.params.nstd = c.pick({1.9, 3.0, 1.0});
    double span = c.pick({30.0, 150.0, 600.0});  // metres, half the region
    double sx = span * c.real(0.5, 1.5), sy = span * c.real(0.5, 1.5);
    LL a = cf::ne2ll(V2(-sx, -sy), o), b = cf::ne2ll(V2(sx, sy), o);
    AABBox fov(a[0], a[1], b[0], b[1]);
    Eigen::Array2i size(c.i(1, 9), c.i(1, 9));
    if (c.coin(4)) {  // fine maps, long and narrow ones
        switch (c.u(3)) {
            case 0: size << c.i(20, 40), c.i(20, 40); break;
            case 1: size << c.i(1, 3), c.i(100, 300); break;
            default: size << c.i(100, 300), c.i(1, 3); break;
        }
        c.label("fine map");
    }
    int n = c.i(0, 5);
    for (int t = 0; t < n; ++t) {
        std::vector<Comp> cs;
        V2 m(c.sym(sx * 1.1), c.sym(sy * 1.1));
        if (c.coin(15)) { m += V2(8 * sx + 500, 0); }           // away
        int nc = c.coin(60) ? 1 : c.i(2, 4);
        for (int k = 0; k < nc; ++k) {
            Comp q;
            q.x << m + V2(c.sym(0.3 * span), c.sym(0.3 * span)), c.sym(10), c.sym(10);
            q.P = gen_cov4(c, span * 0.03, span * 0.4);
            q.w = c.real(0.1, 1);
            cs.push_back(q);
        }
        add_target(tr, c.coin(20) ? 1.0 : c.real(0.02, 1), cs, o);
    }
    Snap s = snap(tr);
    if (c.describe) {
        c.desc << "region +-" << sx << " x +-" << sy << " m at " << o.transpose() << ", " << size[0] << "x" << size[1] << " cells, targets ";
        for (auto& t : s) { V2 p = cf::ll2ne(t.pos(), o); c.desc << "(r " << t.r << " at " << p.transpose() << ", " << t.c.size() << " components) "; }
    }
    const int K = 3, N = 1000;
    Eigen::MatrixXd sum = Eigen::MatrixXd::Zero(size[0], size[1]);
    for (int k = 0; k < K; ++k) {
        Eigen::MatrixXd m = tr.pos_phd(fov, size);
        c.check(m.rows() == size[0] && m.cols() == size[1], "the map has another size than asked for");
        for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { c.check(m(i, j) >= 0, "negative or undefined cell"); } }
        sum += m;
    }
    sum /= K;
    // The grid is laid in the local frame of the region's centre.
    LL cen((fov.min[0] + fov.max[0]) / 2, (fov.min[1] + fov.max[1]) / 2);
    V2 lo = cf::ll2ne(LL(fov.min[0], fov.min[1]), cen), hi = cf::ll2ne(LL(fov.max[0], fov.max[1]), cen);
    double slack = 1e-3 + 4 * span * span / 6.3e6 * (1 + std::tan(std::min(std::fabs(o[0]), 80.0) * M_PI / 180));
    double tlo = 0, thi = 0;
    bool spread = false;
    for (int i = -1; i < size[0]; ++i) {
        for (int j = 0; j < size[1]; ++j) {
            bool whole = i < 0;  // the whole region first
            if (whole && j) { break; }
            double x0 = lo[0], x1 = hi[0], y0 = lo[1], y1 = hi[1];
            if (!whole) {
                x0 = lo[0] + (hi[0] - lo[0]) * i / size[0]; x1 = lo[0] + (hi[0] - lo[0]) * (i + 1) / size[0];
                y0 = lo[1] + (hi[1] - lo[1]) * j / size[1]; y1 = lo[1] + (hi[1] - lo[1]) * (j + 1) / size[1];
            }
            double low = 0, high = 0, mid = 0;
            for (auto& t : s) {
                double pin = 0, pout = 0;
                for (auto& k : t.c) {
                    V2 m = cf::ll2ne(V2(k.x.head<2>()), cen);
                    M2 P = k.P.topLeftCorner<2, 2>();
                    double f = 1 / (1 + 1e-12);
                    pin += k.w * f * mass(m, P, rect(x0 + slack, y0 + slack, std::max(x0 + slack, x1 - slack), std::max(y0 + slack, y1 - slack)));
                    pout += k.w * f * mass(m, P, rect(x0 - slack, y0 - slack, x1 + slack, y1 + slack));
                }
                pin = std::min(1.0, pin); pout = std::min(1.0, pout);
                double over = overlap_m(t.box, fov), edge = 0.05 + slack;
                double round = t.c.size() > 1 ? t.c.size() * 1.0 / N : 0;
                if (pout < 1e-10) { continue; }                       // cannot contribute
                if (over > edge) { low += t.r * std::max(0.0, pin - bern(pin, K * N) - round); }
                if (over > -edge) { high += t.r * std::min(1.0, pout + bern(pout, K * N) + round); mid += t.r * pout; }
                // a target whose box is outside the region is left out
            }
            double v = whole ? sum.sum() : sum(i, j);
            std::string name = whole ? "total" : "cell (" + std::to_string(i) + "," + std::to_string(j) + ")";
            c.check(v >= low - 1e-9 && v <= high + 1e-9, name + " is " + c.num(v) + ", expected between " + c.num(low) + " and " + c.num(high));
            if (!whole && mid > 0.05) { spread = true; }
            (void)tlo; (void)thi;
        }
    }
    if (spread && size[0] * size[1] > 1) { c.nontrivial(); }
    if (s.empty()) { c.check(sum.isZero(0), "an empty tracker has a density"); c.label("no targets"); }
    if (size[0] != size[1]) { c.label("not square"); }
}

PBT_MAIN({"C26",
    "0-5 targets of 1-4 components inside, across the edge of and away from regions of 30-1800 m at random places on the globe, maps of 1-9 by 1-9 cells (some up to 40 by 40 or 300 by 3), averaged over three "
    "calls; total and every cell against the mass obtained by integration, within tail bounds exceeded with probability below exp(-30); "
    "non-trivial: more than one cell and some cell expected to hold more than 0.05",
    prop, 3500, 100000, 8, 60,
    {"regions do not cross the antimeridian or a pole", "a target whose bounding box misses the region counts as away from it",
     "maps use 1000 samples per target"}})
