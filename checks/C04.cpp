// C04: containment and overlap predicates against a separating-axis /
// half-plane oracle with a rounding margin.
#include "pbt.hpp"
#include "gm.hpp"
using pbt::Case;
using namespace lmb;
using V2 = Eigen::Vector2d;
using L2 = Eigen::Matrix<long double, 2, 1>;
using Quad = BBox::Corners;

// Signed separation: > 0 separated by that distance, < 0 overlapping by that depth (largest over axes).
static long double sat(const Quad& a, const Quad& b) {
    long double best = -1e300L;
    for (int s = 0; s < 2; ++s) {
        const Quad& p = s ? b : a;
        for (int k = 0; k < 4; ++k) {
            L2 e = (p.col((k + 1) % 4) - p.col(k)).cast<long double>();
            long double len = e.norm();
            if (len == 0) { continue; }
            L2 n(e[1] / len, -e[0] / len);
            long double alo = 1e300L, ahi = -1e300L, blo = 1e300L, bhi = -1e300L;
            for (int q = 0; q < 4; ++q) {
                long double u = n.dot(a.col(q).cast<long double>()), v = n.dot(b.col(q).cast<long double>());
                alo = std::min(alo, u); ahi = std::max(ahi, u);
                blo = std::min(blo, v); bhi = std::max(bhi, v);
            }
            best = std::max(best, std::max(blo - ahi, alo - bhi));
        }
    }
    return best;
}

// > 0 inside by that distance to the nearest edge line, < 0 outside
static long double inside(const Quad& a, const V2& x) {
    long double area = 0, worst = 1e300L;
    for (int k = 0; k < 4; ++k) {
        auto p = a.col(k).cast<long double>(), q = a.col((k + 1) % 4).cast<long double>();
        area += (p[0] - (long double)a(0, 0)) * (q[1] - (long double)a(1, 0)) - (q[0] - (long double)a(0, 0)) * (p[1] - (long double)a(1, 0));
    }
    for (int k = 0; k < 4; ++k) {
        L2 p = a.col(k).cast<long double>(), q = a.col((k + 1) % 4).cast<long double>();
        L2 e = q - p, d = x.cast<long double>() - p;
        long double s = (e[0] * d[1] - e[1] * d[0]) / e.norm();
        worst = std::min(worst, area > 0 ? s : -s);
    }
    return worst;
}

struct Box { Quad c; double size; };

static Box rect(Case& c, const V2& ctr, double l, double w, double th) {
    V2 u(std::cos(th), std::sin(th)), v(-u[1], u[0]);
    Quad q;
    q.col(0) = ctr + l * u + w * v;
    q.col(1) = ctr - l * u + w * v;
    q.col(2) = ctr - l * u - w * v;
    q.col(3) = ctr + l * u - w * v;
    return {q, std::max(l, w)};
}

static Quad relist(const Quad& a, unsigned start, bool rev) {
    Quad q;
    for (int k = 0; k < 4; ++k) { q.col(k) = a.col((start + (rev ? 4 - k : k)) % 4); }
    return q;
}

static void prop(Case& c) {
    // Degrees (small boxes at large offsets) or metres.
    bool deg = c.coin();
    double scale = deg ? c.logreal(1e-5, 10) : c.logreal(0.1, 1e5);
    V2 off = deg ? V2(c.sym(80), c.sym(170)) : V2(c.sym(scale * 10), c.sym(scale * 10));
    if (c.coin(20)) { off.setZero(); }
    auto angle = [&]() {
        switch (c.weighted({5, 2, 1})) {
            case 0: return c.real(0, 2 * M_PI);
            case 1: return c.u(8) * M_PI / 4;
            default: return c.u(4) * M_PI / 2 + c.sym(1e-3);
        }
    };
    double la = scale * c.real(0.2, 1), wa = la * (c.coin(30) ? c.logreal(0.002, 1) : c.real(0.2, 1));
    double ta = angle();
    Box A = rect(c, off, la, wa, ta);
    Box B;
    unsigned how = c.weighted({3, 3, 2, 2, 2});
    double lb = scale * c.real(0.1, 1), wb = lb * (c.coin(30) ? c.logreal(0.002, 1) : c.real(0.2, 1));
    double tb = angle();
    V2 u(std::cos(ta), std::sin(ta)), v(-u[1], u[0]);
    switch (how) {
        case 0:  // anywhere near
            B = rect(c, off + V2(c.sym(2 * scale), c.sym(2 * scale)), lb, wb, tb);
            c.label("random");
            break;
        case 1:  // elongated boxes crossing within A, no corner inside the other
            wa = la * c.logreal(0.005, 0.3);
            A = rect(c, off, la, wa, ta);
            lb = la * c.real(0.5, 1.5);
            wb = lb * c.logreal(0.005, 0.3);
            tb = ta + (c.coin() ? M_PI / 2 : c.real(0.05, M_PI - 0.05));
            B = rect(c, off + u * c.sym(0.9 * la) + V2(std::cos(tb), std::sin(tb)) * c.sym(0.9 * lb), lb, wb, tb);
            c.label("crossing");
            break;
        case 2: {  // contained
            double f = c.real(0.01, 0.4);
            double r = f * std::min(la, wa);
            B = rect(c, off + u * c.sym(0.5 * la) + v * c.sym(0.5 * wa), r, r * c.real(0.1, 1), tb);
            c.label("contained");
            break;
        }
        case 3:  // sharing edges or identical, exactly
            switch (c.u(3)) {
                case 0: B = A; break;
                case 1: B = rect(c, off + u * c.sym(0.5 * la), la, wa, ta); break;
                default: B = rect(c, off, la * c.real(0.1, 0.9), wa, ta); break;
            }
            c.label("aligned overlap");
            break;
        default: {  // across a gap or a slight overlap along one edge normal
            double gap = c.sym(0.2) * scale;
            B = rect(c, off + u * (la + lb + gap) + v * c.sym(wa), lb, wb, ta);
            c.label("edge gap");
            break;
        }
    }
    if (c.coin(20)) {  // general convex quads, as frame conversion makes them
        for (auto* q : {&A, &B}) {
            double m = 0.05 * std::min((q->c.col(0) - q->c.col(1)).norm(), (q->c.col(1) - q->c.col(2)).norm());
            for (int k = 0; k < 4; ++k) { q->c(0, k) += c.sym(m); q->c(1, k) += c.sym(m); }
        }
        c.label("quads");
    }
    if (c.coin()) { std::swap(A, B); }
    c.show("A", A.c.format(eigenformat)); c.show("B", B.c.format(eigenformat));

    double mag = std::max(A.c.cwiseAbs().maxCoeff(), B.c.cwiseAbs().maxCoeff());
    double margin = 1e-6 * std::min((A.c.col(0) - A.c.col(1)).norm(), (A.c.col(1) - A.c.col(2)).norm()) + 64 * 2.3e-16 * mag;
    margin = std::max(margin, 1e-6 * std::min((B.c.col(0) - B.c.col(1)).norm(), (B.c.col(1) - B.c.col(2)).norm()) + 64 * 2.3e-16 * mag);
    BBox a(relist(A.c, c.u(4), c.coin())), b(relist(B.c, c.u(4), c.coin()));
    long double sep = sat(A.c, B.c);
    if (sep > margin || sep < -margin) {
        bool want = sep < 0;
        c.check(a.intersects(b) == want, std::string("boxes ") + (want ? "overlap" : "are disjoint") + " but intersects says otherwise (depth " + c.num(-static_cast<double>(sep)) + ")");
        c.check(b.intersects(a) == want, std::string("boxes ") + (want ? "overlap" : "are disjoint") + " but the swapped intersects says otherwise");
        c.label(want ? "overlapping" : "disjoint");
        bool corner = false;
        for (int k = 0; k < 4; ++k) { corner |= inside(A.c, B.c.col(k)) > 0 || inside(B.c, A.c.col(k)) > 0; }
        if (want && !corner) { c.label("overlap without corner containment"); }
        c.nontrivial();
    } else {
        c.label("touching within rounding");
    }
    c.check(a.intersects(a) && b.intersects(b), "a box does not overlap itself");
    BBox ar(relist(A.c, c.u(4), c.coin()));
    c.check(a.intersects(ar), "a box does not overlap itself with corners listed differently");

    // Points.
    for (int n = 0; n < 4; ++n) {
        V2 x;
        switch (c.u(3)) {
            case 0: x = A.c.rowwise().mean() + V2(c.sym(2 * A.size), c.sym(2 * A.size)); break;
            case 1: { int k = c.i(0, 3); double f = c.unit(); x = A.c.col(k) * f + A.c.col((k + 1) % 4) * (1 - f) + V2(c.sym(0.01), c.sym(0.01)) * A.size; break; }
            default: {
                V2 m = A.c.rowwise().mean();
                int k = c.i(0, 3);
                x = m + (A.c.col(k) - m) * c.real(0, 1.5);
            }
        }
        long double in = inside(A.c, x);
        if (in > margin || in < -margin) {
            c.check(a.within(x) == (in > 0), std::string("point is ") + (in > 0 ? "inside" : "outside") + " but within says otherwise");
            c.label(in > 0 ? "point inside" : "point outside");
        }
        Eigen::Vector4d s(x[0], x[1], c.sym(100), c.sym(100));
        c.check(a.within(s) == a.within(x), "within depends on velocity components");
    }

    // Axis-aligned boxes: exact comparisons, touching included.
    auto grid = [&](double o) { return c.coin(50) ? o + c.i(-3, 3) * scale : o + c.sym(3 * scale); };
    AABBox p(grid(off[0]), grid(off[1]), grid(off[0]), grid(off[1])), q(grid(off[0]), grid(off[1]), grid(off[0]), grid(off[1]));
    bool want = true, wantpt = true;
    V2 pt(grid(off[0]), grid(off[1]));
    for (int k = 0; k < 2; ++k) {
        want = want && std::max(p.min[k], q.min[k]) <= std::min(p.max[k], q.max[k]);
        wantpt = wantpt && p.min[k] <= pt[k] && pt[k] <= p.max[k];
    }
    c.check(p.intersects(q) == want && q.intersects(p) == want, "axis-aligned intersects is wrong");
    c.check(p.within(pt) == wantpt, "axis-aligned within is wrong");
    c.label(want ? "aabb overlap" : "aabb disjoint");
    // Oriented against axis-aligned: judged by the oriented box's hull.
    AABBox ha = a.aabbox();
    bool wanth = true;
    for (int k = 0; k < 2; ++k) { wanth = wanth && std::max(ha.min[k], p.min[k]) <= std::min(ha.max[k], p.max[k]); }
    c.check(a.intersects(p) == wanth, "oriented vs axis-aligned intersects disagrees with the hull");
    if (mag > 5000 || pt.cwiseAbs().maxCoeff() > 5000 || std::fabs(p.max[0]) > 5000 || std::fabs(p.min[0]) > 5000
        || std::fabs(p.max[1]) > 5000 || std::fabs(p.min[1]) > 5000) { return; }  // the default "infinite" box is +-30000 (degrees)
    AABBox all;
    c.check(all.intersects(p) && p.intersects(all) && all.within(pt), "the default axis-aligned box does not cover everything");
    BBox ball;
    c.check(ball.within(pt) && ball.intersects(a) && a.intersects(ball), "the default box does not cover everything");
}

PBT_MAIN({"C04",
    "A case is two convex quadrilaterals (rectangles in any orientation, thin ones, slight distortions) in degrees (1e-5..10, offset to 170) or metres (0.1..1e5): placed at random, crossing without corner containment, contained, sharing edges, across a small gap; corners listed from any start in either winding; four points near one box; two axis-aligned boxes on a grid. Non-trivial: the pair is decided by more than the rounding margin.",
    prop, 2400000, 20000000, 8, 10,
    {"pairs closer to touching than 1e-6 of the thinner side (plus coordinate rounding) are not decided"}})
