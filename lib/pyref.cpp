// The C++ side of the Python checks: the tracker used directly, behind a plain
// C interface.  Everything is passed as arrays of doubles.
#include <cstring>
#include <sstream>
#include <string>
#include "lmb.hpp"
#include "gm.hpp"
#include "models.hpp"
#include "sensors.hpp"
using namespace lmb;
using Tracker = SILMB<GM<4>>;
using Sensor = PositionSensor<Tracker::Target>;
using Report = GaussianReport_<2>;
using V2 = Eigen::Vector2d;
using V4 = Eigen::Vector4d;
using M2 = Eigen::Matrix2d;
using M4 = Eigen::Matrix4d;
using RM2 = Eigen::Matrix<double, 2, 2, Eigen::RowMajor>;
using RM4 = Eigen::Matrix<double, 4, 4, Eigen::RowMajor>;
using RC = Eigen::Matrix<double, 2, 4, Eigen::RowMajor>;
template<typename T> static T in(const double* p) { return Eigen::Map<const T>(p); }
template<typename T, typename M> static void out(double* p, const M& m) { Eigen::Map<T>{p} = m; }

static Params mkparams(const double* p) {
    Params r;
    r.w_lim = p[0]; r.r_lim = p[1]; r.nhyp_max = p[2]; r.rB_max = p[3];
    r.nstd = p[4]; r.cw_lim = p[5]; r.cov_lim = p[6]; r.tscale = p[7];
    return r;
}
static void getparams(const Params& r, double* p) {
    double v[8] = {r.w_lim, r.r_lim, r.nhyp_max, r.rB_max, r.nstd, r.cw_lim, r.cov_lim, r.tscale};
    memcpy(p, v, sizeof v);
}
static BBox mkbox(const double* c) { BBox b; b.corners = in<RC>(c); return b; }
static AABBox mkaab(const double* b) { AABBox a; a.min = {b[0], b[1]}; a.max = {b[2], b[3]}; return a; }
static int text(const std::string& s, char* o, int n) { strncpy(o, s.c_str(), n); o[n - 1] = 0; return s.size(); }

extern "C" {
void* t_new(const double* p) { return p ? new Tracker(mkparams(p)) : new Tracker(); }
void t_free(void* t) { delete static_cast<Tracker*>(t); }
void t_setparams(void* t, const double* p) { static_cast<Tracker*>(t)->params = mkparams(p); }
void t_getparams(void* t, double* p) { getparams(static_cast<Tracker*>(t)->params, p); }
void params_default(double* p) { getparams(Params(), p); }
void sensor_default(double* fov, double* s, double* pv) {
    Sensor d;
    out<RC>(fov, d.fov.corners); s[0] = d.lambdaB; s[1] = d.pD_; s[2] = d.kappa_; out<RM2>(pv, d.pv);
}
void nm_default(double* p, double* Q) { NM<Tracker::Target> m; *p = m.pS; out<RM4>(Q, m.Q); }
void cv_default(double* p) { CV<Tracker::Target> m; p[0] = m.pS; p[1] = m.q; }
void t_nm(void* t, double pS, const double* Q, double time, double last) {
    NM<Tracker::Target> m(pS, in<RM4>(Q));
    static_cast<Tracker*>(t)->predict(m, time, last);
}
void t_cv(void* t, double pS, double q, double time, double last) {
    CV<Tracker::Target> m(pS, q);
    static_cast<Tracker*>(t)->predict(m, time, last);
}
void t_correct(void* t, const double* fov, const double* s, const double* pv, int n, const double* z, const double* P, const double* k, double time, int* cid) {
    Sensor d;
    d.fov = mkbox(fov); d.lambdaB = s[0]; d.pD_ = s[1]; d.kappa_ = s[2]; d.pv = in<RM2>(pv);
    Sensor::Scan scan;
    for (int i = 0; i < n; ++i) { scan.emplace_back(in<V2>(z + 2 * i), M2(in<RM2>(P + 4 * i)), k[i]); }
    static_cast<Tracker*>(t)->correct(d, scan, time);
    for (int i = 0; i < n; ++i) { cid[i] = scan[i].cid; }
}
int t_targets(void* t, const double* box, double* o, int cap) {
    auto& tr = *static_cast<Tracker*>(t);
    auto v = box ? tr.get_targets(mkaab(box)) : tr.get_targets();
    for (int i = 0; i < (int)v.size() && i < cap; ++i, o += 23) {
        out<V4>(o, v[i].x); out<RM4>(o + 4, v[i].P); o[20] = v[i].w; o[21] = v[i].id; o[22] = v[i].cid;
    }
    return v.size();
}
double t_enof(void* t, const double* box) { auto& tr = *static_cast<Tracker*>(t); return box ? tr.enof_targets(mkaab(box)) : tr.enof_targets(); }
int t_nof(void* t, const double* box, double lim, int deflt) {
    auto& tr = *static_cast<Tracker*>(t);
    if (box) { return deflt ? tr.nof_targets(mkaab(box)) : tr.nof_targets(mkaab(box), lim); }
    return deflt ? tr.nof_targets() : tr.nof_targets(lim);
}
void t_phd(void* t, const double* box, int nx, int ny, double* o) {
    Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m = static_cast<Tracker*>(t)->pos_phd(mkaab(box), Eigen::Array2i(nx, ny));
    memcpy(o, m.data(), sizeof(double) * nx * ny);
}
double t_score(void* t, int g, const double* x, int n, double c, double p) {
    Tracker::TargetStates v;
    for (int i = 0; i < n; ++i) { v.push_back(in<V4>(x + 4 * i)); }
    auto& tr = *static_cast<Tracker*>(t);
    return g ? tr.gospa(v, c, p) : tr.ospa(v, c, p);
}
int t_stats(void* t, int* nt, int* nr, int* nh, int cap) {
    auto& tr = *static_cast<Tracker*>(t);
    int n = tr.cluster_ntargets.size();
    if ((int)tr.cluster_nreports.size() != n || (int)tr.cluster_nhyps.size() != n) { return -1; }
    for (int i = 0; i < n && i < cap; ++i) { nt[i] = tr.cluster_ntargets[i]; nr[i] = tr.cluster_nreports[i]; nh[i] = tr.cluster_nhyps[i]; }
    return n;
}
int t_nclusters(void* t) { return static_cast<Tracker*>(t)->nof_clusters; }

void b_default(double* o) { BBox b; out<RC>(o, b.corners); }
void b_from_aab(const double* a, double* o) { BBox b(mkaab(a)); out<RC>(o, b.corners); }
void b_nebbox(const double* c, const double* org, double* o) { out<RC>(o, mkbox(c).nebbox(in<V2>(org)).corners); }
static void putaab(const AABBox& a, double* o) { o[0] = a.min[0]; o[1] = a.min[1]; o[2] = a.max[0]; o[3] = a.max[1]; }
void b_aabbox(const double* c, double* o) { putaab(mkbox(c).aabbox(), o); }
int b_repr(const double* c, char* o, int n) { return text(print(mkbox(c)), o, n); }
void b_gauss(const double* m, const double* P, double nstd, double* o) { BBox b; b.from_gaussian<V2, M2>(in<V2>(m), in<RM2>(P), nstd); out<RC>(o, b.corners); }
void a_default(double* o) { putaab(AABBox(), o); }
void a_new(const double* v, double* o) { putaab(AABBox(v[0], v[1], v[2], v[3]), o); }
void a_ll(const double* a, const double* org, double* o) { putaab(mkaab(a).llaabbox(in<V2>(org)), o); }
void a_ne(const double* a, const double* org, double* o) { putaab(mkaab(a).neaabbox(in<V2>(org)), o); }
int a_repr(const double* a, char* o, int n) { return text(print(mkaab(a)), o, n); }
int g_repr(const double* x, const double* P, double w, char* o, int n) { return text(print(Tracker::Gaussian(in<V4>(x), in<RM4>(P), w)), o, n); }
int r_repr(const double* x, const double* P, double k, char* o, int n) { return text(print(Report(in<V2>(x), M2(in<RM2>(P)), k)), o, n); }
void r_nebbox(const double* x, const double* P, const double* org, double nstd, int deflt, double* o) {
    Report r(in<V2>(x), M2(in<RM2>(P)));
    out<RC>(o, (deflt ? r.nebbox(in<V2>(org)) : r.nebbox(in<V2>(org), nstd)).corners);
}
void s_nebbox(const double* x, const double* P, const double* org, double nstd, int deflt, double* o) {
    TargetSummary_<4> r(in<V4>(x), M4(in<RM4>(P)), 1, 0);
    out<RC>(o, (deflt ? r.nebbox(in<V2>(org)) : r.nebbox(in<V2>(org), nstd)).corners);
}
int s_repr(const double* x, const double* P, double w, int id, int cid, char* o, int n) { return text(print(TargetSummary_<4>(in<V4>(x), M4(in<RM4>(P)), w, id, cid)), o, n); }
// coordinate functions: a of na values, b of nb values; the result as a row-major array, returns rows*10+cols
#define COL(T, e) { auto r = (e).eval(); for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) o[i * r.cols() + j] = r(i, j); return r.rows() * 10 + r.cols(); }
int f(int which, const double* a, const double* b, double* o) {
    switch (which) {
    case 0: COL(, cf::nedrot<cf::LLA>(in<cf::LLA>(a)))
    case 1: COL(, cf::lla2ecef<cf::LLA>(in<cf::LLA>(a)))
    case 2: COL(, (cf::ecef2ned<cf::ECEF, cf::LLA>(in<cf::ECEF>(a), in<cf::LLA>(b))))
    case 3: COL(, (cf::lla2ned<cf::LLA, cf::LLA>(in<cf::LLA>(a), in<cf::LLA>(b))))
    case 4: COL(, cf::ecef2lla<cf::ECEF>(in<cf::ECEF>(a)))
    case 5: COL(, (cf::ned2ecef<cf::NED, cf::LLA>(in<cf::NED>(a), in<cf::LLA>(b))))
    case 6: COL(, (cf::ned2lla<cf::NED, cf::LLA>(in<cf::NED>(a), in<cf::LLA>(b))))
    case 7: COL(, cf::nerot<cf::LL>(in<cf::LL>(a)))
    case 8: COL(, cf::ll2ecef<cf::LL>(in<cf::LL>(a)))
    case 9: COL(, (cf::ecef2ne<cf::ECEF, cf::LL>(in<cf::ECEF>(a), in<cf::LL>(b))))
    case 10: COL(, (cf::ll2ne<cf::LL, cf::LL>(in<cf::LL>(a), in<cf::LL>(b))))
    case 11: COL(, cf::ecef2ll<cf::ECEF>(in<cf::ECEF>(a)))
    case 12: COL(, (cf::ne2ecef<cf::NE, cf::LL>(in<cf::NE>(a), in<cf::LL>(b))))
    case 13: COL(, (cf::ne2ll<cf::NE, cf::LL>(in<cf::NE>(a), in<cf::LL>(b))))
    }
    return -1;
}
}
