// C27: whatever is printed is parsed by a strict JSON reader and compared with the state.
#include <iomanip>
#include <iostream>
#include "hist.hpp"
#include "pf.hpp"
using namespace lx;

// ------------------------------------------------ strict JSON (RFC 8259)
struct J {
    enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
    double num = 0;
    std::string str;
    std::vector<J> arr;
    std::vector<std::pair<std::string, J>> obj;
    const J* get(const std::string& k) const { for (auto& e : obj) { if (e.first == k) { return &e.second; } } return nullptr; }
};
struct Bad { std::string m; size_t at; };
struct Reader {
    const std::string& s;
    size_t p = 0;
    explicit Reader(const std::string& t) : s(t) {}
    [[noreturn]] void bad(const char* m) { throw Bad{m, p}; }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) { ++p; } }
    bool is(char ch) { return p < s.size() && s[p] == ch; }
    void eat(char ch) { if (!is(ch)) { bad((std::string("expected ") + ch).c_str()); } ++p; }
    J value(int depth = 0) {
        if (depth > 50) { bad("too deep"); }
        ws();
        J j;
        if (p >= s.size()) { bad("end"); }
        if (is('{')) {
            j.kind = J::OBJ; ++p; ws();
            if (is('}')) { ++p; return j; }
            while (true) {
                ws();
                std::string k = string();
                if (j.get(k)) { bad("repeated key"); }
                ws(); eat(':');
                J v = value(depth + 1);
                j.obj.emplace_back(k, v);
                ws();
                if (is(',')) { ++p; continue; }
                eat('}');
                return j;
            }
        }
        if (is('[')) {
            j.kind = J::ARR; ++p; ws();
            if (is(']')) { ++p; return j; }
            while (true) {
                j.arr.push_back(value(depth + 1));
                ws();
                if (is(',')) { ++p; continue; }
                eat(']');
                return j;
            }
        }
        if (is('"')) { j.kind = J::STR; j.str = string(); return j; }
        size_t b = p;
        if (is('-')) { ++p; }
        if (is('0')) { ++p; } else { if (!digits()) { bad("not a value"); } }
        if (is('.')) { ++p; if (!digits()) { bad("digits after the point"); } }
        if (is('e') || is('E')) { ++p; if (is('+') || is('-')) { ++p; } if (!digits()) { bad("exponent"); } }
        j.kind = J::NUM;
        j.num = strtod(s.substr(b, p - b).c_str(), nullptr);
        return j;
    }
    bool digits() { size_t b = p; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { ++p; } return p > b; }
    std::string string() {
        eat('"');
        std::string r;
        while (true) {
            if (p >= s.size()) { bad("unterminated string"); }
            unsigned char ch = s[p++];
            if (ch == '"') { return r; }
            if (ch < 0x20) { bad("control character"); }
            if (ch == '\\') { if (p >= s.size() || !strchr("\"\\/bfnrt", s[p])) { bad("escape"); } ++p; continue; }
            r += ch;
        }
    }
};
static J parse(Case& c, const std::string& s, const std::string& what) {
    try {
        Reader r(s);
        J j = r.value();
        r.ws();
        if (r.p != s.size()) { throw Bad{"text after the value", r.p}; }
        return j;
    } catch (Bad& b) {
        c.fail(what + " is not JSON: " + b.m + " at " + std::to_string(b.at) + " of " + s.substr(0, 600));
    }
}
static const J& field(Case& c, const J& j, const char* k, const std::string& w) {
    c.check(j.kind == J::OBJ, w + "not an object");
    auto f = j.get(k);
    if (!f) { c.fail(w + "no field " + k); }
    return *f;
}
static int scalar_digits = 6;
static void same_scalar(Case& c, const J& j, double v, const std::string& w) {
    c.check(j.kind == J::NUM, w + "not a number");
    double tol = 0.52 * std::pow(10.0, 1 - std::min(scalar_digits, 17));
    if (!Case::close(j.num, v, 5e-324, tol)) { c.fail(w + c.num(j.num) + " printed for " + c.num(v)); }
}
static void same_int(Case& c, const J& j, unsigned v, const std::string& w) {
    c.check(j.kind == J::NUM && j.num == v, w + c.num(j.num) + " printed for " + std::to_string(v));
}
template<typename M>
static void same_matrix(Case& c, const J& j, const M& m, const std::string& w) {
    c.check(j.kind == J::ARR && static_cast<long>(j.arr.size()) == m.rows(), w + "rows");
    for (int r = 0; r < m.rows(); ++r) {
        c.check(j.arr[r].kind == J::ARR && static_cast<long>(j.arr[r].arr.size()) == m.cols(), w + "columns");
        for (int k = 0; k < m.cols(); ++k) {
            auto& e = j.arr[r].arr[k];
            c.check(e.kind == J::NUM, w + "not a number");
            if (!Case::close(e.num, m(r, k), 5e-324, 6e-15)) { c.fail(w + "(" + std::to_string(r) + "," + std::to_string(k) + ") " + c.num(e.num) + " printed for " + c.num(m(r, k))); }
        }
    }
}
static void type_is(Case& c, const J& j, const char* t, const std::string& w) {
    auto& f = field(c, j, "type", w);
    c.check(f.kind == J::STR && f.str == t, w + "type " + f.str + " expected " + t);
}
template<typename G>
static void same_gauss(Case& c, const J& j, const G& g, const char* type, const std::string& w) {
    type_is(c, j, type, w);
    same_scalar(c, field(c, j, "w", w), g.w, w + "w ");
    same_matrix(c, field(c, j, "x", w), g.x, w + "x ");
    same_matrix(c, field(c, j, "P", w), g.P, w + "P ");
}
template<typename G>
static void same_gm(Case& c, const J& j, const G& g, const std::string& w) {
    type_is(c, j, "GM", w);
    auto& a = field(c, j, "c", w);
    c.check(a.kind == J::ARR && a.arr.size() == g.c.size(), w + "number of components");
    for (size_t k = 0; k < g.c.size(); ++k) { same_gauss(c, a.arr[k], g.c[k], "G", w + "component " + std::to_string(k) + " "); }
}
template<typename T>
static void same_target(Case& c, const J& j, const T& t, const std::string& w) {
    same_int(c, field(c, j, "id", w), t.id, w + "id ");
    same_int(c, field(c, j, "cid", w), t.cid, w + "cid ");
    same_scalar(c, field(c, j, "r", w), t.r, w + "r ");
    auto& la = field(c, j, "la", w);
    c.check(la.kind == J::STR && la.str == std::string(1, static_cast<char>(t.last_action)), w + "last action " + la.str);
    same_gm(c, field(c, j, "pdf", w), t.pdf, w + "pdf ");
}
template<typename R>
static void same_report(Case& c, const J& j, const R& r, const std::string& w) {
    type_is(c, j, "GR", w);
    same_matrix(c, field(c, j, "x", w), r.x, w + "x ");
    same_matrix(c, field(c, j, "P", w), r.P, w + "P ");
}
static void same_tracker(Case& c, const J& j, const Tracker& tr, const std::string& w) {
    auto& a = field(c, j, "targets", w);
    auto& ts = tr.targettree.targets;
    c.check(a.kind == J::ARR && a.arr.size() == ts.size(), w + "number of targets");
    std::set<unsigned> seen;
    for (auto& e : a.arr) {
        auto& id = field(c, e, "id", w);
        const Target* t = nullptr;
        for (auto q : ts) { if (q->id == id.num) { t = q; } }
        c.check(t && seen.insert(t->id).second, w + "unknown or repeated target");
        same_target(c, e, *t, w + "target " + std::to_string(t->id) + " ");
    }
}

// ------------------------------------------------ generators
static double number(Case& c) {
    switch (c.draw(8)) {
        case 0: return c.sym(100);
        case 1: return c.i(-3, 3);
        case 2: return std::pow(10.0, c.real(-300, 300)) * (c.coin() ? -1 : 1);
        case 3: return std::pow(10.0, c.real(-12, 12)) * (c.coin() ? -1 : 1);
        case 4: return c.pick({-0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1e16, 1e15 + 0.3, 123456789.0});
        case 5: return std::nextafter(c.i(-3, 3), 10.0);
        case 6: { uint64_t b = (c.draw(1ull << 32) << 32) | c.draw(1ull << 32); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 0.5; }
        default: return c.sym(1);
    }
}
template<typename M> static void fill(Case& c, M& m) { for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { m(i, j) = number(c); } } }
template<int S> static lmb::Gaussian_<S> gauss(Case& c) { lmb::Gaussian_<S> g; fill(c, g.x); fill(c, g.P); g.w = number(c); return g; }

static std::ostringstream* fresh(Case& c) {
    auto o = new std::ostringstream;
    scalar_digits = 6;
    if (c.coin(25)) { scalar_digits = c.pick({3, 9, 17, 12}); o->precision(scalar_digits); c.label("caller's precision"); }
    if (c.coin(8)) { *o << std::scientific; ++scalar_digits; }
    return o;
}
template<typename T>
static std::string out(Case& c, const T& t) {
    std::unique_ptr<std::ostringstream> o(fresh(c));
    auto f = o->flags(); auto p = o->precision(); auto w = o->width(); auto k = o->fill();
    *o << t;
    c.check(o->flags() == f && o->precision() == p && o->width() == w && o->fill() == k, "printing changed the stream's formatting");
    std::string s = o->str();
    std::ostringstream again;
    again.flags(f); again.precision(p);
    again << t;
    c.check(again.str() == s, "printing twice gives different text");
    if (c.describe) { c.desc << s.substr(0, 400) << "; "; }
    return s;
}
template<int S>
static void gaussians(Case& c) {
    auto g = gauss<S>(c);
    same_gauss(c, parse(c, out(c, g), "gaussian"), g, "G", "gaussian ");
    lmb::TargetSummary_<S> t(g.x, g.P, g.w, c.u(1u << 31), c.u(1000));
    scalar_digits = 6;
    J j = parse(c, lmb::print(t), "summary");
    same_gauss(c, j, t, "T", "summary ");
    same_int(c, field(c, j, "id", "summary "), t.id, "summary id ");
    lmb::GM<S> m;
    int n = c.coin(15) ? 0 : c.i(0, 4);
    for (int k = 0; k < n; ++k) { m.c.push_back(gauss<S>(c)); }
    if (n != 1) { c.label(n ? "multi-component" : "empty mixture"); }
    same_gm(c, parse(c, out(c, m), "mixture"), m, "mixture ");
    scalar_digits = 6;
    same_gm(c, parse(c, lmb::print(m), "mixture"), m, "printed mixture ");
    std::vector<lmb::GaussianReport_<S>> rs;
    n = c.coin(15) ? 0 : c.i(0, 4);
    for (int k = 0; k < n; ++k) { auto q = gauss<S>(c); rs.emplace_back(typename lmb::Gaussian_<S>::State(q.x), typename lmb::Gaussian_<S>::Covariance(q.P), number(c)); }
    J a = parse(c, out(c, rs), "reports");
    c.check(a.kind == J::ARR && static_cast<int>(a.arr.size()) == n, "number of reports");
    for (int k = 0; k < n; ++k) {
        same_report(c, a.arr[k], rs[k], "report ");
        same_report(c, parse(c, out(c, rs[k]), "report"), rs[k], "single report ");
    }
    c.nontrivial();
}
template<unsigned S, unsigned N>
static void cloud(Case& c) {
    static lmb::PF<S, N> pf;
    fill(c, pf.w); fill(c, pf.x);
    J j = parse(c, out(c, pf), "particles");
    type_is(c, j, "PF", "particles ");
    same_matrix(c, field(c, j, "w", "particles "), pf.w, "particle weights ");
    same_matrix(c, field(c, j, "x", "particles "), pf.x, "particle states ");
    c.nontrivial();
    c.label("particle cloud");
}

static void prop(Case& c) {
    layout(c);
    switch (c.weighted({3, 1, 1, 1, 1, 3, 4})) {
        case 0: gaussians<4>(c); break;
        case 1: gaussians<2>(c); break;
        case 2: c.coin() ? gaussians<1>(c) : gaussians<6>(c); break;
        case 3: c.coin() ? cloud<2, 5>(c) : c.coin() ? cloud<4, 3>(c) : cloud<4, 1>(c); break;
        case 4: {
            BBox::Corners k;
            fill(c, k);
            BBox b(k);
            J j = parse(c, out(c, b), "box");
            type_is(c, j, "BBox", "box ");
            same_matrix(c, field(c, j, "c", "box "), k, "corners ");
            scalar_digits = 6;
            same_matrix(c, field(c, parse(c, lmb::print(b), "box"), "c", "box "), k, "corners ");
            c.nontrivial();
            c.label("box");
            break;
        }
        case 5: {  // targets, clusters and trackers with arbitrary contents
            Tracker tr;
            int n = c.coin(10) ? 0 : c.i(0, 5);
            std::vector<std::unique_ptr<Target>> ts;
            std::vector<Target*> tp;
            for (int k = 0; k < n; ++k) {
                ts.emplace_back(new Target);
                auto& t = *ts.back();
                t.id = c.coin(20) ? c.u(4000000000u) : k; t.cid = c.u(1000); t.r = number(c);
                t.last_action = c.pick({lmb::ACTION_PREDICT, lmb::ACTION_CORRECT, lmb::ACTION_INIT});
                int m = c.coin(10) ? 0 : c.i(0, 3);
                for (int q = 0; q < m; ++q) { t.pdf.c.push_back(gauss<4>(c)); }
                tp.push_back(&t);
                same_target(c, parse(c, out(c, t), "target"), t, "target ");
            }
            n = c.coin(10) ? 0 : c.i(0, 3);
            std::vector<Report> rs;
            for (int k = 0; k < n; ++k) { auto q = gauss<2>(c); rs.emplace_back(V2(q.x), M2(q.P), number(c)); }
            std::vector<Report*> rp;
            for (auto& r : rs) { rp.push_back(&r); }
            lmb::Cluster_<Report, Target> cl(c.u(100), rp, tp, &tr.params);
            J j = parse(c, out(c, cl), "cluster");
            type_is(c, j, "CL", "cluster ");
            auto& R = field(c, j, "R", "cluster ");
            auto& T = field(c, j, "T", "cluster ");
            c.check(R.kind == J::ARR && R.arr.size() == rs.size() && T.kind == J::ARR && T.arr.size() == tp.size(), "cluster members");
            for (size_t k = 0; k < rs.size(); ++k) { same_report(c, R.arr[k], rs[k], "cluster report "); }
            for (size_t k = 0; k < tp.size(); ++k) { same_target(c, T.arr[k], *tp[k], "cluster target "); }
            if (tp.empty() || rs.empty()) { c.label("cluster without reports or targets"); }
            c.label("cluster");
            c.nontrivial();
            break;
        }
        default: {  // trackers along histories
            HistOpt o;
            o.maxSteps = 5; o.maxReports = 5; o.maxObjects = 4;
            History h = gen_history(c, o);
            show_history(c, h);
            Tracker tr;
            tr.params = h.params;
            tr.params.nhyp_max = std::min(20.0, h.params.nhyp_max);
            if (c.coin(5)) {  // never used
                same_tracker(c, parse(c, out(c, tr), "tracker"), tr, "empty tracker ");
                c.label("empty tracker");
            }
            start(tr, h);
            for (auto& op : h.ops) {
                std::map<unsigned, double> was;
                for (auto q : tr.targettree.targets) { was[q->id] = q->r; }
                apply<ExactSensor>(tr, op);
                J j = parse(c, out(c, tr), "tracker");
                same_tracker(c, j, tr, "tracker ");
                if (op.kind != HOp::CORRECT) {
                    for (auto& e : field(c, j, "targets", "").arr) { c.check(field(c, e, "la", "").str == "u", "a predicted target's last action is not a prediction"); }
                } else {
                    for (auto& e : field(c, j, "targets", "").arr) {
                        unsigned id = static_cast<unsigned>(field(c, e, "id", "").num);
                        auto q = was.find(id);
                        auto& la = field(c, e, "la", "").str;
                        if (q == was.end()) { c.check(la == "i", "a newborn's last action is not its creation"); continue; }
                        for (auto t : tr.targettree.targets) { if (t->id == id && std::fabs(t->r - q->second) > 1e-6) { c.check(la == "c", "a corrected target's last action is not a correction"); c.label("corrected"); } }
                    }
                }
                if (!tr.targettree.targets.empty()) { c.nontrivial(); }
            }
            auto list = tr.get_targets();
            scalar_digits = 6;
            for (auto& t : list) {
                J j = parse(c, lmb::print(t), "listed target");
                same_gauss(c, j, t, "T", "listed target ");
                same_int(c, field(c, j, "id", "listed "), t.id, "listed id ");
            }
            c.label("history");
        }
    }
}

PBT_MAIN({"C27",
    "Gaussians (1, 2, 4, 6 states), mixtures of 0-4 components, report lists of 0-4, particle clouds, boxes, targets and clusters filled with finite doubles of every magnitude (subnormal to 1.8e308, random bit patterns, negative zero), and trackers after every step of histories of 2-5 operations are printed with the default or a caller's stream precision, read back by a strict JSON parser and compared field by field: matrices to 15 significant digits, shape and orientation, scalars to the stream's precision, one entry per element. The stream's formatting must be unchanged. Non-trivial: something other than an empty tracker was printed.",
    prop, 40000, 600000, 8, 30, {"states are finite"}})
