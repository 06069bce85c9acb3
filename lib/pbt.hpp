// Choice-sequence property-based testing engine.
//
// A property is a function void(pbt::Case&).  Everything random is drawn from
// the Case, as a sequence of bounded integers ("choices"); a failing case is
// that sequence, shrinking works on it, and the replay file stores it.  The
// same function is a libFuzzer target when compiled with -DPBT_FUZZ.
//
// The parent process never runs the code under test: cases run in forked
// workers, so a crash, sanitizer report, assertion or hang is an outcome of
// the case like any other.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Reject {};
struct Failure {
    std::string msg;
};

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

class Case {
 public:
    // source
    enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
    uint64_t rng = 0;
    const uint64_t* in = nullptr;
    size_t nin = 0, pos = 0;
    const uint8_t* bytes = nullptr;
    size_t nbytes = 0, bpos = 0;
    // record (shared memory in workers)
    uint64_t* out = nullptr;
    volatile uint64_t* nout = nullptr;
    size_t cap = 0;
    uint64_t hash = 1469598103934665603ull;
    // outcome annotations
    bool describe = false;
    std::ostringstream desc;
    bool nontriv = false;
    std::map<std::string, uint64_t>* labels = nullptr;
    int tier = 0;  // 0 quick, 1 thorough

    uint64_t draw(uint64_t bound) {  // [0, bound)
        if (bound <= 1) { return 0; }
        uint64_t v = 0;
        if (mode == RANDOM) {
            rng += 0x9E3779B97F4A7C15ull;
            v = mix(rng) % bound;
        } else if (mode == REPLAY) {
            v = pos < nin ? in[pos] : 0;
            if (v >= bound) { v = bound - 1; }
        } else {
            uint64_t b = bound - 1;
            while (b) {
                v = (v << 8) | (bpos < nbytes ? bytes[bpos] : 0);
                ++bpos;
                b >>= 8;
            }
            v %= bound;
        }
        ++pos;
        if (out && *nout < cap) { out[*nout] = v; *nout = *nout + 1; }
        hash = (hash ^ v) * 1099511628211ull;
        return v;
    }
    bool exhausted() const { return mode == BYTES && bpos >= nbytes; }

    // ---- generators (0 is always the simplest choice)
    int i(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
    unsigned u(unsigned n) { return static_cast<unsigned>(draw(n)); }
    bool coin(int percent = 50) { return draw(100) >= static_cast<uint64_t>(100 - percent); }
    double unit() {  // [0,1), sometimes coarse so that ties and boundaries occur
        return static_cast<double>(draw(1ull << 32)) / 4294967296.0;
    }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // magnitude shrinks towards 0
    double sym(double a) {
        double m = unit() * a;
        return draw(2) ? -m : m;
    }
    double logreal(double lo, double hi) { return lo * std::exp(unit() * std::log(hi / lo)); }
    double realb(double lo, double hi) {  // boundary-biased
        switch (draw(12)) {
            case 10: return lo;
            case 11: return hi;
            default: return real(lo, hi);
        }
    }
    double gauss() {
        double a = (static_cast<double>(draw(1ull << 32)) + 1.0) / 4294967297.0;
        double b = static_cast<double>(draw(1ull << 32)) / 4294967296.0;
        return std::sqrt(-2 * std::log(1.0 - a + 1e-300 > 0 ? std::max(1e-12, 1.0 - a) : 1e-12)) * std::cos(2 * M_PI * b);
    }
    template<typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    template<typename T>
    const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
    // weighted choice: returns the index
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned s = 0;
        for (auto x : w) { s += x; }
        unsigned r = u(s), k = 0;
        for (auto x : w) {
            if (r < x) { return k; }
            r -= x;
            ++k;
        }
        return 0;
    }
    template<typename V>
    void shuffle(V& v) {
        for (size_t k = v.size(); k > 1; --k) { std::swap(v[k - 1], v[k - 1 - draw(k)]); }
    }

    // ---- annotations
    void nontrivial() { nontriv = true; }
    void label(const char* l) { if (labels) { (*labels)[l]++; } }
    void label(const std::string& l) { if (labels) { (*labels)[l]++; } }
    template<typename T>
    void show(const char* name, const T& v) {
        if (describe) { desc.precision(17); desc << name << "=" << v << "; "; }
    }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    [[noreturn]] void discard() { throw Reject{}; }
    void check(bool ok, const std::string& m) { if (!ok) { fail(m); } }
    static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
    // |a-b| <= abs + rel*max(|a|,|b|); NaN fails
    static bool close(double a, double b, double abs, double rel = 0) {
        if (a == b) { return true; }
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    void near(double a, double b, double abs, double rel, const std::string& m) {
        if (!close(a, b, abs, rel)) { fail(m + ": got " + num(a) + " expected " + num(b)); }
    }
};

struct Config {
    const char* id;             // property id
    const char* rule;           // how cases are made, what is non-trivial
    void (*prop)(Case&);
    uint64_t quick_cases;
    uint64_t thorough_cases;
    int workers = 8;
    double cpu_limit = 30;      // CPU seconds per case before it counts as a hang
    std::vector<std::string> assumptions = {};
    int retries = 1;            // attempts of a replay (schedules)
};

// Called before every case to reset global state of the code under test.
inline void (*reset_hook)(uint64_t seed) = nullptr;

int run_main(const Config& cfg, int argc, char** argv);
int fuzz_one(const Config& cfg, const uint8_t* data, size_t size);

}  // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(...) \
    static pbt::Config pbt_cfg_ __VA_ARGS__; \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return pbt::fuzz_one(pbt_cfg_, d, n); }
#else
#define PBT_MAIN(...) \
    static pbt::Config pbt_cfg_ __VA_ARGS__; \
    int main(int argc, char** argv) { return pbt::run_main(pbt_cfg_, argc, argv); }
#endif
