#include "pbt.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <random>
#include <unordered_set>

// Every std::random_device in the process yields a fixed stream, so that a
// case is a function of its choices alone.
unsigned int std::random_device::_M_getval() {
    static unsigned n = 0;
    return 0x5EED0000u + __atomic_fetch_add(&n, 1u, __ATOMIC_RELAXED);
}

namespace pbt {
namespace {

const int EX_FAIL = 77, EX_HANG = 78, EX_REJECT = 79, EX_EXC = 80;
const size_t CAP = 1 << 16;

struct Slot {
    volatile uint64_t case_idx;
    volatile uint64_t nout;
    volatile uint64_t evals, rejects, nontriv, nhash;
    volatile uint64_t sample[6];
    volatile uint64_t nsample;
    char msg[8192];
    char desc[1 << 16];
    uint64_t choices[CAP];
    uint64_t hashes[1 << 19];
};

template<typename T>
T* shm(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<T*>(p);
}

void on_prof(int) { _exit(EX_HANG); }

void arm(double cpu) {
    struct itimerval tv = {};
    tv.it_value.tv_sec = static_cast<long>(cpu);
    tv.it_value.tv_usec = static_cast<long>((cpu - std::floor(cpu)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
}

void put(char* dst, size_t n, const std::string& s) {
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

// Runs one case in this process. Returns 0 ok, EX_REJECT, or EX_FAIL/EX_EXC with msg set.
int run_case(const Config& cfg, Case& c, Slot* s) {
    if (reset_hook) { reset_hook(0x1234567); }
    arm(cfg.cpu_limit);
    int rc = 0;
    try {
        cfg.prop(c);
    } catch (const Reject&) {
        rc = EX_REJECT;
    } catch (const Failure& f) {
        put(s->msg, sizeof s->msg, f.msg);
        rc = EX_FAIL;
    } catch (const std::exception& e) {
        put(s->msg, sizeof s->msg, std::string("uncaught exception: ") + e.what());
        rc = EX_EXC;
    } catch (const char* e) {
        put(s->msg, sizeof s->msg, std::string("uncaught exception: ") + e);
        rc = EX_EXC;
    }
    arm(0);
    return rc;
}

struct Outcome {
    int kind = 0;  // 0 ok/reject, else failing class
    std::string msg;
};

std::string tail(const std::string& path, size_t n) {
    std::ifstream f(path);
    std::string line, out;
    while (std::getline(f, line)) {
        if (line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos
            || line.find("ssertion") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos
            || line.find("SUMMARY") != std::string::npos || line.find("    #") != std::string::npos
            || line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos) {
            if (out.size() + line.size() < n) { out += line + " | "; }
        }
    }
    return out;
}

Outcome classify(int status, const char* msg, const std::string& errfile) {
    Outcome o;
    if (WIFEXITED(status)) {
        int e = WEXITSTATUS(status);
        if (e == 0 || e == EX_REJECT) { return o; }
        o.kind = e;
        if (e == EX_FAIL || e == EX_EXC) {
            o.msg = msg;
        } else if (e == EX_HANG) {
            o.msg = "case exceeded its CPU limit (hang)";
        } else {
            o.kind = 1000;
            o.msg = "process died (exit " + std::to_string(e) + "): " + tail(errfile, 3000);
        }
    } else {
        o.kind = 1000;
        o.msg = "process killed by signal " + std::to_string(WTERMSIG(status)) + ": " + tail(errfile, 3000);
    }
    return o;
}

int read_tier() {
    const char* t = getenv("VERIF_TIER");
    return t && !strcmp(t, "thorough");
}

double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

double wall_limit(const Config& cfg) { return 1.5 * cfg.cpu_limit + 30; }  // for one case, asleep or not

// Runs a choice sequence in a forked child.
Outcome run_isolated(const Config& cfg, const std::vector<uint64_t>& ch, Slot* s, bool describe,
                     std::vector<uint64_t>* used = nullptr, std::string* desc = nullptr, uint64_t rng_seed = 0, bool random = false) {
    char errfile[] = "/tmp/pbt-err-XXXXXX";
    int fd = mkstemp(errfile);
    s->nout = 0;
    s->msg[0] = 0;
    s->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd, 2);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        signal(SIGPROF, on_prof);
        Case c;
        c.mode = random ? Case::RANDOM : Case::REPLAY;
        c.rng = rng_seed;
        c.in = ch.data();
        c.nin = ch.size();
        c.out = s->choices;
        c.nout = &s->nout;
        c.cap = CAP;
        c.describe = describe;
        c.tier = read_tier();
        std::map<std::string, uint64_t> lab;
        c.labels = &lab;
        int rc = run_case(cfg, c, s);
        if (describe) { put(s->desc, sizeof s->desc, c.desc.str()); }
        _exit(rc);
    }
    close(fd);
    int status = 0;
    Outcome o;
    double t0 = now();
    useconds_t nap = 20;
    while (waitpid(pid, &status, WNOHANG) == 0) {
        if (now() - t0 > wall_limit(cfg)) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            o.kind = EX_HANG;
            o.msg = "case made no progress (deadlock)";
            break;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 5000);
    }
    if (!o.kind) { o = classify(status, s->msg, errfile); }
    unlink(errfile);
    if (used) { used->assign(s->choices, s->choices + s->nout); }
    if (desc) { *desc = s->desc; }
    return o;
}

std::vector<uint64_t> shrink(const Config& cfg, std::vector<uint64_t> best, int kind, Slot* s, double budget) {
    double end = now() + budget;
    auto fails = [&](std::vector<uint64_t> cand) -> bool {
        if (now() > end) { return false; }
        std::vector<uint64_t> used;
        Outcome o = run_isolated(cfg, cand, s, false, &used);
        if (o.kind != kind) { return false; }
        while (!used.empty() && used.back() == 0) { used.pop_back(); }
        if (kind == 1000 || kind == EX_HANG) { used = cand; }  // may have been cut short
        auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
            if (a.size() != b.size()) { return a.size() < b.size(); }
            return a < b;
        };
        if (!less(used, best)) { if (less(cand, best)) { best = cand; return true; } return false; }
        best = used;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len : {256u, 64u, 16u, 8u, 4u, 3u, 2u, 1u}) {  // delete chunks
            for (size_t k = best.size(); k-- > 0 && now() < end;) {
                if (k + len > best.size()) { continue; }
                auto cand = best;
                cand.erase(cand.begin() + k, cand.begin() + k + len);
                if (fails(cand)) { progress = true; }
                if (len > 4) { k = k > len / 2 ? k - len / 2 : 0; }
            }
        }
        for (size_t len : {16u, 4u, 1u}) {  // zero chunks
            for (size_t k = 0; k + len <= best.size() && now() < end; k += len) {
                auto cand = best;
                bool any = false;
                for (size_t q = k; q < k + len; ++q) { any |= cand[q] != 0; cand[q] = 0; }
                if (any && fails(cand)) { progress = true; }
            }
        }
        for (size_t k = 0; k < best.size() && now() < end; ++k) {  // minimise values
            uint64_t lo = 0;
            while (k < best.size() && best[k] > lo && now() < end) {
                auto cand = best;
                uint64_t mid = lo + (best[k] - lo) / 2;
                cand[k] = mid;
                if (fails(cand)) { progress = true; } else { lo = mid + 1; }
                if (best[k] > (1u << 20) && lo > best[k] - best[k] / 64) { break; }
            }
        }
    }
    return best;
}

void jstr(std::ostream& o, const std::string& s) {
    o << '"';
    for (unsigned char ch : s) {
        switch (ch) {
            case '"': o << "\\\""; break;
            case '\\': o << "\\\\"; break;
            case '\n': o << "\\n"; break;
            case '\t': o << "\\t"; break;
            default:
                if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o << b; } else { o << ch; }
        }
    }
    o << '"';
}

std::vector<uint64_t> load_replay(const char* path) {
    std::vector<uint64_t> v;
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path); exit(2); }
    std::string line;
    while (std::getline(f, line)) {
        if (line.rfind("choices:", 0) == 0) {
            std::istringstream is(line.substr(8));
            uint64_t x;
            while (is >> x) { v.push_back(x); }
        }
    }
    return v;
}

}  // namespace

int fuzz_one(const Config& cfg, const uint8_t* data, size_t size) {
    static std::vector<uint64_t> rec(CAP);
    static volatile uint64_t n = 0;
    n = 0;
    if (reset_hook) { reset_hook(0x1234567); }
    Case c;
    c.mode = Case::BYTES;
    c.bytes = data;
    c.nbytes = size;
    c.out = rec.data();
    c.nout = &n;
    c.cap = CAP;
    c.tier = 1;
    try {
        cfg.prop(c);
    } catch (const Reject&) {
        return -1;
    } catch (const Failure& f) {
        const char* p = getenv("PBT_FUZZ_OUT");
        if (p) {
            std::ofstream o(p);
            o << "property: " << cfg.id << "\nmessage: " << f.msg << "\nchoices:";
            for (uint64_t k = 0; k < n; ++k) { o << ' ' << rec[k]; }
            o << "\n";
        }
        fprintf(stderr, "PBT-FAIL %s\n", f.msg.c_str());
        abort();
    }
    return 0;
}

int run_main(const Config& cfg, int argc, char** argv) {
    std::string evidence, replay_dir = ".", replay;
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    int tier = read_tier();
    uint64_t cases = tier ? cfg.thorough_cases : cfg.quick_cases;
    bool bytes_replay = false;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k];
        if (a == "--evidence") { evidence = argv[++k]; }
        else if (a == "--replay-dir") { replay_dir = argv[++k]; }
        else if (a == "--replay") { replay = argv[++k]; }
        else if (a == "--bytes") { bytes_replay = true; }
        else if (a == "--cases") { cases = strtoull(argv[++k], nullptr, 10); }
        else if (a == "--seed") { seed = strtoull(argv[++k], nullptr, 10); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    double t0 = now();
    Slot* iso = shm<Slot>();

    if (!replay.empty()) {
        std::vector<uint64_t> ch;
        if (bytes_replay) {
            // A libFuzzer input: decode by running it once, keeping the recorded choices.
            std::ifstream f(replay, std::ios::binary);
            std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            pid_t pid = fork();
            if (pid == 0) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 2);
                dup2(dn, 1);
                signal(SIGPROF, on_prof);
                Case c;
                c.mode = Case::BYTES;
                c.bytes = reinterpret_cast<const uint8_t*>(b.data());
                c.nbytes = b.size();
                c.out = iso->choices;
                c.nout = &iso->nout;
                c.cap = CAP;
                c.tier = 1;
                _exit(run_case(cfg, c, iso));
            }
            int st;
            waitpid(pid, &st, 0);
            ch.assign(iso->choices, iso->choices + iso->nout);
        } else {
            ch = load_replay(replay.c_str());
        }
        std::string desc;
        std::vector<uint64_t> used;
        Outcome o = run_isolated(cfg, ch, iso, true, &used, &desc);
        for (int k = 1; k < cfg.retries && !o.kind; ++k) { o = run_isolated(cfg, ch, iso, true, &used, &desc); }
        printf("case: %s\n", desc.c_str());
        if (bytes_replay) {
            printf("choices:");
            for (auto x : ch) { printf(" %" PRIu64, x); }
            printf("\n");
        }
        if (o.kind) {
            printf("message: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), cfg.id, replay.c_str());
            return 1;
        }
        printf("replay holds\n");
        return 0;
    }

    unlink((replay_dir + "/" + cfg.id + ".replay").c_str());
    const double wall_cap = tier ? 3000 : 420;
    int W = cfg.workers;
    Slot* slots = shm<Slot>(W);
    std::vector<pid_t> pid(W);
    std::vector<std::string> err(W), lab(W);
    fflush(nullptr);
    auto spawn = [&](int w, uint64_t from) {
        fflush(nullptr);
        pid[w] = fork();
        if (pid[w] == 0) {
            int fe = open(err[w].c_str(), O_WRONLY | O_TRUNC);
            dup2(fe, 2);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            signal(SIGPROF, on_prof);
            Slot* s = &slots[w];
            std::map<std::string, uint64_t> labels;
            std::unordered_set<uint64_t> seen(s->hashes, s->hashes + s->nhash);
            for (uint64_t k = from; k < cases; k += W) {
                if (now() - t0 > wall_cap) { labels["(stopped by wall cap)"]++; break; }
                s->case_idx = k;
                s->nout = 0;
                s->msg[0] = 0;
                Case c;
                c.mode = Case::RANDOM;
                c.rng = mix(mix(seed) ^ mix(k * 2654435761ull + 17));
                c.out = s->choices;
                c.nout = &s->nout;
                c.cap = CAP;
                c.labels = &labels;
                c.tier = tier;
                c.describe = getenv("PBT_DESCRIBE") != nullptr;
                int rc = run_case(cfg, c, s);
                if (rc && c.describe) { put(s->msg, sizeof s->msg, std::string(s->msg) + " || " + c.desc.str()); }
                s->evals = s->evals + 1;
                if (rc == EX_REJECT) { s->rejects = s->rejects + 1; continue; }
                if (rc) { _exit(rc); }
                if (c.nontriv) {
                    s->nontriv = s->nontriv + 1;
                    if (s->nhash < (1u << 19) && seen.insert(c.hash).second) {
                        s->hashes[s->nhash] = c.hash;
                        s->nhash = s->nhash + 1;
                        if (s->nsample < 6) { s->sample[s->nsample] = k; s->nsample = s->nsample + 1; }
                    }
                }
            }
            std::ofstream o(lab[w], std::ios::app);
            for (auto& p : labels) { o << p.second << " " << p.first << "\n"; }
            o.close();
            _exit(0);
        }
    };
    for (int w = 0; w < W; ++w) {
        char e[] = "/tmp/pbt-err-XXXXXX", l[] = "/tmp/pbt-lab-XXXXXX";
        close(mkstemp(e));
        close(mkstemp(l));
        err[w] = e;
        lab[w] = l;
        spawn(w, w);
    }
    int bad = -1, unreproduced = 0;
    constexpr int MANY_ONCE = 5;  // so many cases failing just once are no accident
    Outcome first, o;  // the failure as it was met, and met again
    std::vector<uint64_t> ch, used;
    uint64_t ci = 0;
    std::vector<std::string> notes;
    // Does the failure a worker died of happen again?  If not, the worker goes on
    // with its next case: a check only reports what it can show, or what keeps happening.
    auto confirm = [&](int w, int st) {
        Slot* s = &slots[w];
        first = classify(st, s->msg, err[w]);
        ch.assign(s->choices, s->choices + s->nout);
        ci = s->case_idx;
        o = run_isolated(cfg, ch, iso, false, &used);
        if (!o.kind) {
            o = run_isolated(cfg, {}, iso, false, &used, nullptr, mix(mix(seed) ^ mix(ci * 2654435761ull + 17)), true);
            if (o.kind) { ch = used; }
        }
        for (int k = 0; k < 20 && !o.kind; ++k) { o = run_isolated(cfg, ch, iso, false, &used); }
        // A failure that depends on the schedule must be met several times over: the race
        // detector's bookkeeping of OpenMP loses a synchronisation once in a great while.
        int again = o.kind ? 1 : 0, need = o.kind == EX_HANG ? 1 : 3;
        for (int k = 0; k < 30 && again && again < need; ++k) {
            std::vector<uint64_t> u;
            Outcome r = run_isolated(cfg, ch, iso, false, &u);
            if (r.kind) { ++again; o = r; }
        }
        if (again && again >= need) { return true; }
        o.kind = 0;
        ++unreproduced;
        mkdir(replay_dir.c_str(), 0777);
        std::ofstream f(replay_dir + "/" + cfg.id + ".unreproduced", unreproduced > 1 ? std::ios::app : std::ios::trunc);
        f << "message: " << first.msg << "\nchoices:";
        for (auto x : ch) { f << ' ' << x; }
        f << "\n";
        notes.push_back(first.msg.substr(0, 600));
        printf("NOT-REPRODUCED property=%s case=%" PRIu64 ": %s\n", cfg.id, ci, first.msg.substr(0, 300).c_str());
        return unreproduced >= MANY_ONCE;
    };
    std::vector<uint64_t> seen_case(W, ~0ull);
    std::vector<double> since(W, now());
    std::vector<char> stuck(W, 0);
    for (int left = W; left > 0; --left) {
        int st;
        pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) == 0) {
            usleep(3000);
            for (int k = 0; k < W; ++k) {
                if (slots[k].evals != seen_case[k]) { seen_case[k] = slots[k].evals; since[k] = now(); }
                if (pid[k] && !stuck[k] && now() - since[k] > wall_limit(cfg)) { stuck[k] = 1; kill(pid[k], SIGKILL); }
            }
        }
        int w = -1;
        for (int k = 0; k < W; ++k) { if (pid[k] == p) { w = k; } }
        if (w < 0) { ++left; continue; }
        pid[w] = 0;
        if ((!WIFEXITED(st) || WEXITSTATUS(st) != 0) && bad < 0) {
            if (confirm(w, st)) {
                bad = w;
                for (int k = 0; k < W; ++k) { if (pid[k]) { kill(pid[k], SIGKILL); } }
            } else {
                stuck[w] = 0;
                since[w] = now();
                for (int k = 0; k < W; ++k) { since[k] = now(); }  // (the others were not watched meanwhile)
                spawn(w, ci + W);
                ++left;
            }
        }
    }
    // Aggregate
    uint64_t evals = 0, rejects = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    for (int w = 0; w < W; ++w) {
        evals += slots[w].evals;
        rejects += slots[w].rejects;
        nontriv += slots[w].nontriv;
        for (uint64_t k = 0; k < slots[w].nhash; ++k) { distinct.insert(slots[w].hashes[k]); }
        std::ifstream f(lab[w]);
        uint64_t n;
        std::string name;
        while (f >> n && std::getline(f, name)) { labels[name.substr(1)] += n; }
        unlink(lab[w].c_str());
    }
    std::vector<std::string> samples;
    int violations = 0, exitcode = 0;
    std::string vmsg, vpath;
    if (bad >= 0) {
        auto report = [&](const std::string& msg, const std::string& desc, const std::vector<uint64_t>& cs) {
            ++violations;
            vmsg = msg;
            mkdir(replay_dir.c_str(), 0777);
            vpath = replay_dir + "/" + cfg.id + ".replay";
            std::ofstream f(vpath);
            f << "property: " << cfg.id << "\nmessage: " << msg << "\ncase: " << desc << "\nchoices:";
            for (auto x : cs) { f << ' ' << x; }
            f << "\n";
            samples.push_back(desc);
        };
        if (o.kind) {
            std::vector<uint64_t> small = ch;
            if (o.kind != EX_HANG) { small = shrink(cfg, ch, o.kind, iso, tier ? 120 : 40); }
            for (int round = 0; round < 2 && !violations; ++round) {  // the shrunk case, else the original
                auto& cs = round ? ch : small;
                int again = 0;
                std::string desc;
                Outcome last = o;
                for (int k = 0; k < 33 && again < (o.kind == EX_HANG ? 2 : 3); ++k) {  // schedule-dependent ones need several tries
                    if (k >= 3 && o.kind == EX_HANG) { break; }
                    Outcome r = run_isolated(cfg, cs, iso, true, &used, &desc);
                    if (r.kind) { ++again; last = r; }
                }
                if (again >= 3 || (again == 2 && o.kind == EX_HANG)) { report(last.msg, desc, cs); }
            }
        }
        if (!violations && o.kind) { report(o.msg, "(met again several times, then no more: it depends on the schedule)", ch); }
        if (!violations && unreproduced >= MANY_ONCE) { report(first.msg, "(several cases failed, each only once)", ch); }
        if (!violations) {
            printf("UNREPRODUCED property=%s case=%" PRIu64 ": %s\n", cfg.id, ci, first.msg.c_str());
            exitcode = 4;  // an error of the check, never a violation
        }
    } else {
        for (int w = 0; w < W && samples.size() < 6; ++w) {
            for (uint64_t k = 0; k < slots[w].nsample && k < 1; ++k) {
                std::string desc;
                run_isolated(cfg, {}, iso, true, nullptr, &desc, mix(mix(seed) ^ mix(slots[w].sample[k] * 2654435761ull + 17)), true);
                if (desc.size() > 3000) { desc = desc.substr(0, 3000) + "..."; }
                samples.push_back(desc);
            }
        }
    }
    for (int w = 0; w < W; ++w) { unlink(err[w].c_str()); }
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\"property\": \"" << cfg.id << "\", \"tier\": \"" << (tier ? "thorough" : "quick") << "\", \"seed\": " << seed
          << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << evals
          << ", \"distinct_nontrivial\": " << distinct.size() << ", \"discarded\": " << rejects << ", \"rule\": ";
        jstr(o, cfg.rule);
        o << ", \"samples\": [";
        for (size_t k = 0; k < samples.size(); ++k) { if (k) { o << ", "; } jstr(o, samples[k]); }
        o << "], \"classes\": {";
        bool f = true;
        for (auto& p : labels) { if (!f) { o << ", "; } f = false; jstr(o, p.first); o << ": " << p.second; }
        o << "}";
        if (!notes.empty()) {
            o << ", \"not_reproduced\": [";
            for (size_t k = 0; k < notes.size(); ++k) { if (k) { o << ", "; } jstr(o, notes[k]); }
            o << "]";
        }
        o << "}, \"assumptions\": [";
        for (size_t k = 0; k < cfg.assumptions.size(); ++k) { if (k) { o << ", "; } jstr(o, cfg.assumptions[k]); }
        o << "], \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
    }
    printf("%s: %" PRIu64 " cases, %zu distinct non-trivial, %" PRIu64 " discarded, %.1f s\n", cfg.id, evals, distinct.size(), rejects, wall);
    for (auto& p : labels) { printf("  %-40s %" PRIu64 "\n", p.first.c_str(), p.second); }
    if (violations) {
        printf("message: %s\n", vmsg.c_str());
        printf("VIOLATION property=%s replay=%s\n", cfg.id, vpath.c_str());
        return 1;
    }
    return exitcode;
}

}  // namespace pbt
