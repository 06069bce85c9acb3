// C08: the spatial index against a plain list, over histories of operations.
#include <sys/mman.h>
#include <unistd.h>
#include <cstddef>
#include <cassert>
#include <algorithm>
#include "pbt.hpp"
#ifndef __cdecl
#define __cdecl
#endif
#include "RTree.h"
using pbt::Case;

template<int D> struct Entry { uintptr_t id; double lo[D], hi[D]; };

struct Ctx { std::vector<uintptr_t> ids; size_t stop; };
static bool collect(uintptr_t id, void* p) {
    Ctx* x = static_cast<Ctx*>(p);
    x->ids.push_back(id);
    return x->ids.size() < x->stop;
}
static bool collect_ptr(void* id, void* p) { return collect(reinterpret_cast<uintptr_t>(id), p); }
static bool collect_int(int id, void* p) { return collect(static_cast<uintptr_t>(id), p); }
template<typename T> struct Cb;
template<> struct Cb<void*> { static auto f() { return &collect_ptr; } static void* to(uintptr_t i) { return reinterpret_cast<void*>(i); } static uintptr_t from(void* v) { return reinterpret_cast<uintptr_t>(v); } };
template<> struct Cb<uintptr_t> { static auto f() { return &collect; } static uintptr_t to(uintptr_t i) { return i; } static uintptr_t from(uintptr_t v) { return v; } };

template<int D> static bool meets(const Entry<D>& e, const double* lo, const double* hi) {
    for (int d = 0; d < D; ++d) { if (e.lo[d] > hi[d] || lo[d] > e.hi[d]) { return false; } }
    return true;
}
template<int D> static bool samebox(const double* al, const double* ah, const double* bl, const double* bh) {
    for (int d = 0; d < D; ++d) { if (al[d] != bl[d] || ah[d] != bh[d]) { return false; } }
    return true;
}

template<typename DATA, int D, int MX, int MN, typename EL = double>
static void run(Case& c) {
    using Tree = RTree<DATA, EL, D, double, MX, MN>;
    using E = Entry<D>;
    Tree tree, other;
    std::vector<E> model, saved;
    uintptr_t next = 1;
    int style = c.u(5);
    double span = c.pick({10.0, 90.0, 1e-3, 20000.0});
    bool grow = false;
    int maxent = 0;
    auto coord = [&]() -> double {
        switch (style) {
            case 0: return c.i(0, 8);                        // small grid: ties, touching, identical
            case 1: return static_cast<EL>(c.sym(span));
            case 2: return static_cast<EL>(58.38 + c.sym(span) * 1e-5); // target-like: clustered far from zero
            case 3: return c.i(-3, 3) * 100;
            default: return c.coin() ? static_cast<EL>(c.sym(span)) : c.i(-4, 4);
        }
    };
    auto mkbox = [&](double* lo, double* hi) {
        int kind = c.u(6);
        for (int d = 0; d < D; ++d) {
            double a = coord(), b = kind == 0 ? a : kind == 1 ? static_cast<EL>(a + (style == 2 ? 1e-5 : 1)) : coord();
            lo[d] = std::min(a, b);
            hi[d] = std::max(a, b);
            if (kind == 5 && d == 1) { lo[d] = hi[d]; }
        }
    };
    auto query = [&](const double* l, const double* h, const char* what) {
        EL lo[D], hi[D];
        for (int d = 0; d < D; ++d) { lo[d] = l[d]; hi[d] = h[d]; }
        Ctx x{{}, static_cast<size_t>(-1)};
        int n = tree.Search(lo, hi, Cb<DATA>::f(), &x);
        std::vector<uintptr_t> want;
        for (auto& e : model) { if (meets<D>(e, l, h)) { want.push_back(e.id); } }
        c.check(n == static_cast<int>(x.ids.size()), std::string(what) + ": returned count differs from callbacks");
        std::sort(want.begin(), want.end());
        std::sort(x.ids.begin(), x.ids.end());
        if (want != x.ids) {
            std::ostringstream o;
            o << what << ": search finds " << x.ids.size() << " entries, the list has " << want.size() << " of " << model.size();
            c.fail(o.str());
        }
        return want.size();
    };
    auto contents = [&](Tree& t, const std::vector<E>& m, const char* what) {
        c.check(t.Count() == static_cast<int>(m.size()), std::string(what) + ": Count() is " + std::to_string(t.Count()) + ", stored " + std::to_string(m.size()));
        std::vector<char> used(m.size(), 0);
        typename Tree::Iterator it;
        size_t n = 0;
        for (t.GetFirst(it); !t.IsNull(it); t.GetNext(it)) {
            c.check(n < m.size(), std::string(what) + ": iteration visits too many entries");
            EL lo[D], hi[D];
            it.GetBounds(lo, hi);
            uintptr_t id = Cb<DATA>::from(*it);
            c.check(Cb<DATA>::from(t.GetAt(it)) == id, "GetAt differs from the iterator");
            bool ok = false;
            for (size_t k = 0; k < m.size() && !ok; ++k) {
                if (used[k] || m[k].id != id) { continue; }
                bool same = true;
                for (int d = 0; d < D; ++d) { same = same && lo[d] == static_cast<EL>(m[k].lo[d]) && hi[d] == static_cast<EL>(m[k].hi[d]); }
                if (same) { used[k] = 1; ok = true; }
            }
            c.check(ok, std::string(what) + ": iteration visits an entry that is not stored with those bounds");
            ++n;
        }
        c.check(n == m.size(), std::string(what) + ": iteration visits " + std::to_string(n) + " of " + std::to_string(m.size()));
    };
    auto fdpath = [&](int fd) { return "/proc/self/fd/" + std::to_string(fd); };

    int ops = c.i(1, c.tier ? 400 : 160);
    int pins = c.i(35, 75);
    bool removed = false, saved_once = false;
    for (int k = 0; k < ops; ++k) {
        int op = c.u(100);
        double lo[D], hi[D];
        EL l[D], h[D];
        if (k % 64 == 40) { pins = c.i(5, 75); }  // phases of growth and shrinkage
        if (op < pins) {
            mkbox(lo, hi);
            E e;
            bool again = !model.empty() && c.coin(8);
            e.id = again ? model[c.u(model.size())].id : next++ * 16;  // an id may be stored more than once
            if (!model.empty() && c.coin(10)) { auto& o = model[c.u(model.size())]; std::copy(o.lo, o.lo + D, lo); std::copy(o.hi, o.hi + D, hi); }
            for (int d = 0; d < D; ++d) { e.lo[d] = lo[d]; e.hi[d] = hi[d]; l[d] = lo[d]; h[d] = hi[d]; }
            tree.Insert(l, h, Cb<DATA>::to(e.id));
            model.push_back(e);
            maxent = std::max<int>(maxent, model.size());
            if (c.describe) { c.desc << "ins " << e.id << " [" << lo[0] << "," << hi[0] << "]x[" << lo[1] << "," << hi[1] << "]; "; }
        } else if (op < 80) {
            if (model.empty() || c.coin(6)) {  // not stored
                mkbox(lo, hi);
                for (int d = 0; d < D; ++d) { l[d] = lo[d]; h[d] = hi[d]; }
                tree.Remove(l, h, Cb<DATA>::to(next * 16 + 8));
                contents(tree, model, "removing an absent entry");
            } else {
                size_t at = c.u(model.size());
                E e = model[at];
                for (int d = 0; d < D; ++d) { l[d] = e.lo[d]; h[d] = e.hi[d]; }
                if (c.describe) { c.desc << "rem " << e.id << "; "; }
                tree.Remove(l, h, Cb<DATA>::to(e.id));
                // Entries of the same id cannot be told apart by Remove; one of
                // those overlapping the box given must be gone.
                std::vector<size_t> cand;
                for (size_t q = 0; q < model.size(); ++q) { if (model[q].id == e.id) { cand.push_back(q); } }
                size_t gone = at;
                if (cand.size() > 1) {
                    std::vector<size_t> left;
                    typename Tree::Iterator it;
                    std::vector<char> used(model.size(), 0);
                    size_t n = 0;
                    for (tree.GetFirst(it); !tree.IsNull(it) && n <= model.size(); tree.GetNext(it), ++n) {
                        if (Cb<DATA>::from(*it) != e.id) { continue; }
                        EL bl[D], bh[D];
                        it.GetBounds(bl, bh);
                        for (size_t q : cand) {
                            bool s = !used[q];
                            for (int d = 0; d < D; ++d) { s = s && bl[d] == static_cast<EL>(model[q].lo[d]) && bh[d] == static_cast<EL>(model[q].hi[d]); }
                            if (s) { used[q] = 1; break; }
                        }
                    }
                    int missing = 0;
                    for (size_t q : cand) { if (!used[q]) { gone = q; ++missing; } }
                    c.check(missing == 1, "removal deleted " + std::to_string(missing) + " entries of that id");
                    c.label("duplicate id");
                }
                model.erase(model.begin() + gone);
                removed = true;
                if (c.coin(30)) { contents(tree, model, "after a removal"); }
            }
        } else if (op < 90) {
            size_t n;
            if (c.coin(25) && !model.empty()) {  // exactly the bounds of an entry or touching it at a corner
                auto& e = model[c.u(model.size())];
                int side = c.u(3);
                for (int d = 0; d < D; ++d) {
                    lo[d] = side == 1 ? e.hi[d] : e.lo[d];
                    hi[d] = side == 1 ? e.hi[d] + (style == 2 ? 1e-5 : 1) : side == 2 ? e.lo[d] : e.hi[d];
                    if (hi[d] < lo[d]) { hi[d] = lo[d]; }
                    lo[d] = static_cast<EL>(lo[d]); hi[d] = static_cast<EL>(hi[d]);
                }
                n = query(lo, hi, "search at an entry's edge");
                c.check(n >= 1, "search at an entry's edge misses it");
            } else {
                mkbox(lo, hi);
                for (int d = 0; d < D; ++d) { lo[d] = static_cast<EL>(lo[d]); hi[d] = static_cast<EL>(hi[d]); }
                n = query(lo, hi, "search");
            }
            if (n > 1) {  // stop early
                for (int d = 0; d < D; ++d) { l[d] = lo[d]; h[d] = hi[d]; }
                Ctx x{{}, 1 + c.u(n)};
                int f = tree.Search(l, h, Cb<DATA>::f(), &x);
                c.check(x.ids.size() == x.stop && f == static_cast<int>(x.stop), "search goes on after the callback asked it to stop");
            }
        } else if (op < 93) {
            contents(tree, model, "contents");
        } else if (op < 94) {
            if (c.coin(30)) {
                tree.RemoveAll();
                model.clear();
                contents(tree, model, "after RemoveAll");
                c.label("cleared");
            }
        } else if (op < 97) {
            int fd = memfd_create("rtree", 0);
            if (fd >= 0) {
                c.check(tree.Save(fdpath(fd).c_str()), "Save fails");
                bool wrong = c.coin(10);
                if (wrong) {  // an index of another shape refuses the file
                    RTree<DATA, EL, D, double, MX + 2, MN> t2;
                    bool ok = t2.Load(fdpath(fd).c_str());
                    close(fd);
                    c.check(!ok && t2.Count() == 0, "an incompatible file is accepted");
                } else if (c.coin()) {
                    bool ok = other.Load(fdpath(fd).c_str());
                    close(fd);
                    c.check(ok, "Load fails");
                    contents(other, model, "loaded index");
                    contents(tree, model, "saved index");
                    saved = model;
                    saved_once = true;
                } else {  // carry on with the loaded index
                    bool ok = tree.Load(fdpath(fd).c_str());
                    close(fd);
                    c.check(ok, "Load fails");
                    contents(tree, model, "index loaded over itself");
                }
                c.label("saved and loaded");
            }
        } else {
            for (int d = 0; d < D; ++d) { lo[d] = -1e5; hi[d] = 1e5; }
            query(lo, hi, "search everywhere");
        }
    }
    contents(tree, model, "final contents");
    if (saved_once) { contents(other, saved, "independent copy"); }
    double lo[D], hi[D];
    for (auto& e : model) { for (int d = 0; d < D; ++d) { lo[d] = static_cast<EL>(e.lo[d]); hi[d] = static_cast<EL>(e.hi[d]); } query(lo, hi, "final search"); }
    if (maxent > MX && removed) { c.nontrivial(); }
    c.label(maxent > MX * MX ? "three levels or more" : maxent > MX ? "two levels" : "one level");
    (void)grow;
}

static void prop(Case& c) {
    switch (c.u(5)) {
        case 0: case 1: case 2: run<void*, 2, 8, 4>(c); break;         // as the tracker uses it
        case 3: run<uintptr_t, 2, 4, 2>(c); break;
        default: run<uintptr_t, 3, 5, 2, float>(c); break;
    }
}

PBT_MAIN({"C08",
    "histories of up to 160 (thorough 400) insertions, removals of stored and absent entries, clearings, searches (boxes, touching, points, early stop), "
    "iterations and save/load round trips, in phases of growth and shrinkage, over grids with ties, degenerate and identical boxes; "
    "in the tracker's index type and two others; non-trivial: the index grew beyond one node and an entry was removed",
    prop, 60000, 600000, 8, 30,
    {"Remove is given the box the entry was stored with", "coordinates within +-30000 and not NaN", "files are those Save wrote"}})
