// C10: extraction of connected components against union-find.
#include "pbt.hpp"
#include "connectedcomponents.hpp"
using pbt::Case;

struct Item { int pad[3]; };
using CC = lmb::ConnectedComponents<Item>;

static void prop(Case& c) {
    int n = c.coin(5) ? 0 : c.i(1, c.coin(15) ? (c.u(100) < 6 ? (c.u(100) < 4 ? 2500 : 400) : 90) : 24);
    if (n > 100) { c.label(n > 500 ? "more than 500 items" : "more than 100 items"); }
    std::vector<Item> store(n + 1);
    std::vector<int> at(n), inv(n);  // item -> place in memory, so that address order is arbitrary
    for (int k = 0; k < n; ++k) { at[k] = k; }
    c.shuffle(at);
    for (int k = 0; k < n; ++k) { inv[at[k]] = k; }
    auto ptr = [&](int k) { return &store[at[k]]; };

    std::vector<std::pair<int, int>> rel;
    int shape = n ? c.u(7) : 0;
    if (n > 1) {
        switch (shape) {
            case 0: { int m = c.i(0, 2 * n); for (int k = 0; k < m; ++k) { rel.push_back({c.u(n), c.u(n)}); } break; }
            case 1: { int m = c.i(0, n / 2); for (int k = 0; k < m; ++k) { rel.push_back({c.u(n), c.u(n)}); } break; }
            case 2: for (int k = 0; k + 1 < n; ++k) { if (c.coin(90)) { rel.push_back({k, k + 1}); } } break;   // chains
            case 3: { int h = c.i(1, 3); for (int k = h; k < n; ++k) { if (c.coin(85)) { rel.push_back({static_cast<int>(c.u(h)), k}); } } break; }  // stars
            case 4: { int b = c.i(2, 6); for (int i = 0; i < n; ++i) { for (int j = i + 1; j < n; ++j) { if (i / b == j / b) { rel.push_back({i, j}); } } } break; }  // cliques
            case 5: for (int k = 1; k < n; ++k) { if (c.coin(92)) { rel.push_back({static_cast<int>(c.u(k)), k}); } } break;  // trees
            default: for (int k = 0; k < n; ++k) { rel.push_back({k, (k + 1) % n}); } if (c.coin()) { rel.push_back({0, n / 2}); } break;  // rings
        }
    }
    // root
    std::vector<int> p(n);
    for (int k = 0; k < n; ++k) { p[k] = k; }
    std::function<int(int)> root = [&](int a) { while (p[a] != a) { a = p[a] = p[p[a]]; } return a; };
    for (auto& e : rel) { p[root(e.first)] = root(e.second); }
    if (c.describe) { c.desc << n << " items;"; for (auto& e : rel) { c.desc << " " << e.first << "-" << e.second; } }

    auto build = [&](CC& cc) {
        std::vector<std::vector<int>> adj(n);
        for (auto& e : rel) { adj[e.first].push_back(e.second); adj[e.second].push_back(e.first); }
        // registration operations: an item (with its neighbours in one or several calls)
        struct Op { int k; bool init; std::vector<int> with; };
        std::vector<Op> ops;
        for (int k = 0; k < n; ++k) {
            c.shuffle(adj[k]);
            bool named = adj[k].empty() || c.coin(60);
            if (named) { ops.push_back({k, true, {}}); }
            if (c.coin(10)) { ops.push_back({k, true, {}}); }
            size_t i = 0;
            while (i < adj[k].size()) {
                size_t m = c.coin(60) ? adj[k].size() - i : 1 + c.u(adj[k].size() - i);
                Op o{k, false, std::vector<int>(adj[k].begin() + i, adj[k].begin() + i + m)};
                if (c.coin(40)) { o.with.push_back(k); }                            // itself
                if (c.coin(15)) { o.with.push_back(adj[k][c.u(adj[k].size())]); }   // again
                ops.push_back(o);
                i += m;
            }
            if (c.coin(10)) { ops.push_back({k, false, {k}}); }
            if (c.coin(5)) { ops.push_back({k, false, {}}); }
        }
        if (c.coin(70)) { c.shuffle(ops); }
        for (auto& o : ops) {
            if (o.init) { cc.init(ptr(o.k)); continue; }
            CC::Connections l;
            for (int w : o.with) { l.push_back(ptr(w)); }
            cc.connect(ptr(o.k), l);
        }
    };
    auto extract = [&](CC& cc, CC::Connections& buf) {
        std::vector<int> group(n, -1);
        int g = 0, seen = 0, members = 0;
        while (cc.get_component(buf)) {
            c.check(!buf.empty(), "an empty group was returned");
            c.check(g < n, "more groups than items");
            for (auto q : buf) {
                const auto place = q - store.data();
                int w = place >= 0 && place < n ? inv[place] : -1;
                c.check(w >= 0, "an unknown item was returned");
                c.check(group[w] < 0, "item " + std::to_string(w) + " was returned twice");
                group[w] = g;
                ++seen;
            }
            for (auto q : buf) { (void)q; ++members; }
            ++g;
        }
        c.check(seen == n, std::to_string(n - seen) + " items were never returned");
        c.check(buf.empty(), "the end of the extraction leaves items behind");
        c.check(!cc.get_component(buf) && buf.empty(), "extraction restarts after its end");
        std::vector<int> lead(n);
        for (int a = 0; a < n; ++a) { lead[a] = root(a); }
        for (int a = 0; a < n; ++a) {
            for (int b = a + 1; b < n; ++b) {
                bool want = lead[a] == lead[b], got = group[a] == group[b];
                if (want != got) { c.fail("items " + std::to_string(a) + " and " + std::to_string(b) + (want ? " are linked but in different groups" : " share a group without being linked")); }
            }
        }
        return g;
    };
    CC one, two;
    CC::Connections buf;
    if (c.coin(20)) { buf.assign(3, &store[n]); }  // whatever was in the result before
    build(one);
    int g = extract(one, buf);
    build(two);  // other order, other repetitions
    extract(two, buf);
    if (c.coin(20)) { build(one); extract(one, buf); c.label("reused"); }
    if (g > 1 && g < n) { c.nontrivial(); }
    c.label(g == n ? "all single" : g == 1 ? "one group" : "several groups");
}

PBT_MAIN({"C10",
    "0-90 items (one case in a hundred up to 400, some up to 2500) and symmetric relations (random, chains, stars, cliques, trees, rings), registered twice in different orders with repetitions, "
    "splits and self-relations; groups compared with union-find; non-trivial: several groups, at least one with two items",
    prop, 120000, 1500000, 8, 30,
    {"relations are registered in both directions, as SILMB::cluster does"}})
