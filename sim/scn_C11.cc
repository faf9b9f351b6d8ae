// C11: graphs, chordal completions and elimination orders under every tie-break sequence.
#include "lib.hh"
#include "model.hh"
using namespace lib;
static std::string N(long long v) { return std::to_string(v); }
typedef std::vector<std::vector<char>> Adj;

static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; p.add("draws", {sim::draws_text(sim::draws_gen(r))});
    p.add("kind", {r.pick(std::vector<std::string>{"variable", "string", "int"})});
    int n = r.chance(1, 12) ? (int)r.below(3) : r.chance(1, 6) ? 10 + (int)r.below(20) : 3 + (int)r.below(8);
    bool big = r.chance(1, 80); if (big) n = 60 + (int)r.below(20);
    p.add("nodes", {N(n)});
    std::set<std::pair<int, int>> E; auto e = [&](int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) E.insert({a, b}); };
    switch (r.below(7)) {
    case 0: { int d = 1 + (int)r.below(big ? 2 : 15); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (r.below(16) < (unsigned)d) e(i, j); break; }
    case 1: for (int i = 0; i < n; ++i) e(i, (i + 1) % std::max(n, 1)); if (r.chance(1, 2)) e(0, n / 2); break;                    // cycle
    case 2: { int w = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) { if (i % w != w - 1) e(i, i + 1); e(i, i + w); } break; }      // grid
    case 3: for (int i = 1; i < n; ++i) { int k = (int)r.below(i); e(i, k); if (r.chance(1, 3)) e(i, (int)r.below(i)); } break;      // tree and chords
    case 4: { int k = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { std::set<int> c; int b = i ? (int)r.below(i) : 0; c.insert(b); for (int j = 0; j < b && (int)c.size() < k; ++j) { bool ok = true; for (int x : c) if (x != j && !E.count({std::min(x, j), std::max(x, j)})) ok = false; if (ok) c.insert(j); } for (int x : c) if (x < i) e(x, i); } break; }   // chordal
    case 5: { int h = n / 2; for (int i = 0; i < h; ++i) for (int j = h; j < n; ++j) if (r.below(4)) e(i, j); break; }               // bipartite
    default: for (int i = 0; i + 1 < n; i += 2) e(i, i + 1); for (int i = 0; i + 3 < n; i += 4) if (r.chance(1, 2)) e(i, i + 3);     // many components
    }
    std::vector<std::pair<int, int>> v(E.begin(), E.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    bool pre = r.chance(1, 2), fl = r.chance(1, 2);
    std::vector<std::string> es;
    if (pre) for (int i = 0; i < n; ++i) es.push_back("n" + N(i));
    for (auto& x : v) { auto q = x; if (r.chance(1, 2)) std::swap(q.first, q.second); es.push_back("e" + N(q.first) + "." + N(q.second) + (fl ? "." + N(r.chance(1, 2) ? 1 + (long)r.below(9) : 0) + "." + N((long)r.below(2)) : std::string())); if (r.chance(1, 10)) es.push_back(es.back()); }
    if (!pre) { std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); for (int i : o) es.insert(es.begin() + r.below(es.size() + 1), "n" + N(i)); }
    p.add("build", es);
    int q = 2 + (int)r.below(6);
    for (int i = 0; i < q; ++i) p.add("op", {r.pick(std::vector<std::string>{"cc", "cc2", "cc3", "peo", "game", "height", "branch", "bgraph", "diff", "again", "assoc", "dir"}), N((long)r.below(1000000))});
    return p;
}
static bool perfect(const Adj& a, const std::vector<int>& l) {       // l[0] eliminated first
    int n = (int)a.size(); std::vector<int> pos(n); for (int i = 0; i < n; ++i) pos[l[i]] = i;
    for (int i = 0; i < n; ++i) { std::vector<int> lat; for (int j = 0; j < n; ++j) if (a[l[i]][j] && pos[j] > i) lat.push_back(j); for (size_t x = 0; x < lat.size(); ++x) for (size_t y = x + 1; y < lat.size(); ++y) if (!a[lat[x]][lat[y]]) return false; }
    return true;
}
static bool chordal(const Adj& a) {                                  // by simplicial elimination
    int n = (int)a.size(); std::vector<char> dead(n, 0);
    for (int k = 0; k < n; ++k) {
        bool got = false;
        for (int i = 0; i < n && !got; ++i) { if (dead[i]) continue; bool ok = true; for (int x = 0; x < n && ok; ++x) if (a[i][x] && !dead[x]) for (int y = x + 1; y < n && ok; ++y) if (a[i][y] && !dead[y] && !a[x][y]) ok = false; if (ok) { dead[i] = 1; got = true; } }
        if (!got) return false;
    }
    return true;
}
static Adj elim(Adj a, const std::vector<int>& l) {
    int n = (int)a.size(); std::vector<char> dead(n, 0);
    for (int v : l) { for (int x = 0; x < n; ++x) if (a[v][x] && !dead[x] && x != v) for (int y = 0; y < n; ++y) if (y != x && a[v][y] && !dead[y] && y != v) a[x][y] = a[y][x] = 1; dead[v] = 1; }
    return a;
}
static long height(const Adj& a0, const std::vector<int>& l) {
    Adj a = elim(a0, l); int n = (int)a.size(); std::vector<int> pos(n), par(n, -1); for (int i = 0; i < n; ++i) pos[l[i]] = i;
    for (int v = 0; v < n; ++v) for (int i = pos[v] + 1; i < n; ++i) if (a[v][l[i]]) { par[v] = l[i]; break; }
    long best = 0; for (int v = 0; v < n; ++v) { long d = 0; for (int x = v; par[x] >= 0; x = par[x]) ++d; best = std::max(best, d); }
    return best;
}
template <class T> struct mkn;
template <> struct mkn<variable> { static variable of(int i) { return variable::get_variable("g" + N(i)); } static std::string nm(const variable& v) { return v.name(); } };
template <> struct mkn<std::string> { static std::string of(int i) { return "a node with a rather long name " + N(i); } static std::string nm(const std::string& s) { return s; } };
template <> struct mkn<int> { static int of(int i) { return 7 * i - 3; } static std::string nm(int i) { return N(i); } };

template <class T> static void run(const sim::Plan& p) {
    int n = (int)p.num("nodes", 0); if (n < 0 || n > 90) sim::invalid("nodes");
    std::vector<T> nd; for (int i = 0; i < n; ++i) nd.push_back(mkn<T>::of(i));
    std::vector<int> order; std::vector<int> ix(n, -1); Adj a(n, std::vector<char>(n, 0));     // model: node insertion order and adjacency by node number
    graph<T> G; auto touch = [&](int i) { if (ix[i] < 0) { ix[i] = (int)order.size(); order.push_back(i); } };
    sim::set_tick_limit(40000000);
    auto* b = p.find("build");
    if (b) for (auto& s : b->f) {
        if (s.empty()) continue;
        if (s[0] == 'n') { int i = (int)sim::toint(s.substr(1)); if (i < 0 || i >= n) sim::invalid("node"); { Lib l; G.add_node(nd[i]); } touch(i); }
        else { auto v = sim::split(s.substr(1), '.'); if (v.size() < 2) sim::invalid("edge"); int x = (int)sim::toint(v[0]), y = (int)sim::toint(v[1]); if (x < 0 || y < 0 || x >= n || y >= n || x == y) sim::invalid("edge");
            long at = v.size() > 2 ? (long)sim::toint(v[2]) : 0; bool al = v.size() > 3 && v[3] == "1";
            for (int again = 0; again < 2; ++again) {
                bool oom = false; if (at > 0 && !again) sim::arm((uint64_t)at, false);
                try { Lib l; if (ix[x] >= 0 && ix[y] >= 0 && (x + y) % 2) G.add_edge_index((uint64_t)ix[x], (uint64_t)ix[y]); else if (al && (ix[x] >= 0 || ix[y] >= 0)) G.add_edge(ix[x] >= 0 ? G.node(ix[x]) : nd[x], ix[y] >= 0 ? G.node(ix[y]) : nd[y]); /* end points named through the graph's own nodes */ else G.add_edge(nd[x], nd[y]); } catch (const std::bad_alloc&) { oom = true; }
                auto st = sim::disarm(); if (oom && !st.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); if (st.fired) sim::count("allocation failures"); if (!oom) break;
                if (G.mnode().size() != G.size() || G.adjacency_list().size() != G.size()) sim::fail("NODES", "a failed insertion left a graph that contradicts itself");
                for (int z : {x, y}) if (ix[z] < 0 && G.mnode().count(nd[z])) touch(z);
                if (G.size() != order.size()) sim::fail("NODES", "a failed insertion changed the nodes");
                for (size_t i = 0; i < order.size(); ++i) { auto it = G.mnode().find(nd[order[i]]); if (it == G.mnode().end() || it->second != i || !(G.node(i) == nd[order[i]])) sim::fail("NODES", "a failed insertion moved a node"); for (size_t j = 0; j < order.size(); ++j) if ((G.adjacency_list()[i].count(j) != 0) != (a[order[i]][order[j]] != 0)) sim::fail("EDGES", "a failed insertion changed the edges"); }
            }
            touch(x); touch(y); a[x][y] = a[y][x] = 1; }
    }
    for (int i = 0; i < n; ++i) if (ix[i] < 0) { { Lib l; G.add_node(nd[i]); } touch(i); }
    // graph over node numbers, checked through every accessor
    auto same = [&](const graph<T>& g, const Adj& m, const char* what) {
        if ((int)g.size() != n || (int)g.mnode().size() != n || (int)g.adjacency_list().size() != n) sim::fail("NODES", std::string(what) + ": wrong number of nodes");
        for (int i = 0; i < n; ++i) {
            auto it = g.mnode().find(nd[i]);
            if (it == g.mnode().end() || (int)it->second != ix[i] || g.node(ix[i]) != nd[i]) sim::fail("NODES", std::string(what) + ": node " + mkn<T>::nm(nd[i]) + " is not where it was added");
            for (int j = 0; j < n; ++j) { bool e; { Lib l; e = g.is_edge(nd[i], nd[j]); } if (e != (m[i][j] != 0) || e != (g.adjacency_list()[ix[i]].count(ix[j]) != 0)) sim::fail("EDGES", std::string(what) + ": edge " + N(i) + "-" + N(j) + " is " + (e ? "present" : "missing")); }
        }
    };
    auto back = [&](const graph<T>& g) { Adj m(n, std::vector<char>(n, 0)); if ((int)g.size() != n) sim::fail("NODES", "wrong number of nodes"); for (int i = 0; i < n; ++i) for (auto j : g.adjacency_list()[ix[i]]) { if ((int)j >= n) sim::fail("EDGES", "edge to nowhere"); m[i][order[j]] = 1; } for (int i = 0; i < n; ++i) { if (m[i][i]) sim::fail("EDGES", "loop"); for (int j = 0; j < n; ++j) if (m[i][j] != m[j][i]) sim::fail("EDGES", "not symmetric"); } return m; };
    auto ser = [&](const Adj& m) { std::string s; for (auto& r : m) for (char c : r) s += c ? '1' : '0'; return s; };
    auto perm = [&](const std::vector<T>& l, const char* what) { std::vector<int> o; std::set<int> seen; for (auto& x : l) { int k = -1; for (int i = 0; i < n; ++i) if (nd[i] == x) k = i; if (k < 0 || !seen.insert(k).second) sim::fail("PERM", std::string(what) + ": the order is not a permutation of the nodes"); o.push_back(k); } if ((int)o.size() != n) sim::fail("PERM", std::string(what) + ": the order misses nodes"); return o; };
    same(G, a, "after building"); bool ch = chordal(a);
    auto completion = [&](const graph<T>& g, const char* what) {
        Adj m = back(g); same(g, m, what);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (a[i][j] && !m[i][j]) sim::fail("SUPERGRAPH", std::string(what) + " lost an edge");
        if (!chordal(m)) sim::fail("CHORDAL", std::string(what) + " is not chordal: " + ser(a) + " gave " + ser(m));
        if (ch && m != a) sim::fail("FILL", std::string(what) + " added an edge to a chordal graph");
        if (n <= 12) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (m[i][j] && !a[i][j]) { Adj z = m; z[i][j] = z[j][i] = 0; if (chordal(z)) sim::fail("MINIMAL", std::string(what) + " has a removable fill edge: " + ser(a) + " gave " + ser(m)); }
        return m;
    };
    for (auto& ln : p.lines) {
        if (ln.key != "op" || ln.f.size() < 2) continue;
        const std::string& k = ln.f[0]; sim::Rng q((uint64_t)sim::toint(ln.f[1])); sim::set_phase("graph call " + k); sim::count("call " + k); sim::set_tick_limit(40000000);
        std::vector<int> lo; for (int i = 0; i < n; ++i) lo.push_back(i); for (size_t i = lo.size(); i > 1; --i) std::swap(lo[i - 1], lo[q.below(i)]);
        std::vector<T> lv; for (int i : lo) lv.push_back(nd[i]);
        if (k == "cc") { graph<T> g; { Lib l; g = chordal_completion(G); } sim::log(ser(completion(g, "completion"))); }
        else if (k == "cc2") { graph<T> g; std::vector<T> l; { Lib b2; l = chordal_completion(g, G); } Adj m = completion(g, "completion"); auto o = perm(l, "completion"); if (!perfect(m, o)) sim::fail("ORDER", "the order returned with the completion is not perfect for it"); if (elim(a, o) != m && false) {} sim::log(ser(m)); }
        else if (k == "cc3") { graph<T> g; std::vector<uint64_t> l; if (q.chance(1, 3)) l.assign(q.below(9), 5); { Lib b2; chordal_completion(g, G, l); } Adj m = completion(g, "completion"); std::vector<T> lt; for (auto i : l) { if ((int)i >= n) sim::fail("PERM", "the order has an index out of range"); lt.push_back(g.node(i)); } auto o = perm(lt, "completion"); if (!perfect(m, o)) sim::fail("ORDER", "the index order returned with the completion is not perfect for it"); sim::log(ser(m)); }
        else if (k == "peo") { graph<T> g; std::vector<T> l; bool own = q.chance(1, 2) && ch; { Lib b2; if (own) g = G; else g = chordal_completion(G); l = perfect_elimination_ordering(g); } auto o = perm(l, "perfect_elimination_ordering"); if (!perfect(back(g), o)) sim::fail("ORDER", "perfect_elimination_ordering of a chordal graph is not perfect"); }
        else if (k == "dir") { graph<T> g; { Lib b2; for (int i = 0; i < n; ++i) g.add_node(nd[order[i]]); } Adj m(n, std::vector<char>(n, 0)); for (int i = 0; i < 2 * n; ++i) { int x = (int)q.below(n), y = (int)q.below(n); if (x == y) continue; { Lib b2; if (q.chance(1, 2)) g.add_edge(nd[x], nd[y], true); else g.add_edge_index((uint64_t)ix[x], (uint64_t)ix[y], true); } m[x][y] = 1; } same(g, m, "one-way edges"); }
        else if (k == "game") { graph<T> g; if (q.chance(1, 3) && n) { size_t c = q.below(n); lo.resize(c); lv.resize(c); } { Lib b2; g = elimination_game(G, lv); } Adj m = back(g); if (m != elim(a, lo)) sim::fail("ELIM", "elimination_game differs from the definition"); same(g, m, "elimination_game"); }
        else if (k == "height") { uint64_t h; { Lib b2; h = elimination_height(G, lv); } if ((long)h != height(a, lo)) sim::fail("HEIGHT", "elimination_height is " + N((long)h) + ", elimination tree has " + N(height(a, lo))); }
        else if (k == "branch") {
            std::vector<std::vector<T>> c; { Lib b2; c = connected_branch(G); } std::vector<int> comp(n, -1); int cc = 0; for (int i = 0; i < n; ++i) if (comp[i] < 0) { std::vector<int> st{i}; comp[i] = cc; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int j = 0; j < n; ++j) if (a[x][j] && comp[j] < 0) { comp[j] = cc; st.push_back(j); } } ++cc; }
            if ((int)c.size() != cc) sim::fail("BRANCH", N((long)c.size()) + " branches instead of " + N(cc)); std::set<int> seen;
            for (auto& x : c) { std::set<int> in; int id = -1; for (auto& t : x) { int v = -1; for (int i = 0; i < n; ++i) if (nd[i] == t) v = i; if (v < 0 || !seen.insert(v).second) sim::fail("BRANCH", "a node is in two branches"); if (id >= 0 && comp[v] != id) sim::fail("BRANCH", "a branch mixes components"); id = comp[v]; } if (x.empty()) sim::fail("BRANCH", "an isolated node's branch is empty"); }
            if ((int)seen.size() != n) sim::fail("BRANCH", "a node is in no branch");
        }
        else if (k == "bgraph") { graph<T> g; { Lib b2; g = connected_branch_graph(G); } Adj m = back(g), w(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) { std::vector<char> v(n, 0); std::vector<int> st{i}; v[i] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int j = 0; j < n; ++j) if (a[x][j] && !v[j]) { v[j] = 1; st.push_back(j); } } for (int j = 0; j < n; ++j) if (v[j] && j != i) w[i][j] = 1; } if (m != w) sim::fail("BGRAPH", "connected_branch_graph is not the union of complete components"); }
        else if (k == "diff") {
            graph<T> g; Adj m(n + 3, std::vector<char>(n + 3, 0)); std::vector<T> n2 = nd; for (int i = n; i < n + 3; ++i) n2.push_back(mkn<T>::of(i)); std::vector<char> in(n + 3, 0);
            { Lib b2; for (int i = n + 2; i >= 0; --i) if (q.chance(4, 5)) { in[i] = 1; g.add_node(n2[i]); } for (int i = 0; i < n + 3; ++i) for (int j = 0; j < i; ++j) if (in[i] && in[j] && ((i < n && a[i][j] && q.chance(2, 3)) || q.chance(1, 6))) { m[i][j] = m[j][i] = 1; g.add_edge(n2[i], n2[j]); } }
            double s; { Lib b2; s = graph_diff_score(G, g); } long c = 0, u = 0; for (int i = 0; i < n + 3; ++i) for (int j = 0; j < n + 3; ++j) { bool x = i < n && j < n && a[i][j], y = m[i][j]; c += x && y; u += x || y; }
            double want = u ? 1 - (double)c / (double)u : 0; if (!(s >= want - 1e-12 && s <= want + 1e-12)) sim::fail("DIFF", "graph_diff_score is " + std::to_string(s) + " instead of " + std::to_string(want) + " (" + N(c) + " common of " + N(u) + ")");
        }
        else if (k == "again") { graph<T> c; { Lib b2; c = G; for (int i : lo) c.add_node(nd[i]); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (a[i][j]) c.add_edge(nd[j], nd[i]); } same(c, a, "copy after repeated insertions"); }
        else if (k == "assoc") {
            std::vector<polynomial_ZZ> F; int np = 1 + (int)q.below(4); std::vector<model::MP> M; for (int i = 0; i < np; ++i) { auto mp = model::random_poly(q, 1 + (int)q.below(5), 3, 1 + (int)q.below(4), 9); if (q.chance(1, 2)) { model::MP z; for (auto& x : mp.t) { model::Mono e{}; int s = (int)q.below(3); for (int v = 0; v + s < 6; ++v) e[v + s] = x.first[v]; z.t[e] = x.second; } mp = z; } M.push_back(mp); F.push_back(poly<polynomial_ZZ>(model::text(mp))); }
            graph<variable> g; std::vector<variable> po; { Lib b2; g = associatedgraph(F); po = peo(F); }
            std::set<int> vs; for (int v = 0; v < 6; ++v) { bool u = false; for (auto& mp : M) u = u || model::uses(mp, v); if (u) vs.insert(v); if (u != (g.mnode().count(vars()[v]) != 0)) sim::fail("ASSOC", "associatedgraph has the wrong variables"); }
            if (g.size() != vs.size()) sim::fail("ASSOC", "associatedgraph has extra nodes");
            for (int v : vs) for (int w : vs) { bool e = false; for (auto& mp : M) e = e || (v != w && model::uses(mp, v) && model::uses(mp, w)); if (e != g.is_edge(vars()[v], vars()[w])) sim::fail("ASSOC", "associatedgraph has a wrong edge"); }
            std::set<int> seen; for (auto& v : po) if (!vs.count(vindex(v)) || !seen.insert(vindex(v)).second) sim::fail("PERM", "peo is not a permutation of the variables"); if (seen.size() != vs.size()) sim::fail("PERM", "peo misses variables");
            std::map<int, int> at; std::vector<int> el; for (auto& v : po) { int k = (int)at.size(); at[vindex(v)] = k; el.push_back(k); } int nv = (int)el.size(); Adj pa(nv, std::vector<char>(nv, 0)); for (auto& mp : M) for (auto& x : at) for (auto& y : at) if (x.first != y.first && model::uses(mp, x.first) && model::uses(mp, y.first)) pa[x.second][y.second] = 1;
            Adj pf = elim(pa, el); std::string os; for (auto& v : po) os += " " + v.name(); std::string ms; for (auto& mp : M) ms += model::text(mp) + "; "; if (chordal(pa) && pf != pa) sim::fail("FILL", "peo of polynomials with a chordal graph is not perfect:" + os + " for " + ms);
            for (int i = 0; i < nv; ++i) for (int j = 0; j < i; ++j) if (pf[i][j] && !pa[i][j]) { Adj z = pf; z[i][j] = z[j][i] = 0; if (chordal(z)) sim::fail("MINIMAL", "peo gives a removable fill edge:" + os + " for " + ms); }
            for (int v : vs) { size_t d; { Lib b2; d = DFV(g, vars()[v]); } std::map<int, size_t> ds; std::vector<int> st{v}; ds[v] = 0; size_t far = 0; for (size_t h = 0; h < st.size(); ++h) for (int x : vs) if (!ds.count(x) && pa[at[st[h]]][at[x]]) { ds[x] = ds[st[h]] + 1; far = std::max(far, ds[x]); st.push_back(x); } if (d != far) sim::fail("DISTANCE", "DFV of " + vars()[v].name() + " is " + N((long)d) + " instead of " + N((long)far) + " for " + ms); }
        }
        same(G, a, ("input graph after " + k).c_str());
    }
    sim::check_heap("after the calls");
    sim::count("random words", sim::draws_used()); sim::count("adversarial words", sim::draws_adversarial());
    if (sim::draws_used() > 0) sim::nontrivial();
    sim::sample(p.text().substr(0, 300));
}
static void exec(const sim::Plan& p) {
    init_vars(); for (int i = 0; i < 44; ++i) variable::get_variable("g" + N(i));
    sim::draws_begin(sim::draws_parse(p.knob("draws", "1")));
    auto k = p.knob("kind", "variable");
    if (k == "string") run<std::string>(p); else if (k == "int") run<int>(p); else run<variable>(p);
}
const sim::Scenario sim::scenario = {"C11", gen, exec, 40000000ull, 30};
