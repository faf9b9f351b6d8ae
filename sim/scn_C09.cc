// C09: real roots denote the same number through any history of comparisons, copies and interrupted calls.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP; using model::UP;
static std::string N(long long v) { return std::to_string(v); }
static MP X(int e = 1) { return model::var(0, e); }
static MP C(const mpq_class& c) { return model::cst(c); }
static mpq_class rat(sim::Rng& r) { static const long d[] = {1, 1, 1, 2, 2, 4, 3, 8, 5, 1024, 7}; mpq_class q((long)r.range(-20, 20), d[r.below(11)]); q.canonicalize(); return q; }
static MP lin(const mpq_class& q) { return model::sub(model::scale(X(), mpq_class(q.get_den())), C(mpq_class(q.get_num()))); }
static MP rootpoly(sim::Rng& r) {
    switch (r.below(13)) {
    case 0: case 1: return lin(rat(r));
    case 12: { MP p = C(1); int n = 2 + (int)r.below(3); for (int i = 0; i < n; ++i) { mpq_class q(1); long e = (long)r.range(-3, 4); if (e >= 0) q = mpq_class(1l << e); else q = mpq_class(1, 1ul << -e); if (r.chance(1, 2)) q = -q; p = model::mul(p, lin(q)); } if (r.chance(1, 2)) p = model::mul(p, model::sub(X(2), C((long)r.range(2, 20)))); return p; }   // roots on the bisection points
    case 2: return model::sub(X(2), C((long)r.range(-3, 30)));                                   // +-sqrt
    case 3: { long n = (long)r.range(2, 9); return model::sub(X(n % 2 ? 3 : 4), C((long)r.range(1, 40))); }
    case 4: { mpq_class a = rat(r), e(1, 1ul << (1 + r.below(50))); return model::mul(lin(a), lin(a + e)); }   // nearly equal
    case 5: { long a = (long)r.range(3, 60); int n = 3 + (int)r.below(4); MP l = model::sub(model::scale(X(), a), C(1)); return model::sub(X(n), model::scale(model::mul(l, l), 2)); }   // Mignotte: two very close roots
    case 6: { MP a = C(1), b = X(); int n = 2 + (int)r.below(6); for (int i = 1; i < n; ++i) { MP c = model::sub(model::scale(model::mul(X(), b), 2), a); a = b; b = c; } return b; }   // Chebyshev
    case 7: return model::add(X(2 * (1 + (int)r.below(3))), C((long)r.range(1, 9)));             // no real root
    case 8: { MP p; int d = 1 + (int)r.below(6); for (int i = 0; i <= d; ++i) p = model::add(p, model::scale(X(i), mpq_class((long)r.range(-9, 9)))); return model::add(p, X(d + 1)); }
    case 9: { mpq_class q = rat(r); MP s = model::sub(X(2), C(2)), o; for (auto& t : s.t) o = model::add(o, model::scale(model::pow(model::sub(X(), C(q)), (unsigned)t.first[0]), t.second)); return model::primitive(o); }   // q +- sqrt 2
    case 10: return model::add(model::scale(X(1 + (int)r.below(3)), mpq_class(gens::bigint(r, 40 + (int)r.below(80)))), C(mpq_class(gens::bigint(r, 40 + (int)r.below(100)))));
    default: return X();
    }
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; std::vector<MP> pool; int np = 2 + (int)r.below(4); for (int i = 0; i < np; ++i) pool.push_back(model::primitive(rootpoly(r)));
    if (r.chance(1, 3)) pool.push_back(model::primitive(model::add(pool[0], C(r.chance(1, 2) ? 1 : -1))));   // shifted copy: roots close to the first one's
    int ng = 1 + (int)r.below(3);
    for (int g = 0; g < ng; ++g) {
        int n = 1 + (int)r.below(3); std::vector<std::string> l;
        for (int i = 0; i < n; ++i) { MP m = C((long)r.range(1, r.chance(1, 2) ? 1 : 6)); if (r.chance(1, 3)) m = model::neg(m); int b = n > 1 ? 7 : 12; for (auto& q : pool) { if (!r.chance(1, 2)) continue; int e = 1 + (int)r.below(r.chance(1, 4) ? 3 : 1); while (e > 0 && e * model::tdeg(q) > b) --e; b -= e * model::tdeg(q); m = model::mul(m, model::pow(q, (unsigned)e)); } if (r.chance(1, 60)) m = MP(); l.push_back(model::text(m)); }
        p.add("polys", l);
    }
    p.add("kind", {r.pick(std::vector<std::string>{"lex", "grlex", "custom"})});
    int n = 2 + (int)r.below(r.chance(1, 4) ? 60 : 16); bool faults = r.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        std::string a = N((long)r.below(1000)), b = N((long)r.below(1000)), at = faults && r.chance(1, 2) ? N(1 + (long)r.below(r.chance(1, 2) ? 8 : 80)) : "0", st = N((long)r.below(2));
        switch (r.below(13)) {
        case 12: p.add("make", {a, N((long)r.below(12)), at, st}); break;
        case 0: case 1: case 2: case 3: p.add("cmp", {a, b, N((long)r.below(8)), at, st}); break;
        case 4: case 5: { std::string q = r.pick(std::vector<std::string>{"left", "right", "mid", "third", "exact", "left2", "x"}); if (q == "x") q = rat(r).get_str(); p.add("cmpq", {a, q, N((long)r.below(14)), at, st, b}); break; }
        case 6: case 7: p.add("shrink", {a, N(1 + (long)r.below(6)), at, st}); break;
        case 8: p.add("copy", {a, at, st}); break;
        case 9: p.add("assign", {a, b, at, st, N((long)r.below(2))}); break;
        case 10: p.add("swap", {a, b}); break;
        default: p.add(r.chance(1, 3) ? "sort" : r.chance(1, 2) ? "sortp" : "inf", {a, at, st}); break;
        }
    }
    return p;
}
static mpq_class Q(const QQ& q) { return mpq_class(str(q)); }
static QQ LQ(const mpq_class& q) { return mk<QQ>::of(q.get_str()); }
struct Slot { uroot r; int id; };     // id: index into the global roots; -1 below all, G.size() above all
static std::vector<std::pair<mpq_class, mpq_class>> G; static std::unique_ptr<model::Sturm> S; static UP U;
static mpq_class bound(const UP& u) { mpq_class b = 0; for (auto& c : u) { mpq_class a = abs(c / u.back()); if (a > b) b = a; } return b + 2; }
static void isolate() {
    G.clear(); if (U.size() < 2) return; S.reset(new model::Sturm(U)); mpq_class b = bound(U); std::vector<std::pair<mpq_class, mpq_class>> st{{-b, b}};
    while (!st.empty()) { auto iv = st.back(); st.pop_back(); int n = S->roots(iv.first, iv.second); if (!n) continue; if (n == 1) { G.push_back(iv); continue; } mpq_class m = (iv.first + iv.second) / 2; st.push_back({m, iv.second}); st.push_back({iv.first, m}); }
    std::sort(G.begin(), G.end());
}
// sign of (root id - q)
static int side(int id, const mpq_class& q) {
    if (id < 0) return -1; if (id >= (int)G.size()) return 1; auto& g = G[id];
    if (q <= g.first) return 1; if (q > g.second) return -1; if (S->roots(g.first, q) == 0) return 1; return model::usgn(S->s[0], q) == 0 ? 0 : -1;
}
static void refine(int id, int n) { auto& g = G[id]; for (int i = 0; i < n; ++i) { mpq_class m = (g.first + g.second) / 2; if (S->roots(g.first, m)) g.second = m; else g.first = m; } }
static std::string show(const uroot& u) { if (u.isinf()) return "inf"; if (u.isneginf()) return "-inf"; return "(" + str(u.left()) + "," + str(u.right()) + ";" + text(u.poly()) + ")"; }
struct Known { UP f; std::unique_ptr<model::Sturm> sf, sg; }; static std::map<std::string, Known> cache;
// the representation still isolates the same number
static void rep(const Slot& s, const std::string& when) {
    sim::Host h; const uroot& u = s.r; std::string w = when + ": root " + N(s.id) + " stored as " + show(u);
    if (s.id < 0 || s.id >= (int)G.size()) { if (s.id < 0 ? !u.isneginf() : !u.isinf()) sim::fail("INF", w); return; }
    if (u.isinf() || u.isneginf()) sim::fail("INF", w); mpq_class l = Q(u.left()), r = Q(u.right()); if (l > r) sim::fail("INTERVAL", w + ": interval is reversed");
    if (side(s.id, l) < 0 || side(s.id, r) > 0) sim::fail("VALUE", w + ": the interval no longer contains the number");
    if (l == r && side(s.id, l) != 0) sim::fail("VALUE", w + ": the point is not the number");
    std::string key = text(u.poly()); auto it = cache.find(key); if (it == cache.end()) { Known k; k.f = model::up(model::parse(key), 0); if (k.f.size() > 1) { k.sf.reset(new model::Sturm(k.f)); UP g = model::ugcd(k.f, S->s[0]); if (g.size() > 1) k.sg.reset(new model::Sturm(g)); } it = cache.emplace(key, std::move(k)).first; }
    const UP& f = it->second.f; if (f.size() < 2) { if (l != r) sim::fail("VALUE", w + ": the polynomial is constant"); return; }
    // the defining polynomial vanishes there
    int k = 0; if (it->second.sg) { auto& iv = G[s.id]; k = it->second.sg->roots(iv.first, iv.second); } if (k != 1) sim::fail("VALUE", w + ": the polynomial does not vanish at the number");
    if (l != r) { int c = it->second.sf->roots(l, r); if (model::usgn(f, r) == 0 && side(s.id, r) != 0) --c; if (c != 1) sim::fail("ISOLATE", w + ": the interval holds " + N(c) + " roots of the polynomial"); }
}
static int cmpid(int a, int b) { return a < b ? 1 : a > b ? -1 : 0; }
static const char* const OPN[] = {"comp", "==", "<", ">", "<=", ">=", "!=", "comp"};
static bool truth(int op, int c) { switch (op) { case 1: return c == 0; case 2: return c == 1; case 3: return c == -1; case 4: return c >= 0; case 5: return c <= 0; default: return c != 0; } }
static uint64_t n_faults, n_cmp;
static int apply(int op, uroot& a, uroot& b) { switch (op) { case 1: return a == b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; case 5: return a >= b; case 6: return a != b; default: return uroot::comp(&a, &b); } }
static int applyq(int op, uroot& a, const QQ& q) { switch (op) { case 1: return a == q; case 2: return a < q; case 3: return a > q; case 4: return a <= q; case 5: return a >= q; case 6: return a != q; case 8: return q == a; case 9: return q < a; case 10: return q > a; case 11: return q <= a; case 12: return q >= a; case 13: return q != a; default: return uroot::comp(&a, q); } }
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {   // true: ended by bad_alloc
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); if (!out && s.fired && false) sim::count("absorbed");
    return out;
}
template <class P> static void build(const std::vector<MP>& F, P proto, std::vector<Slot>& slots, int gi) {
    std::vector<P> A; for (auto& m : F) { P a(proto.comp_ptr()); load(a, model::text(m)); A.push_back(a); }
    std::pair<std::vector<uroot>, std::vector<std::vector<std::pair<uint64_t, uint64_t>>>> R; { Lib l; R = realroot(A); }
    std::string w = "roots of list " + N(gi); UP prod{1}; std::vector<UP> fs; std::vector<int> want;
    MP all = C(1); for (auto& m : F) if (!m.zero()) all = model::mul(all, m); UP au = model::up(all, 0);
    if (au.size() > 1) { UP g = model::ugcd(au, S->s[0]); model::Sturm t(g); for (int i = 0; i < (int)G.size(); ++i) if (t.roots(G[i].first, G[i].second)) want.push_back(i); }
    if (R.first.size() != want.size() || R.second.size() != want.size()) { std::string s; for (auto& u : R.first) s += " " + show(u); sim::fail("COUNT", w + ": " + N((long)R.first.size()) + " roots found, there are " + N((long)want.size()) + ":" + s); }
    for (size_t i = 0; i < want.size(); ++i) {
        Slot s{R.first[i], want[i]}; rep(s, w + ", isolation"); std::map<long, long> mult, got; for (auto& x : R.second[i]) { if (got.count((long)x.first)) sim::fail("MULT", w + ": polynomial listed twice for a root"); got[(long)x.first] = (long)x.second; }
        for (size_t k = 0; k < F.size(); ++k) { if (F[k].zero()) continue; UP d = model::up(F[k], 0); long m = 0; for (;;) { if (d.size() < 2) break; UP g = model::ugcd(d, S->s[0]); if (g.size() < 2) break; model::Sturm t(g); if (!t.roots(G[want[i]].first, G[want[i]].second)) break; ++m; d = model::uderiv(d); } if (m) mult[(long)k] = m; }
        if (mult != got) { std::string a, b; for (auto& x : mult) a += N(x.first) + ":" + N(x.second) + " "; for (auto& x : got) b += N(x.first) + ":" + N(x.second) + " "; sim::fail("MULT", w + ": multiplicities of root " + show(R.first[i]) + " are " + b + "expected " + a); }
        slots.push_back(std::move(s));
    }
    sim::count("roots isolated", want.size());
    // direct isolation of a list of pairwise coprime squarefree polynomials, constants among them
    if (au.size() > 1) {
        std::vector<UP> L; std::vector<upolynomial_ZZ> V; UP r; for (size_t k = 0; k < F.size(); ++k) { if (F[k].zero()) continue; UP d = model::up(F[k], 0); if (d.size() > 1) { UP g = model::ugcd(d, model::uderiv(d)); d = model::udiv(d, g, r); for (auto& q : L) { UP g2 = model::ugcd(d, q); if (g2.size() > 1) d = model::udiv(d, g2, r); } } if (d.size() > 1) L.push_back(d); MP m; for (size_t i = 0; i < d.size(); ++i) m = model::add(m, model::scale(X((int)i), d[i])); V.push_back(upoly<ZZ>(model::text(model::primitive(m)))); }
        std::vector<UP> W; for (auto& v : V) W.push_back(model::up(model::parse(text(v)), 0)); std::pair<std::vector<std::pair<QQ, QQ>>, std::vector<size_t>> R2; { Lib l; R2 = uspensky(V); } std::string s; for (auto& x : R2.first) s += " [" + str(x.first) + "," + str(x.second) + "]";
        if (R2.first.size() != want.size() || R2.second.size() != want.size()) sim::fail("COUNT", w + ": uspensky finds " + N((long)R2.first.size()) + " of " + N((long)want.size()) + " roots of the coprime parts:" + s);
        for (size_t i = 0; i < want.size(); ++i) { size_t k = R2.second[i]; if (side(want[i], Q(R2.first[i].first)) < 0 || side(want[i], Q(R2.first[i].second)) > 0) sim::fail("VALUE", w + ": uspensky interval " + N((long)i) + " misses its root:" + s); UP g; if (k < W.size() && W[k].size() > 1) g = model::ugcd(W[k], S->s[0]); if (g.size() < 2 || !model::Sturm(g).roots(G[want[i]].first, G[want[i]].second)) sim::fail("VALUE", w + ": uspensky gives root " + N((long)i) + " to polynomial " + N((long)k) + " of the list, which does not vanish there"); }
        for (auto& v : V) { ZZ B; { Lib l; B = RealRootBound(v); } mpq_class b(str(B)); UP g = model::ugcd(model::up(model::parse(text(v)), 0), S->s[0]); if (g.size() > 1) { model::Sturm t(g); for (int i = 0; i < (int)G.size(); ++i) if (t.roots(G[i].first, G[i].second) && (side(i, b) >= 0 || side(i, -b) <= 0)) sim::fail("BOUND", w + ": root " + N(i) + " of " + text(v) + " is outside the bound " + str(B)); } }
    }
    // direct isolation of one squarefree polynomial
    if (au.size() > 1) { MP sq; { UP g = model::ugcd(au, model::uderiv(au)), r; UP q = model::udiv(au, g, r); for (size_t i = 0; i < q.size(); ++i) sq = model::add(sq, model::scale(X((int)i), q[i])); } auto u = upoly<ZZ>(model::text(model::primitive(sq)));
        std::vector<std::pair<QQ, QQ>> L; { Lib l; L = uspensky(u); } std::string s; for (auto& x : L) s += " [" + str(x.first) + "," + str(x.second) + "]";
        if (L.size() != want.size()) sim::fail("COUNT", w + ": uspensky finds " + N((long)L.size()) + " of " + N((long)want.size()) + " roots:" + s);
        for (size_t i = 0; i < want.size(); ++i) if (side(want[i], Q(L[i].first)) < 0 || side(want[i], Q(L[i].second)) > 0) sim::fail("VALUE", w + ": uspensky interval " + N((long)i) + " misses its root:" + s); }
}
static void exec(const sim::Plan& p) {
    init_vars(); cache.clear(); n_faults = n_cmp = 0; std::vector<std::vector<MP>> lists; MP all = C(1);
    for (auto& l : p.lines) if (l.key == "polys") { std::vector<MP> F; for (auto& t : l.f) { MP m = model::parse(t); if (!model::integral(m)) sim::invalid("not integral"); for (int i = 1; i < model::NV; ++i) if (model::uses(m, i)) sim::invalid("not univariate"); F.push_back(m); if (!m.zero()) { UP a = model::up(all, 0), b = model::up(m, 0); all = model::mul(all, m); } } lists.push_back(F); }
    if (lists.empty() || lists.size() > 4 || model::tdeg(all) > 60) sim::invalid("lists");
    { UP a = model::up(all, 0), r; if (a.size() > 1) { UP g = model::ugcd(a, model::uderiv(a)); U = model::udiv(a, g, r); if (U.size() > 26) sim::invalid("degree"); } else U = a; } isolate();
    sim::set_tick_limit(3000000000ull); sim::set_phase("isolation"); std::string kind = p.knob("kind", "lex"); std::vector<Slot> sl; int gi = 0;
    if (G.empty()) { S.reset(); if (U.size() > 1) S.reset(new model::Sturm(U)); }
    for (auto& F : lists) { if (kind == "grlex") build(F, polynomial_ZZ(), sl, gi); else if (kind == "custom") { lex_<custom_var_order> c(custom_var_order({vars()[1], vars()[0]})); build(F, polynomial_<ZZ, lex_<custom_var_order>>(&c), sl, gi); } else build(F, polynomial_<ZZ, lex>(), sl, gi); ++gi; }
    uint64_t steps = 0; if (sl.empty()) { sim::count("runs without a root"); return; }
    for (auto& l : p.lines) {
        auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; if (l.key == "polys" || l.key == "kind") continue;
        if (steps > 200) break; ++steps; size_t i = (size_t)std::labs((long)sim::toint(A(0))) % sl.size(); std::string w = "step " + N((long)steps) + " " + l.key; for (auto& f : l.f) w += " " + f; sim::set_phase(w);
        if (l.key == "cmp") {
            size_t j = (size_t)std::labs((long)sim::toint(A(1))) % sl.size(); int op = (int)(std::labs((long)sim::toint(A(2))) % 8), c = 0, want = cmpid(sl[i].id, sl[j].id); std::string before = show(sl[i].r) + " and " + show(sl[j].r);
            bool oom = faulted(A(3), A(4), [&] { c = apply(op, sl[i].r, sl[j].r); }); ++n_cmp;
            if (!oom) { sim::log(w + " -> " + N(c)); bool ok = op == 0 || op == 7 ? c == want : (bool)c == truth(op, want); if (!ok) sim::fail("ORDER", w + ": roots " + N(sl[i].id) + " and " + N(sl[j].id) + ", stored as " + before + ", compare " + OPN[op] + " as " + N(c)); } else sim::count("interrupted comparisons");
            rep(sl[i], w); rep(sl[j], w);
        } else if (l.key == "cmpq") {
            std::string q = A(1); mpq_class v; const uroot& u = sl[i].r; bool fin = !u.isinf() && !u.isneginf(); mpq_class L = fin ? Q(u.left()) : mpq_class(0), R = fin ? Q(u.right()) : mpq_class(1);
            if (q == "left") v = L; else if (q == "right") v = R; else if (q == "mid") v = (L + R) / 2; else if (q == "third") v = (L + L + R) / 3; else if (q == "left2") v = L - 1; else if (q == "exact") { int id = sl[i].id; v = 0; if (id >= 0 && id < (int)G.size()) { refine(id, 8); auto g = G[id]; v = g.second; mpz_class d = 1; for (; d <= 1024; d = d == 1 ? mpz_class(2) : d == 2 ? mpz_class(3) : d + 1) { mpq_class t = g.second * d; mpz_class f = t.get_num() / t.get_den(); mpq_class c(f, d); c.canonicalize(); if (side(id, c) == 0) { v = c; break; } if (d > 60 && d < 1024) d = 1023; } } } else { try { v = mpq_class(q); if (v.get_den() == 0) sim::invalid("rational"); v.canonicalize(); } catch (...) { sim::invalid("rational"); } }
            int op = (int)(std::labs((long)sim::toint(A(2))) % 14), c = 0; QQ lq = LQ(v); int want = -side(sl[i].id, v); std::string before = show(u);
            bool oom = faulted(A(3), A(4), [&] { c = applyq(op, sl[i].r, lq); }); ++n_cmp;
            if (!oom) { sim::log(w + " -> " + N(c)); bool ok; if (op == 0 || op == 7) ok = c == want; else { static const int mir[] = {0, 1, 3, 2, 5, 4, 6}; int o = op < 7 ? op : mir[op == 8 ? 1 : op == 9 ? 2 : op == 10 ? 3 : op == 11 ? 4 : op == 12 ? 5 : 6]; ok = (bool)c == truth(o, want); } if (!ok) sim::fail("ORDER", w + ": root " + N(sl[i].id) + ", stored as " + before + ", against " + v.get_str() + " gives " + N(c)); if (want == 0) sim::count("rational equal to a root"); } else sim::count("interrupted comparisons");
            if (Q(lq) != v) sim::fail("ARGS", w + ": the rational changed"); rep(sl[i], w);
        } else if (l.key == "shrink") {
            if (sl[i].id < 0 || sl[i].id >= (int)G.size()) continue; int n = (int)(std::labs((long)sim::toint(A(1))) % 40); mpq_class w0 = Q(sl[i].r.right()) - Q(sl[i].r.left());
            bool oom = faulted(A(2), A(3), [&] { for (int k = 0; k < n; ++k) sl[i].r.shrinkinterval(); }); rep(sl[i], w); mpq_class w1 = Q(sl[i].r.right()) - Q(sl[i].r.left()); mpz_class pw = 1; for (int k = 0; k < n; ++k) pw *= 2;
            if (!oom && w1 * pw > w0) sim::fail("SHRINK", w + ": the interval did not halve"); if (oom) sim::count("interrupted refinements");
        } else if (l.key == "copy") {
            if (sl.size() >= 30) continue; sl.reserve(40); std::unique_ptr<uroot> c; faulted(A(1), A(2), [&] { c.reset(new uroot(sl[i].r)); }); if (c) { sl.push_back({*c, sl[i].id}); rep(sl.back(), w); } rep(sl[i], w);
        } else if (l.key == "make") {      // a root built from a polynomial and an isolating interval of the caller's
            if (sl.size() >= 30 || sl[i].id < 0 || sl[i].id >= (int)G.size()) continue; int id = sl[i].id; long k = std::labs((long)sim::toint(A(1))) % 12; refine(id, 1); mpq_class a = G[id].first, b = G[id].second, m; UP f = U; if (k % 2) { std::string t = text(sl[i].r.poly()); f = model::up(model::parse(t), 0); if (f.size() < 2) f = U; }
            for (int n = 0; n < 60; ++n) { m = (a + b) / 2; int sd = side(id, m); if (sd > 0) { a = m; break; } if (sd == 0) { m = (a + m) / 2; a = m; break; } b = m; } if (model::usgn(f, a) == 0) continue;
            if (side(id, b) == 0) { mpq_class z = b + 1; for (int n = 0; n < 60 && S->roots(b, z); ++n) z = (b + z) / 2; if (S->roots(b, z)) continue; b = z; }
            if (model::usgn(f, b) == 0 || k / 2 % 3 == 1) { for (int n = 0; n < 60; ++n) { m = (a + b) / 2; int sd = side(id, m); if (sd < 0) { b = m; break; } if (sd == 0) { b = (m + b) / 2; break; } a = m; } if (model::usgn(f, b) == 0) continue; }
            MP mp; for (size_t e = 0; e < f.size(); ++e) mp = model::add(mp, model::scale(X((int)e), f[e])); auto up_ = upoly<ZZ>(model::text(model::primitive(mp))); QQ qa = LQ(a), qb = LQ(b); std::unique_ptr<uroot> c; sl.reserve(40); faulted(A(2), A(3), [&] { c.reset(new uroot(up_, qa, qb)); }); if (c) { sl.push_back({*c, id}); rep(sl.back(), w + " from " + text(up_) + " (" + a.get_str() + "," + b.get_str() + ")"); sim::count("caller-built roots"); }
        } else if (l.key == "assign") {
            size_t j = (size_t)std::labs((long)sim::toint(A(1))) % sl.size(); if (i == j) continue; if (A(4) == "1") { uroot t(sl[j].r); { Lib b; sl[i].r = std::move(t); } sl[i].id = sl[j].id; }
            else { bool oom = faulted(A(2), A(3), [&] { sl[i].r = sl[j].r; }); if (!oom) sl[i].id = sl[j].id; else { sl[i].r = uroot(sl[j].r); sl[i].id = sl[j].id; sim::count("interrupted assignments"); } } rep(sl[i], w); rep(sl[j], w);
        } else if (l.key == "swap") { size_t j = (size_t)std::labs((long)sim::toint(A(1))) % sl.size(); if (i != j) { std::swap(sl[i].r, sl[j].r); std::swap(sl[i].id, sl[j].id); rep(sl[i], w); rep(sl[j], w); } }
        else if (l.key == "inf") { if (sl.size() < 30) { bool n = sim::toint(A(0)) & 1; sl.push_back({n ? uroot::neginf() : uroot::inf(), n ? -1 : (int)G.size()}); } }
        else if (l.key == "sort") { Lib b; std::sort(sl.begin(), sl.end(), [](const Slot& a, const Slot& c) { return uroot::comp(const_cast<uroot*>(&a.r), const_cast<uroot*>(&c.r)) == 1; }); sim::Host h; for (size_t k = 1; k < sl.size(); ++k) if (sl[k - 1].id > sl[k].id) sim::fail("ORDER", w + ": sorted roots out of order"); for (auto& s : sl) rep(s, w); }
        else if (l.key == "sortp") { std::vector<Slot*> v; for (auto& s : sl) v.push_back(&s); bool oom = faulted(A(1), A(2), [&] { std::sort(v.begin(), v.end(), [](Slot* a, Slot* c) { return a->r < c->r; }); }); if (!oom) for (size_t k = 1; k < v.size(); ++k) if (v[k - 1]->id > v[k]->id) sim::fail("ORDER", w + ": sorted roots out of order"); for (auto& s : sl) rep(s, w); }
        else sim::invalid("unknown op");
    }
    sim::set_phase("final comparisons");
    for (size_t i = 0; i < sl.size(); ++i) for (size_t j = 0; j < sl.size(); ++j) { int c; { Lib b; c = uroot::comp(&sl[i].r, &sl[j].r); } ++n_cmp; if (c != cmpid(sl[i].id, sl[j].id)) sim::fail("ORDER", "at the end roots " + N(sl[i].id) + " and " + N(sl[j].id) + ", now " + show(sl[i].r) + " and " + show(sl[j].r) + ", compare as " + N(c)); }
    for (auto& s : sl) rep(s, "at the end");
    sim::count("comparisons", n_cmp); sim::count("injected allocation failures", n_faults); sim::count("steps", steps); if (sl.size() > 1 && steps > 1) sim::nontrivial();
    std::string t; for (auto& m : lists[0]) t += model::text(m) + "; "; sim::sample(t.substr(0, 200) + " steps " + N((long)steps) + " roots " + N((long)sl.size()));
}
const sim::Scenario sim::scenario = {"C09", gen, exec, 4000000000ull, 60};
