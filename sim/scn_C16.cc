// C16: characteristic sets and triangular decompositions, against zeros enumerated in a 61-bit prime field.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
#include <clpoly/charset.hh>
using namespace lib; using model::MP;
typedef uint64_t u64; typedef unsigned __int128 u128; typedef std::vector<u64> U;
static const u64 PR = 2305843009213693951ull;                           // 2^61 - 1
static u64 mulp(u64 a, u64 b) { return (u64)((u128)a * b % PR); } static u64 addp(u64 a, u64 b) { u64 s = a + b; return s >= PR ? s - PR : s; } static u64 negp(u64 a) { return a ? PR - a : 0; }
static u64 powp(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulp(a, a)) if (e & 1) r = mulp(r, a); return r; }
static std::string N(long long v) { return std::to_string(v); }
static void strip(U& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static U umul(const U& a, const U& b) { if (a.empty() || b.empty()) return U(); U c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = addp(c[i + j], mulp(a[i], b[j])); return c; }
static U usub(const U& a, const U& b) { U c(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < c.size(); ++i) c[i] = addp(i < a.size() ? a[i] : 0, negp(i < b.size() ? b[i] : 0)); strip(c); return c; }
static U udivr(U a, const U& b, U& r) { U q; if (a.size() >= b.size()) { q.assign(a.size() - b.size() + 1, 0); u64 iv = powp(b.back(), PR - 2); for (size_t i = q.size(); i-- > 0;) { u64 c = mulp(a[i + b.size() - 1], iv); q[i] = c; if (c) for (size_t j = 0; j < b.size(); ++j) a[i + j] = addp(a[i + j], negp(mulp(c, b[j]))); } } strip(a); r = a; return q; }
static U ugcd(U a, U b) { while (!b.empty()) { U r; udivr(a, b, r); a = b; b = r; } if (!a.empty()) { u64 iv = powp(a.back(), PR - 2); for (auto& x : a) x = mulp(x, iv); } return a; }
static U umod(const U& a, const U& m) { U r; udivr(a, m, r); return r; }
static U upowm(U b, u64 e, const U& m) { U r = umod(U{1}, m); b = umod(b, m); for (; e; e >>= 1, b = umod(umul(b, b), m)) if (e & 1) r = umod(umul(r, b), m); return r; }
static void split(const U& f, sim::Rng& g, std::vector<u64>& o) { if (f.size() < 2) return; if (f.size() == 2) { o.push_back(mulp(negp(f[0]), powp(f[1], PR - 2))); return; } for (;;) { U h = upowm(U{g.next() % PR, 1}, (PR - 1) / 2, f); h = ugcd(f, usub(h, U{1})); if (h.size() > 1 && h.size() < f.size()) { U r; U q = udivr(f, h, r); split(h, g, o); split(q, g, o); return; } } }
// distinct roots in the field; full: there are none outside it
static std::vector<u64> uroots(const U& f, sim::Rng& g, bool& full) { std::vector<u64> o; if (f.size() < 2) return o; U h = ugcd(f, usub(upowm(U{0, 1}, PR, f), U{0, 1})); split(h, g, o); std::sort(o.begin(), o.end()); U rest = f; for (;;) { U c = ugcd(rest, h); if (c.size() < 2) break; U r; rest = udivr(rest, c, r); } if (rest.size() > 1) full = false; return o; }

typedef std::array<u64, 6> Pt;
static u64 red(const mpq_class& q) { static const mpz_class P(std::to_string(PR)); mpz_class n = q.get_num() % P, d = q.get_den() % P; if (n < 0) n += P; u64 a = std::stoull(n.get_str()), b = std::stoull(d.get_str()); return b == 1 ? a : mulp(a, powp(b, PR - 2)); }
struct FP { std::vector<std::pair<model::Mono, u64>> t; };              // a polynomial over the field
static FP fp(const MP& f) { FP o; for (auto& x : f.t) { u64 c = red(x.second); if (c) o.t.push_back({x.first, c}); } return o; }
static u64 eval(const FP& f, const Pt& p) { u64 s = 0; for (auto& x : f.t) { u64 c = x.second; for (int i = 0; i < 6; ++i) if (x.first[i]) c = mulp(c, powp(p[i], (u64)x.first[i])); s = addp(s, c); } return s; }
static U spec(const FP& f, int v, const Pt& p) { U u; for (auto& x : f.t) { u64 c = x.second; for (int i = 0; i < 6; ++i) if (i != v && x.first[i]) c = mulp(c, powp(p[i], (u64)x.first[i])); if ((int)u.size() <= x.first[v]) u.resize(x.first[v] + 1, 0); u[x.first[v]] = addp(u[x.first[v]], c); } strip(u); return u; }
static std::vector<int> V;                                              // variables, lowest first
static int mainvar(const MP& f) { for (int k = (int)V.size() - 1; k >= 0; --k) if (model::uses(f, V[k])) return k; return -1; }
typedef std::vector<MP> Ch;
struct Zeros { std::vector<Pt> z; bool full = true, init = false, sq = true, over = false; };  // init: some initial vanishes at a zero of the polynomials below; sq: all fibres squarefree
static Zeros zeros(const Ch& c, sim::Rng& g) { // zeros of the chain at which no initial vanishes; free variables get one random value
    Zeros o; Pt z0; z0.fill(0); o.z = {z0}; std::map<int, const MP*> by; for (auto& f : c) by[mainvar(f)] = &f;
    for (int k = 0; k < (int)V.size(); ++k) {
        std::vector<Pt> nx; auto it = by.find(k); if (it == by.end()) { for (auto& z : o.z) { z[V[k]] = 1 + g.next() % (PR - 1); nx.push_back(z); } o.z = nx; continue; }
        FP f = fp(*it->second); int d = model::deg(*it->second, V[k]);
        for (auto& z : o.z) { U u = spec(f, V[k], z); if ((int)u.size() <= d) { o.init = true; continue; } U du; for (size_t i = 1; i < u.size(); ++i) du.push_back(mulp(u[i], i)); strip(du); if (ugcd(u, du).size() > 1) o.sq = false; for (u64 r : uroots(u, g, o.full)) { Pt w = z; w[V[k]] = r; nx.push_back(w); } if (nx.size() > 300) { o.over = true; return o; } }
        o.z = nx;
    }
    std::sort(o.z.begin(), o.z.end()); return o;
}
static bool complete(const Ch& c) { if (c.size() != V.size()) return false; for (size_t i = 0; i < c.size(); ++i) if (mainvar(c[i]) != (int)i) return false; return true; }
static bool at(const Ch& c, const Pt& z) { for (auto& f : c) if (eval(fp(f), z)) return false; return true; }
static bool atI(const Ch& c, const Pt& z) { if (!at(c, z)) return false; for (auto& f : c) { int k = mainvar(f); if (k < 0) return false; if ((int)spec(fp(f), V[k], z).size() <= model::deg(f, V[k])) return false; } return true; }
static std::string show(const Ch& c) { std::string o; for (auto& f : c) o += (o.empty() ? "" : ";") + model::text(f); return "{" + o + "}"; }
static std::string show(const Pt& z) { std::string o = "("; for (int k : V) o += (o.size() > 1 ? ", " : "") + std::string(VNAMES[k]) + "=" + (z[k] > PR / 2 ? "-" + std::to_string(PR - z[k]) : std::to_string(z[k])); return o + ")"; }

static MP lowpoly(sim::Rng& r, int k, int d, int64_t c) { MP q = gens::rp(r, k, d, 1 + (int)r.below(3), c); return k ? q : model::cst(mpq_class((long)r.range(-c, c))); } // in the first k variables
static MP planned(sim::Rng& r, int k, int d, int style, std::vector<MP>* parts = nullptr) { // degree d in variable k over the k lower ones
    MP x = model::var(k), f = model::cst(1);
    if (style == 0) { f = model::var(k, d); for (int i = 0; i < d; ++i) if (r.chance(2, 3)) f = model::add(f, model::mul(lowpoly(r, k, 1 + (int)r.below(2), 4), model::var(k, i))); return f; }
    std::vector<MP> a; for (int i = 0; i < d; ++i) { MP q; if (style == 2 && i && r.chance(1, 2)) q = a[r.below(a.size())]; else q = k && r.chance(1, 2) ? lowpoly(r, k, 1, 3) : model::cst((long)r.range(-3, 3)); a.push_back(q); MP l = model::sub(x, q); if (parts) parts->push_back(l); f = model::mul(f, l); }
    return f;
}
static std::string join(const Ch& c) { std::string o; for (auto& f : c) o += (o.empty() ? "" : ";") + model::text(f); return o; }
static MP ren(const MP& f, const std::vector<int>& to) { MP o; for (auto& x : f.t) { model::Mono m{}; for (int i = 0; i < 6; ++i) if (x.first[i]) m[to[i]] = x.first[i]; o.t[m] = x.second; } return o; }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; int n = r.chance(1, 6) ? 1 : r.chance(1, 2) ? 2 : r.chance(5, 6) ? 3 : 4; std::vector<int> perm{0, 1, 2, 3, 4, 5}; for (int i = 3; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
    std::string o; for (int k = 0; k < n; ++k) o += (k ? "." : "") + N(perm[k]); p.add("vars", {o}); p.add("seed", {N((long long)(r.next() >> 2))});
    std::vector<Ch> chains; std::vector<MP> parts, fs; int nc = 1 + (int)r.below(2); bool tower = n > 1 && r.chance(1, 4); std::vector<std::vector<MP>> lv[2];
    for (int c = 0; c < nc; ++c) { Ch t; int left = n == 4 ? 6 : n == 3 ? 12 : 16; for (int k = 0; k < n; ++k) { int d = 1 + (int)r.below(std::min(left, n == 1 ? 6 : 4)); if (tower && c == 0 && n < 4) d = (k + 1 == n ? 2 : 1) + (int)r.below(k + 1 == n ? 2 : 3); left = std::max(1, left / d); size_t np = parts.size(); MP f = planned(r, k, d, tower ? 1 : (int)r.below(3), &parts); lv[c].push_back(std::vector<MP>(parts.begin() + np, parts.end()));
            if (tower && c == 0) ; else if (k && r.chance(1, 3)) f = model::mul(f, lowpoly(r, k, 1, 3)); else if (k && r.chance(1, 4)) f = model::add(model::mul(model::mul(lowpoly(r, k, 1, 3), model::var(k, d)), model::cst((long)r.range(1, 3))), planned(r, k, std::max(1, d - 1), (int)r.below(3)));
            if (r.chance(1, 8)) f = model::scale(f, (long)r.range(2, 12)); t.push_back(f); } chains.push_back(t); }
    for (int i = 0; i < 4; ++i) { MP f; switch (r.below(7)) { case 0: f = lowpoly(r, n, 1 + (int)r.below(3), 4); break; case 1: case 2: f = parts.empty() ? lowpoly(r, n, 2, 3) : parts[r.below(parts.size())]; break; case 3: f = parts.empty() ? model::var(0) : model::mul(parts[r.below(parts.size())], parts[r.below(parts.size())]); break;
        case 4: { Ch& t = chains[r.below(chains.size())]; f = model::add(model::mul(t[r.below(n)], lowpoly(r, n, 1, 2)), parts.empty() || r.chance(1, 3) ? MP() : parts[r.below(parts.size())]); break; }
        case 5: { f = lowpoly(r, n, 1, 2); if (!parts.empty()) { MP q = parts[r.below(parts.size())]; if (q.t.size() < 6) f = model::mul(f, q); } if (!parts.empty()) f = model::mul(f, parts[r.below(parts.size())]); break; }
        default: f = r.chance(1, 3) ? MP() : r.chance(1, 2) ? model::cst((long)r.range(-3, 3)) : model::sub(model::var((int)r.below(n)), model::cst((long)r.range(-3, 3))); } fs.push_back(f); }
    // shares several factors with the top of a chain, but only where some lower factor vanishes: the fibres split differently
    if (tower) for (int i = 0; i < 3; ++i) { auto& L = lv[0]; std::vector<MP> top = L.back(), low; for (int k = 0; k + 1 < n; ++k) for (auto& x : L[k]) low.push_back(x); if (top.size() < 2 || low.empty()) continue; MP a = model::cst(1), b = model::cst((long)r.range(1, 3)); size_t drop = r.below(top.size()); for (size_t j = 0; j < top.size(); ++j) if (j != drop) a = model::mul(a, top[j]);
            int m = 1 + (int)r.below(2); for (int j = 0; j < m; ++j) b = model::mul(b, low[r.below(low.size())]); if (r.chance(1, 3)) b = model::mul(b, top[r.below(top.size())]); else if (r.chance(1, 3)) b = model::mul(b, model::sub(model::var(n - 1), model::cst((long)r.range(-3, 3)))); a = model::add(a, b); if (a.t.size() <= 24) fs[i] = a; }
    std::vector<Ch> sys; int ns = 1 + (int)r.below(2);
    for (int s = 0; s < ns; ++s) { Ch q; int kind = (int)r.below(n > 2 && r.chance(1, 2) ? 6 : 5);
        if (kind <= 1) { q = chains[r.below(chains.size())]; for (size_t i = 0; i < q.size(); ++i) if (r.chance(1, 2)) { size_t j = r.below(q.size()); if (j != i) q[i] = model::add(q[i], model::mul(q[j], r.chance(1, 2) ? model::cst((long)r.range(-2, 2)) : model::var((int)r.below(n)))); } if (r.chance(1, 2)) q.push_back(fs[r.below(fs.size())]); }
        else if (kind == 2) { int m = 2 + (int)r.below(2); for (int i = 0; i < m; ++i) { MP f = lowpoly(r, n, 1 + (int)r.below(n >= 3 ? 2 : 3), 3); q.push_back(f); } }
        else if (kind == 3) { Ch a, b; for (int k = 0; k < n; ++k) { if (r.chance(2, 3)) a.push_back(planned(r, k, 1, 1)); if (r.chance(2, 3)) b.push_back(planned(r, k, 1, 1)); } for (auto& x : a) for (auto& y : b) if (q.size() < 4) q.push_back(model::mul(x, y)); if (q.empty()) q.push_back(model::mul(planned(r, n - 1, 1, 1), planned(r, n - 1, 1, 1))); }
        else if (kind == 5) { MP e = planned(r, 1, 2, 1); q.push_back(e); for (int k = 2; k < n; ++k) { MP c = lowpoly(r, k, 1, 2); if (r.chance(2, 3)) { std::vector<MP> pp; planned(r, 1, 1, 1, &pp); c = pp[0]; } q.push_back(model::add(model::mul(c, model::var(k)), lowpoly(r, k, 1, 2))); } if (r.chance(1, 2)) q.push_back(planned(r, 0, 1 + (int)r.below(2), 1)); }   // the lowest variable may be missing
        else { int m = 1 + (int)r.below(3); for (int i = 0; i < m; ++i) { MP f = planned(r, (int)r.below(n), 1 + (int)r.below(2), (int)r.below(3)); if (r.chance(1, 2)) f = model::mul(f, lowpoly(r, n, 1, 2)); q.push_back(f); } }
        if (r.chance(1, 12)) q.push_back(r.chance(1, 2) ? MP() : model::cst((long)r.range(1, 4))); for (size_t i = q.size(); i > 1; --i) if (r.chance(1, 2)) std::swap(q[i - 1], q[r.below(i)]); sys.push_back(q); }
    auto R = [&](MP f) { return ren(f, perm); };
    for (auto& c : chains) { Ch d; for (auto& f : c) d.push_back(R(f)); p.add("chain", {join(d)}); } for (auto& f : fs) p.add("f", {model::text(R(f))}); for (auto& c : sys) { Ch d; for (auto& f : c) d.push_back(R(f)); p.add("sys", {join(d)}); }
    int k = 4 + (int)r.below(8); bool faults = r.chance(1, 3);
    for (int i = 0; i < k; ++i) {
        std::string at = "0", st = "0"; if (faults && r.chance(1, 2)) { at = N(1 + (long)r.below(r.chance(1, 2) ? 60 : 4000)); st = r.chance(1, 3) ? "1" : "0"; }
        std::string c = N((long)r.below(8)), f = N((long)r.below(4)), s = N((long)r.below(ns));
        if (tower && r.chance(1, 2)) { p.add(r.chance(2, 3) ? "wrsd" : "rsd", {"0", at, st, N((long)r.below(3))}); continue; }
        switch (r.below(12)) { case 0: p.add("cs", {s, at, st}); break; case 1: case 2: p.add("wu", {s, at, st}); break; case 3: p.add("grd", {s, at, st}); break; case 4: case 5: p.add("zdrc", {c, at, st}); break; case 6: case 7: p.add("wrsd", {c, at, st, f}); break; case 8: case 9: p.add("rsd", {c, at, st, f}); break; case 10: p.add("sqf", {c, at, st}); break; default: p.add("sas", {s, at, st, N((long)r.below(4096))}); }
    }
    return p;
}
static uint64_t n_faults;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
typedef lex_<custom_var_order> O; typedef polynomial_<ZZ, O> P; typedef std::vector<P> PC;
static O od{custom_var_order(std::vector<variable>())};
static P lp(const MP& m) { P q(&od); load(q, model::text(m)); return q; }
static PC lpc(const Ch& c) { PC o; for (auto& f : c) o.push_back(lp(f)); return o; }
static std::string txt(const PC& c) { std::string o; for (auto& f : c) o += text(f) + ";"; return o; }
static MP back(const P& q, const std::string& w) { std::string e = wf(q); if (!e.empty()) sim::fail("WF", w + ": " + e + ": " + text(q)); return model::parse(text(q)); }
static Ch back(const PC& c, const std::string& w) { Ch o; for (auto& f : c) o.push_back(back(f, w)); return o; }
static MP perm_(const MP& f, bool fwd) { MP o; for (auto& x : f.t) { model::Mono m{}; for (size_t k = 0; k < V.size(); ++k) { int hi = (int)(V.size() - 1 - k); if (fwd) m[hi] = x.first[V[k]]; else m[V[k]] = x.first[hi]; } o.t[m] = x.second; } return o; }
// all zeros in the field of a system with finitely many zeros; 0: not known, 1: ok, -1: infinitely many zeros
static int allzeros(const Ch& s, std::vector<Pt>& out, sim::Rng& g) {
    std::vector<MP> F; for (auto& f : s) if (!f.zero()) F.push_back(perm_(f, true)); std::vector<MP> G; try { G = model::buchberger(F, model::LEX, 60); } catch (const std::exception&) { return 0; }
    if (G.size() == 1 && G[0].constant()) return 1; std::vector<char> pure(V.size(), 0); for (auto& f : G) { auto m = model::lead(f, model::LEX); int c = 0, w = 0; for (int i = 0; i < 6; ++i) if (m[i]) { ++c; w = i; } if (c == 1) pure[w] = 1; }
    for (char c : pure) if (!c) return -1;
    std::vector<MP> H; for (auto& f : G) H.push_back(perm_(f, false)); Pt z0; z0.fill(0); std::vector<Pt> cur{z0};
    for (int k = 0; k < (int)V.size(); ++k) { std::vector<Pt> nx; for (auto& z : cur) { U d; for (auto& f : H) if (mainvar(f) <= k) { U u = spec(fp(f), V[k], z); d = ugcd(u, d); } bool full; if (d.empty()) return 0; for (u64 x : uroots(d, g, full)) { Pt w = z; w[V[k]] = x; nx.push_back(w); } } cur = nx; if (cur.size() > 300) return 0; }
    out = cur; return 1;
}
static bool same(std::vector<Pt> a, std::vector<Pt> b) { std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end()); return a == b; }
static std::string diff(std::vector<Pt> a, std::vector<Pt> b) { for (auto& z : a) if (std::find(b.begin(), b.end(), z) == b.end()) return "the zero " + show(z) + " is lost"; for (auto& z : b) if (std::find(a.begin(), a.end(), z) == a.end()) return show(z) + " is not a zero"; return ""; }
static void exec(const sim::Plan& p) {
    init_vars(); n_faults = 0; V.clear(); const sim::Line* g = p.find("vars"); if (!g || g->f.empty()) sim::invalid("vars"); for (auto& s : sim::split(g->f[0], '.')) { int v = (int)(std::labs((long)sim::toint(s)) % 6); if (std::find(V.begin(), V.end(), v) != V.end()) sim::invalid("vars"); V.push_back(v); } if (V.empty() || V.size() > 4) sim::invalid("vars");
    sim::Rng rng((uint64_t)p.num("seed", 1)); { std::vector<variable> o; for (size_t k = V.size(); k-- > 0;) o.push_back(vars()[V[k]]); od = O{custom_var_order(o)}; }
    std::vector<Ch> chains, sys; std::vector<MP> fs; auto rd = [&](const std::string& s) { Ch c; for (auto& t : sim::split(s, ';')) c.push_back(model::parse(t)); return c; };
    auto okp = [&](const MP& f) { if (f.t.size() > 300 || !model::integral(f)) sim::invalid("polynomial"); for (int i = 0; i < 6; ++i) if (model::uses(f, i) && std::find(V.begin(), V.end(), i) == V.end()) sim::invalid("variable"); };
    for (auto& l : p.lines) { if (l.f.empty()) continue; if (l.key == "chain") { Ch c = rd(l.f[0]); for (auto& f : c) okp(f); if (complete(c)) chains.push_back(c); } if (l.key == "sys") { Ch c = rd(l.f[0]); for (auto& f : c) okp(f); sys.push_back(c); } if (l.key == "f") { fs.push_back(model::parse(l.f[0])); okp(fs.back()); } }
    if (chains.size() > 4 || sys.size() > 4 || fs.size() > 8) sim::invalid("size"); uint64_t steps = 0, hard = 0;
    auto keep = [&](const std::vector<Ch>& o) { for (auto& c : o) if (chains.size() < 8 && complete(c)) { size_t t = 0, b = 0; for (auto& f : c) { t += f.t.size(); b = std::max(b, mpz_sizeinbase(model::maxnorm(f).get_mpz_t(), 2)); } if (t < 60 && b < 120) chains.push_back(c); } };
    auto reg = [&](const Ch& c, const std::string& w, bool sq) { if (!complete(c)) sim::fail("SHAPE", w + ": not a triangular set in all variables: " + show(c)); Zeros z = zeros(c, rng); if (z.init) sim::fail("NOTREGULAR", w + ": an initial vanishes at a zero of the polynomials below it: " + show(c)); if (sq && !z.sq) sim::fail("NOTSQUAREFREE", w + ": a fibre has a multiple root: " + show(c)); return z; };
    for (auto& l : p.lines) {
        if (l.key == "vars" || l.key == "seed" || l.key == "chain" || l.key == "sys" || l.key == "f" || ++steps > 16) continue; auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto I = [&](size_t i) { return (size_t)std::labs((long)sim::toint(A(i))); };
        std::string w = "step " + N(steps) + " " + l.key, at_ = A(1), st = A(2); sim::set_soft_limit(120000000ull); sim::set_phase(w);
        if (l.key == "cs" || l.key == "wu" || l.key == "grd" || l.key == "sas") {
            if (sys.empty()) continue; const Ch& s = sys[I(0) % sys.size()]; w += ": " + show(s); sim::set_phase(w); std::vector<Pt> cand; { size_t tt = 0; int td = 0; for (auto& x : s) { tt += x.t.size(); td += std::max(0, model::tdeg(x)); if (model::maxnorm(x) > 200) td += 99; } if (tt <= 14 && td <= 8) { sim::set_tick_limit(2000000000ull); } } int fin = allzeros(s, cand, rng); if ((l.key == "grd" || l.key == "sas") && fin != 1) continue;
            if (fin != 1) { cand.clear(); int B = V.size() == 1 ? 12 : V.size() == 2 ? 5 : V.size() == 3 ? 3 : 1; Pt z; z.fill(0); std::vector<FP> ff; for (auto& f : s) ff.push_back(fp(f)); auto add = [&](const Pt& q) { for (auto& f : ff) if (eval(f, q)) return; cand.push_back(q); }; std::vector<int> e(V.size(), -B); for (;;) { for (size_t k = 0; k < V.size(); ++k) z[V[k]] = e[k] < 0 ? PR - (u64)-e[k] : (u64)e[k]; add(z); size_t k = 0; while (k < e.size() && ++e[k] > B) e[k++] = -B; if (k == e.size()) break; }
                for (auto& f : s) if (mainvar(f) >= 0) for (int t = 0; t < 3; ++t) { Zeros q = zeros(Ch{f}, rng); for (auto& x : q.z) add(x); } for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.size(); ++j) if (mainvar(s[i]) >= 0 && mainvar(s[j]) > mainvar(s[i])) { Zeros q = zeros(Ch{s[i], s[j]}, rng); for (auto& x : q.z) add(x); } }
            PC ls = lpc(s); std::string before = txt(ls); auto chk = [&](auto&& call) { if (faulted(at_, st, call)) { if (txt(ls) != before) sim::fail("CHANGED", w + ": the system changed when memory ran out"); sim::check_heap(w.c_str()); Lib l2; call(); } if (txt(ls) != before) sim::fail("CHANGED", w + ": the system changed"); sim::check_heap(w.c_str()); };
            if (l.key == "cs") {
                PC o; PC nz; for (auto& x : ls) if (!x.empty()) nz.push_back(x); if (nz.size() < ls.size()) { { Lib l2; o = charset(nz); } std::string first = txt(o); sim::set_tick_limit(600000000ull); { Lib l2; o = charset(ls); } sim::set_soft_limit(120000000ull); if (txt(o) != first) sim::fail("WRONG", w + ": another answer without the zero polynomials: " + first); } chk([&] { o = charset(ls); }); Ch c = back(o, w); std::string ww = w + ": charset " + show(c);
                if (c.size() == 1 && mainvar(c[0]) < 0) { if (!c[0].zero() && !cand.empty()) sim::fail("ZEROLOST", ww + ": a contradiction, although " + show(cand[0]) + " is a zero"); if (c[0].zero()) for (auto& f : s) if (!f.zero()) sim::fail("WRONG", ww); }
                else { for (size_t i = 0; i < c.size(); ++i) { if (mainvar(c[i]) < 0 || (i && mainvar(c[i]) <= mainvar(c[i - 1]))) sim::fail("SHAPE", ww + ": not triangular"); for (size_t j = 0; j < i; ++j) if (model::deg(c[i], V[mainvar(c[j])]) >= model::deg(c[j], V[mainvar(c[j])])) sim::fail("SHAPE", ww + ": not ascending"); }
                    for (auto& z : cand) if (!at(c, z)) sim::fail("ZEROLOST", ww + ": does not vanish at the zero " + show(z) + " of the system"); for (int t = 0; t < 3; ++t) { Zeros q = zeros(c, rng); for (auto& z : q.z) for (auto& f : s) if (eval(fp(f), z)) sim::fail("ZEROADDED", ww + ": " + show(z) + " is a zero of the set and not of the system"); }
                    P r(&od); for (auto& f : ls) { Lib l2; r = f; for (auto x = o.rbegin(); x != o.rend(); ++x) r = prem(r, *x, get_first_var(*x), false); if (!r.empty()) sim::fail("WRONG", ww + ": a polynomial of the system has a nonzero pseudo-remainder"); } if (c.size() > 1) ++hard; }
                sim::log("cs " + show(c));
            } else if (l.key == "wu") {
                std::vector<PC> o; chk([&] { o = Wucharset(ls); }); std::vector<Ch> cs; for (auto& c : o) cs.push_back(back(c, w)); std::string all; for (auto& c : cs) all += show(c); if (all.size() > 3000) all.resize(3000);
                for (auto& c : cs) { for (auto& f : c) if (mainvar(f) < 0) sim::fail("SHAPE", w + ": a constant in a chain: " + all); for (int t = 0; t < 2; ++t) { Zeros q = zeros(c, rng); for (auto& z : q.z) for (auto& f : s) if (eval(fp(f), z)) sim::fail("ZEROADDED", w + ": " + show(z) + " is a zero of the decomposition " + show(c) + " and not of the system"); } }
                for (auto& z : cand) { bool ok = false; for (auto& c : cs) if (atI(c, z)) { ok = true; break; } if (!ok) sim::fail("ZEROLOST", w + ": the zero " + show(z) + " of the system is not covered by " + all); } if (cs.size() > 1) ++hard; keep(cs); sim::log("wu " + all);
            } else if (l.key == "grd") {
                std::vector<PC> o; chk([&] { o = GRDforZD(ls); }); std::vector<Ch> cs; std::vector<Pt> got; std::string all; bool over = false; for (auto& c : o) { cs.push_back(back(c, w)); all += show(cs.back()); Zeros z = reg(cs.back(), w, false); over |= z.over; got.insert(got.end(), z.z.begin(), z.z.end()); }
                if (!over && !same(cand, got)) sim::fail("ZEROS", w + ": " + diff(cand, got) + " in " + all.substr(0, 3000)); if (cs.size() > 1) ++hard; keep(cs); sim::log("grd " + all);
            } else {
                size_t bits = I(3); std::vector<std::vector<MP>> e(3); for (size_t i = 0; i < fs.size() && i < 4; ++i) { size_t b = (bits >> (3 * i)) & 7; if (b < 3) e[b].push_back(fs[i]); }  // G1 (>= 0), G2 (> 0), H (/= 0)
                std::vector<PC> S{ls, lpc(e[0]), lpc(e[1]), lpc(e[2])}; std::vector<std::vector<PC>> o; chk([&] { o = GRDforZDSAS(S); }); std::vector<Pt> want, got; for (auto& z : cand) { bool ok = true; for (int k = 1; k < 3; ++k) for (auto& f : e[k]) if (!eval(fp(f), z)) ok = false; if (ok) want.push_back(z); }
                std::string all; for (int k = 0; k < 3; ++k) w += show(e[k]); bool over = false; for (auto& u : o) { if (u.size() != 4) sim::fail("SHAPE", w + ": " + N((long)u.size()) + " parts"); Ch c = back(u[0], w), pos = back(u[2], w); all += show(c) + "/" + show(pos) + " "; Zeros z = reg(c, w, true); over |= z.over; got.insert(got.end(), z.z.begin(), z.z.end());
                    for (auto& q : z.z) { for (auto& f : pos) if (!eval(fp(f), q)) sim::fail("WRONG", w + ": " + model::text(f) + " is listed as positive and vanishes at " + show(q) + ", a zero of " + show(c)); for (auto& f : e[0]) if (std::find(pos.begin(), pos.end(), f) == pos.end() && eval(fp(f), q)) sim::fail("WRONG", w + ": " + model::text(f) + " is not listed as positive and does not vanish at " + show(q) + ", a zero of " + show(c)); }
                    for (auto& f : e[1]) if (std::find(pos.begin(), pos.end(), f) == pos.end()) sim::fail("WRONG", w + ": the condition " + model::text(f) + " > 0 is lost"); for (auto& f : pos) if (std::find(e[0].begin(), e[0].end(), f) == e[0].end() && std::find(e[1].begin(), e[1].end(), f) == e[1].end()) sim::fail("WRONG", w + ": a new condition " + model::text(f)); }
                if (!over && !same(want, got)) sim::fail("ZEROS", w + ": " + diff(want, got) + " in " + all.substr(0, 3000)); if (o.size() > 1) ++hard; sim::log("sas " + all);
            }
        } else if (l.key == "zdrc" || l.key == "wrsd" || l.key == "rsd" || l.key == "sqf") {
            if (chains.empty()) continue; const Ch c = chains[I(0) % chains.size()]; w += ": " + show(c); MP f; bool hasf = l.key == "wrsd" || l.key == "rsd"; if (hasf) { if (fs.empty()) continue; f = fs[I(3) % fs.size()]; w += " by " + model::text(f); } sim::set_phase(w);
            size_t tt = f.t.size(); int td = std::max(0, model::tdeg(f)); for (auto& x : c) { tt += x.t.size(); td += model::tdeg(x); if (model::maxnorm(x) > 200) td += 99; } if (tt <= 14 && td <= 7) { sim::set_tick_limit(2000000000ull); sim::count("small chains"); } PC T = lpc(c); P F = lp(f); std::string before = txt(T) + "|" + text(F); Zeros z = zeros(c, rng); if (z.over) continue; bool r; { Lib l2; r = is_regular(T); }
            if (r && z.init) sim::fail("WRONG", w + ": is_regular is true although an initial vanishes at a zero"); if (!r && z.full && !z.init) sim::fail("WRONG", w + ": is_regular is false although no initial vanishes"); if (l.key != "zdrc" && !r) continue;
            
            auto chk = [&](auto&& call) { if (faulted(at_, st, call)) { if (txt(T) + "|" + text(F) != before) sim::fail("CHANGED", w + ": an argument changed when memory ran out"); sim::check_heap(w.c_str()); Lib l2; call(); } if (txt(T) + "|" + text(F) != before) sim::fail("CHANGED", w + ": an argument changed"); sim::check_heap(w.c_str()); };
            if (!hasf) { bool sqf = l.key == "sqf"; std::vector<PC> o; chk([&] { o = sqf ? RCtoSqrfree(T) : ZDtoRC(T); }); std::vector<Ch> cs; std::vector<Pt> got; std::string all; bool over = false; for (auto& q : o) { cs.push_back(back(q, w)); all += show(cs.back()); Zeros y = reg(cs.back(), w + " gave " + show(cs.back()), sqf); over |= y.over; got.insert(got.end(), y.z.begin(), y.z.end()); }
                if (!over && !same(z.z, got)) sim::fail("ZEROS", w + ": " + diff(z.z, got) + " in " + all.substr(0, 3000)); if (cs.size() > 1) ++hard; keep(cs); sim::log(l.key + " " + all); }
            else { std::pair<std::vector<PC>, std::vector<PC>> o; bool weak = l.key == "wrsd"; chk([&] { o = weak ? wrsd(T, F) : rsd(T, F); }); std::vector<Ch> cs; std::vector<Pt> got; std::string all; bool over = false; FP ff = fp(f);
                for (int side = 0; side < 2; ++side) for (auto& q : side ? o.second : o.first) { cs.push_back(back(q, w)); all += (side ? " f/=0:" : " f=0:") + show(cs.back()); Zeros y = reg(cs.back(), w + " gave " + show(cs.back()), false); over |= y.over; got.insert(got.end(), y.z.begin(), y.z.end()); for (auto& x : y.z) if ((eval(ff, x) != 0) != (side == 1)) sim::fail("WRONG", w + ": " + (side ? "vanishes" : "does not vanish") + " at " + show(x) + ", a zero of " + show(cs.back())); }
                if (!over && !same(z.z, got)) sim::fail("ZEROS", w + ": " + diff(z.z, got) + " in" + all.substr(0, 3000)); if (o.first.size() && o.second.size()) ++hard; keep(cs); sim::log(l.key + all); }
        }
    }
    if (hard) sim::nontrivial(); if (n_faults) { sim::nontrivial(); sim::count("allocation failures", n_faults); } sim::count("splittings", hard);
    sim::sample(N((long)V.size()) + " variables, " + N((long)steps) + " steps");
}
const sim::Scenario sim::scenario = {"C16", gen, exec, 3000000000ull, 60};
