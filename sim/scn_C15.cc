// C15: elimination (resultants, subresultant chains, discriminants, pseudo-division, coefficients) against determinants.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;
typedef uint64_t u64; typedef unsigned __int128 u128;
static const u64 PR = 2305843009213693951ull;                           // 2^61 - 1
static u64 mulp(u64 a, u64 b) { return (u64)((u128)a * b % PR); } static u64 addp(u64 a, u64 b) { u64 s = a + b; return s >= PR ? s - PR : s; } static u64 negp(u64 a) { return a ? PR - a : 0; }
static u64 powp(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulp(a, a)) if (e & 1) r = mulp(r, a); return r; }
static std::string N(long long v) { return std::to_string(v); }
typedef std::vector<u64> U;                                             // formal coefficients, index = degree in the main variable

static MP inv(sim::Rng& r, int v, int nv, int d, int lcd, int64_t c, bool sparse) { // degree d in variable v, small coefficients in the others
    MP f; for (int i = 0; i <= d; ++i) { if (i < d && sparse && r.chance(1, 2)) continue; MP k; if (nv == 1 || r.chance(1, 3)) k = model::cst(mpq_class((long)r.range(-c, c)));
            else { MP q = gens::rp(r, nv, 1 + (int)r.below(lcd), 1 + (int)r.below(3), c); for (auto& x : q.t) { model::Mono m = x.first; m[v] = 0; k.t[m] += x.second; } for (auto it = k.t.begin(); it != k.t.end();) if (it->second == 0) it = k.t.erase(it); else ++it; }
            if (i == d && (k.zero() || r.chance(1, 4))) k = model::cst(1); f = model::add(f, model::mul(k, model::var(v, i))); }
    return f;
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; int nv = r.chance(1, 4) ? 1 : r.chance(1, 2) ? 2 : 3 + (int)r.below(2); int v = (int)r.below(nv); bool q = r.chance(1, 5);
    p.add("ring", {N((long)r.below(4)), q ? "1" : "0", N((long)r.below(720))}); p.add("seed", {N((long long)(r.next() >> 2))});
    int64_t c = r.chance(1, 2) ? 3 : r.chance(1, 2) ? 40 : 1000000007; int D = nv == 1 ? 10 : nv == 2 ? 5 : nv == 3 ? 3 : 2; int lcd = nv > 2 ? 1 : 2; bool sp = r.chance(1, 2);
    std::vector<MP> f; int n = 2 + (int)r.below(2);
    switch (r.below(7)) {
    case 0: case 1: for (int i = 0; i < n; ++i) f.push_back(inv(r, v, nv, (int)r.below(D + 1), lcd, c, sp)); break;
    case 2: case 3: { // a remainder sequence with planned degree drops, built from its end
        MP a = inv(r, v, nv, 0, lcd, c, sp), b = inv(r, v, nv, 1 + (int)r.below(2), lcd, c, sp); int budget = D;
        for (int k = 0; k < 5; ++k) { int e = 1 + (int)r.below(r.chance(1, 2) ? 1 : 3); if (model::deg(b, v) + e > budget) break; MP t = model::add(model::mul(inv(r, v, nv, e, 1, 2, true), b), r.chance(1, 3) ? model::scale(a, -1) : a); a = b; b = t; if (b.t.size() > 60) break; }
        f = {b, a}; f.push_back(inv(r, v, nv, (int)r.below(D + 1), lcd, c, sp)); break; }
    case 4: { MP g = inv(r, v, nv, 1 + (int)r.below(2), lcd, c, sp); int d = std::max(1, D - 2); for (int i = 0; i < n; ++i) f.push_back(model::mul(g, inv(r, v, nv, (int)r.below(d), 1, c, sp))); break; }  // common factor
    case 5: { int e = 1 + (int)r.below(D); f = {model::add(model::var(v, e), inv(r, v, nv, (int)r.below(2), lcd, c, true)), model::add(model::scale(model::var(v, 1 + (int)r.below(e)), (long)r.range(1, 5)), inv(r, v, nv, 0, lcd, c, true)), inv(r, v, nv, e, 1, c, true)}; break; }
    default: { MP a = inv(r, v, nv, 1 + (int)r.below(std::max(1, D / 2)), lcd, c, sp); f = {model::mul(a, a), a, model::add(a, model::cst(1))}; }
    }
    if (r.chance(1, 12)) f.push_back(MP()); if (r.chance(1, 10)) f.push_back(model::cst((long)r.range(-9, 9))); if (r.chance(1, 10)) f.push_back(inv(r, (v + 1) % 4, 2, 2, 1, c, sp));
    if (r.chance(1, 10)) for (auto& x : f) x = gens::big_coeffs(r, x, 60 + (int)r.below(200));
    for (auto& x : f) { if (q && r.chance(1, 2)) x = model::scale(x, mpq_class((long)r.range(1, 9), (long)r.range(1, 9))); p.add("p", {model::text(x)}); }
    int k = 3 + (int)r.below(7), m = (int)f.size(); bool faults = r.chance(1, 3);
    for (int i = 0; i < k; ++i) {
        std::string at = "0", st = "0"; if (faults && r.chance(1, 2)) { at = N(1 + (long)r.below(r.chance(1, 2) ? 40 : 1500)); st = r.chance(1, 3) ? "1" : "0"; }
        auto R = [&] { return N((long)(r.chance(1, 2) ? r.below(2) : r.below(m))); }; std::string vv = N(r.chance(5, 6) ? v : (long)r.below(4)), a = R(), b = R(); if (a == b && r.chance(4, 5)) b = a == "0" ? "1" : "0";
        switch (r.below(10)) { case 0: case 1: p.add("res", {a, b, vv, at, st, r.chance(1, 4) ? N((long)r.below(m)) : "-1"}); break; case 2: p.add("disc", {a, vv, at, st}); break; case 3: case 4: p.add("chain", {a, b, vv, at, st, r.chance(1, 4) ? "0" : "1"}); break;
        case 5: case 6: p.add("prem", {a, b, vv, at, st, r.chance(1, 3) ? "0" : "1"}); break; case 7: case 8: p.add("pquo", {a, b, vv, at, st, r.chance(1, 3) ? "0" : "1"}); break; default: p.add("coef", {a, vv, at, st}); }
    }
    return p;
}
static u64 red(const mpq_class& q) { mpz_class P(std::to_string(PR)); mpz_class n = q.get_num() % P, d = q.get_den() % P; if (n < 0) n += P; u64 a = std::stoull(n.get_str()), b = std::stoull(d.get_str()); return b == 1 ? a : mulp(a, powp(b, PR - 2)); }
typedef std::vector<u64> Pt;
static U spec(const MP& f, int v, const Pt& pt) { U u(f.zero() ? 0 : model::deg(f, v) + 1, 0); for (auto& t : f.t) { u64 x = red(t.second); for (int i = 0; i < 6; ++i) if (i != v && t.first[i]) x = mulp(x, powp(pt[i], (u64)t.first[i])); u[t.first[v]] = addp(u[t.first[v]], x); } return u; }
static u64 det(std::vector<U> a) { size_t n = a.size(); u64 d = 1; for (size_t i = 0; i < n; ++i) { size_t k = i; while (k < n && !a[k][i]) ++k; if (k == n) return 0; if (k != i) { std::swap(a[k], a[i]); d = negp(d); } d = mulp(d, a[i][i]); u64 iv = powp(a[i][i], PR - 2); for (size_t r = i + 1; r < n; ++r) if (a[r][i]) { u64 f = mulp(a[r][i], iv); for (size_t c = i; c < n; ++c) a[r][c] = addp(a[r][c], negp(mulp(f, a[i][c]))); } } return d; }
// coefficient of x^k in the j-th subresultant, from its definition
static u64 subres(const U& F, const U& G, int j, int k) {
    int m = (int)F.size() - 1, l = (int)G.size() - 1, n = m + l - 2 * j; std::vector<U> a; auto row = [&](const U& f, int s) { U w; for (int c = 0; c < n; ++c) { int e = c + 1 < n ? m + l - j - 1 - c : k; e -= s; w.push_back(e >= 0 && e < (int)f.size() ? f[e] : 0); } a.push_back(w); };
    for (int s = l - j - 1; s >= 0; --s) row(F, s); for (int s = m - j - 1; s >= 0; --s) row(G, s); return det(a);
}
static u64 resv(const U& F, const U& G) { if (F.empty() || G.empty()) return 0; if (F.size() == 1 && G.size() == 1) return 1; return subres(F, G, 0, 0); }
static void pdiv(const U& G, const U& F, U& Q, U& R) { int g = (int)G.size() - 1, f = (int)F.size() - 1; R = G; Q.assign(std::max(0, g - f + 1), 0); u64 lc = F[f]; for (int i = g; i >= f; --i) { u64 t = R[i]; for (auto& x : R) x = mulp(x, lc); for (auto& x : Q) x = mulp(x, lc); Q[i - f] = addp(Q[i - f], t); for (int k = 0; k <= f; ++k) R[i - f + k] = addp(R[i - f + k], negp(mulp(t, F[k]))); } }
static uint64_t n_faults, n_def;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
template <class Tc, class comp> static void go(const sim::Plan& p, const comp* cp, sim::Rng& rng) {
    typedef polynomial_<Tc, comp> P; std::vector<P> R; std::vector<MP> M;
    for (auto& l : p.lines) if (l.key == "p" && !l.f.empty()) { MP m = model::parse(l.f[0]); if (m.t.size() > 400 || R.size() > 7) sim::invalid("size"); if (std::is_same<Tc, ZZ>::value && !model::integral(m)) sim::invalid("coefficients"); P q(cp); load(q, model::text(m)); R.push_back(std::move(q)); M.push_back(m); }
    if (R.empty()) sim::invalid("no polynomial"); uint64_t steps = 0, hard = 0; std::vector<std::string> txt; for (auto& q : R) txt.push_back(text(q));
    std::vector<Pt> pts; for (int i = 0; i < 3; ++i) { Pt t; for (int k = 0; k < 6; ++k) t.push_back(rng.next() % (PR - 2) + 1); pts.push_back(t); }
    auto back = [&](const P& q, const std::string& w) { std::string e = wf(q); if (!e.empty()) sim::fail("WF", w + ": " + e + ": " + text(q)); if (!comp_consistent(q.comp(), *cp)) sim::fail("WF", w + ": the result has another monomial order"); return model::parse(text(q)); };
    auto expect = [&](const MP& got, int v, const std::vector<U>& want, const std::string& w) { for (size_t i = 0; i < pts.size(); ++i) { U g = spec(got, v, pts[i]), e = want[i]; while (!g.empty() && !g.back()) g.pop_back(); while (!e.empty() && !e.back()) e.pop_back(); if (g != e) sim::fail("WRONG", w + ": wrong result " + model::text(got).substr(0, 600)); } };
    auto cost = [&](const MP& f, int v) { int t = 0; for (int i = 0; i < 6; ++i) if (i != v) t += std::max(0, model::deg(f, i)); return t; };
    for (auto& l : p.lines) {
        if (l.key == "ring" || l.key == "seed" || l.key == "p" || ++steps > 24) continue; auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); };
        std::string w = "step " + N(steps) + " " + l.key; for (auto& f : l.f) w += " " + f.substr(0, 40); bool two = l.key != "disc" && l.key != "coef"; int a = (int)(std::labs((long)sim::toint(A(0))) % R.size()), b = two ? (int)(std::labs((long)sim::toint(A(1))) % R.size()) : a, v = (int)(std::labs((long)sim::toint(A(two ? 2 : 1))) % 6);
        std::string at = A(two ? 3 : 2), st = A(two ? 4 : 3); const variable& X = vars()[v]; w += ": " + vars()[v].name() + "; " + model::text(M[a]).substr(0, 400) + (two ? " ; " + model::text(M[b]).substr(0, 400) : ""); sim::set_phase(w); sim::set_soft_limit(600000000ull);
        int da = M[a].zero() ? -1 : model::deg(M[a], v), db = M[b].zero() ? -1 : model::deg(M[b], v); std::set<int> vs; for (auto* f : {&M[a], &M[b]}) for (auto& t : f->t) for (int i = 0; i < 6; ++i) if (t.first[i]) vs.insert(i);
        std::vector<U> sa, sb; for (auto& t : pts) { sa.push_back(spec(M[a], v, t)); sb.push_back(spec(M[b], v, t)); } int big = std::max(da, db);
        if (big > 14 || (vs.size() > 3 && big > 4) || (vs.size() > 1 && big > 8)) continue; if (M[a].t.size() + M[b].t.size() > 160 || std::max(da, 1) * cost(M[b], v) + std::max(db, 1) * cost(M[a], v) > 120) continue;
        auto twice = [&](auto&& call, auto&& judge) { if (faulted(at, st, call)) { for (size_t i = 0; i < R.size(); ++i) if (text(R[i]) != txt[i]) sim::fail("CHANGED", w + ": an argument changed when memory ran out"); sim::check_heap(w.c_str()); { Lib l2; call(); } } judge(); for (size_t i = 0; i < R.size(); ++i) if (text(R[i]) != txt[i]) sim::fail("CHANGED", w + ": an argument changed"); };
        if (l.key == "res") { P o(cp); std::vector<U> e; bool over = (steps & 1) && A(5) == "-1"; // the form that writes into the caller's object, which holds an old value
            univariate_priority_order uo(X); polynomial_<Tc, univariate_priority_order> ua(&uo), ub(&uo), un(&uo); if (over) { Lib l2; poly_convert(R[a], ua); poly_convert(R[b], ub); un = ua; sim::count("resultants written over an old value"); }
            twice([&] { if (over) { resultant(un, ua, ub, X); o.clear(); poly_convert(un, o); } else o = resultant(R[a], R[b], X); }, [&] { MP g = back(o, w); for (size_t i = 0; i < pts.size(); ++i) e.push_back(U{resv(sa[i], sb[i])}); expect(g, v, e, w); sim::log("res " + N((long)sim::fnv(text(o)))); int d = (int)sim::toint(A(5)); if (d >= 0 && d < (int)R.size() && g.t.size() < 60) { { Lib l2; R[d] = o; } M[d] = g; txt[d] = text(o); } }); if (vs.size() > 3) sim::count("resultants of four or more variables"); }
        else if (l.key == "disc") { if constexpr (std::is_same<Tc, ZZ>::value) { if (da < 1) continue; P o(cp); twice([&] { o = discriminant(R[a], X); }, [&] { MP g = back(o, w); std::vector<U> e; bool ok = true; for (auto& f : sa) { U d; for (size_t i = 1; i < f.size(); ++i) d.push_back(mulp(f[i], i)); u64 x = resv(f, d); if (!f.back()) ok = false; x = mulp(x, powp(f.back(), PR - 2)); if (((long)da * (da - 1) / 2) & 1) x = negp(x); e.push_back(U{x}); } if (ok) expect(g, v, e, w); sim::log("disc " + N((long)sim::fnv(text(o)))); }); } }
        else if (l.key == "chain") {
            if (db < 1 || da < db) continue; bool list = A(5) != "0"; std::vector<P> o; twice([&] { o = subresultant(R[a], R[b], X, list); }, [&] {
                size_t u = da > db ? da : da + 1; if (o.size() != (list ? u + 1 : 1)) sim::fail("SHAPE", w + ": chain of length " + N((long)o.size())); int defects = 0;
                for (size_t j = 0; j < o.size(); ++j) { MP g = back(o[j], w); std::vector<U> e; std::string wj = w + ": entry " + N((long)j); if (list && j == u) e = sa; else if (list && j == u - 1) e = sb; else for (size_t i = 0; i < pts.size(); ++i) { U x; for (int k = 0; k <= (int)j; ++k) x.push_back((int)j < db ? subres(sa[i], sb[i], (int)j, k) : (int)j == db ? 0 : 0); if ((int)j == db) { x = sb[i]; u64 c = powp(sb[i].back(), (u64)(da - db - 1)); for (auto& y : x) y = mulp(y, c); } e.push_back(x); }
                    expect(g, v, e, wj); if (!g.zero() && model::deg(g, v) < (int)j && j + 1 < u) ++defects; }
                if (defects) { ++n_def; ++hard; } sim::log("chain " + N((long)o.size())); }); }
        else if (l.key == "prem" || l.key == "pquo") {
            bool full = A(5) != "0", q = l.key == "pquo"; P o(cp), o2(cp); bool thrown = false; auto call = [&] { try { if (full && (steps & 1)) { if (q) { o2 = pquo(o, R[a], R[b], X); o2 = pquo(R[a], R[b], X); } else o = prem(R[a], R[b], X); } else if (q) o2 = pquo(o, R[a], R[b], X, full); else o = prem(R[a], R[b], X, full); } catch (const std::invalid_argument&) { thrown = true; } };
            twice(call, [&] {
                if (M[b].zero()) { if (!thrown) sim::fail("ZERODIV", w + ": pseudo-division by zero does not throw"); return; } if (thrown) sim::fail("THROWN", w + ": threw for a nonzero divisor");
                MP r = back(o, w); MP qq; if (q) qq = back(o2, w); if (!r.zero() && db > 0 && model::deg(r, v) >= db) sim::fail("WRONG", w + ": remainder of degree " + N(model::deg(r, v)));
                if (db == 0) { if (!r.zero()) sim::fail("WRONG", w + ": nonzero remainder by a divisor free of the variable"); if (q) { std::vector<U> e; for (size_t i = 0; i < pts.size(); ++i) { U x = sa[i]; if (da > 0) { u64 c = powp(sb[i][0], (u64)da); for (auto& y : x) y = mulp(y, c); } e.push_back(x); } expect(qq, v, e, w); } return; }
                std::vector<U> eq, er; int most = std::max(0, da - db + 1); for (size_t i = 0; i < pts.size(); ++i) { U Q, S; if (da < db) { S = sa[i]; } else pdiv(sa[i], sb[i], Q, S); eq.push_back(Q); er.push_back(S); }
                if (full || most == 0) { expect(r, v, er, w + " (remainder)"); if (q) expect(qq, v, eq, w + " (quotient)"); }
                else { bool ok = false; for (int k = 0; k < most && !ok; ++k) { bool all = true; for (size_t i = 0; i < pts.size() && all; ++i) { u64 c = powp(sb[i].back(), (u64)k); auto cmpv = [&](const MP& g, U e) { U h = spec(g, v, pts[i]); for (auto& x : h) x = mulp(x, c); while (!h.empty() && !h.back()) h.pop_back(); while (!e.empty() && !e.back()) e.pop_back(); return h == e; }; all = cmpv(r, er[i]) && (!q || cmpv(qq, eq[i])); } ok = all; } if (!ok) sim::fail("WRONG", w + ": not a pseudo-remainder by any power of the leading coefficient: " + model::text(r).substr(0, 400)); }
                sim::log(l.key + " " + N((long)sim::fnv(text(o)))); if (da > db + 1) ++hard; }); }
        else if (l.key == "coef") {
            std::vector<P> c; P lc(cp); int64_t dg = 0, ld = 0; twice([&] { c = coeff(R[a], X); ld = leadcoeff(lc, R[a], X); dg = degree(R[a], X); }, [&] {
                std::vector<MP> e(std::max(0, da) + 1); for (auto& t : M[a].t) { model::Mono m = t.first; int k = m[v]; m[v] = 0; e[k].t[m] = t.second; }
                if (c.size() != e.size()) sim::fail("SHAPE", w + ": " + N((long)c.size()) + " coefficients"); for (size_t i = 0; i < c.size(); ++i) if (back(c[i], w) != e[i]) sim::fail("WRONG", w + ": coefficient " + N((long)i) + " is " + text(c[i])); if (back(lc, w) != e.back()) sim::fail("WRONG", w + ": leading coefficient " + text(lc)); if (ld != std::max(0, da) || dg != std::max(0, da)) sim::fail("WRONG", w + ": degree " + N(ld) + ", " + N(dg)); }); }
        sim::check_heap(w.c_str());
    }
    if (hard) sim::nontrivial(); if (n_faults) { sim::nontrivial(); sim::count("allocation failures", n_faults); } sim::count("chains with a defect", n_def);
    sim::sample(N((long)R.size()) + " polynomials, " + N((long)steps) + " steps");
}
static void exec(const sim::Plan& p) {
    init_vars(); n_faults = n_def = 0; const sim::Line* g = p.find("ring"); if (!g || g->f.size() < 3) sim::invalid("ring"); int kind = (int)(std::labs((long)sim::toint(g->f[0])) % 4); bool q = g->f[1] == "1"; sim::Rng rng((uint64_t)p.num("seed", 1));
    std::vector<variable> ord(vars().begin(), vars().end()); { sim::Rng z((uint64_t)sim::toint(g->f[2])); for (int i = 5; i > 0; --i) std::swap(ord[i], ord[z.below(i + 1)]); }
    static lex_<custom_var_order> c1{custom_var_order(std::vector<variable>())}; static grlex_<custom_var_order> c2{custom_var_order(std::vector<variable>())}; c1 = lex_<custom_var_order>{custom_var_order(ord)}; c2 = grlex_<custom_var_order>{custom_var_order(ord)};
#define K(c, ptr) do { if (q) go<QQ>(p, ptr, rng); else go<ZZ>(p, ptr, rng); } while (0)
    if (kind == 0) K(grlex, &grlex::init); else if (kind == 1) K(lex, &lex::init); else if (kind == 2) K(c1, &c1); else K(c2, &c2);
}
const sim::Scenario sim::scenario = {"C15", gen, exec, 3000000000ull, 60};
