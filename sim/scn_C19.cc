// C19: sparse polynomial arithmetic with many variables and large exponents, against a naive dictionary model.
#include "lib.hh"
#include <gmpxx.h>
using namespace lib;
typedef std::map<int, int64_t> M;                       // variable index -> exponent
typedef std::map<M, mpz_class> W;                       // exact polynomial
static const int64_t LIM = (int64_t)1 << 61;
static std::vector<variable> V;                         // up to 80 variables

static W parse(const std::string& s, int nv) {          // c@i:e.i:e,...
    W w; for (auto& t : sim::split(s, ',')) { if (t.empty()) continue; auto cv = sim::split(t, '@'); mpz_class c; if (c.set_str(cv[0], 10)) sim::invalid("coefficient"); M m;
        if (cv.size() > 1) for (auto& x : sim::split(cv[1], '.')) { if (x.empty()) continue; auto ie = sim::split(x, ':'); if (ie.size() < 2) sim::invalid("term"); int i = (int)(std::labs((long)sim::toint(ie[0])) % nv); int64_t e = (int64_t)std::llabs(sim::toint(ie[1])); if (e > LIM) sim::invalid("exponent"); if (e) m[i] += e; }
        w[m] += c; if (w[m] == 0) w.erase(m); }
    return w;
}
static bool fits(const W& w) { if (w.size() > 700) return false; for (auto& t : w) { __int128 d = 0; for (auto& x : t.first) d += x.second; if (d >= LIM) return false; if (mpz_sizeinbase(t.second.get_mpz_t(), 2) > 3000) return false; } return true; }
static void acc(W& w, const M& m, const mpz_class& c) { auto& r = w[m]; r += c; if (r == 0) w.erase(m); }
static W mul(const W& a, const W& b, bool& ok) { W w; ok = true; for (auto& s : a) for (auto& t : b) { M m = s.first; for (auto& x : t.first) { int64_t& e = m[x.first]; e += x.second; if (e > LIM) { ok = false; return w; } } acc(w, m, s.second * t.second); if (w.size() > 900) { ok = false; return w; } } return w; }
static W lin(const W& a, const W& b, int k) { W w = a; for (auto& t : b) acc(w, t.first, t.second * k); return w; }
static std::string show(const W& w) { std::string o; int n = 0; for (auto& t : w) { if (++n > 12) { o += " ..."; break; } o += (o.empty() ? "" : ",") + t.second.get_str() + "@"; bool f = true; for (auto& x : t.first) { o += (f ? "" : ".") + std::to_string(x.first) + ":" + std::to_string(x.second); f = false; } } return "[" + o + "]"; }

static std::string terms(sim::Rng& r, int nv, int nt, const std::vector<int64_t>& ex, bool monic, int span) {
    std::string o; std::vector<int> vs; int k = 1 + (int)r.below(span); for (int i = 0; i < k; ++i) vs.push_back((int)r.below(nv));
    for (int t = 0; t < nt; ++t) {
        std::string c = monic && t == 0 ? "1" : r.chance(1, 8) ? std::to_string((int64_t)r.next()) : std::to_string(r.range(-9, 9)); if (c == "0") c = "1";
        o += (o.empty() ? "" : ",") + c + "@"; bool f = true; int n = (int)r.below(std::min<size_t>(4, vs.size()) + 1); if (r.chance(1, 6)) n = (int)vs.size();
        for (int j = 0; j < n; ++j) { int64_t e = r.chance(1, 3) ? 1 + (int64_t)r.below(5) : r.pick(ex) + r.range(-2, 2); if (e < 1) e = 1; o += (f ? "" : ".") + std::to_string(vs[(t + j) % vs.size()]) + ":" + std::to_string(e); f = false; }
    }
    return o;
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; int nv; switch (r.below(6)) { case 0: nv = 1; break; case 1: nv = 2 + (int)r.below(3); break; case 2: nv = 2 + (int)r.below(10); break; case 3: nv = 10 + (int)r.below(25); break; case 4: nv = 28 + (int)r.below(10); break; default: nv = 58 + (int)r.below(20); }
    int kind = (int)r.below(5); std::string perm; for (int i = 0; i < 6; ++i) perm += (i ? "." : "") + std::to_string(r.below(nv));
    p.add("ring", {std::to_string(kind), std::to_string(nv), perm});
    int n = 4 + (int)r.below(14); bool faults = r.chance(1, 3);
    int w = std::max(1, 64 / (nv + (kind == 0 || kind == 4 ? 1 : 0)));
    std::vector<int64_t> ex{1, 2, 3};
    for (int b : {w, w - 1, w - 2}) if (b > 0 && b < 60) { ex.push_back((int64_t)1 << b); ex.push_back(((int64_t)1 << b) / 2); ex.push_back(((int64_t)1 << b) - 1); }
    if (r.chance(1, 3)) { ex.push_back((int64_t)1 << 31); ex.push_back((int64_t)1 << 32); } if (r.chance(1, 3)) ex.push_back((int64_t)1 << (33 + r.below(24)));
    if (r.chance(1, 4)) ex = {1, 2, 5, 40};
    int span = r.chance(1, 2) ? nv : 1 + (int)r.below(nv); if (span > nv) span = nv;
    auto R = [&] { return std::to_string(r.below(4)); };
    for (int i = 0; i < 3; ++i) p.add("set", {std::to_string(i), terms(r, nv, 1 + (int)r.below(r.chance(1, 6) ? 40 : 7), ex, r.chance(1, 2), span)});
    for (int i = 0; i < n; ++i) {
        std::string at = "0", st = "0"; if (faults && r.chance(1, 2)) { at = std::to_string(1 + r.below(r.chance(1, 2) ? 6 : 60)); st = r.chance(1, 3) ? "1" : "0"; }
        switch (r.below(16)) {
        case 0: case 1: p.add("set", {R(), terms(r, nv, 1 + (int)r.below(r.chance(1, 6) ? 40 : 7), ex, r.chance(1, 2), span)}); break;
        case 2: case 3: case 4: p.add("mul", {R(), R(), R(), at, st}); break;
        case 5: case 6: p.add("quo", {R(), R(), R(), at, st}); break;
        case 7: { // division with remainder: a small power of the main part, a monic divisor
            int m = (int)r.below(nv), k = 2 + (int)r.below(30); std::string nt = "1@" + std::to_string(m) + ":" + std::to_string(k) + "," + terms(r, nv, 1 + (int)r.below(4), r.chance(1, 2) ? ex : std::vector<int64_t>{1, 2}, false, span), dt = "1@" + std::to_string(m) + ":" + std::to_string(1 + r.below(2)) + "," + terms(r, nv, 1 + (int)r.below(2), ex, false, span);
            p.add("set", {"4", nt}); p.add("set", {"5", dt}); p.add("rem", {"4", "5", at, st}); break; }
        case 8: p.add("rem", {R(), R(), at, st}); break;
        case 9: p.add(r.chance(1, 2) ? "add" : "sub", {R(), R(), R(), at, st}); break;
        case 10: p.add("pow", {R(), R(), std::to_string(r.below(5)), at, st}); break;
        case 11: p.add("der", {R(), R(), std::to_string(r.below(nv)), at, st}); break;
        case 12: case 13: p.add("mod", {R(), R(), std::to_string(r.below(6)), at, st}); break;
        case 14: p.add("ask", {R(), std::to_string(r.below(nv)), at, st}); break;
        default: p.add("conv", {R(), at, st});
        }
    }
    return p;
}
struct Ord { int kind; std::vector<int> rank; };                        // independent definition of the orders
static int cmp(const M& a, const M& b, const Ord& o) {
    if (o.kind == 0 || o.kind == 4) { int64_t x = 0, y = 0; for (auto& t : a) x += t.second; for (auto& t : b) y += t.second; if (x != y) return x > y ? 1 : -1; }
    for (int v : o.rank) { auto i = a.find(v), j = b.find(v); int64_t x = i == a.end() ? 0 : i->second, y = j == b.end() ? 0 : j->second; if (x != y) return x > y ? 1 : -1; }
    return 0;
}
static M lead(const W& w, const Ord& o) { const M* b = nullptr; for (auto& t : w) if (!b || cmp(t.first, *b, o) > 0) b = &t.first; return *b; }
static bool dividesm(const M& a, const M& b) { for (auto& t : a) { auto i = b.find(t.first); if (i == b.end() || i->second < t.second) return false; } return true; }
static uint64_t n_faults;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
template <class comp> static void go(const sim::Plan& p, const comp* cp, const Ord& o, int nv) {
    typedef polynomial_<ZZ, comp> P; std::vector<P> R(6, P(cp)); std::vector<W> m(6);
    std::map<size_t, int> idx; for (int i = 0; i < nv; ++i) idx[V[i].serial()] = i;
    auto build = [&](const W& w) { P q(cp); for (auto& t : w) { basic_monomial<comp> k(cp); for (auto& x : t.first) k.push_back({V[x.first], x.second}); k.normalization(); q.push_back({std::move(k), ZZ(t.second.get_str())}); } q.normalization(); return q; };
    uint64_t steps = 0, big = 0;
    auto check = [&](const P& q, const W& w, const std::string& what) {
        sim::Host h; W g; const M* last = nullptr; std::vector<M> ms; ms.reserve(q.size());
        for (auto& t : q) { M k; int64_t d = 0; for (auto& x : t.first) { auto i = idx.find(x.first.serial()); if (i == idx.end()) sim::fail("WRONG", what + ": unknown variable in the result"); if (x.second == 0 || k.count(i->second)) sim::fail("WF", what + ": a monomial of the result is malformed"); k[i->second] = x.second; d += x.second; }
            if (d != t.first.deg()) sim::fail("WF", what + ": stored degree " + std::to_string(t.first.deg()) + " of a monomial of degree " + std::to_string(d));
            ms.push_back(k); if (last && cmp(*last, ms.back(), o) <= 0) sim::fail("ORDER", what + ": terms are not strictly decreasing in the monomial order"); last = &ms.back();
            mpz_class c(str(t.second)); if (c == 0) sim::fail("WF", what + ": a zero coefficient is stored"); g[k] = c; }
        if (g != w) sim::fail("WRONG", what + ": got " + show(g) + ", expected " + show(w));
        uint64_t hsh = 0; for (auto& t : g) hsh = sim::mix(hsh, sim::fnv(t.second.get_str())); sim::log(what.substr(0, 40) + " " + std::to_string(g.size()) + " " + std::to_string(hsh));
        for (auto& t : w) for (auto& x : t.first) if (x.second > 60000) { ++big; return; }
    };
    auto same = [&](const std::string& w) { for (int i = 0; i < 6; ++i) check(R[i], m[i], w + ", register " + std::to_string(i)); };
    for (auto& l : p.lines) {
        auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto U = [&](size_t i) { return (int)(std::labs((long)sim::toint(A(i))) % 6); };
        if (l.key == "ring" || ++steps > 60) continue; std::string w = "step " + std::to_string(steps) + " " + l.key; for (auto& f : l.f) w += " " + f.substr(0, 160); sim::set_phase(w);
        if (l.key == "set") { W x = parse(A(1), nv); if (!fits(x)) sim::invalid("size"); m[U(0)] = x; R[U(0)] = build(x); check(R[U(0)], x, w); continue; }
        if (l.key == "mul" || l.key == "add" || l.key == "sub") { int d = U(0), a = U(1), b = U(2); bool ok = true; W x = l.key == "mul" ? mul(m[a], m[b], ok) : lin(m[a], m[b], l.key == "add" ? 1 : -1); if (!ok || !fits(x)) continue;
            P t(cp); bool oom = faulted(A(3), A(4), [&] { t = l.key == "mul" ? R[a] * R[b] : l.key == "add" ? R[a] + R[b] : R[a] - R[b]; }); if (!oom) { check(t, x, w); Lib b2; R[d] = std::move(t); } if (!oom) m[d] = x; same(w); }
        else if (l.key == "quo") { int d = U(0), a = U(1), b = U(2); if (m[b].empty()) continue; bool ok; W x = mul(m[a], m[b], ok); if (!ok || !fits(x)) continue; P t(cp), q = build(x); W keep = m[a];
            bool oom = faulted(A(3), A(4), [&] { t = q / R[b]; }); check(q, x, w + ": the dividend"); if (!oom) { check(t, keep, w); { Lib b2; R[d] = std::move(t); } m[d] = keep; } same(w); }
        else if (l.key == "rem") { int a = U(0), b = U(1); if (m[b].empty()) continue; M lm = lead(m[b], o); mpz_class lc = m[b][lm]; if (abs(lc) != 1) continue; P q(cp), r(cp);
            if (m[a].size() > 200 || m[b].size() > 60) continue; W s = m[a]; W mq; bool ok = true; int it = 0; W mr; // the reference division first: it bounds the work
            while (!s.empty()) { if (++it > 1500 || s.size() > 800) { ok = false; break; } M k = lead(s, o); mpz_class c = s[k]; if (!dividesm(lm, k)) { mr[k] = c; s.erase(k); continue; }
                M f = k; for (auto& x : lm) { auto& e = f[x.first]; e -= x.second; if (!e) f.erase(x.first); } c *= lc; mq[f] = c; bool ok2; W one; one[f] = -c; s = lin(s, mul(one, m[b], ok2), 1); if (!ok2 || !fits(s)) { ok = false; break; } }
            if (!ok) continue; bool oom = faulted(A(2), A(3), [&] { polynomial_div(q, r, R[a], R[b]); }); if (!oom) { check(q, mq, w + ": quotient"); check(r, mr, w + ": remainder"); sim::count("divisions with remainder"); { P r2(cp); { Lib b2; r2 = polynomial_rem(R[a], R[b]); } check(r2, mr, w + ": remainder alone"); }
                P x = R[a], y = R[b]; int mode = (int)(m[a].size() + 3 * m[b].size() + (size_t)a) % 8; { Lib b2; switch (mode) { case 0: polynomial_div(x, r, x, y); break; case 1: polynomial_div(y, r, x, y); break; case 2: polynomial_div(q, x, x, y); break; case 3: polynomial_div(q, y, x, y); break; case 4: polynomial_div(x, y, x, y); break; case 5: polynomial_div(y, x, x, y); break; case 6: if (mr.empty()) polynomial_div(x, x, y); else polynomial_div(x, r, x, y); break; default: if (mr.empty()) polynomial_div(y, x, y); else polynomial_div(y, r, x, y); } }
                const P& gq = mode == 0 || mode == 4 || mode == 6 ? x : mode == 1 || mode == 5 || mode == 7 ? y : q; const P& gr = mode == 2 || mode == 5 ? x : mode == 3 || mode == 4 ? y : r; check(gq, mq, w + ": quotient stored over an operand"); if (!(mode >= 6 && mr.empty())) check(gr, mr, w + ": remainder stored over an operand"); sim::count("divisions into an operand"); } same(w); }
        else if (l.key == "pow") { int d = U(0), a = U(1), n = (int)(std::labs((long)sim::toint(A(2))) % 8); W x; x[M()] = 1; bool ok = true; for (int i = 0; i < n && ok; ++i) { x = mul(x, m[a], ok); ok = ok && fits(x); } if (!ok) continue; P t(cp); bool oom = faulted(A(3), A(4), [&] { t = pow(R[a], n); }); if (!oom) { check(t, x, w); { Lib b2; R[d] = std::move(t); } m[d] = x; } same(w); }
        else if (l.key == "der") { int d = U(0), a = U(1), v = (int)(std::labs((long)sim::toint(A(2))) % nv); W x; for (auto& t : m[a]) { auto i = t.first.find(v); if (i == t.first.end()) continue; M k = t.first; mpz_class c = t.second * mpz_class(std::to_string(i->second)); if (--k[v] == 0) k.erase(v); acc(x, k, c); } P t(cp); bool oom = faulted(A(3), A(4), [&] { t = derivative(R[a], V[v]); }); if (!oom) { check(t, x, w); { Lib b2; R[d] = std::move(t); } m[d] = x; } same(w); }
        else if (l.key == "mod") { int a = U(0), b = U(1); static const uint64_t PR[] = {2, 3, 65537, 18446744073709551557ull, 9223372036854775837ull, 11696634261228434603ull}; uint64_t pr = PR[std::labs((long)sim::toint(A(2))) % 6]; mpz_class pz(std::to_string(pr)); auto red = [&](const W& x) { W y; for (auto& t : x) { mpz_class c = t.second % pz; if (c < 0) c += pz; if (c != 0) y[t.first] = c; } return y; };
            W x = red(m[a]), y = red(m[b]); if (x.empty() || y.empty()) continue; bool ok; W z = mul(x, y, ok); if (!ok || !fits(z)) continue; z = red(z); polynomial_<Zp, comp> f(cp), g(cp), h(cp), q(cp);
            bool oom = faulted(A(3), A(4), [&] { f = polynomial_mod(R[a], pr); g = polynomial_mod(R[b], pr); h = f * g; q = h / g; });
            if (!oom) { auto tow = [&](const polynomial_<Zp, comp>& u) { sim::Host hh; W v; for (auto& t : u) { M k; for (auto& e : t.first) k[idx[e.first.serial()]] = e.second; if (!t.second || t.second.prime() != pr) sim::fail("WF", w + ": a coefficient is zero or has another modulus"); v[k] = mpz_class(std::to_string(t.second.number())); } return v; };
                if (tow(f) != x) sim::fail("WRONG", w + ": the reduction is " + show(tow(f)) + ", expected " + show(x)); if (tow(h) != z) sim::fail("WRONG", w + ": the product is " + show(tow(h)) + ", expected " + show(z)); if (tow(q) != x) sim::fail("WRONG", w + ": the quotient is " + show(tow(q)) + ", expected " + show(x)); sim::count("modular products"); } same(w); }
        else if (l.key == "ask") { int a = U(0), v = (int)(std::labs((long)sim::toint(A(1))) % nv); int64_t td = 0, dv = 0; std::set<int> vs; std::map<int64_t, W> co; for (auto& t : m[a]) { int64_t d = 0; for (auto& e : t.first) { d += e.second; vs.insert(e.first); } td = std::max(td, d); auto i = t.first.find(v); int64_t e = i == t.first.end() ? 0 : i->second; dv = std::max(dv, e); M k = t.first; k.erase(v); co[e][k] = t.second; }
            int64_t gd = 0, gv = 0; std::vector<size_t> gs; bool oom = faulted(A(2), A(3), [&] { gd = degree(R[a]); gv = degree(R[a], V[v]); for (auto& x : get_variables(R[a])) gs.push_back(x.first.serial()); });
            if (!oom && !m[a].empty()) { if (gd != td) sim::fail("WRONG", w + ": total degree " + std::to_string(gd) + ", expected " + std::to_string(td)); if (gv != dv) sim::fail("WRONG", w + ": degree " + std::to_string(gv) + " in one variable, expected " + std::to_string(dv)); std::set<int> g2; for (auto x : gs) g2.insert(idx[x]); if (g2 != vs || gs.size() != vs.size()) sim::fail("WRONG", w + ": wrong set of variables"); } same(w); }
        else if (l.key == "conv") { int a = U(0); polynomial_<ZZ, lex> t; polynomial_ZZ g; P back(cp); bool oom = faulted(A(1), A(2), [&] { poly_convert(R[a], t); poly_convert(t, g); poly_convert(g, back); }); if (!oom) { check(back, m[a], w); if (t.size() != m[a].size()) sim::fail("WRONG", w + ": the converted polynomial has " + std::to_string(t.size()) + " terms instead of " + std::to_string(m[a].size())); } same(w); }
        sim::check_heap(w.c_str());
    }
    if (big) sim::nontrivial(); if (n_faults) { sim::nontrivial(); sim::count("allocation failures", n_faults); } sim::count("results with exponents above 60000", big);
    sim::sample(std::to_string(nv) + " variables, order " + std::to_string(o.kind) + ", " + std::to_string(steps) + " steps");
}
static void exec(const sim::Plan& p) {
    n_faults = 0; const sim::Line* g = p.find("ring"); if (!g || g->f.size() < 3) sim::invalid("ring"); int kind = (int)(std::labs((long)sim::toint(g->f[0])) % 5), nv = (int)std::labs((long)sim::toint(g->f[1])); if (nv < 1 || nv > 90) sim::invalid("variables");
    V.clear(); for (int i = 0; i < nv; ++i) V.push_back(variable::get_variable("v" + std::to_string(i)));
    Ord o; o.kind = kind; std::vector<int> first; for (auto& s : sim::split(g->f[2], '.')) { int v = (int)(std::labs((long)sim::toint(s)) % nv); bool dup = false; for (int x : first) dup |= x == v; if (!dup) first.push_back(v); }
    if (kind == 0 || kind == 1) first.clear(); if (kind == 3) first.resize(1); o.rank = first; for (int i = 0; i < nv; ++i) { bool in = false; for (int x : first) in |= x == i; if (!in) o.rank.push_back(i); }
    std::vector<variable> cv; for (int x : first) cv.push_back(V[x]); sim::set_tick_limit(1000000000ull);
    if (kind == 0) { go<grlex>(p, &grlex::init, o, nv); }
    else if (kind == 1) go<lex>(p, &lex::init, o, nv);
    else if (kind == 2) { lex_<custom_var_order> c{custom_var_order(cv)}; go(p, &c, o, nv); }
    else if (kind == 3) { univariate_priority_order c(cv[0]); go(p, &c, o, nv); }
    else { grlex_<custom_var_order> c{custom_var_order(cv)}; go(p, &c, o, nv); }
}
const sim::Scenario sim::scenario = {"C19", gen, exec, 3000000000ull, 60};
