// C18: dense univariate arithmetic modulo a prime (Karatsuba, half-GCD) against schoolbook arithmetic.
#include "lib.hh"
using namespace lib;
typedef uint64_t u64; typedef unsigned __int128 u128; typedef std::vector<u64> U; typedef dense_upoly_zp D; typedef upolynomial_<Zp> S;
static std::string N(long long v) { return std::to_string(v); }
static const u64 PR[] = {2, 3, 5, 7, 13, 101, 251, 65537, 1000000007ull, 2147483647ull, 4294967291ull, 4294967311ull, 2305843009213693951ull, 9223372036854775783ull, 18446744073709551557ull, 18446744073709551533ull,
    9223372036854775837ull, 13971694685687283973ull, 11696634261228434603ull, 5851883612412477421ull, 15544600561223ull, 2715913427ull}; // between powers of two too: there the precomputed inverses have all their bits
static u64 P;
static u64 mm(u64 a, u64 b) { return (u64)((u128)a * b % P); } static u64 am(u64 a, u64 b) { return (u64)(((u128)a + b) % P); } static u64 sm(u64 a, u64 b) { return a >= b ? a - b : a + (P - b); }
static u64 pm(u64 a, u64 e) { u64 r = 1 % P; for (a %= P; e; e >>= 1, a = mm(a, a)) if (e & 1) r = mm(r, a); return r; }
static void strip(U& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static U add(const U& a, const U& b) { U c(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < c.size(); ++i) c[i] = am(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0); strip(c); return c; }
static U sub(const U& a, const U& b) { U c(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < c.size(); ++i) c[i] = sm(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0); strip(c); return c; }
static U mul(const U& a, const U& b) { if (a.empty() || b.empty()) return U(); U c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j) if (b[j]) c[i + j] = am(c[i + j], mm(a[i], b[j])); return c; }
static void dr(U a, const U& b, U& q, U& r) { q.clear(); if (a.size() >= b.size()) { q.assign(a.size() - b.size() + 1, 0); u64 iv = pm(b.back(), P - 2); for (size_t i = q.size(); i-- > 0;) { u64 c = mm(a[i + b.size() - 1], iv); q[i] = c; if (c) for (size_t j = 0; j < b.size(); ++j) if (b[j]) a[i + j] = sm(a[i + j], mm(c, b[j])); } } strip(a); strip(q); r = a; }
static U monic(U a) { if (a.empty()) return a; u64 iv = pm(a.back(), P - 2); for (auto& x : a) x = mm(x, iv); return a; }
static U gcd(U a, U b) { U q, r; while (!b.empty()) { dr(a, b, q, r); a = std::move(b); b = std::move(r); } return monic(a); }
static U rnd(sim::Rng& r, size_t len, int style) { U a(len, 0); for (auto& x : a) switch (style) { case 0: x = r.next() % P; break; case 1: x = r.chance(1, 12) ? r.next() % P : 0; break; case 2: x = P - 1; break; case 3: x = P - 1 - r.below(std::min<u64>(P, 3)); break; default: x = r.below(std::min<u64>(P, 2)); } if (len && !a.back()) a.back() = 1 % P + (style == 2 ? P - 2 : 0); return a; }
static sim::Plan gen(sim::Rng& r, const std::string& tier) {
    sim::Plan p; p.add("field", {N((long)r.below(22))}); bool faults = r.chance(1, 4);
    auto len = [&]() -> long { switch (r.below(8)) { case 0: return (long)r.below(4); case 1: return 14 + (long)r.below(5); case 2: return 30 + (long)r.below(6); case 3: return 1 + (long)r.below(60); case 4: return 95 + (long)r.below(12); case 5: return 190 + (long)r.below(25); default: return r.chance(2, 3) ? 1 + (long)r.below(130) : 330 + (long)r.below(40); } };
    auto R = [&] { return N((long)r.below(4)); }; int n = 5 + (int)r.below(9); bool big = r.chance(1, tier == "thorough" ? 2 : 3);
    auto seq = [&] { // a remainder sequence built from its end: planned quotient degrees
        long total = big ? 340 + (long)r.below(r.chance(1, 4) ? 1000 : 420) : 20 + (long)r.below(330), g = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 1 + (long)r.below(20) : 1 + (long)r.below(std::max<long>(1, total / 2)); std::string q; long used = g; int mode = (int)r.below(5);
        long drop = r.chance(1, 2) ? total / 2 - 3 + (long)r.below(7) : (long)r.below(total); long dl = 1 + (long)r.below(std::max<long>(1, total / 2));
        while (used < total) { long e = 1; if (mode == 1 && r.chance(1, 10)) e = 2 + (long)r.below(30); if (mode == 2) e = 1 + (long)r.below(3); if (mode == 3 && r.chance(1, 30)) e = 20 + (long)r.below(200); if (mode == 4 && used >= drop && dl) { e = dl; dl = 0; } if (used + e > total) e = total - used; used += e; q += (q.empty() ? "" : ".") + N(e); }
        p.add("seq", {R(), R(), N((long)(r.next() >> 2)), N(g), q, N((long)(r.chance(2, 3) ? 0 : r.below(5)))}); };
    if (big || r.chance(1, 2)) seq(); for (int i = 0; i < 3; ++i) p.add("rnd", {R(), N((long)(r.next() >> 2)), N(len()), N((long)r.below(5))});
    if (r.chance(1, 2)) seq(); bool sq = r.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        std::string at = "0", st = "0"; if (faults && r.chance(1, 2)) { at = N(1 + (long)r.below(r.chance(1, 2) ? 6 : 40)); st = r.chance(1, 3) ? "1" : "0"; }
        std::string d = R(), a = R(), b = R(); if (sq && r.chance(1, 2)) { d = "2"; a = "0"; b = "1"; }
        switch (r.below(14)) { case 0: case 1: p.add("mul", {d, a, b, at, st}); break; case 2: p.add("add", {d, a, b, at, st}); break; case 3: p.add("sub", {d, a, b, at, st}); break; case 4: case 5: p.add("div", {d, R(), a, b, at, st}); break; case 6: case 7: case 8: p.add("gcd", {d, a, b, at, st}); break;
        case 9: p.add("smul", {d, N((long)(r.next() >> 2)), at, st}); break; case 10: p.add("round", {d, at, st}); break; case 11: p.add("ugcd", {a, b, at, st}); break; case 12: p.add("uop", {a, b, at, st}); break; default: if (r.chance(1, 3)) p.add("xn", {d, N(len()), N((long)r.below(3))}); else if (r.chance(1, 2)) p.add("rnd", {d, N((long)(r.next() >> 2)), N(len()), N((long)r.below(5))}); else seq(); }
    }
    return p;
}
static uint64_t n_faults, n_h;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
static std::string show(const U& a) { std::string o = "degree " + N((long)a.size() - 1) + " ["; for (size_t i = 0; i < a.size() && i < 8; ++i) o += (i ? " " : "") + std::to_string(a[i]); return o + (a.size() > 8 ? " ..]" : "]"); }
static S sparse(const U& a) { S s; for (size_t i = a.size(); i-- > 0;) if (a[i]) s.push_back({umonomial((int64_t)i), Zp((uint64_t)a[i], (uint64_t)P)}); return s; }
static U unsparse(const S& s, const std::string& w) { U a; int64_t last = INT64_MAX; for (auto& t : s) { if (t.first.deg() >= last || t.first.deg() < 0) sim::fail("FORM", w + ": terms not strictly decreasing"); last = t.first.deg(); if (t.second.prime() != P || t.second.number() == 0 || t.second.number() >= P) sim::fail("FORM", w + ": bad coefficient"); if (a.empty()) a.resize(last + 1, 0); a[last] = t.second.number(); } return a; }
static void exec(const sim::Plan& p) {
    n_faults = n_h = 0; long f = p.num("field", 0); P = PR[std::labs(f) % 22]; const int K = 4; std::vector<U> m(K); std::vector<D> R; { Lib l; R.reserve(K); for (int i = 0; i < K; ++i) R.emplace_back((uint64_t)P); } int steps = 0; uint64_t longest = 0;
    auto build = [&](const U& a) { Lib l; return D(sparse(a), P); };
    auto check = [&](const D& q, const U& w, const std::string& what) { if (q.prime() != P) sim::fail("PRIME", what + ": modulus " + std::to_string(q.prime())); if ((size_t)(q.deg() + 1) != w.size() || q.size() != w.size() || q.empty() != w.empty() || q.lead() != (w.empty() ? 0 : w.back())) sim::fail("WRONG", what + ": degree " + N(q.deg()) + " instead of " + N((long)w.size() - 1)); for (size_t i = 0; i <= w.size(); ++i) if (q[i] != (i < w.size() ? w[i] : 0)) sim::fail("WRONG", what + ": coefficient " + N((long)i) + " is " + std::to_string(q[i]) + " instead of " + std::to_string(i < w.size() ? w[i] : 0)); longest = std::max<uint64_t>(longest, w.size()); };
    for (auto& l : p.lines) {
        if (l.key == "field" || ++steps > 40) continue; auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto I = [&](size_t i) { return (int)(std::labs((long)sim::toint(A(i))) % K); };
        std::string w = "step " + N(steps) + " modulo " + std::to_string(P) + " " + l.key; for (auto& x : l.f) w += " " + x.substr(0, 60); sim::set_phase(w); sim::set_soft_limit(900000000ull);
        auto same = [&](int skip, int skip2 = -1) { for (int i = 0; i < K; ++i) if (i != skip && i != skip2) check(R[i], m[i], w + ", register " + N(i)); };
        auto put = [&](int d, const U& x) { m[d] = x; R[d] = build(x); check(R[d], x, w); };
        if (l.key == "rnd") { sim::Rng g((u64)sim::toint(A(1))); long n = std::labs((long)sim::toint(A(2))); if (n > 1600) sim::invalid("length"); put(I(0), rnd(g, n, (int)std::labs((long)sim::toint(A(3))) % 5)); }
        else if (l.key == "xn") { long n = std::labs((long)sim::toint(A(1))); if (n > 1600) sim::invalid("length"); U a(n + 1, 0); a[n] = 1 % P; a[0] = am(a[0], (u64)sim::toint(A(2)) % P); strip(a); put(I(0), a); }
        else if (l.key == "seq") { sim::Rng g((u64)sim::toint(A(2))); long n = std::labs((long)sim::toint(A(3))); int style = (int)std::labs((long)sim::toint(A(5))) % 5; if (n > 1600) sim::invalid("length"); U b = rnd(g, std::max<long>(1, n), 0), c; for (auto& t : sim::split(A(4), '.')) { if (t.empty()) continue; long e = std::labs((long)sim::toint(t)); if ((long)b.size() + e > 1700) break; U q = rnd(g, e + 1, style); U x = mul(q, b); x = add(x, c); c = b; b = x; } if (I(0) == I(1)) continue; put(I(0), b); put(I(1), c); }
        else if (l.key == "mul" || l.key == "add" || l.key == "sub" || l.key == "gcd") {
            int d = I(0), a = I(1), b = I(2); size_t sz = std::max(m[a].size(), m[b].size()); if (l.key == "mul" && sz > 1200) continue; U x = l.key == "mul" ? mul(m[a], m[b]) : l.key == "add" ? add(m[a], m[b]) : l.key == "sub" ? sub(m[a], m[b]) : gcd(m[a], m[b]);
            if (l.key == "gcd" && std::min(m[a].size(), m[b].size()) >= 340) ++n_h; 
            bool oom = faulted(A(3), A(4), [&] { if (l.key == "mul") D::mul(R[d], R[a], R[b]); else if (l.key == "add") D::add(R[d], R[a], R[b]); else if (l.key == "sub") D::sub(R[d], R[a], R[b]); else D::gcd(R[d], R[a], R[b]); });
            if (oom) { same(d); { Lib l2; if (l.key == "mul") { D t; D::mul(t, build(m[a]), build(m[b])); R[d] = std::move(t); } else R[d] = D(sparse(x), P); } }
            if (l.key == "gcd") { if (R[d].prime() != P && !x.empty()) sim::fail("PRIME", w + ": modulus of the gcd"); U y; for (size_t i = 0; i < R[d].size(); ++i) y.push_back(R[d][i]); if (!y.empty() && !y.back()) sim::fail("FORM", w + ": leading zero"); for (u64 c : y) if (c >= P) sim::fail("FORM", w + ": coefficient not reduced"); if (monic(y) != x) sim::fail("WRONG", w + ": gcd " + show(monic(y)) + " instead of " + show(x) + " for " + show(m[a]) + " and " + show(m[b])); m[d] = y; }
            else { m[d] = x; check(R[d], x, w); }
            same(d); sim::log(l.key + " " + N((long)m[d].size()));
        }
        else if (l.key == "div") { int d = I(0), e = I(1), a = I(2), b = I(3); if (d == e || m[b].empty()) continue; U q, r; dr(m[a], m[b], q, r); bool oom = faulted(A(4), A(5), [&] { D::divrem(R[d], R[e], R[a], R[b]); }); if (oom) { same(d, e); put(d, q); put(e, r); } m[d] = q; m[e] = r; check(R[d], q, w + " (quotient)"); check(R[e], r, w + " (remainder)"); same(-1); sim::log("div " + N((long)q.size()) + " " + N((long)r.size())); }
        else if (l.key == "smul") { int d = I(0); u64 c = (u64)sim::toint(A(1)) % P; U x = m[d]; for (auto& y : x) y = mm(y, c); strip(x); faulted(A(2), A(3), [&] { R[d].scalar_mul(c); }); m[d] = x; check(R[d], x, w); same(-1); }
        else if (l.key == "round") { int d = I(0); S s; bool oom = faulted(A(1), A(2), [&] { s = R[d].to_upoly(); D t(s, P); R[d] = std::move(t); }); if (!oom && unsparse(s, w) != m[d]) sim::fail("WRONG", w + ": the sparse form differs"); same(-1); }
        else if (l.key == "ugcd") { int a = I(0), b = I(1); S x = sparse(m[a]), y = sparse(m[b]), g; std::string tx = text(x), ty = text(y); bool oom = faulted(A(2), A(3), [&] { g = polynomial_GCD(x, y); }); if (text(x) != tx || text(y) != ty) sim::fail("CHANGED", w + ": an argument changed"); if (oom) { Lib l2; g = polynomial_GCD(x, y); } U e = gcd(m[a], m[b]); if (std::min(m[a].size(), m[b].size()) >= 340) ++n_h; if (unsparse(g, w) != e) sim::fail("WRONG", w + ": gcd " + show(unsparse(g, w)) + " instead of " + show(e)); sim::log("ugcd " + N((long)e.size())); }
        else if (l.key == "uop") { int a = I(0), b = I(1); if (m[a].size() > 260 || m[b].size() > 260) continue; S x = sparse(m[a]), y = sparse(m[b]), s, d, t, q, r; bool oom = faulted(A(2), A(3), [&] { s = x + y; d = x - y; t = x * y; if (!y.empty()) { polynomial_div(q, r, x, y); } }); if (oom) { Lib l2; s = x + y; d = x - y; t = x * y; if (!y.empty()) polynomial_div(q, r, x, y); }
            if (unsparse(s, w) != add(m[a], m[b])) sim::fail("WRONG", w + ": sparse sum"); if (unsparse(d, w) != sub(m[a], m[b])) sim::fail("WRONG", w + ": sparse difference"); if (unsparse(t, w) != mul(m[a], m[b])) sim::fail("WRONG", w + ": sparse product"); if (!m[b].empty()) { U eq, er; dr(m[a], m[b], eq, er); if (unsparse(q, w) != eq || unsparse(r, w) != er) sim::fail("WRONG", w + ": sparse quotient or remainder"); } sim::log("uop " + N((long)t.size())); }
        sim::check_heap(w.c_str());
    }
    if (longest > 100) sim::nontrivial(); if (n_faults) { sim::nontrivial(); sim::count("allocation failures", n_faults); } if (n_h) sim::count("half-GCD runs", n_h); sim::sample("modulo " + std::to_string(P) + ", " + N(steps) + " steps, longest " + N((long)longest));
}
const sim::Scenario sim::scenario = {"C18", gen, exec, 3000000000ull, 60};
