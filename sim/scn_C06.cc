// C06: results with an explicit prime, and integer results, do not depend on the process-wide default modulus; only the setter changes it.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP; using model::Mono;
typedef uint64_t u64; typedef unsigned __int128 u128;
static std::string N(long long v) { return std::to_string(v); }
static std::string NU(u64 v) { return std::to_string(v); }
static const u64 PR[] = {2, 3, 5, 7, 13, 101, 251, 65537, 2147483647ull, 4294967311ull, 1000000007ull, 2305843009213693951ull, 9223372036854775783ull, 18446744073709551557ull, 9223372036854775837ull, 13971694685687283973ull, 5851883612412477421ull, 2715913427ull};
static const int NP = 18;
// ---- model arithmetic modulo p
static u64 addm(u64 a, u64 b, u64 p) { return (u64)(((u128)a + b) % p); }
static u64 subm(u64 a, u64 b, u64 p) { return (u64)(((u128)a + p - b) % p); }
static u64 mulm(u64 a, u64 b, u64 p) { return (u64)((u128)a * b % p); }
static u64 powm(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); } return r; }
static u64 invm(u64 a, u64 p) { return powm(a, p - 2, p); }
static u64 modz(const mpz_class& z, u64 p) { mpz_class m; mpz_set_ui(m.get_mpz_t(), p); mpz_class r; mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t()); return mpz_get_ui(r.get_mpz_t()); }
struct ZM { std::map<Mono, u64> t; u64 p = 0; };
static ZM zred(const MP& m, u64 p) { ZM o; o.p = p; for (auto& x : m.t) { u64 c = modz(x.second.get_num(), p); if (c) o.t[x.first] = c; } return o; }
static void zput(ZM& o, const Mono& m, u64 c) { if (!c) return; auto& x = o.t[m]; x = addm(x, c, o.p); if (!x) o.t.erase(m); }
static ZM zadd(const ZM& a, const ZM& b) { ZM o = a; for (auto& x : b.t) zput(o, x.first, x.second); return o; }
static ZM zscale(const ZM& a, u64 c) { ZM o; o.p = a.p; for (auto& x : a.t) zput(o, x.first, mulm(x.second, c, a.p)); return o; }
static ZM zneg(const ZM& a) { return zscale(a, a.p - 1); }
static Mono mmul(const Mono& a, const Mono& b) { Mono m; for (int i = 0; i < model::NV; ++i) m[i] = a[i] + b[i]; return m; }
static ZM zmul(const ZM& a, const ZM& b) { ZM o; o.p = a.p; for (auto& x : a.t) for (auto& y : b.t) zput(o, mmul(x.first, y.first), mulm(x.second, y.second, a.p)); return o; }
static ZM zpow(const ZM& a, int n) { ZM o; o.p = a.p; o.t[Mono{}] = 1 % a.p; for (int i = 0; i < n; ++i) o = zmul(o, a); return o; }
static ZM zderiv(const ZM& a, int v) { ZM o; o.p = a.p; for (auto& x : a.t) if (x.first[v]) { Mono m = x.first; --m[v]; zput(o, m, mulm(x.second, (u64)x.first[v] % a.p, a.p)); } return o; }
static ZM zsubst(const ZM& a, int v, u64 c) { ZM o; o.p = a.p; for (auto& x : a.t) { Mono m = x.first; int e = m[v]; m[v] = 0; zput(o, m, mulm(x.second, powm(c, (u64)e, a.p), a.p)); } return o; }
static Mono zlead(const ZM& a, model::Order o) { const Mono* b = nullptr; for (auto& x : a.t) if (!b || model::mless(*b, x.first, o)) b = &x.first; return *b; }
static bool mdiv(const Mono& a, const Mono& b, Mono& q) { for (int i = 0; i < model::NV; ++i) if ((q[i] = a[i] - b[i]) < 0) return false; return true; }
static void zrem(ZM f, const ZM& g, model::Order o, ZM& q, ZM& r) {   // full reduction by one divisor
    q = ZM(); r = ZM(); q.p = r.p = f.p; Mono l = zlead(g, o); u64 li = invm(g.t.at(l), f.p);
    while (!f.t.empty()) { Mono m = zlead(f, o), k; u64 c = f.t[m]; if (mdiv(m, l, k)) { u64 z = mulm(c, li, f.p); zput(q, k, z); for (auto& x : g.t) zput(f, mmul(x.first, k), subm(0, mulm(x.second, z, f.p), f.p)); } else { r.t[m] = c; f.t.erase(m); } }
}
static ZM zgcd(ZM a, ZM b) { ZM q, r; while (!b.t.empty()) { zrem(a, b, model::LEX, q, r); a = b; b = r; } if (a.t.empty()) return a; return zscale(a, invm(a.t.at(zlead(a, model::LEX)), a.p)); }
static std::string show(const ZM& a) { std::string s; for (auto i = a.t.rbegin(); i != a.t.rend(); ++i) { int n = model::NV; while (n && !i->first[n - 1]) --n; if (!s.empty()) s += ','; s += NU(i->second) + "@"; for (int k = 0; k < n; ++k) s += (k ? "." : "") + N(i->first[k]); } return s + " mod " + NU(a.p); }
// ---- plans
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; auto P = [&] { return NU(PR[r.below(NP)]); }; std::string main = P(); auto PP = [&] { return r.chance(3, 4) ? main : P(); };
    p.add("start", {r.chance(1, 4) ? std::string("0") : P()}); p.add("kind", {r.chance(1, 2) ? "lex" : "grlex"}); bool faults = r.chance(1, 2); auto at = [&] { return faults && r.chance(1, 3) ? N(1 + (long)r.below(r.chance(1, 2) ? 6 : 150)) : std::string("0"); };
    auto bigz = [&] { switch (r.below(4)) { case 0: return gens::bigint(r, 90).get_str(); case 1: return N((long)r.range(-20, 20)); case 2: return NU(r.next() >> 1); default: { mpz_class z(NU(PR[r.below(NP)])); z += (long)r.range(-1, 1); return z.get_str(); } } };
    auto poly = [&](int nv, int d, int t) { MP m = r.chance(1, 25) ? MP() : model::random_poly(r, nv, d, t, r.chance(1, 2) ? 9 : 1000000007); if (r.chance(1, 3)) m = gens::big_coeffs(r, m, 70); return model::text(m); };
    int n = 6 + (int)r.below(r.chance(1, 4) ? 60 : 20); auto R = [&] { return N((long)r.below(200)); };
    for (int i = 0; i < 2; ++i) { p.add("poly", {PP(), poly(3, 3, 5), "0", "0"}); p.add("upoly", {PP(), poly(1, 8, 7), "0", "0"}); p.add("el", {PP(), bigz(), N((long)r.below(4))}); }
    for (int i = 0; i < n; ++i) switch (r.below(16)) {
    case 0: case 1: case 2: p.add("set", {P()}); break;
    case 3: p.add("el", {PP(), bigz(), N((long)r.below(4))}); break;
    case 4: p.add("def", {bigz()}); break;
    case 5: case 6: p.add("eop", {R(), R(), N((long)r.below(13)), N((long)r.range(-40, 40))}); break;
    case 7: p.add("poly", {PP(), poly(2 + (int)r.below(2), 1 + (int)r.below(5), 1 + (int)r.below(8)), at(), N((long)r.below(2))}); break;
    case 8: p.add("upoly", {PP(), poly(1, 1 + (int)r.below(25), 2 + (int)r.below(20)), at(), N((long)r.below(2))}); break;
    case 9: case 10: case 11: p.add("pop", {R(), R(), N((long)r.below(12)), at(), N((long)r.below(2)), N((long)r.below(3)), N((long)r.range(0, 5))}); break;
    case 12: case 13: case 14: p.add("uop", {R(), R(), N((long)r.below(14)), at(), N((long)r.below(2)), N((long)r.range(0, 6))}); break;
    default: { auto q = gens::gcd_pair(r); auto cap = [&](const MP& m) { return model::tdeg(m) > 6 || m.t.size() > 12 ? model::random_poly(r, 2, 2, 3, 5) : m; }; p.add("zop", {N((long)r.below(5)), model::text(cap(q.a)), model::text(cap(q.b)), at(), N((long)r.below(2)), N((long)r.below(1000000)), P()}); break; }
    }
    return p;
}
static uint64_t n_faults, n_ops, n_sets, n_mixed;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1"); u64 d = Zp::cur_prime();
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed");
    if (Zp::cur_prime() != d) sim::fail("MODULUS", std::string(out ? "interrupted " : "") + "call changed the default modulus from " + NU(d) + " to " + NU(Zp::cur_prime())); ++n_ops; return out;
}
template <class P> static ZM read(const P& a, u64 p, const std::string& w) {   // structure and modulus of every coefficient
    sim::Host h; ZM o; o.p = p; const std::string t = text(a); std::string e; size_t n = 0;
    for (auto& x : a) { if (x.second.prime() != p) sim::fail("PRIME", w + ": a coefficient belongs to modulus " + NU(x.second.prime()) + " instead of " + NU(p) + " in " + t); if (x.second.number() == 0 || x.second.number() >= p) sim::fail("FORM", w + ": coefficient " + NU(x.second.number()) + " in " + t); ++n; }
    for (auto& tm : sim::split(t, ',')) { if (tm.empty()) continue; auto cv = sim::split(tm, '@'); Mono m{}; if (cv.size() > 1 && !cv[1].empty()) { auto ex = sim::split(cv[1], '.'); for (size_t i = 0; i < ex.size() && i < (size_t)model::NV; ++i) m[i] = (int)sim::toint(ex[i]); } u64 c = strtoull(cv[0].c_str(), nullptr, 10); if (o.t.count(m)) sim::fail("FORM", w + ": repeated monomial in " + t); o.t[m] = c; }
    return o;
}
template <class P> static void same(const P& a, const ZM& want, const std::string& w) { if (a.empty() && want.t.empty()) return; ZM g = read(a, want.p, w); if (g.t != want.t) sim::fail("VALUE", w + " (default modulus " + NU(Zp::cur_prime()) + "): result " + show(g) + ", expected " + show(want)); }
static void elsame(const Zp& z, u64 v, u64 p, const std::string& w) { if (z.prime() != p) sim::fail("PRIME", w + ": element of modulus " + NU(p) + " now has modulus " + NU(z.prime())); if (z.number() != v) sim::fail("VALUE", w + " (default modulus " + NU(Zp::cur_prime()) + "): element is " + NU(z.number()) + ", expected " + NU(v) + " mod " + NU(p)); }
struct El { Zp z; u64 v, p; };
template <class P> struct Reg { P a; ZM m; };
static u64 prime(const std::string& s) { u64 p = strtoull(s.c_str(), nullptr, 10); for (u64 q : PR) if (q == p) return p; sim::invalid("prime"); }
static const char* const ENAME[] = {"+", "-", "*", "/", "inv", "neg", "pow", "*int", "==int", "+=", "*=", "/=", "copy"};
template <class comp> static void go(const sim::Plan& p, model::Order ord) {
    typedef polynomial_<Zp, comp> P; typedef upolynomial_<Zp> UPo; std::vector<El> E; std::vector<Reg<P>> A; std::vector<Reg<UPo>> B; uint64_t steps = 0; u64 cur = Zp::cur_prime();
    auto X = [](int e) { return umonomial(e); }; (void)X;
    for (auto& l : p.lines) {
        auto a = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto U = [&](size_t i) { return (size_t)std::labs((long)sim::toint(a(i))); };
        if (l.key == "start" || l.key == "kind") continue; if (steps > 150) break; ++steps; std::string w = "step " + N((long)steps) + " " + l.key; for (auto& f : l.f) w += " " + f; sim::set_phase(w);
        auto parse = [&](const std::string& s) { MP m; try { m = model::parse(s); } catch (...) { sim::invalid("polynomial"); } if (!model::integral(m) || model::tdeg(m) > 40 || m.t.size() > 60) sim::invalid("polynomial"); return m; };
        if (Zp::cur_prime() != cur) sim::fail("MODULUS", w + ": default modulus was changed to " + NU(Zp::cur_prime()));
        if (l.key == "set") { cur = prime(a(0)); { Lib b; Zp::set_prime(cur); } if (Zp::cur_prime() != cur) sim::fail("MODULUS", "set_prime(" + NU(cur) + ") is not read back"); ++n_sets; }
        else if (l.key == "el") { u64 q = prime(a(0)); mpz_class z; try { z = mpz_class(a(1)); } catch (...) { sim::invalid("integer"); } int how = (int)(U(2) % 4); u64 v = modz(z, q); std::unique_ptr<Zp> e; Lib b;
            if (how == 1 && z.fits_slong_p()) e.reset(new Zp((int64_t)z.get_si(), q)); else if (how == 2 && z >= 0 && z.fits_ulong_p()) e.reset(new Zp((uint64_t)z.get_ui(), q)); else if (how == 3) { e.reset(new Zp((uint64_t)q)); *e = ZZ(a(1)); } else e.reset(new Zp(ZZ(a(1)), q)); sim::Host h; elsame(*e, v, q, w); E.push_back({*e, v, q}); }
        else if (l.key == "def") { if (!cur) continue; mpz_class z; try { z = mpz_class(a(0)); } catch (...) { sim::invalid("integer"); } Zp e; elsame(e, 0, cur, w + ": default-constructed element"); { Lib b; e = ZZ(a(0)); } u64 v = modz(z, cur); elsame(e, v, cur, w); E.push_back({e, v, cur}); }
        else if (l.key == "eop") {
            if (E.empty()) continue; size_t i = U(0) % E.size(), j = U(1) % E.size(); for (size_t k = 0; k < E.size() && E[j].p != E[i].p; ++k) j = (j + 1) % E.size(); int op = (int)(U(2) % 13); long n = (long)sim::toint(a(3)); El x = E[i], y = E[j]; u64 q = x.p, v = 0; Zp z = x.z; if (q != cur) ++n_mixed;
            { Lib b; switch (op) { case 0: z = x.z + y.z; v = addm(x.v, y.v, q); break; case 1: z = x.z - y.z; v = subm(x.v, y.v, q); break; case 2: z = x.z * y.z; v = mulm(x.v, y.v, q); break; case 3: if (!y.v) continue; z = x.z / y.z; v = mulm(x.v, invm(y.v, q), q); break; case 4: if (!x.v) continue; z = x.z.inv(); v = invm(x.v, q); break; case 5: z = -x.z; v = subm(0, x.v, q); break;
                case 6: z = pow(x.z, std::labs(n)); v = powm(x.v, (u64)std::labs(n), q); break; case 7: z = x.z * (int64_t)n; v = mulm(x.v, modz(mpz_class(n), q), q); break; case 8: { bool e = x.z == (int64_t)n; if (e != (x.v == modz(mpz_class(n), q))) sim::fail("VALUE", w + ": comparison with an integer"); v = x.v; break; } case 9: z += y.z; v = addm(x.v, y.v, q); break; case 10: z *= y.z; v = mulm(x.v, y.v, q); break; case 11: if (!y.v) continue; z /= y.z; v = mulm(x.v, invm(y.v, q), q); break; default: z = Zp(x.z); v = x.v; } }
            elsame(z, v, q, w + " (" + ENAME[op] + ")"); E.push_back({z, v, q}); ++n_ops;
        }
        else if (l.key == "poly") { u64 q = prime(a(0)); MP m = parse(a(1)); for (int i = 3; i < model::NV; ++i) if (model::uses(m, i)) sim::invalid("variables"); polynomial_<ZZ, comp> z; load(z, a(1)); P r; bool oom = faulted(a(2), a(3), [&] { r = polynomial_mod(z, q); }); if (oom) continue; ZM v = zred(m, q); same(r, v, w); A.push_back({std::move(r), v}); }
        else if (l.key == "upoly") { u64 q = prime(a(0)); MP m = parse(a(1)); for (int i = 1; i < model::NV; ++i) if (model::uses(m, i)) sim::invalid("variables"); auto z = upoly<ZZ>(a(1)); UPo r; bool oom = faulted(a(2), a(3), [&] { r = polynomial_mod(z, q); }); if (oom) continue; ZM v = zred(m, q); same(r, v, w); B.push_back({std::move(r), v}); }
        else if (l.key == "pop") {
            if (A.empty()) continue; size_t i = U(0) % A.size(), j = U(1) % A.size(); for (size_t k = 0; k < A.size() && A[j].m.p != A[i].m.p; ++k) j = (j + 1) % A.size(); auto &x = A[i], &y = A[j]; u64 q = x.m.p; int op = (int)(U(2) % 12), v = (int)(U(5) % 3), n = (int)(U(6) % 6); P r; ZM e; e.p = q; if (x.m.t.size() > 40 || y.m.t.size() > 40) continue; for (auto& t : x.m.t) { int d = 0; for (int k : t.first) d += k; if (d > 14) { n = -1; break; } } if (n < 0) continue; if (q != cur) ++n_mixed; bool oom = false; std::string at = a(3), st = a(4);
            switch (op) {
            case 0: oom = faulted(at, st, [&] { r = x.a + y.a; }); e = zadd(x.m, y.m); break;
            case 1: oom = faulted(at, st, [&] { r = x.a - y.a; }); e = zadd(x.m, zneg(y.m)); break;
            case 2: case 3: oom = faulted(at, st, [&] { r = x.a * y.a; }); e = zmul(x.m, y.m); break;
            case 4: { if (y.m.t.empty() || x.m.t.empty()) continue; P xy = x.a * y.a; oom = faulted(at, st, [&] { r = xy / y.a; }); e = x.m; break; }
            case 5: { if (x.m.t.empty() || x.m.t.size() > 8) continue; n %= 4; oom = faulted(at, st, [&] { r = pow(x.a, n); }); e = zpow(x.m, n); break; }
            case 6: oom = faulted(at, st, [&] { r = derivative(x.a, vars()[v]); }); e = zderiv(x.m, v); break;
            case 7: { Zp c((int64_t)(n * 7 - 11), q); oom = faulted(at, st, [&] { r = assign(x.a, vars()[v], c); }); e = zsubst(x.m, v, modz(mpz_class(n * 7 - 11), q)); break; }
            case 8: oom = faulted(at, st, [&] { r = -x.a; }); e = zneg(x.m); break;
            case 9: { if (y.m.t.empty()) continue; std::vector<P> g{y.a}; oom = faulted(at, st, [&] { r = normal_form(x.a, g); }); ZM qq; zrem(x.m, y.m, ord, qq, e); break; }
            case 10: { polynomial_<ZZ, lex> z; oom = faulted(at, st, [&] { poly_convert(x.a, z); }); if (oom) continue; MP g = model::parse(text(z)); ZM b = zred(g, q); if (b.t != x.m.t) sim::fail("VALUE", w + ": conversion to integers gives " + model::text(g)); continue; }
            default: { if (x.m.t.empty() || y.m.t.empty()) continue; oom = faulted(at, st, [&] { r = s_polynomial(x.a, y.a); }); Mono lx = zlead(x.m, ord), ly = zlead(y.m, ord), c; for (int k = 0; k < model::NV; ++k) c[k] = std::max(lx[k], ly[k]); ZM mx, my; mx.p = my.p = q; Mono d; mdiv(c, lx, d); mx.t[d] = invm(x.m.t.at(lx), q); mdiv(c, ly, d); my.t[d] = invm(y.m.t.at(ly), q); e = zadd(zmul(mx, x.m), zneg(zmul(my, y.m))); }
            }
            if (oom) { sim::count("interrupted calls"); continue; } same(r, e, w); if (A.size() < 40) A.push_back({std::move(r), e});
        }
        else if (l.key == "uop") {
            if (B.empty()) continue; size_t i = U(0) % B.size(), j = U(1) % B.size(); for (size_t k = 0; k < B.size() && B[j].m.p != B[i].m.p; ++k) j = (j + 1) % B.size(); auto &x = B[i], &y = B[j]; u64 q = x.m.p; int op = (int)(U(2) % 14), n = (int)(U(5) % 7); UPo r; ZM e; e.p = q; bool oom = false; std::string at = a(3), st = a(4); auto dg = [](const ZM& z) { return z.t.empty() ? -1 : z.t.rbegin()->first[0]; }; if (dg(x.m) > 60 || dg(y.m) > 60) continue; if (q != cur) ++n_mixed;
            switch (op) {
            case 0: oom = faulted(at, st, [&] { r = x.a + y.a; }); e = zadd(x.m, y.m); break;
            case 1: oom = faulted(at, st, [&] { r = x.a - y.a; }); e = zadd(x.m, zneg(y.m)); break;
            case 2: oom = faulted(at, st, [&] { r = x.a * y.a; }); e = zmul(x.m, y.m); break;
            case 3: { if (x.m.t.empty() || y.m.t.empty()) continue; UPo xy = x.a * y.a; oom = faulted(at, st, [&] { r = xy / y.a; }); e = x.m; break; }
            case 4: { if (x.m.t.empty() || y.m.t.empty()) continue; UPo R2; oom = faulted(at, st, [&] { pair_vec_div(r.data(), R2.data(), x.a.data(), y.a.data(), x.a.comp()); }); ZM rr; zrem(x.m, y.m, model::LEX, e, rr); if (!oom) same(R2, rr, w + " (remainder)"); break; }
            case 5: case 6: oom = faulted(at, st, [&] { r = polynomial_GCD(x.a, y.a); }); e = zgcd(x.m, y.m); break;
            case 7: { if (x.m.t.empty() || y.m.t.empty()) continue; UPo s, t; oom = faulted(at, st, [&] { r = polynomial_GCD(x.a, y.a, s, t); }); e = zgcd(x.m, y.m); if (!oom) { ZM c = zadd(zmul(read(s, q, w), x.m), zmul(read(t, q, w), y.m)); if (c.t != e.t) sim::fail("VALUE", w + ": cofactors combine to " + show(c) + ", expected " + show(e)); } break; }
            case 8: oom = faulted(at, st, [&] { r = derivative(x.a); }); e = zderiv(x.m, 0); break;
            case 9: { if (x.m.t.empty()) continue; n %= 4; if (dg(x.m) > 14) continue; oom = faulted(at, st, [&] { r = pow(x.a, n); }); e = zpow(x.m, n); break; }
            case 10: { Zp c((int64_t)(n * 5 - 9), q), g(q); oom = faulted(at, st, [&] { g = assign(x.a, c); }); if (oom) continue; ZM v = zsubst(x.m, 0, modz(mpz_class(n * 5 - 9), q)); if (!x.m.t.empty()) elsame(g, v.t.empty() ? 0 : v.t.begin()->second, q, w); continue; }
            case 11: { dense_upoly_zp X2(x.a, q), Y(y.a, q), C(q), D(q); UPo r2; int k = n % 3; if (k == 1 && y.m.t.empty()) continue; if (k == 2 && x.m.t.empty() && y.m.t.empty()) continue; oom = faulted(at, st, [&] { if (k == 0) dense_upoly_zp::mul(C, X2, Y); else if (k == 1) dense_upoly_zp::divrem(D, C, X2, Y); else dense_upoly_zp::gcd(C, X2, Y); r = C.to_upoly(); r2 = D.to_upoly(); }); if (oom) break; if (k == 0) e = zmul(x.m, y.m); else if (k == 1) { ZM qq; zrem(x.m, y.m, model::LEX, qq, e); same(r2, qq, w + " (dense quotient)"); } else { e = zgcd(x.m, y.m); ZM g = read(r, q, w); if (!g.t.empty()) g = zscale(g, invm(g.t.rbegin()->second, q)); if (g.t != e.t) sim::fail("VALUE", w + ": dense gcd " + show(g) + ", expected " + show(e)); continue; } break; }
            default: {   // factorization: same as in a process whose default modulus is this prime, and the product is the input
                if (dg(x.m) < 1 || dg(x.m) > 24) continue; typedef std::pair<Zp, std::vector<std::pair<UPo, uint64_t>>> FR; std::unique_ptr<FR> f, g; Zp::set_prime(q); { Lib b; f.reset(new FR(__factor_Zp(x.a))); } Zp::set_prime(cur);
                oom = faulted(at, st, [&] { g.reset(new FR(__factor_Zp(x.a))); }); if (oom) break; auto str2 = [](FR& v) { std::string s = str(v.first); for (auto& t : v.second) s += " (" + text(t.first) + ")^" + NU(t.second); return s; };
                if (str2(*f) != str2(*g)) sim::fail("VALUE", w + ": factorization under default modulus " + NU(cur) + " is " + str2(*g) + ", under " + NU(q) + " it is " + str2(*f)); ZM pr; pr.p = q; elsame(g->first, x.m.t.at(zlead(x.m, model::LEX)), q, w + " (leading coefficient)"); pr.t[Mono{}] = g->first.number(); for (auto& t : g->second) pr = zmul(pr, zpow(read(t.first, q, w), (int)t.second)); if (pr.t != x.m.t) sim::fail("VALUE", w + ": product of the factors " + str2(*g) + " is not " + show(x.m)); sim::count("factorizations"); continue; }
            }
            if (oom) { sim::count("interrupted calls"); continue; } same(r, e, w); if (B.size() < 40 && dg(e) < 50) B.push_back({std::move(r), e});
        }
        else if (l.key == "zop") {   // integer computation under the reference modulus and under the current one
            MP ma = parse(a(1)), mb = parse(a(2)); if (model::tdeg(ma) > 14 || model::tdeg(mb) > 14) continue; int k = (int)(U(0) % 5); u64 ref = prime(a(6)); typedef polynomial_<ZZ, lex> PZ; PZ fa = poly<PZ>(a(1)), fb = poly<PZ>(a(2)); sim::Draws d; d.seed = (u64)U(5) + 1; std::string t0 = text(fa) + "|" + text(fb);
            auto calc = [&]() -> std::string { switch (k) { case 0: { PZ g = polynomial_GCD(fa, fb); sim::Host h; return text(g); } case 1: { if (ma.zero()) return ""; auto f = factorize(fa); sim::Host h; std::string s = str(f.content); for (auto& x : f.factors) s += " (" + text(x.first) + ")^" + NU(x.second); return s; }
                case 2: { if (!model::uses(ma, 0) || !model::uses(mb, 0)) return ""; auto r = resultant(fa, fb, vars()[0]); sim::Host h; return text(r); } case 3: { if (ma.zero() || ma.constant()) return ""; auto s = squarefreefactorize(fa); sim::Host h; std::string o; for (auto& x : s) o += " (" + text(x.first) + ")^" + NU(x.second); return o; } default: { PZ g = fa * fb; if (!mb.zero()) g = g / fb; sim::Host h; return text(g); } } };
            std::string s1, s2; Zp::set_prime(ref); sim::draws_begin(d); { Lib b; s1 = calc(); } if (Zp::cur_prime() != ref) sim::fail("MODULUS", w + ": integer computation changed the default modulus"); Zp::set_prime(cur); sim::draws_begin(d);
            bool oom = faulted(a(3), a(4), [&] { s2 = calc(); }); if (oom) { sim::count("interrupted calls"); sim::draws_begin(d); faulted("0", "0", [&] { s2 = calc(); }); } if (s1 != s2) sim::fail("VALUE", w + ": integer result " + s2 + " under default modulus " + NU(cur) + ", " + s1 + " under " + NU(ref)); if (text(fa) + "|" + text(fb) != t0) sim::fail("ARGS", w + ": arguments changed"); sim::count("integer computations");
        }
        else sim::invalid("unknown op");
    }
    sim::set_phase("final check"); for (size_t i = 0; i < E.size(); ++i) elsame(E[i].z, E[i].v, E[i].p, "at the end, element " + N((long)i)); for (auto& x : A) same(x.a, x.m, "at the end, stored polynomial"); for (auto& x : B) same(x.a, x.m, "at the end, stored univariate polynomial");
    if (Zp::cur_prime() != cur) sim::fail("MODULUS", "at the end the default modulus is " + NU(Zp::cur_prime()) + ", set was " + NU(cur)); std::string lg; for (auto& x : A) lg += show(x.m) + ";"; for (auto& x : B) lg += show(x.m) + ";"; sim::log(lg);
    sim::count("calls", n_ops); sim::count("default modulus changes", n_sets); sim::count("calls under a different default modulus", n_mixed); sim::count("injected allocation failures", n_faults); sim::count("steps", steps); if (n_mixed && n_ops > 2) sim::nontrivial();
}
static void exec(const sim::Plan& p) {
    init_vars(); n_faults = n_ops = n_sets = n_mixed = 0; std::string s0 = p.knob("start", "2"); u64 s = s0 == "0" ? 0 : prime(s0); if (s) Zp::set_prime(s); else if (Zp::cur_prime()) sim::fail("MODULUS", "the default modulus is set before anyone set it"); sim::set_soft_limit(1500000000ull); sim::sample("start " + NU(s) + ", " + N((long)p.lines.size()) + " lines");
    if (p.knob("kind", "lex") == "grlex") go<grlex>(p, model::GRLEX); else go<lex>(p, model::LEX);
}
const sim::Scenario sim::scenario = {"C06", gen, exec, 8000000000ull, 60};
