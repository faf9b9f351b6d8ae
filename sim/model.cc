#include "model.hh"
#include <algorithm>
#include <set>
#include <stdexcept>
namespace model {
bool operator==(const MP& a, const MP& b) { return a.t == b.t; }
bool operator<(const MP& a, const MP& b) {
    auto i = a.t.rbegin(); auto j = b.t.rbegin();
    for (; i != a.t.rend() && j != b.t.rend(); ++i, ++j) { if (i->first != j->first) return i->first < j->first; if (i->second != j->second) return i->second < j->second; }
    return j != b.t.rend();
}
MP parse(const std::string& s) {
    MP p;
    for (auto& tm : sim::split(s, ',')) {
        if (tm.empty()) continue;
        auto cv = sim::split(tm, '@');
        mpq_class c; if (c.set_str(cv[0], 10) != 0) throw std::runtime_error("bad coefficient " + cv[0]);
        if (c.get_den() == 0) throw std::runtime_error("zero denominator"); c.canonicalize();
        Mono m{}; if (cv.size() > 1) { auto e = sim::split(cv[1], '.'); for (size_t i = 0; i < e.size() && i < NV; ++i) m[i] = (int)sim::toint(e[i]); }
        auto& x = p.t[m]; x += c; if (x == 0) p.t.erase(m);
    }
    return p;
}
std::string text(const MP& p) {
    std::string o;
    for (auto i = p.t.rbegin(); i != p.t.rend(); ++i) {
        if (!o.empty()) o += ',';
        o += i->second.get_str() + "@"; int last = -1; for (int k = 0; k < NV; ++k) if (i->first[k]) last = k;
        for (int k = 0; k <= last; ++k) { if (k) o += '.'; o += std::to_string(i->first[k]); }
    }
    return o;
}
MP cst(const mpq_class& c) { MP p; if (c != 0) p.t[Mono{}] = c; return p; }
MP var(int i, int e) { MP p; Mono m{}; m[i] = e; p.t[m] = 1; return p; }
MP add(const MP& a, const MP& b) { MP r = a; for (auto& x : b.t) { auto& c = r.t[x.first]; c += x.second; if (c == 0) r.t.erase(x.first); } return r; }
MP neg(const MP& a) { MP r = a; for (auto& x : r.t) x.second = -x.second; return r; }
MP sub(const MP& a, const MP& b) { MP r = a; for (auto& x : b.t) { auto& c = r.t[x.first]; c -= x.second; if (c == 0) r.t.erase(x.first); } return r; }
MP mul(const MP& a, const MP& b) {
    MP r; Mono m;
    for (auto& x : a.t) for (auto& y : b.t) { for (int i = 0; i < NV; ++i) m[i] = x.first[i] + y.first[i]; r.t[m] += x.second * y.second; }
    for (auto i = r.t.begin(); i != r.t.end();) if (i->second == 0) i = r.t.erase(i); else ++i;
    return r;
}
MP scale(const MP& a, const mpq_class& c) { MP r; if (c == 0) return r; r = a; for (auto& x : r.t) x.second *= c; return r; }
MP pow(const MP& a, unsigned n) { MP r = cst(1); while (n--) r = mul(r, a); return r; }
bool divexact(const MP& a, const MP& b, MP& q) {
    q = MP(); if (b.zero()) return false;
    MP h = a; auto& lb = *b.t.rbegin();
    while (!h.zero()) {
        auto lh = *h.t.rbegin(); Mono m; for (int i = 0; i < NV; ++i) { m[i] = lh.first[i] - lb.first[i]; if (m[i] < 0) return false; }
        mpq_class c = lh.second / lb.second; q.t[m] = c;
        for (auto& y : b.t) { Mono k; for (int i = 0; i < NV; ++i) k[i] = m[i] + y.first[i]; auto& z = h.t[k]; z -= c * y.second; if (z == 0) h.t.erase(k); }
    }
    return true;
}
MP deriv(const MP& a, int v) { MP r; for (auto& x : a.t) if (x.first[v]) { Mono m = x.first; mpq_class c = x.second * m[v]; --m[v]; r.t[m] = c; } return r; }
int deg(const MP& a, int v) { int d = 0; for (auto& x : a.t) d = std::max(d, x.first[v]); return d; }
int tdeg(const MP& a) { int d = 0; for (auto& x : a.t) { int s = 0; for (int e : x.first) s += e; d = std::max(d, s); } return d; }
bool uses(const MP& a, int v) { return deg(a, v) > 0; }
MP coef(const MP& a, int v, int k) { MP r; for (auto& x : a.t) if (x.first[v] == k) { Mono m = x.first; m[v] = 0; r.t[m] = x.second; } return r; }
MP subst(const MP& a, int v, const mpq_class& c) { MP r; for (auto& x : a.t) { Mono m = x.first; mpq_class y = x.second; for (int i = 0; i < m[v]; ++i) y *= c; m[v] = 0; auto& z = r.t[m]; z += y; if (z == 0) r.t.erase(m); } return r; }
bool integral(const MP& a) { for (auto& x : a.t) if (x.second.get_den() != 1) return false; return true; }
mpz_class icontent(const MP& a) { mpz_class g = 0; for (auto& x : a.t) g = gcd(g, x.second.get_num()); return g; }
MP primitive(const MP& a) {
    if (a.zero()) return a;
    mpz_class l = 1; for (auto& x : a.t) l = lcm(l, x.second.get_den());
    MP b = scale(a, mpq_class(l)); mpz_class g = icontent(b); if (b.t.rbegin()->second < 0) g = -g;
    return scale(b, mpq_class(1) / mpq_class(g));
}
MP monic(const MP& a) { return a.zero() ? a : scale(a, 1 / a.t.rbegin()->second); }
mpz_class maxnorm(const MP& a) { mpz_class m = 0; for (auto& x : a.t) { mpz_class v = abs(x.second.get_num()); if (v > m) m = v; } return m; }

// ---- univariate modulo a word prime
typedef std::vector<uint64_t> ZP;
static uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)((unsigned __int128)a * b % p); }
static uint64_t powm(uint64_t a, uint64_t e, uint64_t p) { uint64_t r = 1 % p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
static void ztrim(ZP& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static void zmod(ZP& a, const ZP& b, uint64_t p) {
    uint64_t iv = powm(b.back(), p - 2, p);
    while (a.size() >= b.size()) { uint64_t c = mulm(a.back(), iv, p); size_t s = a.size() - b.size(); if (c) for (size_t i = 0; i < b.size(); ++i) { uint64_t y = mulm(c, b[i], p); a[s + i] = a[s + i] >= y ? a[s + i] - y : a[s + i] + p - y; } a.pop_back(); ztrim(a); if (a.empty()) break; }
}
static ZP zdiv(ZP a, const ZP& b, uint64_t p) {
    ZP q; if (a.size() < b.size()) return q; q.assign(a.size() - b.size() + 1, 0); uint64_t iv = powm(b.back(), p - 2, p);
    for (size_t k = q.size(); k-- > 0;) { uint64_t c = mulm(a[k + b.size() - 1], iv, p); q[k] = c; if (c) for (size_t i = 0; i < b.size(); ++i) { uint64_t y = mulm(c, b[i], p); auto& z = a[k + i]; z = z >= y ? z - y : z + p - y; } }
    return q;
}
static ZP zgcd(ZP a, ZP b, uint64_t p) { ztrim(a); ztrim(b); while (!b.empty()) { if (a.size() >= b.size()) zmod(a, b, p); std::swap(a, b); } return a; }
static ZP zderiv(const ZP& a, uint64_t p) { ZP r; for (size_t i = 1; i < a.size(); ++i) r.push_back(mulm(a[i], i % p, p)); ztrim(r); return r; }
static ZP zmulmod(const ZP& a, const ZP& b, const ZP& f, uint64_t p) {
    if (a.empty() || b.empty()) return {}; ZP r(a.size() + b.size() - 1, 0);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { r[i + j] = (r[i + j] + mulm(a[i], b[j], p)) % p; }
    ztrim(r); if (r.size() >= f.size()) zmod(r, f, p); return r;
}
static ZP zpowx(ZP b, uint64_t e, const ZP& f, uint64_t p) { ZP r{1}; if (f.size() <= 1) return {}; while (e) { if (e & 1) r = zmulmod(r, b, f, p); b = zmulmod(b, b, f, p); e >>= 1; } return r; }
static uint64_t qmod(const mpq_class& c, uint64_t p, bool& ok) {
    mpz_class P; mpz_import(P.get_mpz_t(), 1, 1, 8, 0, 0, &p); mpz_class n, d; mpz_fdiv_r(n.get_mpz_t(), c.get_num().get_mpz_t(), P.get_mpz_t()); mpz_fdiv_r(d.get_mpz_t(), c.get_den().get_mpz_t(), P.get_mpz_t());
    if (d == 0) { ok = false; return 0; } return mulm(n.get_ui(), powm(d.get_ui(), p - 2, p), p);
}
// specialise all variables but v at pt, modulo p
static ZP spec(const MP& a, int v, const std::array<uint64_t, NV>& pt, uint64_t p, bool& ok) {
    ZP r(deg(a, v) + 1, 0);
    for (auto& x : a.t) { uint64_t c = qmod(x.second, p, ok); for (int i = 0; i < NV; ++i) if (i != v && x.first[i]) c = mulm(c, powm(pt[i], x.first[i], p), p); auto& z = r[x.first[v]]; z = (z + c) % p; }
    return r;                                                 // not trimmed: top may be zero
}
static const uint64_t M61 = (1ull << 61) - 1;
static bool gcd_free_of(const MP& a, const MP& b, int v, uint64_t seed) {
    sim::Rng r(sim::mix(seed, 1000 + v));
    for (int t = 0; t < 8; ++t) {
        std::array<uint64_t, NV> pt; for (auto& x : pt) x = 1 + r.below(M61 - 1);
        bool ok = true; ZP A = spec(a, v, pt, M61, ok), B = spec(b, v, pt, M61, ok);
        if (!ok || A.back() == 0 || B.back() == 0) continue;
        if (zgcd(A, B, M61).size() <= 1) return true;
    }
    return false;
}
bool coprime(const MP& a, const MP& b, uint64_t seed) {
    if (a.zero()) return b.constant() && !b.zero();
    if (b.zero()) return a.constant();
    for (int v = 0; v < NV; ++v) if (uses(a, v) && uses(b, v) && !gcd_free_of(a, b, v, seed)) return false;
    return true;
}
bool squarefree(const MP& a, uint64_t seed) {
    if (a.zero()) return false;
    for (int v = 0; v < NV; ++v) if (uses(a, v) && !gcd_free_of(a, deriv(a, v), v, seed)) return false;
    return true;
}
static const uint64_t SMALLP[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 101, 103, 107, 109, 113};
static uint64_t degset(ZP f, uint64_t p) {                   // subset sums of factor degrees; 0 if not usable
    size_t n = f.size() - 1; if (n > 60) return 0;
    if (zgcd(f, zderiv(f, p), p).size() > 1) return 0;
    uint64_t s = 1; ZP h{0, 1}, g = f; if (g.size() <= 2) return 3;
    zmod(h, g, p);
    for (size_t d = 1; 2 * d < g.size(); ++d) {
        h = zpowx(h, p, g, p); ZP k = h; if (k.size() < 2) k.resize(2, 0); k[1] = (k[1] + p - 1) % p; ztrim(k);
        ZP w = k.empty() ? g : zgcd(g, k, p);
        size_t dw = w.size() - 1;
        if (dw > 0) { for (size_t i = 0; i < dw / d; ++i) s |= s << d; g = zdiv(g, w, p); ztrim(g); if (g.size() <= 1) break; if (h.size() >= g.size()) zmod(h, g, p); }
    }
    if (g.size() > 1) s |= s << (g.size() - 1);
    return s;
}
static bool eisenstein(const MP& f, int v) {
    int n = deg(f, v); static const int P[] = {2, 3, 5, 7, 11, 13};
    for (int c = -3; c <= 3; ++c) {
        MP g, xc = add(var(v), cst(c)), pw = cst(1); for (int k = 0; k <= n; ++k) { MP ck = coef(f, v, k); g = add(g, mul(ck, pw)); pw = mul(pw, xc); }
        if (!integral(g)) return false;
        for (int p : P) {
            auto at = [&](int k) { MP q = coef(g, v, k); return q.zero() ? mpz_class(0) : q.t.begin()->second.get_num(); };
            for (int rev = 0; rev < 2; ++rev) {
                mpz_class lc = at(rev ? 0 : n), c0 = at(rev ? n : 0); if (lc == 0 || c0 == 0 || lc % p == 0 || c0 % p != 0 || c0 % (p * p) == 0) continue;
                bool ok = true; for (int k = 1; k < n && ok; ++k) if (at(k) % p != 0) ok = false;
                if (ok) return true;
            }
        }
    }
    return false;
}
static bool univ_irred(const MP& f, int v) {                 // f integral, only v
    int n = deg(f, v); if (n <= 0) return false; if (n == 1) return true;
    uint64_t s = ~0ull; std::array<uint64_t, NV> pt{};
    for (uint64_t p : SMALLP) { bool ok = true; ZP A = spec(f, v, pt, p, ok); if (!ok || A.back() == 0) continue; uint64_t d = degset(A, p); if (!d) continue; s &= d; if ((s & ((1ull << n) - 2)) == 0) return true; }
    return eisenstein(f, v);
}
// ---- exact univariate factorization over Q: one big prime, recombination by subsets
typedef std::vector<mpz_class> BP;
static void btrim(BP& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static void bred(BP& a, const mpz_class& P) { for (auto& x : a) mpz_fdiv_r(x.get_mpz_t(), x.get_mpz_t(), P.get_mpz_t()); btrim(a); }
static BP bdivmod(BP& a, const BP& b, const mpz_class& P) {
    BP q; if (a.size() < b.size()) return q; mpz_class iv; mpz_invert(iv.get_mpz_t(), b.back().get_mpz_t(), P.get_mpz_t()); q.assign(a.size() - b.size() + 1, 0);
    for (size_t k = q.size(); k-- > 0;) { mpz_class c = a[k + b.size() - 1] * iv % P; q[k] = c; if (c != 0) for (size_t i = 0; i < b.size(); ++i) { a[k + i] -= c * b[i]; mpz_fdiv_r(a[k + i].get_mpz_t(), a[k + i].get_mpz_t(), P.get_mpz_t()); } }
    btrim(a); return q;
}
static BP bmul(const BP& a, const BP& b, const mpz_class& P) { if (a.empty() || b.empty()) return {}; BP r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; bred(r, P); return r; }
static BP bgcd(BP a, BP b, const mpz_class& P) { while (!b.empty()) { bdivmod(a, b, P); std::swap(a, b); } if (!a.empty()) { mpz_class iv; mpz_invert(iv.get_mpz_t(), a.back().get_mpz_t(), P.get_mpz_t()); for (auto& x : a) x = x * iv % P; } return a; }
static BP bpow(BP b, mpz_class e, const BP& f, const mpz_class& P) { BP r{1}; bdivmod(b, f, P); while (e > 0) { if (mpz_odd_p(e.get_mpz_t())) { r = bmul(r, b, P); bdivmod(r, f, P); } b = bmul(b, b, P); bdivmod(b, f, P); e >>= 1; } return r; }
static void bsplit(const BP& f, size_t d, const mpz_class& P, sim::Rng& rg, std::vector<BP>& out) {
    if (f.size() - 1 == d) { out.push_back(f); return; }
    for (;;) { BP a(f.size() - 1); for (auto& x : a) { x = 0; for (int i = 0; i < 8; ++i) x = x * 4294967296_mpz + (unsigned long)(rg.next() >> 32); } bred(a, P); if (a.size() < 2) continue; mpz_class e = 1; for (size_t i = 0; i < d; ++i) e *= P; e = (e - 1) / 2; BP h = bpow(a, e, f, P); if (h.empty()) continue; h[0] -= 1; bred(h, P); BP g = h.empty() ? f : bgcd(f, h, P); if (g.size() <= 1 || g.size() == f.size()) continue; BP c = f; BP q = bdivmod(c, g, P); bsplit(g, d, P, rg, out); bsplit(bgcd(q, {}, P), d, P, rg, out); return; }
}
int ureducible(const MP& a, int v, size_t maxdeg) {           // 1 reducible over Q, 0 irreducible, -1 undecided
    MP f = primitive(a); int n = deg(f, v); if (n <= 1) return n == 1 ? 0 : -1; if (univ_irred(f, v)) return 0; if ((size_t)n > maxdeg) return -1;
    BP F(n + 1, 0); for (auto& x : f.t) F[x.first[v]] = x.second.get_num(); if (F[0] == 0) return 1;
    if (!squarefree(f, 5)) return -1;
    mpz_class s = 0; for (auto& c : F) s += abs(c); mpz_class B = s * abs(F[n]) * (mpz_class(1) << (n + 2)), P; mpz_nextprime(P.get_mpz_t(), B.get_mpz_t());
    sim::Rng rg(99); BP g;
    for (;; mpz_nextprime(P.get_mpz_t(), P.get_mpz_t())) { g = F; bred(g, P); if ((int)g.size() != n + 1) continue; BP d; for (int i = 1; i <= n; ++i) d.push_back(g[i] * i); bred(d, P); if (bgcd(g, d, P).size() <= 1) break; }
    g = bgcd(g, {}, P); std::vector<BP> fac; BP h{0, 1}, w = g;
    for (size_t d = 1; 2 * d < w.size(); ++d) { h = bpow(h, P, w, P); BP k = h; if (k.size() < 2) k.resize(2, 0); k[1] -= 1; bred(k, P); BP q = k.empty() ? w : bgcd(w, k, P); if (q.size() > 1) { bsplit(q, d, P, rg, fac); BP c = w; w = bdivmod(c, q, P); if (w.size() <= 1) break; bdivmod(h, w, P); } }
    if (w.size() > 1) fac.push_back(bgcd(w, {}, P));
    size_t r = fac.size(); if (r == 1) return 0; if (r > 13) return -1;
    for (uint32_t m = 1; m < (1u << (r - 1)); ++m) {           // subsets without the last factor
        BP p{F[n]}; for (size_t i = 0; i < r; ++i) if (m >> i & 1) p = bmul(p, fac[i], P); bred(p, P);
        MP c; mpz_class H = P / 2; for (size_t i = 0; i < p.size(); ++i) { mpz_class x = p[i]; if (x > H) x -= P; if (x != 0) c = add(c, scale(var(v, (int)i), mpq_class(x))); }
        MP q; c = primitive(c); if (divexact(f, c, q) && integral(q)) return 1;
    }
    return 0;
}
bool irreducible(const MP& a, uint64_t seed) {
    if (a.constant() || !integral(a) || icontent(a) != 1) return false;
    sim::Rng r(sim::mix(seed, 4242));
    for (int v = 0; v < NV; ++v) {
        int d = deg(a, v); if (!d) continue;
        bool prim = false; MP lc = coef(a, v, d); if (lc.constant()) prim = true;
        for (int k = 0; k < d && !prim; ++k) { MP ck = coef(a, v, k); if (ck.zero()) continue; if (coprime(lc, ck, seed)) prim = true; }
        if (!prim) continue;
        if (d == 1) return true;
        for (int t = 0; t < 6; ++t) {
            MP f = a; for (int i = 0; i < NV; ++i) if (i != v && uses(a, i)) f = subst(f, i, mpq_class(r.range(-9, 9)));
            if (deg(f, v) != d) continue;
            if (ureducible(f, v, 8) == 0) return true;
        }
    }
    return false;
}
MP random_poly(sim::Rng& r, int nv, int maxdeg, int terms, int64_t cmax) {
    MP p;
    for (int i = 0; i < terms; ++i) {
        Mono m{}; int left = (int)r.below(maxdeg + 1);
        for (int k = 0; k < nv && left > 0; ++k) { int j = (int)r.below(nv); int e = (int)r.below(left + 1); m[j] += e; left -= e; }
        int64_t c = r.range(-cmax, cmax); if (!c) c = 1;
        auto& z = p.t[m]; z += mpq_class(mpz_class(std::to_string(c))); if (z == 0) p.t.erase(m);
    }
    return p;
}
// ---- Sturm
void trim(UP& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
UP up(const MP& a, int v) { UP r(deg(a, v) + 1, 0); for (auto& x : a.t) r[x.first[v]] += x.second; trim(r); return r; }
UP udiv(const UP& a, const UP& b, UP& r) {
    r = a; UP q; if (a.size() < b.size()) return q; q.assign(a.size() - b.size() + 1, 0);
    for (size_t k = q.size(); k-- > 0;) { mpq_class c = r[k + b.size() - 1] / b.back(); q[k] = c; for (size_t i = 0; i < b.size(); ++i) r[k + i] -= c * b[i]; }
    trim(r); return q;
}
// integer images: primitive, same sign
typedef std::vector<mpz_class> IP;
static void iprim(IP& a) { while (!a.empty() && a.back() == 0) a.pop_back(); mpz_class g = 0; for (auto& x : a) { g = gcd(g, x); if (g == 1) return; } if (g > 1) for (auto& x : a) mpz_divexact(x.get_mpz_t(), x.get_mpz_t(), g.get_mpz_t()); }
static IP toint(const UP& a) { mpz_class d = 1; for (auto& x : a) d = lcm(d, x.get_den()); IP r; for (auto& x : a) r.push_back(x.get_num() * (d / x.get_den())); iprim(r); return r; }
static UP torat(const IP& a) { UP r; for (auto& x : a) r.push_back(mpq_class(x)); return r; }
static IP irem(IP a, const IP& b) {                          // positive multiple of the remainder, primitive
    mpz_class l = abs(b.back()); int sg = sgn(b.back());
    while (a.size() >= b.size()) { mpz_class c = a.back(); size_t k = a.size() - b.size(); if (sg < 0) c = -c; for (auto& x : a) x *= l; for (size_t i = 0; i < b.size(); ++i) a[k + i] -= c * b[i]; a.pop_back(); iprim(a); }
    iprim(a); return a;
}
static IP igcd(IP a, IP b) { while (!b.empty()) { IP r = irem(a, b); a = b; b = r; } return a; }
UP ugcd(UP a, UP b) { UP r = torat(igcd(toint(a), toint(b))); if (!r.empty()) { mpq_class c = r.back(); for (auto& x : r) x /= c; } return r; }
UP uderiv(const UP& a) { UP r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * (int)i); trim(r); return r; }
mpq_class ueval(const UP& a, const mpq_class& x) { mpq_class r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
static int isgn(const IP& a, const mpz_class& n, const mpz_class& d) { mpz_class r = 0, p = 1; for (size_t i = a.size(); i-- > 0;) { r = r * n + a[i] * p; if (i) p *= d; } return sgn(r); }
int usgn(const UP& a, const mpq_class& x) { return isgn(toint(a), x.get_num(), x.get_den()); }
Sturm::Sturm(const UP& a) {
    UP f = a, r; UP g = ugcd(f, uderiv(f)); if (g.size() > 1) f = udiv(a, g, r);
    z.push_back(toint(f)); z.push_back(toint(uderiv(torat(z[0]))));
    while (z.back().size() > 1) { IP q = irem(z[z.size() - 2], z.back()); if (q.empty()) break; for (auto& x : q) x = -x; z.push_back(q); }
    if (z.back().empty()) z.pop_back();
    for (auto& x : z) s.push_back(torat(x));
}
int Sturm::var_at(const mpq_class& x) const { int v = 0, last = 0; for (auto& p : z) { int g = isgn(p, x.get_num(), x.get_den()); if (!g) continue; if (last && g != last) ++v; last = g; } return v; }
int Sturm::var_inf(bool pos) const { int v = 0, last = 0; for (auto& p : s) { if (p.empty()) continue; int g = sgn(p.back()); if (!pos && (p.size() - 1) % 2) g = -g; if (last && g != last) ++v; last = g; } return v; }
int Sturm::roots(const mpq_class& a, const mpq_class& b) const { return var_at(a) - var_at(b); }
int Sturm::total() const { return var_inf(false) - var_inf(true); }
// ---- Groebner
bool mless(const Mono& a, const Mono& b, Order o) { if (o == GRLEX) { int x = 0, y = 0; for (int i = 0; i < NV; ++i) { x += a[i]; y += b[i]; } if (x != y) return x < y; } return a < b; }
Mono lead(const MP& a, Order o) { if (o == LEX) return a.t.rbegin()->first; Mono m = a.t.begin()->first; for (auto& x : a.t) if (mless(m, x.first, o)) m = x.first; return m; }
static bool mdiv(const Mono& a, const Mono& b, Mono& q) { for (int i = 0; i < NV; ++i) { q[i] = a[i] - b[i]; if (q[i] < 0) return false; } return true; }
static void submul(MP& h, const mpq_class& c, const Mono& m, const MP& g) { for (auto& y : g.t) { Mono k; for (int i = 0; i < NV; ++i) k[i] = m[i] + y.first[i]; auto& z = h.t[k]; z -= c * y.second; if (z == 0) h.t.erase(k); } }
MP nf(MP f, const std::vector<MP>& G, Order o) {
    MP r; std::vector<Mono> L; for (auto& g : G) L.push_back(lead(g, o));
    while (!f.zero()) {
        Mono m = lead(f, o), q; mpq_class c = f.t[m]; bool d = false;
        for (size_t i = 0; i < G.size(); ++i) if (mdiv(m, L[i], q)) { mpq_class k = c / G[i].t.at(L[i]); submul(f, k, q, G[i]); d = true; break; }
        if (!d) { r.t[m] = c; f.t.erase(m); }
    }
    return r;
}
std::vector<MP> buchberger(std::vector<MP> F, Order o, size_t limit) {
    std::vector<MP> G; for (auto& f : F) if (!f.zero()) G.push_back(f);
    std::vector<std::pair<size_t, size_t>> P; for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) P.push_back({j, i});
    size_t steps = 0;
    while (!P.empty()) {
        if (++steps > limit) throw std::runtime_error("limit");
        // pick pair with the smallest lcm
        size_t best = 0; int bd = 1 << 30;
        for (size_t k = 0; k < P.size(); ++k) { Mono a = lead(G[P[k].first], o), b = lead(G[P[k].second], o); int d = 0; for (int i = 0; i < NV; ++i) d += std::max(a[i], b[i]); if (d < bd) { bd = d; best = k; } }
        auto pr = P[best]; P.erase(P.begin() + best);
        const MP &f = G[pr.first], &g = G[pr.second]; Mono a = lead(f, o), b = lead(g, o), ma, mb; bool cop = true;
        for (int i = 0; i < NV; ++i) { int m = std::max(a[i], b[i]); ma[i] = m - a[i]; mb[i] = m - b[i]; if (a[i] && b[i]) cop = false; }
        if (cop) continue;
        MP s; submul(s, -1 / f.t.at(a), ma, f); submul(s, 1 / g.t.at(b), mb, g);
        s = nf(s, G, o);
        if (!s.zero()) { mpq_class c = s.t.at(lead(s, o)); s = scale(s, 1 / c); for (auto& x : s.t) if (mpz_sizeinbase(x.second.get_num().get_mpz_t(), 2) > 4000) throw std::runtime_error("coefficient growth"); G.push_back(s); if (G.size() > 60) throw std::runtime_error("limit"); for (size_t i = 0; i + 1 < G.size(); ++i) P.push_back({i, G.size() - 1}); }
    }
    std::vector<MP> M;
    for (size_t i = 0; i < G.size(); ++i) { Mono q; bool red = false; for (size_t j = 0; j < G.size() && !red; ++j) if (j != i) { Mono li = lead(G[i], o), lj = lead(G[j], o); if (mdiv(li, lj, q) && (li != lj || j < i)) red = true; } if (!red) M.push_back(G[i]); }
    std::vector<MP> R;
    for (size_t i = 0; i < M.size(); ++i) { std::vector<MP> H; for (size_t j = 0; j < M.size(); ++j) if (j != i) H.push_back(M[j]); MP r = nf(M[i], H, o); R.push_back(scale(r, 1 / r.t.at(lead(r, o)))); }
    std::sort(R.begin(), R.end(), [&](const MP& x, const MP& y) { return mless(lead(x, o), lead(y, o), o); });
    return R;
}
}
