// Input generators (model side, uninstrumented semantics; used inside gen()).
#pragma once
#include "model.hh"
namespace gens {
using model::MP; using sim::Rng;
struct Pair { MP a, b; bool univ = false; std::string fam; };
inline mpz_class bigint(Rng& r, int bits) { mpz_class z = 1; for (int i = 0; i < bits; i += 30) z = z * 1073741824 + (unsigned long)r.below(1u << 30); if (r.chance(1, 2)) z = -z; return z; }
inline MP rp(Rng& r, int nv, int d, int t, int64_t c) { MP p; for (int k = 0; k < 5 && p.zero(); ++k) p = model::random_poly(r, nv, d, t, c); if (p.zero()) p = model::cst(1); return p; }
inline MP big_coeffs(Rng& r, MP p, int bits) { for (auto& x : p.t) { mpz_class z = bigint(r, bits); if (z == 0) z = 1; x.second = z; } return p; }
// the library's first modular primes, downward from 2^64
inline const std::vector<mpz_class>& bigprimes() { static std::vector<mpz_class> v; if (v.empty()) { mpz_class n("18446744073709551615"); while (v.size() < 6) { if (mpz_probab_prime_p(n.get_mpz_t(), 30)) v.push_back(n); n -= 2; } } return v; }
// product of (v - k), k in a small set: vanishes at small evaluation points
inline MP roots(Rng& r, int v, int n, int base = 0) { MP p = model::cst(1); for (int i = 0; i < n; ++i) p = model::mul(p, model::sub(model::var(v), model::cst(mpq_class((long)(base + (int)r.below(6)))))); return p; }
inline Pair gcd_pair(Rng& r) {
    Pair P; int fam = (int)r.below(15);
    int nv = 1 + (int)r.below(4); if (nv == 1 && r.chance(1, 2)) nv = 2;
    int d = 1 + (int)r.below(nv > 2 ? 3 : 4); int t = 1 + (int)r.below(4); int64_t c = r.chance(1, 2) ? 5 : r.chance(1, 2) ? 100 : 1000000007;
    MP g = rp(r, nv, d, t, c), a = rp(r, nv, d, t, c), b = rp(r, nv, d, t, c);
    switch (fam) {
    case 0: P.fam = "random"; break;
    case 1: P.fam = "coprime"; g = model::cst(mpq_class((long)r.range(1, 12))); break;
    case 2: P.fam = "univariate"; P.univ = true; nv = 1; d = 1 + (int)r.below(8); g = rp(r, 1, d, 4, c); a = rp(r, 1, d, 4, c); b = rp(r, 1, d, 4, c); break;
    case 3: { P.fam = "lc vanishes at small points"; nv = std::max(nv, 2); int v = 1 + (int)r.below(nv - 1);
              MP lc = roots(r, v, 1 + (int)r.below(3)), lx = model::mul(lc, model::var(0, d + 1)); g = model::add(rp(r, nv, d, t, c), lx);
              if (r.chance(1, 2)) a = model::add(a, model::mul(roots(r, v, 1 + (int)r.below(2)), model::var(0, d + 1))); if (r.chance(1, 2)) b = model::add(b, model::mul(roots(r, v, 1), model::var(0, d + 2))); break; }
    case 4: { P.fam = "unlucky at small points"; nv = std::max(nv, 2); int v = 1 + (int)r.below(nv - 1); MP h = model::add(model::var(0), rp(r, nv, 1, 2, 5));
              a = model::add(h, model::mul(roots(r, v, 1 + (int)r.below(2)), rp(r, nv, 1, 2, c))); b = model::add(h, model::mul(roots(r, v, 1 + (int)r.below(2)), rp(r, nv, 1, 2, c))); if (r.chance(1, 3)) g = model::cst(1); break; }
    case 5: { P.fam = "coefficients divisible by the first primes"; auto& bp = bigprimes(); auto q = bp[r.below(3)]; MP* w = r.chance(1, 2) ? &g : &a; auto it = w->t.rbegin(); it->second *= q; if (r.chance(1, 2)) { auto i2 = b.t.rbegin(); i2->second *= bp[r.below(3)]; } break; }
    case 6: case 13: case 14: { P.fam = "unlucky modulo the first primes"; auto& bp = bigprimes(); if (fam == 14) nv = 1; P.univ = nv == 1 && r.chance(1, 2); MP h = model::add(model::var(0), rp(r, nv, 1, 2, 5)); auto mod = [&] { mpz_class q = 1; int k = (int)r.below(4); for (int i = 0; i <= k && i < (int)bp.size(); ++i) if (fam != 6 || i == k) q *= mpz_class(bp[i]); return mpq_class(q); };
              mpq_class qa = mod(), qb = r.chance(1, 2) ? qa : mod(); a = model::add(h, model::scale(rp(r, nv, d, 2, 9), qa)); b = model::add(h, model::scale(rp(r, nv, d, 2, 9), qb)); if (r.chance(1, 2)) g = model::cst((long)r.range(1, 4)); else if (nv == 1) g = rp(r, 1, d, t, c); break; }
    case 7: P.fam = "big coefficients"; g = big_coeffs(r, g, 30 + (int)r.below(260)); a = big_coeffs(r, a, 30 + (int)r.below(200)); b = big_coeffs(r, b, 30 + (int)r.below(200)); break;
    case 8: P.fam = "one divides the other"; b = model::cst(1); break;
    case 9: P.fam = "equal up to a constant"; a = model::cst(mpq_class((long)r.range(1, 20))); b = model::cst(mpq_class((long)-r.range(1, 20))); break;
    case 10: P.fam = "different variable sets"; a = model::mul(a, rp(r, 1, 2, 2, c)); { MP s = rp(r, 1, 2, 2, c), q; for (auto& x : s.t) { model::Mono m{}; m[nv > 1 ? nv - 1 : 0] = x.first[0]; q.t[m] = x.second; } b = q; if (r.chance(1, 2)) g = model::cst(mpq_class((long)r.range(1, 6))); break; }
    case 11: P.fam = "powers"; g = rp(r, nv, 2, 2 + (int)r.below(2), 5); a = model::mul(g, rp(r, nv, 1, 2, 5)); b = model::mul(model::mul(g, g), rp(r, nv, 1, 2, 5)); break;
    case 12: { P.fam = "dense bivariate"; g = rp(r, 2, 4, 9, 20); a = rp(r, 2, 4, 9, 20); b = rp(r, 2, 4, 9, 20); break; }
    }
    if (r.chance(1, 3)) { g = model::scale(g, mpq_class((long)r.range(1, 60))); a = model::scale(a, mpq_class((long)r.range(-60, -1))); b = model::scale(b, mpq_class((long)r.range(1, 60))); }
    P.a = model::mul(g, a); P.b = model::mul(g, b);
    if (r.chance(1, 60)) P.b = MP();
    if (r.chance(1, 80)) P.a = model::cst(mpq_class((long)r.range(1, 9)));
    return P;
}

// product of planned parts (not necessarily irreducible) with multiplicities
struct Prod { std::vector<std::pair<MP, int>> parts; mpq_class content = 1; std::string fam; bool univ = false; MP product() const { MP p = model::cst(content); for (auto& x : parts) p = model::mul(p, model::pow(x.first, (unsigned)x.second)); return p; } };
inline MP upoly_of(const std::vector<long>& c, int v = 0) { MP p; for (size_t i = 0; i < c.size(); ++i) p = model::add(p, model::scale(model::var(v, (int)i), mpq_class(c[i]))); return p; }
inline MP swinnerton(int k) { MP f; if (k <= 1) return upoly_of({-2, 0, 1}); if (k == 2) return upoly_of({1, 0, -10, 0, 1}); return upoly_of({576, 0, -960, 0, 352, 0, -40, 0, 1}); }
inline MP cyclo_like(int n, long a) { MP p = model::var(0, n); return model::sub(p, model::cst(a)); }
inline Prod factor_input(Rng& r, bool allow_q) {
    Prod P; int fam = (int)r.below(23); int nv = 2 + (int)r.below(r.chance(1, 3) ? 3 : 2); int np = 1 + (int)r.below(3); int64_t c = r.chance(1, 2) ? 4 : r.chance(1, 2) ? 30 : 100000;
    auto mult = [&] { return r.chance(1, 4) ? 2 + (int)r.below(2) : 1; };
    auto part = [&](int n, int d, int t, int64_t cm) { MP p; for (int k = 0; k < 8; ++k) { p = rp(r, n, d, t, cm); if (!p.constant()) break; } return p; };
    switch (fam) {
    case 0: case 1: { P.fam = "univariate product"; P.univ = true; int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) P.parts.push_back({part(1, 1 + (int)r.below(5), 4, c), mult()}); break; }
    case 2: { P.fam = "many linear factors"; P.univ = true; int n = 2 + (int)r.below(9); for (int i = 0; i < n; ++i) P.parts.push_back({model::add(model::scale(model::var(0), mpq_class((long)r.range(1, r.chance(1, 2) ? 1 : 12))), model::cst(mpq_class((long)r.range(-12, 12)))), r.chance(1, 6) ? 2 : 1}); break; }
    case 3: { P.fam = "x^n - a"; P.univ = true; static const long as[] = {1, 1, -1, 2, 16, -4, 64, 81}; P.parts.push_back({cyclo_like(2 + (int)r.below(29), as[r.below(8)]), 1}); break; }
    case 4: { P.fam = "splits modulo every prime"; P.univ = true; P.parts.push_back({swinnerton(1 + (int)r.below(3)), mult()}); if (r.chance(1, 2)) P.parts.push_back({part(1, 3, 3, 5), 1}); if (r.chance(1, 3)) { MP s = swinnerton(2); MP q; for (auto& x : s.t) { q = model::add(q, model::scale(model::pow(model::add(model::var(0), model::cst(1)), (unsigned)x.first[0]), x.second)); } P.parts.push_back({q, 1}); } break; }
    case 5: { P.fam = "big univariate coefficients"; P.univ = true; for (int i = 0; i < 2; ++i) P.parts.push_back({big_coeffs(r, part(1, 4, 4, 5), 20 + (int)r.below(180)), 1}); break; }
    case 6: { P.fam = "coefficients divisible by small primes"; P.univ = true; static const long ps[] = {2, 3, 5, 7, 11, 13, 30, 210, 2310, 30030}; for (int i = 0; i < 2 + (int)r.below(2); ++i) { MP q = part(1, 3, 3, 9); int d = model::deg(q, 0); q = model::add(q, model::scale(model::var(0, d + 1), mpq_class(ps[r.below(10)]))); P.parts.push_back({q, mult()}); } break; }
    case 7: { P.fam = "close to a double root"; P.univ = true; long k = r.range(2, 2000); P.parts.push_back({upoly_of({-k, 1}), 1}); P.parts.push_back({upoly_of({-k - 1, 1}), 1}); if (r.chance(1, 2)) P.parts.push_back({upoly_of({1, 0, k}), 1}); break; }
    case 8: case 9: { P.fam = "multivariate product"; for (int i = 0; i < np; ++i) P.parts.push_back({part(nv, 1 + (int)r.below(3), 1 + (int)r.below(4), c), mult()}); break; }
    case 10: { P.fam = "x^n - y^n"; int n = 2 + (int)r.below(7); if (r.chance(1, 4)) { P.parts.push_back({model::sub(model::var(0, n), model::scale(model::var(1, n), mpq_class(4))), 1}); break; } MP q, l = model::sub(model::var(0), model::var(1)); model::divexact(model::sub(model::var(0, n), model::var(1, n)), l, q); P.parts.push_back({l, 1}); P.parts.push_back({q, 1}); break; }
    case 11: { P.fam = "leading coefficients share factors"; MP l1 = part(nv, 1, 2, 5), l2 = part(nv, 1, 2, 5); for (auto* l : {&l1, &l2}) { MP q; for (auto& x : l->t) { model::Mono m = x.first; m[1] += m[0]; m[0] = 0; q.t[m] += x.second; } *l = q; } for (int i = 0; i < 2; ++i) P.parts.push_back({model::add(model::mul(r.chance(1, 2) ? l1 : model::mul(l1, l2), model::var(0, 1 + (int)r.below(2))), part(nv, 2, 2, 5)), 1}); break; }
    case 12: { P.fam = "leading coefficient vanishes at small points"; int v = 1; for (int i = 0; i < 2; ++i) P.parts.push_back({model::add(model::mul(roots(r, v, 1 + (int)r.below(3), -2), model::var(0, 1 + (int)r.below(2))), part(nv, 2, 2, 5)), 1}); break; }
    case 13: { P.fam = "repeated at small points"; MP h = model::add(model::var(0), part(nv, 1, 2, 4)); P.parts.push_back({h, 1}); P.parts.push_back({model::add(h, model::mul(roots(r, 1, 1 + (int)r.below(4), -2), model::cst(mpq_class((long)r.range(1, 3))))), 1}); break; }
    case 14: { P.fam = "irreducible but reducible when specialised"; int k = 2 + (int)r.below(3); P.parts.push_back({model::sub(model::var(0, k), model::mul(model::var(1), nv > 2 && r.chance(1, 2) ? model::var(2) : model::cst(1))), mult()}); if (r.chance(1, 2)) P.parts.push_back({part(nv, 2, 2, 5), 1}); break; }
    case 15: { P.fam = "content in other variables"; MP cy; for (auto& x : part(2, 2, 2, 5).t) { model::Mono m{}; m[1] = x.first[0]; m[2] = x.first[1]; cy.t[m] += x.second; } P.parts.push_back({cy, mult()}); P.parts.push_back({part(nv, 2, 3, 5), mult()}); break; }
    case 16: { P.fam = "monomial factors"; P.parts.push_back({model::var((int)r.below(nv)), 1 + (int)r.below(3)}); P.parts.push_back({model::var((int)r.below(nv)), 1 + (int)r.below(2)}); P.parts.push_back({part(nv, 2, 3, 5), mult()}); break; }
    case 17: { P.fam = "homogeneous"; for (int i = 0; i < 2; ++i) { MP q; int d = 1 + (int)r.below(2); for (int t = 0; t < 3; ++t) { model::Mono m{}; int l = d; for (int v = 0; v + 1 < nv; ++v) { int e = (int)r.below(l + 1); m[v] += e; l -= e; } m[nv - 1] += l; q.t[m] = (long)r.range(1, 5); } P.parts.push_back({q, mult()}); } break; }
    case 18: { P.fam = "big multivariate coefficients"; bool wide = r.chance(1, 4); for (int i = 0; i < 2; ++i) P.parts.push_back({big_coeffs(r, part(wide ? 2 : nv, 2, 3, 5), 20 + (int)r.below(wide ? 400 : 90)), 1}); break; }
    case 21: { P.fam = "coefficients at the lifting primes"; static const char* const ls[] = {"18446744073709551557", "18446744073709551558", "18446744073709551533", "9223372036854775783", "9223372036854775778", "340282366920938461286658806734041124249", "18446744073709551616"}; if (r.chance(1, 2)) { nv = 2 + (int)r.below(2); int n = 2 + (int)r.below(3); const char* l = ls[r.chance(3, 4) ? 0 : r.below(7)]; for (int i = 0; i < n; ++i) { MP o = model::var(0, 1 + (int)r.below(2)); int t = 1 + (int)r.below(3); for (int k = 0; k < t; ++k) { model::Mono m{}; m[1 + r.below(nv - 1)] = 1 + (int)r.below(2); if (r.chance(1, 3)) m[0] = 1; o.t[m] = mpq_class((long)r.range(1, 3)) * (k == 0 && r.chance(2, 3) ? mpq_class(l) : mpq_class(1)); } o = model::add(o, model::cst(mpq_class((long)r.range(0, 9)))); P.parts.push_back({o, 1}); } break; }
        for (int i = 0; i < 2; ++i) { MP q = part(nv, 2, 3, 5), o; for (auto& x : q.t) o.t[x.first] = r.chance(1, 2) ? mpq_class(x.second * mpq_class(ls[r.below(7)])) : x.second; P.parts.push_back({o, mult()}); } break; }
    case 19: { P.fam = "symmetric sum"; MP s; for (int v = 0; v < nv; ++v) s = model::add(s, model::var(v)); long k = r.chance(1, 2) ? 1 : 2; P.parts.push_back({model::sub(s, model::cst(mpq_class(k))), 1}); P.parts.push_back({model::add(s, model::cst(mpq_class(k))), 1}); if (r.chance(1, 2)) P.parts.push_back({model::add(s, model::cst(3)), mult()}); break; }
    case 20: { P.fam = "conjugate under every variable"; MP u = part(nv, 1, 2, 3), w = part(nv, 1, 2, 3); P.parts.push_back({model::sub(u, w), 1}); P.parts.push_back({model::add(u, w), 1}); break; }
    default: { P.fam = "four variables, sparse"; nv = 4; for (int i = 0; i < 2; ++i) { MP q = model::add(part(4, 2, 2, 9), model::var((int)r.below(4), 1 + (int)r.below(2))); P.parts.push_back({q, 1}); } break; }
    }
    for (auto it = P.parts.begin(); it != P.parts.end();) if (it->first.constant()) it = P.parts.erase(it); else ++it;
    while (model::tdeg(P.product()) > (P.univ ? 40 : 11) && P.parts.size() > 1) P.parts.pop_back();
    for (auto& x : P.parts) if (!P.univ && model::tdeg(P.product()) > 11) x.second = 1;
    P.content = mpq_class((long)r.range(1, r.chance(1, 2) ? 1 : 60)); if (r.chance(1, 3)) P.content = -P.content; if (r.chance(1, 20)) P.content *= mpq_class(bigint(r, 80));
    if (allow_q && r.chance(3, 4)) P.content /= (long)r.range(1, 30);
    return P;
}
}
