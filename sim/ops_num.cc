// Operations on numbers, modular numbers and streams.
#include "ops_impl.hh"
#include <sstream>
namespace ops {
std::vector<Op>& table() { static std::vector<Op> t; return t; }
Reg::Reg(const Op& o) { table().push_back(o); }
const Op* find(const std::string& n) { for (auto& o : table()) if (n == o.name) return &o; return nullptr; }
std::string sep(const SV& v, char c) { std::string o; for (size_t i = 0; i < v.size(); ++i) { if (i) o += c; o += v[i]; } return o; }
}
using namespace ops;
static const uint64_t PR[] = {2, 3, 5, 13, 65537, 1000000007ull, 9223372036854775783ull, 18446744073709551557ull, 9223372036854775837ull, 13971694685687283973ull};
static uint64_t prime(const std::string& s) { uint64_t p = std::stoull(s); for (uint64_t q : PR) if (p == q) return p; throw std::invalid_argument("modulus"); }
OP(zz_arith, 3, false, { return (SV{num(r), num(r)}); } MAKE {
    return fn(two(ZZ(a.at(0)), ZZ(a.at(1))), [](const std::pair<ZZ, ZZ>& p) { std::vector<ZZ> o; o.push_back(p.first + p.second); o.push_back(p.first - p.second); o.push_back(p.first * p.second); o.push_back(-p.first); o.push_back(p.first * p.first * p.second); o.push_back(pow(p.first, 3)); return o; }); })
OP(zz_div, 3, false, { return (SV{num(r), nz(r)}); } MAKE {
    return fn(two(ZZ(a.at(0)), ZZ(a.at(1))), [](const std::pair<ZZ, ZZ>& p) { std::vector<ZZ> o; o.push_back(p.first / p.second); o.push_back(p.first % p.second); o.push_back(gcd(p.first, p.second)); o.push_back(lcm(p.first, p.second)); o.push_back(abs(p.first)); ZZ c(p.first); c /= p.second; o.push_back(c); return o; }); })
OP(zz_accum, 2, false, { return (SV{num(r), num(r), num(r)}); } MAKE {
    return fn(std::vector<ZZ>{ZZ(a.at(0)), ZZ(a.at(1)), ZZ(a.at(2))}, [](const std::vector<ZZ>& p) { ZZ s(p[0]); addmul(s, p[1], p[2]); submul(s, p[2], p[0]); s += p[1]; s *= p[2]; s -= p[0]; return s; }); })
OP(zz_text, 3, false, { return (SV{num(r)}); } MAKE {
    return fn(ZZ(a.at(0)), [](const ZZ& z) { std::ostringstream o; o.exceptions(std::ios::badbit); o << z; std::istringstream i(o.str()); i.exceptions(std::ios::badbit); ZZ back; i >> back; return two(o.str(), back); }); })
OP(zz_prime, 2, false, { return (SV{mpz_class(abs(gens::bigint(r, 20 + (int)r.below(80)))).get_str()}); } MAKE {
    return fn(ZZ(a.at(0)), [](const ZZ& z) { ZZ q = next_prime(z); return two(q, prev_prime_64(UINT64_C(1) << 40)); }); })
OP(qq_arith, 3, false, { return (SV{num(r), nz(r), num(r), nz(r)}); } MAKE {
    return fn(two(QQ(ZZ(a.at(0)), ZZ(a.at(1))), QQ(ZZ(a.at(2)), ZZ(a.at(3)))), [](const std::pair<QQ, QQ>& p) { std::vector<QQ> o; o.push_back(p.first + p.second); o.push_back(p.first * p.second); o.push_back(p.first - p.second); if (!(p.second == QQ(0))) o.push_back(p.first / p.second); QQ c(p.first); c *= p.second; c += p.first; o.push_back(c); return o; }); })
OP(qq_text, 3, false, { return (SV{num(r), nz(r)}); } MAKE {
    return fn(QQ(ZZ(a.at(0)), ZZ(a.at(1))), [](const QQ& q) { std::ostringstream o; o.exceptions(std::ios::badbit); o << q; std::istringstream i(o.str()); i.exceptions(std::ios::badbit); QQ back; i >> back; return two(o.str(), back); }); })
OP(zz_copy, 2, false, { return (SV{num(r), num(r), num(r)}); } MAKE {
    return fn(std::vector<ZZ>{ZZ(a.at(0)), ZZ(a.at(1)), ZZ(a.at(2))}, [](const std::vector<ZZ>& p) { std::vector<ZZ> o(p); for (auto& z : p) o.push_back(z); o[0] = o[1]; swap(o[1], o[2]); return o; }); })
static std::string umtext(Rng& r, int d) { MP p; for (int i = 0; i <= d; ++i) if (r.chance(3, 4)) p = model::add(p, model::scale(model::var(0, i), mpq_class(mpz_class((unsigned long)r.next())))); p = model::add(p, model::var(0, d)); return T(p); }
static upolynomial_<Zp> um(const std::string& s, uint64_t p) { return polynomial_mod(upoly<ZZ>(s), p); }
struct ZU { upolynomial_<Zp> f, g; };
OP(zp_upoly, 4, false, { return (SV{std::to_string(PR[3 + r.below(7)]), umtext(r, 1 + r.below(14)), umtext(r, 1 + r.below(9))}); } MAKE {
    uint64_t p = prime(a.at(0));
    return fn(two(um(a.at(1), p), um(a.at(2), p)), [](const std::pair<upolynomial_<Zp>, upolynomial_<Zp>>& x) { std::vector<upolynomial_<Zp>> o; o.push_back(x.first * x.second); o.push_back(x.first + x.second); o.push_back(x.first - x.second); if (!x.second.empty()) o.push_back(x.first * x.first / x.second); upolynomial_<Zp> s, t; o.push_back(polynomial_GCD(x.first * x.second, x.second)); if (!x.first.empty() && !x.second.empty()) o.push_back(polynomial_GCD(x.first, x.second, s, t)); o.push_back(s); o.push_back(t); o.push_back(derivative(x.first)); return o; }); })
OP(zp_dense, 3, false, { return (SV{std::to_string(PR[3 + r.below(7)]), umtext(r, 1 + r.below(90)), umtext(r, 1 + r.below(60))}); } MAKE {
    uint64_t p = prime(a.at(0));
    return fn(two(um(a.at(1), p), um(a.at(2), p)), [p](const std::pair<upolynomial_<Zp>, upolynomial_<Zp>>& x) { std::vector<upolynomial_<Zp>> o; dense_upoly_zp f(x.first, p), g(x.second, p), h; dense_upoly_zp::gcd(h, f, g); o.push_back(h.to_upoly()); o.push_back(f.to_upoly()); return o; }); })
OP(zp_factor, 4, true, { return (SV{std::to_string(PR[2 + r.below(8)]), umtext(r, 2 + r.below(7))}); } MAKE {
    uint64_t p = prime(a.at(0));
    return fn(um(a.at(1), p), [](const upolynomial_<Zp>& f) { if (f.empty()) return decltype(__factor_Zp(f))(); return __factor_Zp(f); }); })
