// Operations on polynomials that need no randomness.
#include "ops_impl.hh"
#include <sstream>
using namespace ops;
template <class P> static std::pair<P, P> pp2(const SV& a) { return two(poly<P>(a.at(0)), poly<P>(a.at(1))); }
static SV g2(Rng& r, int d, int t) { int nv = 1 + (int)r.below(4); return {T(anyp(r, nv, d, t)), T(anyp(r, nv, d, t))}; }
template <class P> static std::vector<P> ring(const std::pair<P, P>& p) { std::vector<P> o; o.push_back(p.first + p.second); o.push_back(p.first - p.second); o.push_back(p.first * p.second); o.push_back(-p.first); if (!p.second.empty()) o.push_back(p.first * p.second / p.second); P c(p.first); c = p.second; o.push_back(c); o.push_back(pow(p.second, 2)); return o; }
typedef polynomial_<ZZ, lex> L; typedef polynomial_<QQ, lex> LQ; typedef std::vector<std::pair<variable, int64_t>> VV;
OP(poly_zz, 4, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(12)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { return ring(p); }); })
OP(poly_lex, 3, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(12)); } MAKE { return fn(pp2<L>(a), [](const std::pair<L, L>& p) { return ring(p); }); })
OP(poly_qq, 3, false, { return g2(r, 1 + (int)r.below(4), 1 + (int)r.below(8)); } MAKE { return fn(two(poly<polynomial_QQ>(a.at(0)), poly<polynomial_QQ>(a.at(1))), [](const std::pair<polynomial_QQ, polynomial_QQ>& p) { std::vector<polynomial_QQ> o; o.push_back(p.first + p.second); o.push_back(p.first - p.second); o.push_back(p.first * p.second); o.push_back(-p.first); polynomial_QQ c(p.first); c = p.second; o.push_back(c); o.push_back(pow(p.second, 2)); return o; }); })
// wide exponents: the packed-monomial paths do not apply
OP(poly_wide, 3, false, { MP p = anyp(r, 3, 3, 6), q = anyp(r, 3, 3, 6); p = model::add(p, model::var(1, 1 + (int)r.below(100000) * 1000)); q = model::add(q, model::mul(model::var(0), model::var(2, 7 + (int)r.below(1000000)))); return (SV{T(p), T(q)}); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::vector<polynomial_ZZ> o; o.push_back(p.first * p.second); o.push_back(p.first * p.second / p.first); o.push_back(p.first * p.first); polynomial_ZZ q, rr; polynomial_div(q, rr, p.first * p.second, p.second); o.push_back(q); o.push_back(rr); return o; }); })
OP(poly_pow, 2, false, { return (SV{T(anyp(r, 1 + (int)r.below(3), 2, 1 + (int)r.below(4))), std::to_string(r.below(6))}); } MAKE { int n = (int)sim::toint(a.at(1)); return fn(poly<polynomial_ZZ>(a.at(0)), [n](const polynomial_ZZ& p) { return pow(p, n); }); })
OP(poly_divrem, 3, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { polynomial_ZZ q, s; if (!p.second.empty()) polynomial_div(q, s, p.first, p.second); return two(q, s); }); })
OP(poly_print, 3, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::ostringstream o; o.exceptions(std::ios::badbit); o << p.first << " " << p.second; std::vector<std::string> v; v.push_back(o.str()); v.push_back(p.first.str()); for (auto& t : p.second) v.push_back(t.first.str()); return v; }); })
OP(poly_norm, 2, false, { return g2(r, 1 + (int)r.below(4), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::vector<std::pair<monomial, ZZ>> t; for (auto& x : p.first) t.push_back(x); for (auto& x : p.second) t.insert(t.begin(), x); polynomial_ZZ q(t); q.normalization(); return q; }); })
OP(poly_cmp, 2, false, { return g2(r, 1 + (int)r.below(4), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::vector<int> o; o.push_back(p.first == p.second); o.push_back(p.first < p.second); o.push_back(p.first > p.second); o.push_back((int)degree(p.first)); o.push_back((int)degree(p.second, vars()[1])); o.push_back((int)get_variables(p.first).size()); o.push_back(is_number(p.second)); return o; }); })
OP(poly_convert, 3, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { L l; polynomial_QQ q; polynomial_ZZ b, d; poly_convert(p.first, l); poly_convert(p.second, q); poly_convert(l, b); poly_convert(q, d); return two(two(l, q), two(b, d)); }); })
OP(poly_deriv, 2, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { return two(derivative(p.first, vars()[0]), derivative(p.second, vars()[2])); }); })
OP(poly_assign, 3, false, { SV s = g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); s.push_back(num(r)); return s; } MAKE { return fn(two(pp2<polynomial_ZZ>(a), ZZ(a.at(2))), [](const std::pair<std::pair<polynomial_ZZ, polynomial_ZZ>, ZZ>& p) { std::map<variable, ZZ> m; m[vars()[0]] = p.second; m[vars()[1]] = ZZ(3); return two(assign(p.first.first, vars()[0], p.second), assign(p.first.second, m)); }); })
OP(poly_coeff, 3, false, { return g2(r, 1 + (int)r.below(5), 1 + (int)r.below(9)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { return two(coeff(p.first, vars()[0]), leadcoeff(p.second, vars()[0])); }); })
OP(poly_prem, 3, false, { int nv = 1 + (int)r.below(3); return (SV{T(model::add(anyp(r, nv, 3, 4), model::var(0, 1 + (int)r.below(3)))), T(model::add(gens::rp(r, nv, 2, 3, 9), model::var(0, 1 + (int)r.below(2))))}); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { polynomial_ZZ R; polynomial_ZZ q = pquo(R, p.first, p.second, vars()[0]); return two(prem(p.first, p.second, vars()[0]), two(q, R)); }); })
OP(poly_prem_lex, 3, false, { int nv = 1 + (int)r.below(3); return (SV{T(model::add(anyp(r, nv, 3, 4), model::var(0, 1 + (int)r.below(3)))), T(model::add(gens::rp(r, nv, 2, 3, 9), model::var(0, 1 + (int)r.below(2))))}); } MAKE { return fn(pp2<L>(a), [](const std::pair<L, L>& p) { L R; L q = pquo(R, p.first, p.second, vars()[0]); return two(prem(p.first, p.second, vars()[0]), two(q, R)); }); })
OP(poly_mod, 3, false, { SV s = g2(r, 1 + (int)r.below(4), 1 + (int)r.below(8)); static const char* ps[] = {"13", "65537", "18446744073709551557", "13971694685687283973"}; s.push_back(ps[r.below(4)]); return s; } MAKE { uint64_t q = std::stoull(a.at(2)); if (q != 13 && q != 65537 && q != 18446744073709551557ull && q != 13971694685687283973ull) throw std::invalid_argument("modulus"); return fn(pp2<L>(a), [q](const std::pair<L, L>& p) { auto f = polynomial_mod(p.first, q), g = polynomial_mod(p.second, q); std::vector<polynomial_<Zp, lex>> o; o.push_back(f * g); o.push_back(f + g); o.push_back(f - g); if (!g.empty()) o.push_back(f * g / g); if (!f.empty()) o.push_back(pow(f, 2)); L back; poly_convert(f, back); return two(o, back); }); })
OP(upoly_zz, 3, false, { return (SV{T(anyp(r, 1, 1 + (int)r.below(12), 1 + (int)r.below(10))), T(anyp(r, 1, 1 + (int)r.below(8), 1 + (int)r.below(6))), num(r)}); } MAKE { return fn(two(two(upoly<ZZ>(a.at(0)), upoly<ZZ>(a.at(1))), ZZ(a.at(2))), [](const std::pair<std::pair<upolynomial_<ZZ>, upolynomial_<ZZ>>, ZZ>& x) { auto& p = x.first; std::vector<upolynomial_<ZZ>> o; o.push_back(p.first * p.second); o.push_back(p.first + p.second); o.push_back(p.first - p.second); o.push_back(pow(p.second, 3)); o.push_back(derivative(p.first)); if (!p.second.empty()) o.push_back(p.first * p.second / p.second); return two(o, assign<ZZ, ZZ, ZZ>(p.first, x.second)); }); })
OP(upoly_conv, 2, false, { return (SV{T(anyp(r, 1, 1 + (int)r.below(12), 1 + (int)r.below(10)))}); } MAKE { return fn(poly<polynomial_ZZ>(a.at(0)), [](const polynomial_ZZ& p) { upolynomial_<ZZ> u; poly_convert(p, u); std::ostringstream o; o.exceptions(std::ios::badbit); o << u; return two(u, two(o.str(), two(u.str(), u.empty() ? std::string() : u.front().first.str()))); }); })
OP(poly_containers, 2, false, { return g2(r, 1 + (int)r.below(4), 1 + (int)r.below(8)); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::set<polynomial_ZZ> s; s.insert(p.first); s.insert(p.second); s.insert(p.first); std::vector<polynomial_ZZ> v(s.begin(), s.end()); v.push_back(p.second); std::unordered_map<polynomial_ZZ, int> m; ++m[p.first]; ++m[p.first]; ++m[p.second]; return two(v, two(m[p.first], (int)m.size())); }); })
OP(poly_scalar, 2, false, { SV s = g2(r, 1 + (int)r.below(4), 1 + (int)r.below(8)); s.push_back(num(r)); return s; } MAKE { return fn(two(pp2<polynomial_ZZ>(a), ZZ(a.at(2))), [](const std::pair<std::pair<polynomial_ZZ, polynomial_ZZ>, ZZ>& x) { std::vector<polynomial_ZZ> o; o.push_back(x.first.first * x.second); o.push_back(x.first.first + x.second); o.push_back(x.first.second - x.second); return o; }); })
