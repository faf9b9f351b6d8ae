// Decompositions, modular polynomials, monomials, dense arithmetic, containers, graphs and substitutions.
#include "ops_impl.hh"
#include <clpoly/charset.hh>
#include <sstream>
using namespace ops;
typedef polynomial_<ZZ, lex> L; typedef lex_<custom_var_order> CO; typedef polynomial_<ZZ, CO> C; typedef polynomial_<Zp, lex> ML; typedef polynomial_<Zp, grlex> MG;
static int N(const std::string& s) { return (int)(std::labs((long)sim::toint(s)) % 100000); }
template <class P> static std::pair<P, P> pp2(const SV& a) { return two(poly<P>(a.at(0)), poly<P>(a.at(1))); }
// chains in y > x
struct CA { std::shared_ptr<CO> c; std::vector<C> p; };
static std::string show(const CA& x) { return ops::show(x.p); }
static CA chain(const SV& a, size_t n) { CA x; x.c.reset(new CO(custom_var_order(std::vector<variable>{vars()[1], vars()[0]}))); for (size_t i = 0; i < n && i < a.size(); ++i) { C p(x.c.get()); load(p, a[i]); x.p.push_back(std::move(p)); } return x; }
template <class R, class F> struct FnC : Call { CA a; F f; std::unique_ptr<R> r; FnC(CA x, F g) : a(std::move(x)), f(g) {} void run() override { const CA& c = a; Lib l; R t = f(c); r.reset(); r.reset(new R(std::move(t))); } std::string result() override { Host h; return r ? ops::show(*r) : "none"; } std::string args() override { Host h; return show(a); } void clear() override { Lib l; r.reset(); } };
template <class F> static std::unique_ptr<Call> fnc(CA a, F f) { typedef decltype(f((const CA&)a)) R; return std::unique_ptr<Call>(new FnC<R, F>(std::move(a), f)); }
static MP lin(Rng& r, int v, long c) { return model::sub(model::var(v), model::cst((long)r.range(-c, c))); }
static SV tri(Rng& r) { // x: product of linear factors; y: over x; f: meets some of the zeros
    MP a = lin(r, 0, 3); if (r.chance(2, 3)) a = model::mul(a, lin(r, 0, 3));
    MP b = r.chance(1, 2) ? model::sub(model::var(1, 1 + (int)r.below(2)), gens::rp(r, 1, 1, 2, 4)) : model::mul(lin(r, 1, 2), model::sub(model::var(1), r.chance(1, 2) ? model::var(0) : model::cst((long)r.range(-2, 2))));
    if (r.chance(1, 3)) b = model::mul(b, lin(r, 0, 3));
    MP f = r.chance(1, 2) ? lin(r, (int)r.below(2), 3) : model::mul(lin(r, 0, 3), r.chance(1, 2) ? lin(r, 1, 2) : model::sub(model::var(1), model::var(0)));
    return {T(a), T(b), T(f)};
}
static bool ischain(const CA& x) { return x.p.size() >= 3 && get_variables(x.p[0]).size() == 1 && get_first_var(x.p[0]) == vars()[0] && !x.p[1].empty() && get_first_var(x.p[1]) == vars()[1] && !x.p[2].empty(); }
OP(tri_regular, 3, true, { return tri(r); } MAKE { return fnc(chain(a, 3), [](const CA& x) { typedef std::vector<std::vector<C>> D; std::vector<D> o; if (!ischain(x)) return o; std::vector<C> t(x.p.begin(), x.p.begin() + 2); D z = ZDtoRC(t); for (auto& c : z) { o.push_back(RCtoSqrfree(c)); auto s = rsd(c, x.p[2]); o.push_back(s.first); o.push_back(s.second); auto w = wrsd(c, x.p[2]); o.push_back(w.first); o.push_back(w.second); } o.push_back(std::move(z)); return o; }); })
OP(tri_wu, 2, true, { return tri(r); } MAKE { return fnc(chain(a, 3), [](const CA& x) { if (!ischain(x)) return std::vector<std::vector<C>>(); return Wucharset(x.p); }); })
OP(tri_grd, 2, true, { return tri(r); } MAKE { return fnc(chain(a, 3), [](const CA& x) { if (!ischain(x)) return std::vector<std::vector<C>>(); std::vector<C> t(x.p.begin(), x.p.begin() + 2); auto o = GRDforZD(t); std::vector<std::vector<C>> S{t, {}, {}, {x.p[2]}}; for (auto& u : GRDforZDSAS(S)) for (auto& c : u) o.push_back(c); return o; }); })
// prime-field polynomials in several variables
static const uint64_t PR[] = {3, 13, 65537, 1000000007ull, 18446744073709551557ull, 13971694685687283973ull};
static uint64_t prime(const std::string& s) { uint64_t p = std::stoull(s); for (uint64_t q : PR) if (p == q) return p; throw std::invalid_argument("modulus"); }
static SV zp2(Rng& r) { int nv = 1 + (int)r.below(3); return {std::to_string(PR[r.below(6)]), T(anyp(r, nv, 1 + (int)r.below(4), 1 + (int)r.below(8))), T(anyp(r, nv, 1 + (int)r.below(3), 1 + (int)r.below(5)))}; }
template <class P, class Z> static std::vector<P> zpring(const std::pair<P, P>& x) { std::vector<P> o; o.push_back(x.first * x.second); o.push_back(x.first + x.second); o.push_back(x.first - x.second); o.push_back(-x.first); o.push_back(pow(x.second, 3)); if (!x.second.empty()) o.push_back(x.first * x.second / x.second); o.push_back(derivative(x.first, vars()[0])); P c(x.second); c = x.first; o.push_back(std::move(c)); return o; }
OP(zp_lex, 3, false, { return zp2(r); } MAKE { uint64_t p = prime(a.at(0)); return fn(two(polynomial_mod(poly<L>(a.at(1)), p), polynomial_mod(poly<L>(a.at(2)), p)), [](const std::pair<ML, ML>& x) { return zpring<ML, L>(x); }); })
OP(zp_grlex, 3, false, { return zp2(r); } MAKE { uint64_t p = prime(a.at(0)); return fn(two(polynomial_mod(poly<polynomial_ZZ>(a.at(1)), p), polynomial_mod(poly<polynomial_ZZ>(a.at(2)), p)), [](const std::pair<MG, MG>& x) { L l; polynomial_ZZ m; poly_convert(x.first, l); poly_convert(MG(x.second), m); return two(zpring<MG, polynomial_ZZ>(x), two(l, m)); }); })
OP(zp_bezout, 2, false, { return zp2(r); } MAKE { uint64_t p = prime(a.at(0)); MP f, g; for (auto& t : model::parse(a.at(1)).t) { model::Mono m{}; m[0] = std::min(t.first[0], 40); f.t[m] += t.second; } for (auto& t : model::parse(a.at(2)).t) { model::Mono m{}; m[0] = std::min(t.first[0], 40); g.t[m] += t.second; } auto u = [&](MP q) { for (auto i = q.t.begin(); i != q.t.end();) { if (i->second == 0) i = q.t.erase(i); else ++i; } return polynomial_mod(upoly<ZZ>(T(q)), p); };
    return fn(two(u(f), u(g)), [](const std::pair<upolynomial_<Zp>, upolynomial_<Zp>>& x) { std::vector<upolynomial_<Zp>> o; o.push_back(polynomial_GCD(x.first, x.second)); if (!x.second.empty()) { upolynomial_<Zp> q, m; __upoly_divmod(q, m, x.first, x.second); o.push_back(q); o.push_back(m); if (x.second.front().first.deg() > 0) o.push_back(__upoly_powmod(x.first, ZZ(37), x.second)); } o.push_back(derivative(x.first)); return o; }); })
// dense arithmetic over the thresholds of the fast algorithms
static std::string dtext(Rng& r, int d) { MP p; for (int i = 0; i <= d; ++i) if (r.chance(5, 6)) p.t[model::Mono{i}] = mpq_class((long)r.range(1, 1000000)); p.t[model::Mono{d}] = 1; return T(p); }
OP(dense_ring, 3, false, { return (SV{std::to_string(PR[1 + r.below(5)]), dtext(r, 1 + (int)r.below(r.chance(1, 2) ? 20 : 150)), dtext(r, 1 + (int)r.below(r.chance(1, 2) ? 20 : 130)), std::to_string(r.below(1000))}); } MAKE { uint64_t p = prime(a.at(0)); uint64_t c = (uint64_t)N(a.at(3)) % p;
    return fn(two(polynomial_mod(upoly<ZZ>(a.at(1)), p), polynomial_mod(upoly<ZZ>(a.at(2)), p)), [p, c](const std::pair<upolynomial_<Zp>, upolynomial_<Zp>>& x) { std::vector<upolynomial_<Zp>> o; dense_upoly_zp f(x.first, p), g(x.second, p), h(p), q(p), m(p); dense_upoly_zp::mul(h, f, g); o.push_back(h.to_upoly()); dense_upoly_zp::add(q, h, f); o.push_back(q.to_upoly()); dense_upoly_zp::sub(q, q, h); o.push_back(q.to_upoly()); if (!g.empty()) { dense_upoly_zp::divrem(q, m, h, g); o.push_back(q.to_upoly()); o.push_back(m.to_upoly()); dense_upoly_zp::divrem(f, q, f, g); o.push_back(f.to_upoly()); o.push_back(q.to_upoly()); } dense_upoly_zp::gcd(m, h, g); o.push_back(m.to_upoly()); h.scalar_mul(c); o.push_back(h.to_upoly()); dense_upoly_zp::mul(g, g, g); o.push_back(g.to_upoly()); return o; }); })
// monomials
static SV g_monos(Rng& r) { int nv = 1 + (int)r.below(4); return {T(anyp(r, nv, 1 + (int)r.below(5), 1 + (int)r.below(7))), T(anyp(r, nv, 1 + (int)r.below(4), 1 + (int)r.below(6)))}; }
OP(monomials, 2, false, { return g_monos(r); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::vector<std::string> o; std::vector<monomial> v; for (auto& t : p.first) v.push_back(t.first); for (auto& t : p.second) v.push_back(t.first); std::sort(v.begin(), v.end()); for (size_t i = 0; i + 1 < v.size() && i < 5; ++i) { monomial q; o.push_back((v[i] * v[i + 1]).str()); o.push_back(gcd(v[i], v[i + 1]).str()); o.push_back(lcm(v[i], v[i + 1]).str()); o.push_back(pow(v[i], 3).str()); if (is_divexact(q, v[i] * v[i + 1], v[i])) o.push_back(q.str()); o.push_back((v[i] * v[i + 1] / v[i + 1]).str()); monomial c(v[i]); c = v[i + 1]; c.swap(q); o.push_back(std::to_string(c.deg()) + q.str() + std::to_string(v[i] < v[i + 1]) + std::to_string(hash_value(v[i]) == hash_value(c))); } return o; }); })
// containers and streams
OP(text_containers, 2, false, { return g_monos(r); } MAKE { return fn(pp2<polynomial_ZZ>(a), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { std::ostringstream o; o.exceptions(std::ios::badbit); std::vector<polynomial_ZZ> v; v.push_back(p.first); v.push_back(p.second); v.push_back(p.first + p.second); std::set<polynomial_ZZ> s(v.begin(), v.end()); std::sort(v.begin(), v.end()); o << v << s; for (auto& x : v) o << x; return o.str(); }); })
OP(moves, 2, false, { return g_monos(r); } MAKE { return fn(pp2<L>(a), [](const std::pair<L, L>& p) { std::vector<L> v; v.push_back(p.first); v.push_back(p.second); L a(v[0]), b(std::move(v[1])); a.swap(b); v[1] = std::move(a); v[0] = v[1]; v.insert(v.begin(), b); L c; c = v[0] * v[1]; c = c - v[2]; v.push_back(std::move(c)); v.erase(v.begin()); return v; }); })
// substitutions and orders
OP(substitute, 3, false, { SV s = g_monos(r); s.push_back(num(r)); s.push_back(nz(r)); return s; } MAKE { return fn(two(pp2<polynomial_ZZ>(a), two(ZZ(a.at(2)), QQ(ZZ(a.at(2)), ZZ(a.at(3))))), [](const std::pair<std::pair<polynomial_ZZ, polynomial_ZZ>, std::pair<ZZ, QQ>>& x) { polynomial_QQ q; poly_convert(x.first.first, q); std::map<variable, QQ> m; m[vars()[0]] = x.second.second; m[vars()[2]] = QQ(2); L l; poly_convert(x.first.second, l); std::map<variable, ZZ> z; z[vars()[1]] = x.second.first; return two(two(assign(q, vars()[1], x.second.second), assign(q, m)), two(two(assign(l, vars()[0], ZZ(5)), assign(l, z)), derivative(q, vars()[0]))); }); })
OP(upoly_eval, 2, false, { return (SV{T(anyp(r, 1, 1 + (int)r.below(12), 1 + (int)r.below(8))), num(r), nz(r)}); } MAKE { return fn(two(upoly<ZZ>(a.at(0)), QQ(ZZ(a.at(1)), ZZ(a.at(2)))), [](const std::pair<upolynomial_<ZZ>, QQ>& x) { return two(assign<QQ, ZZ, QQ>(x.first, x.second), two(assign(x.first, x.second.get_num()), derivative(x.first))); }); })
OP(resultant_qq, 2, false, { int nv = 1 + (int)r.below(2); auto f = [&] { return T(model::add(gens::rp(r, nv, 2, 3, 9), model::var(0, 1 + (int)r.below(2)))); }; return (SV{f(), f()}); } MAKE { return fn(two(poly<polynomial_<QQ, lex>>(a.at(0)), poly<polynomial_<QQ, lex>>(a.at(1))), [](const std::pair<polynomial_<QQ, lex>, polynomial_<QQ, lex>>& p) { return two(resultant(p.first, p.second, vars()[0]), prem(p.first, p.second, vars()[0], false)); }); })
OP(roots_many, 3, true, { SV s; MP c = gens::roots(r, 0, 1, -3); int n = 2 + (int)r.below(2); for (int i = 0; i < n; ++i) { MP p = gens::rp(r, 1, 1 + (int)r.below(3), 3, 20); s.push_back(T(r.chance(1, 2) ? model::mul(p, c) : p)); } return s; } MAKE { std::vector<L> v; for (auto& s : a) v.push_back(poly<L>(s)); return fn(v, [](const std::vector<L>& v) { auto q = realroot(v); std::vector<uroot> all(q.first); for (auto& x : q.first) all.push_back(x); std::sort(all.begin(), all.end(), [](const uroot& a, const uroot& b) { uroot x(a), y(b); return uroot::comp(&x, &y) > 0; }); std::vector<int> c; for (auto& x : all) { c.push_back(uroot::comp(&x, QQ(0))); c.push_back(uroot::comp(&x, QQ(7, 5))); } return two(two(all, c), q.second); }); })
// random polynomials by density, graphs
static std::vector<variable> vl(int n) { std::vector<variable> v; for (int i = 0; i < n && i < 6; ++i) v.push_back(vars()[i]); return v; }
OP(random_density, 2, true, { return (SV{std::to_string(1 + r.below(3)), std::to_string(r.below(4)), std::to_string(r.below(17))}); } MAKE { int d = N(a.at(1)) % 5; double p = (N(a.at(2)) % 17) / 16.0; return fn(vl(1 + N(a.at(0)) % 4), [d, p](const std::vector<variable>& v) { return two(random_polynomial<ZZ>(v, (uint64_t)d, p, -9, 9), random_polynomials<ZZ>(v, (uint64_t)d, p, 0.5, 9, -9)); }); })
static graph<variable> mkg(const std::string& e, int n) { graph<variable> g; Lib l; for (int i = 0; i < n; ++i) g.add_node(vars()[i]); { Host h; for (size_t i = 0; i + 1 < e.size(); i += 2) { int x = (e[i] - '0' + 60) % n, y = (e[i + 1] - '0' + 60) % n; if (x != y) { Lib l2; g.add_edge(vars()[x], vars()[y]); } } } return g; }
static std::string edges(Rng& r) { std::string s; int m = (int)r.below(9); for (int i = 0; i < 2 * m; ++i) s += (char)('0' + r.below(6)); return s; }
OP(graph_ops, 2, false, { return (SV{edges(r), edges(r), std::to_string(2 + r.below(5))}); } MAKE { int n = 2 + N(a.at(2)) % 5; return fn(two(mkg(a.at(0), n), mkg(a.at(1), n)), [](const std::pair<graph<variable>, graph<variable>>& p) { graph<variable> g(p.first), h; h = p.second; g.add_node(vars()[5]); g.add_edge(vars()[5], vars()[0]); std::ostringstream o; o.exceptions(std::ios::badbit); o << g; graph<variable> k(std::move(h)); h = g; std::vector<double> d; d.push_back(graph_diff_score(p.first, p.second)); d.push_back(graph_diff_score(g, k)); return two(two(h, k), two(o.str(), d)); }); })
