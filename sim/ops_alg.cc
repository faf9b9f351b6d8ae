// GCD, squarefree parts, resultants, characteristic sets, Groebner bases, real roots.
#include "ops_impl.hh"
using namespace ops;
typedef polynomial_<ZZ, lex> L; typedef polynomial_<ZZ, lex_<custom_var_order>> C;
static SV gp(Rng& r) { for (;;) { auto p = gens::gcd_pair(r); if (model::tdeg(p.a) <= 9 && model::tdeg(p.b) <= 9) return {T(p.a), T(p.b)}; } }
struct CA { std::shared_ptr<lex_<custom_var_order>> c; std::vector<C> p; };
static std::string show(const CA& x) { return ops::show(x.p); }
static CA custom(const SV& a, size_t from) {
    std::vector<variable> o; for (char ch : a.at(0)) o.push_back(vars()[(ch - '0') % 6]);
    CA x; x.c.reset(new lex_<custom_var_order>(custom_var_order(o))); for (size_t i = from; i < a.size(); ++i) { C p(x.c.get()); load(p, a[i]); x.p.push_back(std::move(p)); } return x;
}
template <class R, class F> struct FnC : Call { CA a; F f; std::unique_ptr<R> r; FnC(CA x, F g) : a(std::move(x)), f(g) {} void run() override { const CA& c = a; Lib l; R t = f(c); r.reset(); r.reset(new R(std::move(t))); } std::string result() override { Host h; return r ? ops::show(*r) : "none"; } std::string args() override { Host h; return show(a); } void clear() override { Lib l; r.reset(); } };
template <class F> static std::unique_ptr<Call> fnc(CA a, F f) { typedef decltype(f((const CA&)a)) R; return std::unique_ptr<Call>(new FnC<R, F>(std::move(a), f)); }
static std::string perm(Rng& r) { std::string s = "0123"; for (int i = 3; i > 0; --i) std::swap(s[i], s[r.below(i + 1)]); return s; }
OP(gcd_lex, 6, true, { return gp(r); } MAKE { return fn(two(poly<L>(a.at(0)), poly<L>(a.at(1))), [](const std::pair<L, L>& p) { return gcd(p.first, p.second); }); })
OP(gcd_grlex, 4, true, { return gp(r); } MAKE { return fn(two(poly<polynomial_ZZ>(a.at(0)), poly<polynomial_ZZ>(a.at(1))), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { return gcd(p.first, p.second); }); })
OP(gcd_custom, 3, true, { SV s = gp(r); s.insert(s.begin(), perm(r)); return s; } MAKE { return fnc(custom(a, 1), [](const CA& x) { return gcd(x.p.at(0), x.p.at(1)); }); })
OP(gcd_univ, 4, false, { MP g = anyp(r, 1, 1 + (int)r.below(8), 5), p = anyp(r, 1, 1 + (int)r.below(6), 4), q = anyp(r, 1, 1 + (int)r.below(6), 4); return (SV{T(model::mul(g, p)), T(model::mul(g, q))}); } MAKE { return fn(two(upoly<ZZ>(a.at(0)), upoly<ZZ>(a.at(1))), [](const std::pair<upolynomial_<ZZ>, upolynomial_<ZZ>>& p) { upolynomial_<ZZ> g = polynomial_GCD(p.first, p.second); return two(g, cont(p.first)); }); })
OP(gcd_bezout, 2, false, { return (SV{T(anyp(r, 1, 4, 3)), T(anyp(r, 1, 3, 3))}); } MAKE { return fn(two(upoly<ZZ>(a.at(0)), upoly<ZZ>(a.at(1))), [](const std::pair<upolynomial_<ZZ>, upolynomial_<ZZ>>& p) { upolynomial_<ZZ> s, t, g; if (!p.first.empty() && !p.second.empty()) g = polynomial_GCD(p.first, p.second, s, t); return two(g, two(s, t)); }); })
OP(cont_pp, 3, true, { return gp(r); } MAKE { return fn(poly<L>(a.at(0)), [](const L& p) { return two(cont(p), p.empty() ? L() : pp(p)); }); })
OP(sqf, 4, true, { for (;;) { auto p = gens::factor_input(r, false); MP m = p.product(); if (model::tdeg(m) <= 9) return (SV{T(m)}); } } MAKE { return fn(poly<L>(a.at(0)), [](const L& p) { return squarefreefactorize(p); }); })
OP(sqf_basis, 3, true, { MP g = gens::rp(r, 2, 2, 2, 9), h = gens::rp(r, 2, 2, 2, 9), k = gens::rp(r, 2, 2, 2, 9); return (SV{T(model::mul(g, h)), T(model::mul(g, k)), T(model::mul(h, h))}); } MAKE { std::vector<L> v; for (auto& s : a) v.push_back(poly<L>(s)); return fn(v, [](const std::vector<L>& v) { auto b = squarefreebasis(v); return two(b, is_squarefree(v.at(0))); }); })
OP(resultant, 4, false, { int nv = 1 + (int)r.below(3); auto f = [&] { return T(model::add(gens::rp(r, nv, 2, 3, 9), model::var(0, 1 + (int)r.below(3)))); }; return (SV{f(), f()}); } MAKE { return fn(two(poly<polynomial_ZZ>(a.at(0)), poly<polynomial_ZZ>(a.at(1))), [](const std::pair<polynomial_ZZ, polynomial_ZZ>& p) { bool ok = degree(p.first, vars()[0]) >= degree(p.second, vars()[0]) && degree(p.second, vars()[0]) > 0; return two(resultant(p.first, p.second, vars()[0]), ok ? subresultant(p.first, p.second, vars()[0]) : std::vector<polynomial_ZZ>()); }); })
OP(discriminant, 3, false, { int nv = 1 + (int)r.below(3); return (SV{T(model::add(gens::rp(r, nv, 2, 3, 9), model::var(0, 2 + (int)r.below(2))))}); } MAKE { return fn(poly<L>(a.at(0)), [](const L& p) { return discriminant(p, vars()[0]); }); })
OP(charset, 4, false, { SV s; s.push_back(perm(r)); int n = 2 + (int)r.below(2); for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 3, 2, 2 + (int)r.below(2), 5))); return s; } MAKE { return fnc(custom(a, 1), [](const CA& x) { return charset(x.p); }); })
OP(groebner_qq, 4, false, { SV s; int n = 2 + (int)r.below(2); for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 2 + (int)r.below(2), 2, 2 + (int)r.below(2), 5))); return s; } MAKE { std::vector<polynomial_QQ> v; for (auto& s : a) v.push_back(poly<polynomial_QQ>(s)); return fn(v, [](const std::vector<polynomial_QQ>& v) { auto g = groebner_basis(v); return two(g, normal_form(v.at(0) * v.at(0) + v.at(1), g)); }); })
OP(groebner_zz, 3, false, { SV s; int n = 2 + (int)r.below(2); for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 2, 2, 2, 5))); return s; } MAKE { std::vector<polynomial_ZZ> v; for (auto& s : a) v.push_back(poly<polynomial_ZZ>(s)); return fn(v, [](const std::vector<polynomial_ZZ>& v) { return groebner_basis(v); }); })
OP(ideal, 3, false, { SV s; int n = 2; for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 2, 2, 2, 5))); s.push_back(T(gens::rp(r, 2, 3, 4, 5))); return s; } MAKE { std::vector<polynomial_QQ> v; for (auto& s : a) v.push_back(poly<polynomial_QQ>(s)); return fn(v, [](const std::vector<polynomial_QQ>& v) { Ideal<QQ> I({v.at(0), v.at(1)}), J(I); Ideal<QQ> K({v.at(1)}); K = I; return two(two(I.contains(v.at(2)), J.contains(v.at(0))), two(K.reduce(v.at(2)), I.groebner_basis())); }); })
OP(uspensky, 4, false, { MP p = gens::rp(r, 1, 1 + (int)r.below(6), 4, 50); if (r.chance(1, 2)) p = model::mul(p, gens::roots(r, 0, 1 + (int)r.below(3), -3)); return (SV{T(p)}); } MAKE { return fn(upoly<ZZ>(a.at(0)), [](const upolynomial_<ZZ>& u) { if (u.empty() || u.front().first.empty()) return std::vector<std::pair<QQ, QQ>>(); upolynomial_<ZZ> g = polynomial_GCD(u, derivative(u)); return uspensky(u / g); }); })
OP(realroot, 4, true, { SV s; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 1, 1 + (int)r.below(4), 3, 20))); return s; } MAKE { std::vector<polynomial_ZZ> v; for (auto& s : a) v.push_back(poly<polynomial_ZZ>(s)); return fn(v, [](const std::vector<polynomial_ZZ>& v) { return realroot(v); }); })
OP(root_cmp, 3, true, { SV s; for (int i = 0; i < 2; ++i) s.push_back(T(model::mul(gens::rp(r, 1, 3, 3, 20), gens::roots(r, 0, 1, -3)))); return s; } MAKE { std::vector<polynomial_ZZ> v; for (auto& s : a) v.push_back(poly<polynomial_ZZ>(s)); return fn(v, [](const std::vector<polynomial_ZZ>& v) { std::vector<uroot> all; for (auto& p : v) { auto q = realroot(std::vector<polynomial_ZZ>{p}).first; for (auto& x : q) all.push_back(x); } std::vector<int> c; for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) c.push_back(uroot::comp(&all[i], &all[j])); for (auto& x : all) c.push_back(uroot::comp(&x, QQ(1, 3))); return two(c, all); }); })
