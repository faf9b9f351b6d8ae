// Factorization.
#include "ops_impl.hh"
using namespace ops;
typedef polynomial_<ZZ, lex> L; typedef polynomial_<QQ, lex> LQ;
static std::string in(Rng& r, bool q, int univ) { for (;;) { auto p = gens::factor_input(r, q); if (univ == 1 && !p.univ) continue; if (univ == 0 && p.univ) continue; MP m = p.product(); if (model::tdeg(m) <= (p.univ ? 12 : 6) && m.t.size() <= 24) return T(m); } }
OP(factor_univ, 6, true, { return (SV{in(r, false, 1)}); } MAKE { return fn(upoly<ZZ>(a.at(0)), [](const upolynomial_<ZZ>& p) { return factorize(p); }); })
OP(factor_lex, 7, true, { return (SV{in(r, false, 2)}); } MAKE { return fn(poly<L>(a.at(0)), [](const L& p) { return factorize(p); }); })
OP(factor_grlex, 3, true, { return (SV{in(r, false, 0)}); } MAKE { return fn(poly<polynomial_ZZ>(a.at(0)), [](const polynomial_ZZ& p) { return factorize(p); }); })
OP(factor_qq, 3, true, { return (SV{in(r, true, 2)}); } MAKE { return fn(poly<polynomial_QQ>(a.at(0)), [](const polynomial_QQ& p) { return factorize(p); }); })
