// C01: GCD exact under every draw sequence.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;

static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p;
    auto pr = gens::gcd_pair(r);
    p.add("kind", {pr.univ ? "univ" : r.pick(std::vector<std::string>{"lex", "grlex", "custom", "uprio", "lex", "lex"})});
    p.add("draws", {sim::draws_text(sim::draws_gen(r))});
    p.add("perm", {std::to_string(r.below(24))});
    p.add("A", {model::text(pr.a)}); p.add("B", {model::text(pr.b)});
    p.add("fam", {pr.fam});
    return p;
}
struct Out { std::string g, cont, pp, wf; };
template <class P> Out call(const P& A, const P& B, const sim::Draws& d) {
    sim::draws_begin(d);
    Out o; P g(A.comp_ptr());
    { Lib l; g = polynomial_GCD(A, B); }
    o.g = text(g); o.wf = wf(g); return o;
}
template <class comp> void contpp(const polynomial_<ZZ, lex_<comp>>& A, const MP& a, const sim::Draws& d) {
    if (A.empty()) return;
    sim::draws_begin(d);
    polynomial_<ZZ, lex_<comp>> c(A.comp_ptr()), q(A.comp_ptr());
    { Lib l; c = cont(A); q = pp(A); }
    MP m = model::mul(model::parse(text(c)), model::parse(text(q)));
    if (m != a) sim::fail("CONTPP", "cont*pp=" + model::text(m) + " expected " + model::text(a));
}
// sA + tB = c over the integers and modulo primes: with c dividing both, that makes c the gcd
static MP modp(const MP& a, const mpz_class& P) { MP o; for (auto& x : a.t) { mpz_class c = x.second.get_num() % P; if (c < 0) c += P; if (c != 0) o.t[x.first] = c; } return o; }
static bool divp(MP a, const MP& b, const mpz_class& P) { int d = model::deg(b, 0); mpz_class inv, lc = model::coef(b, 0, d).t.begin()->second.get_num(); if (!mpz_invert(inv.get_mpz_t(), lc.get_mpz_t(), P.get_mpz_t())) return false; while (!a.zero() && model::deg(a, 0) >= d) { int D = model::deg(a, 0); mpq_class c(mpz_class(model::coef(a, 0, D).t.begin()->second.get_num() * inv)); a = modp(model::sub(a, model::mul(b, D == d ? model::cst(c) : model::scale(model::var(0, D - d), c))), P); } return a.zero(); }
static void bezout(const MP& a, const MP& b, const upolynomial_<ZZ>& A, const upolynomial_<ZZ>& B, const MP& g, uint64_t sel) {
    if (a.zero() || b.zero() || model::deg(a, 0) + model::deg(b, 0) > 30) return;
    if (model::deg(a, 0) + model::deg(b, 0) <= 16 && model::maxnorm(a) < 1000000000 && model::maxnorm(b) < 1000000000) {
        sim::set_phase("extended gcd over the integers"); upolynomial_<ZZ> c, s, t; { Lib l; c = polynomial_GCD(A, B, s, t); }
        MP C = model::parse(text(c)), S = model::parse(text(s)), T = model::parse(text(t)), q, r; if (model::add(model::mul(S, a), model::mul(T, b)) != C) sim::fail("BEZOUT", "s*A+t*B differs from the extended gcd " + text(c)); if (!model::integral(C) || model::monic(C) != model::monic(g)) sim::fail("BEZOUT", "extended gcd " + text(c) + " is not the gcd " + model::text(g)); if (c.front().second < ZZ(0)) sim::fail("BEZOUT", "leading coefficient of the extended gcd is negative"); sim::count("extended gcds");
    }
    static const uint64_t PR[] = {2, 3, 101, 4294967291ull, 2305843009213693951ull, 18446744073709551557ull, 11696634261228434603ull, 9223372036854775837ull}; uint64_t pr = PR[sel % 8]; mpz_class P(std::to_string(pr)); MP x = modp(a, P), y = modp(b, P); if (x.zero() || y.zero()) return;
    sim::set_phase("extended gcd modulo " + std::to_string(pr)); upolynomial_<Zp> c, s, t; upolynomial_<Zp> X, Y; { Lib l; X = polynomial_mod(A, pr); Y = polynomial_mod(B, pr); c = polynomial_GCD(X, Y, s, t); }
    auto tx = [&](const upolynomial_<Zp>& u) { Host h; MP o; for (auto& w : u) { model::Mono m{}; m[0] = (int)w.first.deg(); o.t[m] = mpz_class(std::to_string(w.second.number())); if (w.second.number() == 0 || w.second.prime() != pr) sim::fail("BEZOUT", "a coefficient is zero or has another modulus"); } return o; };
    MP C = tx(c), S = tx(s), T = tx(t); if (modp(model::add(model::mul(S, x), model::mul(T, y)), P) != C) sim::fail("BEZOUT", "s*A+t*B differs from the extended gcd modulo " + std::to_string(pr)); if (C.zero() || !divp(x, C, P) || !divp(y, C, P)) sim::fail("BEZOUT", "the extended gcd modulo " + std::to_string(pr) + " does not divide both inputs"); if (model::coef(C, 0, model::deg(C, 0)).t.begin()->second != 1) sim::fail("BEZOUT", "the extended gcd modulo " + std::to_string(pr) + " is not monic");
}
// the same over several variables: c generates, over the fractions of the other variables, what the pair generates
template <class comp> static void bezoutm(const MP& a, const MP& b, const polynomial_<ZZ, lex_<comp>>& A, const polynomial_<ZZ, lex_<comp>>& B, const MP& g, const std::vector<int>& order) {
    int v = -1, dt = 0; for (int i : order) if (v < 0 && (model::uses(a, i) || model::uses(b, i))) v = i;
    for (int i = 0; i < model::NV; ++i) if (i != v) dt += std::max(0, model::deg(a, i)) + std::max(0, model::deg(b, i));
    if (a.t.size() > 8 || b.t.size() > 8 || dt > 8 || model::maxnorm(a) > 1000000000 || model::maxnorm(b) > 1000000000) return;
    if (v >= 0 && !a.zero() && !b.zero()) { int s = model::deg(a, v) + model::deg(b, v); if (s > 7 || s * dt > 24) return; }
    sim::set_phase("extended gcd over several variables A=" + model::text(a) + " B=" + model::text(b)); sim::set_soft_limit(300000000ull); polynomial_<ZZ, lex_<comp>> c(A.comp_ptr()), s(A.comp_ptr()), t(A.comp_ptr()); std::string a0 = text(A), b0 = text(B); { Lib l; c = polynomial_GCD(A, B, s, t); }
    if (text(A) != a0 || text(B) != b0) sim::fail("ARGS", "the extended gcd changed its arguments"); for (auto* x : {&c, &s, &t}) { std::string w = wf(*x); if (!w.empty()) sim::fail("FORM", "extended gcd: " + w + ": " + text(*x)); if (!comp_consistent(x->comp(), A.comp())) sim::fail("FORM", "extended gcd with another variable order"); }
    MP C = model::parse(text(c)), S = model::parse(text(s)), T = model::parse(text(t)); if (model::add(model::mul(S, a), model::mul(T, b)) != C) sim::fail("BEZOUT", "s*A+t*B differs from the extended gcd " + text(c));
    if (C.zero()) sim::fail("BEZOUT", "the extended gcd is zero"); if (!model::integral(C) || !model::integral(S) || !model::integral(T)) sim::fail("BEZOUT", "an extended gcd with fractions");
    bool some = v < 0 ? C == g : false; for (int i = 0; i < model::NV && !some; ++i) if ((model::uses(a, i) || model::uses(b, i)) && model::deg(C, i) == std::max(0, model::deg(g, i))) some = true; // in the variable eliminated
    if (!some) sim::fail("BEZOUT", "extended gcd " + text(c).substr(0, 400) + " has in every variable another degree than the gcd " + model::text(g));
    if (!a.zero() && !b.zero() && c.front().second < ZZ(0)) sim::fail("BEZOUT", "leading coefficient of the extended gcd is negative"); sim::count("extended gcds over several variables");
}
static void exec(const sim::Plan& p) {
    init_vars();
    std::string kind = p.knob("kind", "lex");
    MP a = model::parse(p.knob("A", "")), b = model::parse(p.knob("B", ""));
    if (!model::integral(a) || !model::integral(b)) sim::invalid("not integral");
    if (a.zero() && b.zero()) sim::invalid("both zero");
    sim::Draws d = sim::draws_parse(p.knob("draws", "1")), fair; fair.seed = d.seed + 1;
    std::string ta = model::text(a), tb = model::text(b);
    sim::set_phase("polynomial_GCD " + kind + " A=" + ta + " B=" + tb);
    Out o1, o2; uint64_t adv = 0, words = 0;
    auto both = [&](auto& A, auto& B) {
        auto a0 = text(A), b0 = text(B);
        o1 = call(A, B, d); adv = sim::draws_adversarial(); words = sim::draws_used();
        sim::log("gcd " + o1.g);
        o2 = call(A, B, fair);
        if (text(A) != a0 || text(B) != b0) sim::fail("ARGS", "arguments changed");
    };
    std::vector<int> pm{0, 1, 2, 3}; { sim::Rng q(p.num("perm", 0)); for (int i = 3; i > 0; --i) std::swap(pm[i], pm[q.below(i + 1)]); }
    if (kind == "univ") {
        for (auto& x : a.t) for (int i = 1; i < model::NV; ++i) if (x.first[i]) sim::invalid("not univariate");
        for (auto& x : b.t) for (int i = 1; i < model::NV; ++i) if (x.first[i]) sim::invalid("not univariate");
        auto A = upoly<ZZ>(ta), B = upoly<ZZ>(tb); both(A, B);
    } else if (kind == "grlex") { auto A = poly<polynomial_ZZ>(ta), B = poly<polynomial_ZZ>(tb); both(A, B); }
    else if (kind == "custom") {
        lex_<custom_var_order> c(custom_var_order({vars()[pm[0]], vars()[pm[1]], vars()[pm[2]], vars()[pm[3]]}));
        polynomial_<ZZ, lex_<custom_var_order>> A(&c), B(&c); load(A, ta); load(B, tb); both(A, B); contpp(A, a, d);
    } else if (kind == "uprio") {
        univariate_priority_order c(vars()[pm[0]]);
        polynomial_<ZZ, univariate_priority_order> A(&c), B(&c); load(A, ta); load(B, tb); both(A, B); contpp(A, a, d);
    } else { auto A = poly<polynomial_<ZZ, lex>>(ta), B = poly<polynomial_<ZZ, lex>>(tb); both(A, B); contpp(A, a, d); contpp(B, b, d); }
    if (!o1.wf.empty()) sim::fail("FORM", "result not canonical: " + o1.wf + " in " + o1.g);
    MP g = model::parse(o1.g), qa, qb;
    if (g.zero()) sim::fail("ZERO", "gcd is zero");
    if (!model::divexact(a, g, qa) || !model::divexact(b, g, qb)) sim::fail("NOTDIV", "result " + o1.g + " does not divide both inputs");
    if (!model::integral(qa) || !model::integral(qb)) sim::fail("CONTENT", "result " + o1.g + " has too much integer content");
    mpz_class ca = model::icontent(a), cb = model::icontent(b);
    if (model::icontent(g) != gcd(ca, cb)) sim::fail("CONTENT", "result " + o1.g + " misses integer content");
    if (!model::coprime(qa, qb, 7)) sim::fail("NOTGCD", "result " + o1.g + " is a common divisor but not the greatest");
    if (o1.g != o2.g) {
        MP g2 = model::parse(o2.g);
        if (g2 == model::neg(g) || g2 != g) sim::fail("DRAWS", "result depends on the random draws: " + o1.g + " versus " + o2.g);
        sim::fail("DRAWS", "stored form depends on the random draws: " + o1.g + " versus " + o2.g);
    }
    if (kind == "lex") { auto A = poly<polynomial_<ZZ, lex>>(ta), B = poly<polynomial_<ZZ, lex>>(tb); bezoutm(a, b, A, B, g, {0, 1, 2, 3, 4, 5}); }
    if (kind == "custom") { lex_<custom_var_order> c(custom_var_order({vars()[pm[0]], vars()[pm[1]], vars()[pm[2]], vars()[pm[3]]})); polynomial_<ZZ, lex_<custom_var_order>> A(&c), B(&c); load(A, ta); load(B, tb); bezoutm(a, b, A, B, g, {pm[0], pm[1], pm[2], pm[3], 4, 5}); }
    if (kind == "univ") { auto A = upoly<ZZ>(ta), B = upoly<ZZ>(tb); bezout(a, b, A, B, g, p.num("perm", 0)); }
    sim::count("gcd calls", 2); sim::count("random words", words); sim::count("adversarial words", adv);
    if (adv) sim::count("runs with adversarial draws reaching the algorithm"); 
    if (words > 2) sim::nontrivial();
    sim::count("kind " + kind); if (!g.constant()) sim::count("nontrivial gcd");
    sim::sample(kind + " A=" + ta.substr(0, 150) + " B=" + tb.substr(0, 150) + " draws=" + p.knob("draws", ""));
}
const sim::Scenario sim::scenario = {"C01", gen, exec, 400000000ull, 60};
