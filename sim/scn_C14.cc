// C14: squarefree decomposition exact under every draw sequence.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;
static std::string N(long long v) { return std::to_string(v); }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; static const char* const kinds[] = {"lex", "lex", "grlex", "custom"};
    p.add("kind", {kinds[r.below(4)]}); p.add("draws", {sim::draws_text(sim::draws_gen(r))}); p.add("perm", {N((long)r.below(24))});
    gens::Prod f = gens::factor_input(r, false); std::vector<MP> pool; for (auto& x : f.parts) pool.push_back(x.first);
    if (r.chance(1, 2)) { auto g = gens::factor_input(r, false); for (auto& x : g.parts) if (pool.size() < 5) pool.push_back(x.first); f.fam += " + " + g.fam; }
    p.add("fam", {f.fam});
    for (auto& m : pool) p.add("part", {model::text(m)});
    // each input is a product of planned parts with planned multiplicities
    int n = 1 + (int)r.below(r.chance(1, 2) ? 4 : 1); bool hom = f.univ;
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> l{r.chance(1, 30) ? "0" : N((long)(r.chance(1, 3) ? -1 : 1) * (long)r.range(1, r.chance(1, 2) ? 1 : 120))}; int budget = hom ? 24 : n > 1 ? 6 : 8;
        for (auto& m : pool) { int e = r.chance(1, 3) ? 0 : 1 + (int)r.below(r.chance(1, 2) ? 1 : 4); int d = model::tdeg(m); while (e > 0 && e * d > budget) --e; budget -= e * d; l.push_back(N(e)); }
        p.add("in", l);
    }
    return p;
}
typedef std::vector<std::pair<std::string, long>> List;
static std::string show(const List& l) { std::string s; for (auto& x : l) s += "(" + x.first + ")^" + N(x.second) + " "; return s; }
static List canon(const List& l) { List o; for (auto& x : l) { MP m = model::parse(x.first); if (!m.constant()) o.push_back({model::text(m), x.second}); } std::sort(o.begin(), o.end()); return o; }
static void form(const std::string& w, const std::string& what) { if (!w.empty()) sim::fail("FORM", what + ": " + w); }
template <class P> List sqf(const P& A, const sim::Draws& d) {
    sim::draws_begin(d); std::vector<std::pair<P, uint64_t>> R; { Lib l; R = squarefreefactorize(A); }
    List o; for (auto& x : R) { form(wf(x.first), "squarefree factor " + text(x.first)); if (!comp_consistent(x.first.comp(), A.comp())) sim::fail("FORM", "squarefree factor with another variable order"); o.push_back({text(x.first), (long)x.second}); }
    return o;
}
template <class P> std::pair<std::vector<std::string>, std::vector<List>> basis(const std::vector<P>& A, const sim::Draws& d) {
    sim::draws_begin(d); std::pair<std::vector<P>, std::vector<std::vector<std::pair<uint64_t, uint64_t>>>> R; { Lib l; R = squarefreebasis(A); }
    std::vector<std::string> o; std::vector<List> I;
    for (auto& x : R.first) { form(wf(x), "basis element " + text(x)); if (!comp_consistent(x.comp(), A[0].comp())) sim::fail("FORM", "basis element with another variable order"); o.push_back(text(x)); }
    for (auto& x : R.second) { List l; for (auto& y : x) l.push_back({N((long)y.first), (long)y.second}); I.push_back(l); }
    return {o, I};
}
static void judge_sqf(const List& l, const MP& in, const std::string& which) {
    MP prod = model::cst(1); std::vector<std::pair<MP, long>> f; std::string S = which + ": " + show(l) + "of " + model::text(in);
    for (auto& x : l) { if (x.second < 1) sim::fail("MULT", "multiplicity " + N(x.second) + " in " + S); MP m = model::parse(x.first); prod = model::mul(prod, model::pow(m, (unsigned)x.second)); if (!m.constant()) f.push_back({m, x.second}); }
    if (prod != in) sim::fail("PRODUCT", "the product is not the input: " + S);
    for (auto& x : f) { if (!model::squarefree(x.first, 5)) sim::fail("SQUARE", "factor " + model::text(x.first) + " is not squarefree: " + S); for (auto& y : f) if (&x < &y && !model::coprime(x.first, y.first, 7)) sim::fail("SHARED", "factors are not coprime: " + S); }
}
static void exec(const sim::Plan& p) {
    init_vars(); std::string kind = p.knob("kind", "lex"); sim::Draws d = sim::draws_parse(p.knob("draws", "1")), fair; fair.seed = 977;
    std::vector<MP> pool, in; for (auto& l : p.lines) if (l.key == "part" && !l.f.empty()) { MP m = model::parse(l.f[0]); if (m.zero() || !model::integral(m)) sim::invalid("part"); pool.push_back(m); }
    bool repeated = false;
    for (auto& l : p.lines) if (l.key == "in" && !l.f.empty()) { MP m = model::cst(mpq_class(l.f[0])); for (size_t i = 1; i < l.f.size() && i <= pool.size(); ++i) { long e = (long)sim::toint(l.f[i]); if (e < 0 || e > 30) sim::invalid("exponent"); if (e > 1) repeated = true; m = model::mul(m, model::pow(pool[i - 1], (unsigned)e)); if (m.t.size() > 500) sim::invalid("too big"); } in.push_back(m); }
    if (in.empty() || in.size() > 6) sim::invalid("inputs");
    for (auto& m : in) if (model::tdeg(m) > 50 || m.t.size() > 300) sim::invalid("too big");
    std::vector<int> pm{0, 1, 2, 3}; { sim::Rng q(p.num("perm", 0)); for (int i = 3; i > 0; --i) std::swap(pm[i], pm[q.below(i + 1)]); }
    uint64_t adv = 0, words = 0;
    auto all = [&](auto proto) {
        typedef decltype(proto) P; std::vector<P> A; for (auto& m : in) { P a(proto.comp_ptr()); load(a, model::text(m)); A.push_back(a); }
        std::vector<std::string> before; for (auto& a : A) before.push_back(text(a));
        for (size_t i = 0; i < A.size(); ++i) {
            sim::set_phase("squarefreefactorize " + kind + " " + model::text(in[i])); sim::set_soft_limit(300000000ull);
            List o = sqf(A[i], fair); if (in[i].zero()) { bool z; { Lib l; z = is_squarefree(A[i]); } if (!o.empty()) sim::fail("ZERO", "squarefree factors of zero"); if (z) sim::fail("ZERO", "zero, which every square divides, is called squarefree"); continue; }
            sim::log(show(o)); judge_sqf(o, in[i], "fair draws"); List u = sqf(A[i], d); adv += sim::draws_adversarial(); words += sim::draws_used();
            if (u != o) { judge_sqf(u, in[i], "planned draws"); if (canon(u) != canon(o)) sim::fail("DRAWS", "the decomposition depends on the random draws: " + show(u) + "versus " + show(o)); }
            bool sq; sim::draws_begin(d); { Lib l; sq = is_squarefree(A[i]); } adv += sim::draws_adversarial();
            bool want = true; for (auto& x : o) if (x.second > 1 && !model::parse(x.first).constant()) want = false;
            if (sq != want) sim::fail("TEST", std::string("is_squarefree says ") + (sq ? "yes" : "no") + " but the decomposition is " + show(o));
            P rad(proto.comp_ptr()); sim::draws_begin(d); { Lib l; rad = sqrfree(A[i]); } MP R = model::parse(text(rad)), W = model::cst(1); form(wf(rad), "squarefree part"); for (auto& x : o) W = model::mul(W, model::parse(x.first)); if (!in[i].zero() && model::primitive(R) != model::primitive(W)) sim::fail("RADICAL", "squarefree part " + model::text(R) + " expected " + model::text(W));
        }
        sim::set_phase("squarefreebasis " + kind); sim::set_soft_limit(400000000ull);
        for (int pass = 0; pass < 2; ++pass) {
            auto b = basis(A, pass ? d : fair); adv += sim::draws_adversarial(); words += sim::draws_used(); std::string S = " in basis"; for (auto& x : b.first) S += " [" + x + "]"; sim::log(S);
            if (b.first.size() != b.second.size()) sim::fail("INDEX", "basis and index lists differ in length" + S);
            std::vector<MP> e, acc(in.size(), model::cst(1)); for (auto& x : b.first) e.push_back(model::parse(x));
            for (size_t j = 0; j < e.size(); ++j) { if (e[j].constant()) sim::fail("CONSTANT", "constant element" + S); if (!model::squarefree(e[j], 5)) sim::fail("SQUARE", "element " + model::text(e[j]) + " is not squarefree" + S); for (size_t k = 0; k < j; ++k) if (!model::coprime(e[j], e[k], 11)) sim::fail("SHARED", "elements are not coprime" + S);
                for (auto& x : b.second[j]) { size_t i = (size_t)sim::toint(x.first); if (i >= in.size() || x.second < 1) sim::fail("INDEX", "bad index entry" + S); acc[i] = model::mul(acc[i], model::pow(e[j], (unsigned)x.second)); } }
            for (size_t i = 0; i < in.size(); ++i) if (!in[i].zero() && model::primitive(acc[i]) != model::primitive(in[i])) sim::fail("PRODUCT", "input " + N((long)i) + " " + model::text(in[i]) + " is not the product of its basis elements " + model::text(acc[i]) + S);
            sim::count("bases");
        }
        for (size_t i = 0; i < A.size(); ++i) if (text(A[i]) != before[i]) sim::fail("ARGS", "argument changed");
    };
    if (kind == "grlex") all(polynomial_ZZ()); else if (kind == "custom") { lex_<custom_var_order> c(custom_var_order({vars()[pm[0]], vars()[pm[1]], vars()[pm[2]], vars()[pm[3]]})); all(polynomial_<ZZ, lex_<custom_var_order>>(&c)); } else all(polynomial_<ZZ, lex>());
    sim::count("decompositions", in.size() * 2); sim::count("random words", words); sim::count("adversarial words", adv); if (repeated) sim::nontrivial(); sim::count("kind " + kind); sim::count("inputs per basis " + N((long)in.size()));
    sim::sample(kind + " " + model::text(in[0]).substr(0, 200) + " draws=" + p.knob("draws", ""));
}
const sim::Scenario sim::scenario = {"C14", gen, exec, 4000000000ull, 60};
