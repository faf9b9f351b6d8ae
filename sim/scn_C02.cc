// C02: factorization exact and complete under every draw sequence.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;
static std::string N(long long v) { return std::to_string(v); }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; int k = (int)r.below(8); bool q = k == 5 || k == 6; auto f = gens::factor_input(r, q);
    static const char* const kinds[] = {"lex", "lex", "grlex", "lex", "custom", "qlex", "qgrlex", "lex"};
    std::string kind = f.univ && r.chance(1, 2) && !q ? "univ" : kinds[k];
    p.add("kind", {kind}); p.add("fam", {f.fam}); p.add("content", {f.content.get_str()});
    p.add("draws", {sim::draws_text(sim::draws_gen(r))}); if (r.chance(1, 4)) p.add("draws", {sim::draws_text(sim::draws_gen(r))});
    p.add("perm", {N((long)r.below(24))});
    for (auto& x : f.parts) { MP m = x.first; if (q && r.chance(1, 2)) m = model::scale(m, mpq_class(1, (long)r.range(2, 9))); p.add("part", {N(x.second), model::text(m)}); }
    return p;
}
struct Out { std::string content; std::vector<std::pair<std::string, long>> f; std::string bad; };
template <class P> Out call(const P& A, const sim::Draws& d) {
    sim::draws_begin(d); Out o; factorization<P> R;
    { Lib l; R = factorize(A); }
    o.content = str(R.content);
    for (auto& x : R.factors) { auto w = wf(x.first); if (!w.empty()) o.bad = w + " in factor " + text(x.first); if constexpr (!std::is_same<P, upolynomial_ZZ>::value) { if (!comp_consistent(x.first.comp(), A.comp())) o.bad = "factor with a different variable order"; } o.f.push_back({text(x.first), (long)x.second}); }
    return o;
}
static std::string show(const Out& o) { std::string s = o.content; for (auto& x : o.f) s += " * (" + x.first + ")^" + N(x.second); return s; }
static std::vector<std::pair<std::string, long>> sorted(const Out& o) { auto v = o.f; for (auto& x : v) x.first = model::text(model::parse(x.first)); std::sort(v.begin(), v.end()); return v; }
static void judge(const Out& o, const MP& in, const std::vector<MP>& parts, bool rational, const std::string& which) {
    std::string S = show(o);
    if (!o.bad.empty()) sim::fail("FORM", which + ": " + o.bad);
    MP prod = model::cst(mpq_class(o.content)); std::vector<MP> fs;
    for (auto& x : o.f) {
        MP f = model::parse(x.first); fs.push_back(f);
        if (f.constant()) sim::fail("CONSTANT", which + ": constant factor in " + S);
        if (x.second <= 0) sim::fail("MULT", which + ": multiplicity " + N(x.second) + " in " + S);
        if (!rational) { if (!model::integral(f) || model::icontent(f) != 1) sim::fail("PRIMITIVE", which + ": factor not primitive in " + S); }
        prod = model::mul(prod, model::pow(f, (unsigned)x.second));
    }
    if (prod != in) sim::fail("PRODUCT", which + ": product of " + S + " is not the input " + model::text(in));
    for (size_t i = 0; i < fs.size(); ++i) for (size_t j = 0; j < i; ++j) if (model::primitive(fs[i]) == model::primitive(fs[j])) sim::fail("REPEATED", which + ": the same factor twice in " + S);
    // every irreducible factor divides one of the planned parts (unique factorization)
    for (auto& f : fs) { bool ok = false; MP q; for (auto& g : parts) if (model::divexact(g, f, q)) ok = true; if (!ok) sim::fail("REDUCIBLE", which + ": factor " + model::text(f) + " is reducible: it divides none of the parts the input was multiplied from"); }
    for (auto& f : fs) { int nv = 0, v = 0; for (int i = 0; i < model::NV; ++i) if (model::uses(f, i)) { ++nv; v = i; } if (nv == 1) { int k = model::ureducible(f, v, 16); if (k == 1) sim::fail("REDUCIBLE", which + ": factor " + model::text(f) + " splits over the rationals"); sim::count(k == 0 ? "irreducibility certified" : "irreducibility not certified"); } else sim::count(model::irreducible(model::primitive(f), 3) ? "irreducibility certified" : "irreducibility not certified"); }
    // a factor may still hide a split of a part: a linear or certified one cannot
    for (auto& f : fs) for (auto& g : fs) { MP q; if (&f != &g && model::divexact(g, f, q)) sim::fail("REDUCIBLE", which + ": a factor divides another in " + S); }
}
static void exec(const sim::Plan& p) {
    init_vars(); std::string kind = p.knob("kind", "lex"); bool rational = kind[0] == 'q'; MP in = model::parse(p.knob("content", "1")); if (in.zero() || !in.constant()) sim::invalid("content"); std::vector<MP> parts; std::vector<sim::Draws> ds;
    for (auto& l : p.lines) { if (l.key == "part") { if (l.f.size() < 2) sim::invalid("part"); long m = (long)sim::toint(l.f[0]); MP f = model::parse(l.f[1]); if (m < 1 || m > 6 || f.zero()) sim::invalid("part"); in = model::mul(in, model::pow(f, (unsigned)m)); if (!f.constant()) parts.push_back(f); } if (l.key == "draws" && !l.f.empty()) ds.push_back(sim::draws_parse(l.f[0])); }
    if (!rational && !model::integral(in)) sim::invalid("not integral"); if (in.t.size() > 400 || model::tdeg(in) > 60) sim::invalid("too big");
    if (ds.empty()) ds.push_back(sim::draws_parse("1"));
    std::string t = model::text(in); sim::set_phase("factorize " + kind + " " + t); uint64_t adv = 0, words = 0;
    std::vector<int> pm{0, 1, 2, 3}; { sim::Rng q(p.num("perm", 0)); for (int i = 3; i > 0; --i) std::swap(pm[i], pm[q.below(i + 1)]); }
    auto run = [&](const auto& A) {
        std::string a0 = text(A); sim::Draws fair; fair.seed = 4711;
        sim::set_soft_limit(200000000ull); uint64_t t0 = sim::ticks(); Out o = call(A, fair); uint64_t base = sim::ticks() - t0; sim::log(show(o)); judge(o, in, parts, rational, "fair draws"); auto want = sorted(o);
        for (auto& d : ds) {
            sim::set_soft_limit(base * 20 + 300000000ull); Out u = call(A, d); adv += sim::draws_adversarial(); words += sim::draws_used(); sim::log(show(u));
            if (u.f.size() != o.f.size() || sorted(u) != want) judge(u, in, parts, rational, "planned draws"); if (u.content != o.content || sorted(u) != want) { sim::fail(u.f.size() < o.f.size() ? "LOST" : "DRAWS", "the factorization depends on the random draws: " + show(u) + " versus " + show(o)); }
            if (!u.bad.empty()) sim::fail("FORM", u.bad);
        }
        if (text(A) != a0) sim::fail("ARGS", "argument changed");
    };
    bool univ1 = true; for (auto& x : in.t) for (int i = 1; i < model::NV; ++i) if (x.first[i]) univ1 = false;
    if (kind == "univ") { if (!univ1) sim::invalid("not univariate"); run(upoly<ZZ>(t)); }
    else if (kind == "grlex") run(poly<polynomial_ZZ>(t));
    else if (kind == "custom") { lex_<custom_var_order> c(custom_var_order({vars()[pm[0]], vars()[pm[1]], vars()[pm[2]], vars()[pm[3]]})); polynomial_<ZZ, lex_<custom_var_order>> A(&c); load(A, t); run(A); }
    else if (kind == "qlex") run(poly<polynomial_<QQ, lex>>(t));
    else if (kind == "qgrlex") run(poly<polynomial_QQ>(t));
    else run(poly<polynomial_<ZZ, lex>>(t));
    sim::count("factorizations", 1 + ds.size()); sim::count("random words", words); sim::count("adversarial words", adv); if (adv) sim::count("runs with adversarial draws reaching the algorithm");
    if (words > 2 || univ1) sim::nontrivial(); sim::count("kind " + kind); sim::count("family " + p.knob("fam", ""));
    sim::sample(kind + " " + t.substr(0, 300) + " draws=" + p.knob("draws", ""));
}
const sim::Scenario sim::scenario = {"C02", gen, exec, 4000000000ull, 60};
