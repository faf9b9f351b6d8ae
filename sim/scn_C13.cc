// C13: every randomized computation ends once the random draws are fair again.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;
static std::string N(long long v) { return std::to_string(v); }
// a finite adversarial prefix: longer than the ones used elsewhere, then fair draws for ever
static sim::Draws prefix(sim::Rng& r) {
    sim::Draws d = sim::draws_gen(r);
    if (r.chance(1, 4)) for (auto& g : d.segs) g.n = 1 + r.below(4000);
    if (r.chance(1, 8)) { d.segs.clear(); static const char k[] = "0mcpke"; d.segs.push_back({k[r.below(6)], 20000 + r.below(20000), r.below(5)}); }
    return d;
}
static int vused(const MP& m) { int n = 0; for (int i = 0; i < model::NV; ++i) if (model::uses(m, i)) ++n; return n; }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; static const char* const kinds[] = {"lex", "lex", "grlex", "custom"};
    int k = (int)r.below(10); p.add("kind", {kinds[r.below(4)]}); p.add("perm", {N((long)r.below(24))}); p.add("draws", {sim::draws_text(prefix(r))});
    if (k < 4) { auto g = gens::gcd_pair(r); p.add("call", {"gcd"}); p.add("A", {model::text(g.a)}); p.add("A", {model::text(g.b)}); p.add("fam", {g.fam}); }
    else if (k < 7) {
        gens::Prod f; for (int t = 0; t < 20; ++t) { f = gens::factor_input(r, false); MP m = f.product(); int nv = vused(m); if (f.univ ? model::tdeg(m) <= 20 : nv <= 2 ? model::tdeg(m) <= 8 : nv == 3 ? model::tdeg(m) <= 5 && m.t.size() <= 25 : model::tdeg(m) <= 4 && m.t.size() <= 20) break; f = gens::Prod(); }
        p.add("call", {"factor"}); p.add("fam", {f.fam}); p.add("content", {f.content.get_str()}); for (auto& x : f.parts) p.add("part", {N(x.second), model::text(x.first)});
    } else if (k == 7) {
        auto f = gens::factor_input(r, false); p.add("call", {r.chance(1, 2) ? "sqf" : "basis"}); p.add("fam", {f.fam}); MP a = model::cst(1); int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; ++i) { MP q = model::cst(1); int b = 10; for (auto& x : f.parts) { int e = (int)r.below(3); if (e * model::tdeg(x.first) > b) continue; b -= e * model::tdeg(x.first); q = model::mul(q, model::pow(x.first, (unsigned)e)); } p.add("A", {model::text(q)}); }
    } else {
        p.add("call", {"random"}); int n = 1 + (int)r.below(3); p.add("fam", {"random generators"});
        for (int i = 0; i < n; ++i) { static const char* const w[] = {"select", "poly", "prob", "sample", "upoly", "polyqq", "graph"}; int q = (int)r.below(7); p.add("op", {w[q], N(1 + (long)r.below(q == 0 ? (r.chance(1, 4) ? 1ul << 40 : 300) : 6)), N((long)r.below(q == 0 ? 60 : 8)), N(1 + (long)r.below(40))}); }
    }
    return p;
}
static int bits(uint64_t v) { int b = 0; while (v >>= 1) ++b; return b; }
template <class F> static void timed(const sim::Draws& d, const std::string& what, F&& f) {
    sim::Draws fair; fair.seed = sim::mix(d.seed, 3) >> 8;
    // fair draws from the beginning
    sim::set_phase("HANG under fair draws: " + what); sim::draws_begin(fair); sim::set_tick_limit(4000000000ull); uint64_t t0 = sim::ticks(); f(); uint64_t base = sim::ticks() - t0, fw = sim::draws_used();
    sim::count("fair work 2^" + std::string(bits(base) < 10 ? "0" : "") + N(bits(base)));
    // the planned prefix, then fair draws: bounded work after the last planned word (and between two of them)
    sim::set_phase("HANG after " + sim::draws_text(d) + ": " + what); sim::draws_begin(d); sim::set_progress_limit(base * 60 + 1000000000ull); t0 = sim::ticks(); f(); uint64_t w = sim::ticks() - t0;
    uint64_t r = w / (base + 1000000); sim::count("planned / fair work 2^" + N(r ? bits(r) + 1 : 0)); sim::count("adversarial words", sim::draws_adversarial()); sim::count("random words", sim::draws_used() + fw); sim::count("computations", 2);
    if (sim::draws_adversarial()) { sim::nontrivial(); sim::count("runs with adversarial draws reaching the algorithm"); }
    sim::log(what + " words " + N((long long)sim::draws_used()));
}
static void exec(const sim::Plan& p) {
    init_vars(); std::string kind = p.knob("kind", "lex"), call = p.knob("call", "gcd"); sim::Draws d = sim::draws_parse(p.knob("draws", "1"));
    std::vector<int> pm{0, 1, 2, 3}; { sim::Rng q(p.num("perm", 0)); for (int i = 3; i > 0; --i) std::swap(pm[i], pm[q.below(i + 1)]); }
    uint64_t nw = 0; for (auto& g : d.segs) nw += g.n; if (nw > 200000) sim::invalid("prefix too long");
    std::vector<MP> A; MP prod; bool prodset = false;
    for (auto& l : p.lines) { if (l.f.empty()) continue; if (l.key == "A") { MP m = model::parse(l.f[0]); if (!model::integral(m)) sim::invalid("not integral"); A.push_back(m); } if (l.key == "part" && l.f.size() > 1) { if (!prodset) prod = model::cst(mpq_class(p.knob("content", "1"))); prodset = true; long e = (long)sim::toint(l.f[0]); if (e < 1 || e > 6) sim::invalid("part"); prod = model::mul(prod, model::pow(model::parse(l.f[1]), (unsigned)e)); if (prod.t.size() > 400) sim::invalid("too big"); } }
    if (prodset) A.push_back(prod);
    sim::count("call " + call); sim::count("family " + p.knob("fam", "")); sim::sample(call + " " + (A.empty() ? "" : model::text(A[0]).substr(0, 160)) + " draws=" + p.knob("draws", ""));
    if (call == "random") {
        std::vector<variable> V; for (int i = 0; i < 6; ++i) V.push_back(vars()[i]);
        for (auto& l : p.lines) { if (l.key != "op" || l.f.size() < 4) continue; std::string k = l.f[0]; long a = (long)sim::toint(l.f[1]), b = (long)sim::toint(l.f[2]), c = (long)sim::toint(l.f[3]); if (a < 1 || b < 0 || c < 1 || c > 200 || b > 300) sim::invalid("op"); if (k != "select" && a > 6) sim::invalid("op");
            std::vector<variable> vs(V.begin(), V.begin() + (k == "select" ? 1 : a));
            timed(d, "random " + k + " " + N(a) + " " + N(b) + " " + N(c), [&] { Lib lb;
                if (k == "select") { auto v = random_select((size_t)a, (size_t)b, c & 1); }
                else if (k == "poly") { auto q = random_polynomial<ZZ>(vs, (uint64_t)b, (uint64_t)c, {-3, 3}); }
                else if (k == "prob") { auto q = random_polynomial<ZZ>(vs, (uint64_t)std::min(b, 4l), (c % 17) / 16.0, -1, 1); }
                else if (k == "sample") { std::uint64_t q = random_select((size_t)b + 1, (size_t)a, true).size(); (void)q; }
                else if (k == "upoly") { auto q = random_upolynomial<ZZ>((uint64_t)b, (uint64_t)c, {-1, 1}); }
                else if (k == "polyqq") { auto q = random_polynomial_QQ(vs, (uint64_t)b, (uint64_t)c, {-1, 1}, 3); }
                else { auto g = random_graph<variable>(vs, (c % 17) / 16.0); } });
        }
        return;
    }
    if (A.empty() || A.size() > 4) sim::invalid("no input"); bool univ = true; for (auto& m : A) { if (model::tdeg(m) > 60 || m.t.size() > 400) sim::invalid("too big"); for (int i = 1; i < model::NV; ++i) if (model::uses(m, i)) univ = false; }
    std::string what = call + " " + kind; for (auto& m : A) what += " [" + model::text(m) + "]";
    auto all = [&](auto proto) {
        typedef decltype(proto) P; std::vector<P> v; for (auto& m : A) { P a(proto.comp_ptr()); load(a, model::text(m)); v.push_back(a); }
        if (call == "gcd") { if (v.size() < 2 || (A[0].zero() && A[1].zero())) sim::invalid("gcd"); timed(d, what, [&] { Lib l; P g(v[0].comp_ptr()); g = polynomial_GCD(v[0], v[1]); }); }
        else if (call == "factor") { if (A[0].zero()) sim::invalid("zero"); timed(d, what, [&] { Lib l; factorization<P> f; f = factorize(v[0]); }); }
        else if (call == "sqf") timed(d, what, [&] { Lib l; for (auto& a : v) { auto f = squarefreefactorize(a); bool s = is_squarefree(a); (void)s; } });
        else if (call == "basis") timed(d, what, [&] { Lib l; auto f = squarefreebasis(v); });
        else sim::invalid("call");
    };
    if (univ && call == "factor" && pm[0] < 2) { auto v = upoly<ZZ>(model::text(A[0])); timed(d, what, [&] { Lib l; factorization<upolynomial_ZZ> f; f = factorize(v); }); }
    else if (kind == "grlex") all(polynomial_ZZ()); else if (kind == "custom") { lex_<custom_var_order> c(custom_var_order({vars()[pm[0]], vars()[pm[1]], vars()[pm[2]], vars()[pm[3]]})); all(polynomial_<ZZ, lex_<custom_var_order>>(&c)); } else all(polynomial_<ZZ, lex>());
}
const sim::Scenario sim::scenario = {"C13", gen, exec, 60000000000ull, 120};
