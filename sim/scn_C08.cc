// C08: an ideal answers the same whatever was asked, copied, moved or interrupted before.
#include "lib.hh"
#include "model.hh"
#include "gens.hh"
using namespace lib; using model::MP;
static std::string N(long long v) { return std::to_string(v); }
static MP C(const mpq_class& c) { return model::cst(c); }
static MP V(int i, int e = 1) { return model::var(i, e); }
static MP lincomb(sim::Rng& r, int nv, int64_t c) { MP p; for (int i = 0; i < nv; ++i) p = model::add(p, model::scale(V(i), mpq_class((long)r.range(-c, c)))); return model::add(p, C((long)r.range(-c, c))); }
static MP anyp(sim::Rng& r, int nv, int d, int t, int64_t c) { return model::random_poly(r, nv, d, t, c); }
static std::vector<MP> ideal(sim::Rng& r, std::string& fam) {
    int nv = 2 + (int)r.below(2); std::vector<MP> F; int64_t c = r.chance(2, 3) ? 4 : 60;
    switch (r.below(16)) {
    case 0: case 1: case 2: { fam = "random"; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) F.push_back(anyp(r, nv, 1 + (int)r.below(3), 1 + (int)r.below(4), c)); break; }
    case 3: { fam = "linear"; nv = 2 + (int)r.below(3); int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) F.push_back(lincomb(r, nv, c)); break; }
    case 4: { fam = "principal"; F.push_back(anyp(r, nv, 4, 4, c)); if (r.chance(1, 2)) F.push_back(model::mul(F[0], anyp(r, nv, 1, 2, 3))); break; }
    case 5: { fam = "unit"; MP p = anyp(r, nv, 2, 3, c); F = {p, model::add(model::mul(p, anyp(r, nv, 1, 2, 3)), C((long)r.range(1, 6)))}; break; }
    case 6: { fam = "monomial"; int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) { MP m = C((long)r.range(1, 5)); for (int v = 0; v < nv; ++v) { int e = (int)r.below(4); if (e) m = model::mul(m, V(v, e)); } F.push_back(m); } break; }
    case 7: { fam = "binomial"; nv = 3; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { MP a = C((long)r.range(1, 3)), b = C((long)r.range(1, 3)); for (int v = 0; v < nv; ++v) { int e = (int)r.below(3), f = (int)r.below(3); if (e) a = model::mul(a, V(v, e)); if (f) b = model::mul(b, V(v, f)); } F.push_back(model::sub(a, b)); } break; }
    case 8: { fam = "common factor"; MP h = anyp(r, nv, 1, 2, 3); F = {model::mul(h, anyp(r, nv, 1, 2, c)), model::mul(h, anyp(r, nv, 2, 2, c))}; break; }
    case 9: { fam = "homogeneous"; nv = 3; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { MP q; int d = 1 + (int)r.below(3); for (int t = 0; t < 3; ++t) { model::Mono m{}; int l = d; for (int v = 0; v + 1 < nv; ++v) { int e = (int)r.below(l + 1); m[v] = e; l -= e; } m[nv - 1] = l; q.t[m] = (long)r.range(1, 4); } F.push_back(q); } break; }
    case 10: { fam = "cyclic / katsura"; nv = 3; if (r.chance(1, 2)) { F = {model::add(model::add(V(0), V(1)), V(2)), model::add(model::add(model::mul(V(0), V(1)), model::mul(V(1), V(2))), model::mul(V(2), V(0))), model::sub(model::mul(model::mul(V(0), V(1)), V(2)), C(1))}; }
        else { MP two = C(2); F = {model::sub(model::add(V(0), model::mul(two, model::add(V(1), V(2)))), C(1)), model::sub(model::add(model::mul(V(0), V(0)), model::mul(two, model::add(model::mul(V(1), V(1)), model::mul(V(2), V(2))))), V(0)), model::sub(model::add(model::mul(model::mul(two, V(0)), V(1)), model::mul(model::mul(two, V(1)), V(2))), V(1))}; } break; }
    case 11: { fam = "non-monic univariate tower"; F = {model::sub(model::scale(V(0), (long)r.range(2, 9)), C((long)r.range(1, 9))), model::sub(model::scale(V(1, 2), (long)r.range(2, 9)), model::scale(V(0), (long)r.range(1, 5)))}; break; }
    case 12: { fam = "zero and repeated generators"; MP p = anyp(r, nv, 2, 2, c); F = {MP(), p, p}; if (r.chance(1, 2)) F.push_back(model::scale(p, -2)); if (r.chance(1, 3)) F = {MP()}; if (r.chance(1, 6)) F.clear(); break; }
    case 13: { fam = "large coefficients"; F = {gens::big_coeffs(r, anyp(r, 2, 1, 2, 3), 60 + (int)r.below(80)), anyp(r, 2, 2, 2, c)}; break; }
    case 14: { fam = "four variables"; nv = 4; int n = 2 + (int)r.below(2); for (int i = 0; i < n; ++i) F.push_back(anyp(r, nv, 2, 2, 3)); break; }
    default: { fam = "constant"; F = {anyp(r, nv, 2, 2, c), C((long)r.range(2, 7))}; break; }
    }
    for (size_t i = 0; i + 1 < F.size(); ++i) if (r.chance(1, 2)) std::swap(F[i], F[i + r.below(F.size() - i)]);
    return F;
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; std::string ring = r.chance(1, 2) ? "QQ" : "ZZ", kind = r.pick(std::vector<std::string>{"grlex", "grlex", "lex", "custom", "gcustom"}); p.add("ring", {ring}); p.add("kind", {kind});
    { std::vector<int> pm{0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(pm[i], pm[r.below(i + 1)]); p.add("order", {N(pm[0]), N(pm[1]), N(pm[2]), N(pm[3])}); }
    model::Order o = kind == "lex" || kind == "custom" ? model::LEX : model::GRLEX; int ni = 1 + (int)r.chance(1, 3); std::vector<std::vector<MP>> Is;
    for (int k = 0; k < ni; ++k) {
        std::vector<MP> F; std::string fam; for (int tries = 0;; ++tries) { F = ideal(r, fam); if (ring == "QQ" && r.chance(1, 2)) for (auto& f : F) f = model::scale(f, mpq_class(1, 1 + (int)r.below(12))); if (tries > 6) { F = {V(0)}; fam = "linear"; break; } try { model::buchberger(F, o, 120); break; } catch (...) {} }
        p.add("fam", {fam}); std::vector<std::string> t; for (auto& f : F) t.push_back(model::text(f)); p.add("ideal", t); Is.push_back(F);
    }
    int n = 2 + (int)r.below(r.chance(1, 5) ? 40 : 12); bool faults = r.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        std::string a = N((long)r.below(100)), b = N((long)r.below(100)), at = faults && r.chance(1, 2) ? N(1 + (long)r.below(r.chance(1, 3) ? 8 : r.chance(1, 2) ? 100 : 2000)) : "0", st = N((long)r.below(2)), m = N((long)r.below(3));
        auto cof = [&](std::vector<std::string> l) { for (int k = 0; k < 4; ++k) l.push_back(r.chance(1, 4) ? "" : model::text(r.chance(1, 4) ? C((long)r.range(-3, 3)) : anyp(r, 3, 1 + (int)r.below(2), 2, 5))); return l; };
        switch (r.below(16)) {
        case 0: case 1: p.add("gb", {a, at, st}); break;
        case 2: case 3: case 4: p.add("mem", cof({a, at, st, m, ""})); break;
        case 5: case 6: p.add("mem", cof({a, at, st, m, model::text(r.chance(1, 2) ? C((long)r.range(-2, 2)) : anyp(r, 3, 2, 1, 4))})); break;
        case 7: case 8: p.add("mem", {a, at, st, m, model::text(anyp(r, 2 + (int)r.below(2), 1 + (int)r.below(4), 1 + (int)r.below(5), r.chance(1, 2) ? 9 : 1000000007)), "", "", ""}); break;
        case 9: p.add("gens", {a, at, st, m, b}); break;
        case 10: p.add(r.chance(1, 2) ? "copy" : "move", {a, at, st}); break;
        case 11: p.add("assign", {a, b, at, st, N((long)r.below(2))}); break;
        case 12: p.add("new", {a, at, st}); break;
        default: p.add(r.chance(1, 2) ? "nf" : "sp", {a, at, st, b, N((long)r.below(100)), model::text(anyp(r, 3, 1 + (int)r.below(3), 1 + (int)r.below(4), 9))}); break;
        }
    }
    return p;
}
struct MI { std::vector<MP> gens, gb; };
static uint64_t n_faults, n_queries;
static MP permute(const MP& m, const int* pi) { MP o; for (auto& t : m.t) { model::Mono e{}; for (int i = 0; i < model::NV; ++i) e[i < 4 ? pi[i] : i] = t.first[i]; o.t[e] += t.second; } return o; }
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
static bool proportional(const MP& a, const MP& b) { if (a.zero() || b.zero()) return a.zero() == b.zero(); return model::scale(a, 1 / a.t.rbegin()->second) == model::scale(b, 1 / b.t.rbegin()->second); }
static bool mdivides(const model::Mono& a, const model::Mono& b) { for (int i = 0; i < model::NV; ++i) if (a[i] > b[i]) return false; return true; }
template <class Tc> static constexpr bool isZZ() { return std::is_same<Tc, ZZ>::value; }
template <class Tc, class comp> static void go(const sim::Plan& p, polynomial_<Tc, comp> proto, const std::vector<MI>& M, model::Order o, const int* pi, const int* ip) {
    typedef polynomial_<Tc, comp> P; typedef Ideal<Tc, comp> I; struct Slot { std::unique_ptr<I> I_; int id; std::string h; };
    auto L = [&](const MP& m) { P a(proto.comp_ptr()); load(a, model::text(permute(m, pi))); return a; };
    auto H = [&](const P& a) { sim::Host h; auto w = wf(a); if (!w.empty()) sim::fail("WF", "result not normalised: " + w + ": " + text(a)); return permute(model::parse(text(a)), ip); };
    auto norm = [&](const MP& g) { if (!isZZ<Tc>() || g.zero()) return g; MP q = model::primitive(g); if (q.t.at(model::lead(q, o)) < 0) q = model::neg(q); return q; };
    auto G = [&](int id) { std::vector<P> v; for (auto& g : M[id].gens) v.push_back(L(g)); return v; };
    std::vector<Slot> S; std::vector<std::set<std::string>> want(M.size()); for (size_t k = 0; k < M.size(); ++k) for (auto& g : M[k].gb) want[k].insert(model::text(norm(g)));
    auto check_gb = [&](Slot& s, const std::vector<P>& B, const std::string& w) { std::set<std::string> got; for (auto& b : B) { if (b.empty()) sim::fail("BASIS", w + ": zero polynomial in the basis"); got.insert(model::text(H(b))); } if (got != want[s.id] || got.size() != B.size()) { std::string a, e; for (auto& x : got) a += "[" + x + "] "; for (auto& x : want[s.id]) e += "[" + x + "] "; sim::fail("BASIS", w + (s.h.empty() ? "" : " after" + s.h) + ": reduced basis is " + a + "expected " + e); } };
    auto query = [&](Slot& s, const MP& f, int mode, const std::string& at, const std::string& st, const std::string& w) {
        P lf = L(f); std::string before = text(lf); MP nf = model::nf(f, M[s.id].gb, o); bool in = nf.zero(); bool c = false; P r(proto.comp_ptr());
        bool oom = faulted(at, st, [&] { if (mode != 1) c = s.I_->contains(lf); if (mode != 0) r = s.I_->reduce(lf); }); ++n_queries; std::string ww = w + (s.h.empty() ? "" : " after" + s.h);
        if (text(lf) != before) sim::fail("ARGS", ww + ": the query changed its argument"); if (oom) { s.h += " [interrupted query]"; sim::count("interrupted queries"); return; }
        if (mode != 1 && c != in) sim::fail("MEMBER", ww + ": " + model::text(f) + (in ? " is in the ideal, reported as not" : " is not in the ideal, reported as a member"));
        if (mode != 0) { MP g = H(r); bool ok = isZZ<Tc>() ? proportional(g, nf) : g == nf; if (!ok) sim::fail("REMAINDER", ww + ": remainder of " + model::text(f) + " is " + model::text(g) + ", expected " + model::text(nf)); }
        sim::log(w + " member=" + N(in)); sim::count(in ? "member queries" : "non-member queries"); s.h += in ? " [member]" : " [non-member]";
    };
    for (size_t k = 0; k < M.size(); ++k) { std::vector<P> v = G((int)k); Slot s{nullptr, (int)k, ""}; { Lib l; s.I_.reset(new I(std::move(v))); } S.push_back(std::move(s)); }
    uint64_t steps = 0; S.reserve(16);
    for (auto& l : p.lines) {
        auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto U = [&](size_t i) { return (size_t)std::labs((long)sim::toint(A(i))); };
        if (l.key == "ring" || l.key == "kind" || l.key == "order" || l.key == "fam" || l.key == "ideal") continue; if (steps > 200) break; ++steps;
        size_t i = U(0) % S.size(); std::string w = "step " + N((long)steps) + " " + l.key; for (auto& f : l.f) w += " " + f; sim::set_phase(w); Slot& s = S[i];
        if (s.h.size() > 300) s.h = " ..." + s.h.substr(s.h.size() - 200);
        if (l.key == "gb") { const std::vector<P>* B = nullptr; bool oom = faulted(A(1), A(2), [&] { B = &s.I_->groebner_basis(); }); ++n_queries; if (oom) { s.h += " [interrupted basis]"; sim::count("interrupted queries"); } else { check_gb(s, *B, w); s.h += " [basis]"; } }
        else if (l.key == "mem") { auto parse = [&](size_t k) { MP m; try { m = model::parse(A(k) == "0" ? "" : A(k)); } catch (...) { sim::invalid("polynomial"); } if (isZZ<Tc>() && !model::integral(m)) sim::invalid("integral"); if (model::tdeg(m) > 12 || m.t.size() > 20) sim::invalid("size"); return m; };
            MP f = parse(4); for (size_t k = 0; k < M[s.id].gens.size(); ++k) f = model::add(f, model::mul(parse(5 + k), M[s.id].gens[k])); query(s, f, (int)(U(3) % 3), A(1), A(2), w); }
        else if (l.key == "gens") { auto& g = M[s.id]; const auto& src = U(4) % 2 && !g.gb.empty() ? g.gb : g.gens; if (!src.empty()) { MP f = src[U(4) / 2 % src.size()]; if (isZZ<Tc>()) f = norm(f); query(s, f, (int)(U(3) % 3), A(1), A(2), w); } }
        else if (l.key == "copy") { if (S.size() >= 12) continue; std::unique_ptr<I> c; bool oom = faulted(A(1), A(2), [&] { c.reset(new I(*s.I_)); }); if (!oom) { Slot t{std::move(c), s.id, s.h + " [copied]"}; S.push_back(std::move(t)); } else s.h += " [interrupted copy]"; }
        else if (l.key == "move") { std::unique_ptr<I> c; { Lib b; c.reset(new I(std::move(*s.I_))); s.I_.reset(); } s.I_ = std::move(c); s.h += " [moved]"; }
        else if (l.key == "assign") { size_t j = U(1) % S.size(); if (i == j && A(4) == "1") continue; Slot& t = S[j]; int old = s.id;
            if (A(4) == "1") { { Lib b; *s.I_ = std::move(*t.I_); } s.id = t.id; s.h = t.h + " [move-assigned]"; std::unique_ptr<I> c; { Lib b; t.I_.reset(); t.I_.reset(new I(*s.I_)); } t.h = s.h + " [copied]"; }
            else { bool oom = faulted(A(2), A(3), [&] { *s.I_ = *t.I_; }); if (!oom) { s.id = t.id; s.h = t.h + " [assigned]"; }
                else { sim::count("interrupted assignments"); auto is = [&](int id) { auto& g = s.I_->generators(); if (g.size() != M[id].gens.size()) return false; for (size_t k = 0; k < g.size(); ++k) if (H(g[k]) != M[id].gens[k]) return false; return true; };
                    if (is(old)) s.h += " [interrupted assignment]"; else if (is(t.id)) { s.id = t.id; s.h = " [interrupted assignment]"; } else sim::fail("TORN", w + ": after an interrupted assignment the generators are neither the old nor the new ones"); } } }
        else if (l.key == "new") { if (S.size() >= 12) continue; int id = (int)(U(0) % M.size()); std::vector<P> v = G(id); std::unique_ptr<I> c; bool oom = faulted(A(1), A(2), [&] { if (v.size() == 2) c.reset(new I({v[0], v[1]})); else c.reset(new I(v)); }); if (!oom) { Slot t{std::move(c), id, ""}; S.push_back(std::move(t)); } }
        else if (l.key == "nf" || l.key == "sp") {      // the public building blocks on the generators
            std::vector<P> v; std::vector<MP> ms; for (auto& g : M[s.id].gens) if (!g.zero()) { v.push_back(L(g)); ms.push_back(g); } if (v.empty()) continue; P r(proto.comp_ptr());
            if (l.key == "nf") { MP f; try { f = model::parse(A(5)); } catch (...) { sim::invalid("polynomial"); } if (isZZ<Tc>() && !model::integral(f)) sim::invalid("integral"); if (model::tdeg(f) > 8) sim::invalid("size"); P lf = L(f); if (faulted(A(1), A(2), [&] { r = normal_form(lf, v); })) continue; MP g = H(r);
                for (auto& t : g.t) for (auto& q : ms) if (mdivides(model::lead(q, o), t.first)) sim::fail("REMAINDER", w + ": a term of the remainder " + model::text(g) + " is divisible by a leading monomial");
                MP nf = model::nf(f, M[s.id].gb, o), ng = model::nf(g, M[s.id].gb, o); if (isZZ<Tc>() ? !proportional(nf, ng) : nf != ng) sim::fail("REMAINDER", w + ": dividend and remainder " + model::text(g) + " differ modulo the ideal"); }
            else { size_t x = U(3) % v.size(), y = U(4) % v.size(); if (faulted(A(1), A(2), [&] { r = s_polynomial(v[x], v[y]); })) continue; MP g = H(r); model::Mono a = model::lead(ms[x], o), b = model::lead(ms[y], o); MP ma = C(1 / ms[x].t.at(a)), mb = C(1 / ms[y].t.at(b)); for (int k = 0; k < model::NV; ++k) { int d = std::max(a[k], b[k]); if (d > a[k]) ma = model::mul(ma, V(k, d - a[k])); if (d > b[k]) mb = model::mul(mb, V(k, d - b[k])); } MP e = model::sub(model::mul(ma, ms[x]), model::mul(mb, ms[y])); if (isZZ<Tc>() ? !proportional(e, g) : e != g) sim::fail("SPOLY", w + ": S-polynomial is " + model::text(g) + ", expected " + model::text(e)); }
            sim::count("building blocks");
        } else sim::invalid("unknown op");
    }
    sim::set_phase("final questions");
    for (size_t i = 0; i < S.size(); ++i) { Slot& s = S[i]; std::string w = "at the end, ideal object " + N((long)i); const std::vector<P>* B; { Lib l; B = &s.I_->groebner_basis(); } check_gb(s, *B, w); for (auto& g : M[s.id].gens) query(s, g, 2, "0", "0", w); query(s, C(1), 0, "0", "0", w);
        auto& g = s.I_->generators(); if (g.size() != M[s.id].gens.size()) sim::fail("TORN", w + ": number of generators changed"); for (size_t k = 0; k < g.size(); ++k) if (H(g[k]) != M[s.id].gens[k]) sim::fail("TORN", w + ": generator " + N((long)k) + " changed"); }
    sim::count("queries", n_queries); sim::count("injected allocation failures", n_faults); sim::count("steps", steps); if (steps > 1 && !M[0].gb.empty()) sim::nontrivial();
}
static void exec(const sim::Plan& p) {
    init_vars(); n_faults = n_queries = 0; static std::vector<MI> M; M.clear(); std::string ring = p.knob("ring", "QQ"), kind = p.knob("kind", "grlex"); model::Order o = kind == "lex" || kind == "custom" ? model::LEX : model::GRLEX;
    int pi[4] = {0, 1, 2, 3}, ip[4]; if (kind == "custom" || kind == "gcustom") { auto* l = p.find("order"); int seen = 0; if (l) for (int i = 0; i < 4; ++i) { pi[i] = i < (int)l->f.size() ? (int)sim::toint(l->f[i]) : i; if (pi[i] < 0 || pi[i] > 3 || (seen >> pi[i] & 1)) sim::invalid("order"); seen |= 1 << pi[i]; } } for (int i = 0; i < 4; ++i) ip[pi[i]] = i;
    for (auto& l : p.lines) if (l.key == "ideal") { MI m; for (auto& t : l.f) { MP g; try { g = model::parse(t); } catch (...) { sim::invalid("polynomial"); } for (int i = 4; i < model::NV; ++i) if (model::uses(g, i)) sim::invalid("variables"); if (model::tdeg(g) > 8 || (ring == "ZZ" && !model::integral(g))) sim::invalid("generator"); m.gens.push_back(g); } if (m.gens.size() == 1 && m.gens[0].zero() && l.f[0].empty() && l.f.size() == 1) {} try { m.gb = model::buchberger(m.gens, o, 150); } catch (...) { sim::invalid("ideal too large for the reference"); } M.push_back(m); }
    if (M.empty() || M.size() > 3) sim::invalid("ideals"); for (auto& l : p.lines) if (l.key == "fam") sim::count("family " + (l.f.empty() ? std::string() : l.f[0]));
    sim::set_tick_limit(1500000000ull); std::string t; for (auto& m : M[0].gens) t += model::text(m) + "; "; sim::sample(ring + " " + kind + " " + t.substr(0, 200));
    lex_<custom_var_order> c(custom_var_order({vars()[pi[0]], vars()[pi[1]], vars()[pi[2]], vars()[pi[3]]})); grlex_<custom_var_order> gc(custom_var_order({vars()[pi[0]], vars()[pi[1]], vars()[pi[2]], vars()[pi[3]]}));
    auto run = [&](auto tag) { typedef decltype(tag) Tc; if (kind == "grlex") go(p, polynomial_<Tc, grlex>(), M, o, pi, ip); else if (kind == "lex") go(p, polynomial_<Tc, lex>(), M, o, pi, ip); else if (kind == "custom") go(p, polynomial_<Tc, lex_<custom_var_order>>(&c), M, o, pi, ip); else go(p, polynomial_<Tc, grlex_<custom_var_order>>(&gc), M, o, pi, ip); };
    if (ring == "ZZ") run(ZZ()); else run(QQ());
}
const sim::Scenario sim::scenario = {"C08", gen, exec, 8000000000ull, 60};
