// Adaptor between plan texts, the reference model and CLPoly's public types.
#pragma once
#include <clpoly/clpoly.hh>
#include "sim.hh"

namespace lib {
using namespace clpoly;
using sim::Lib; using sim::Host;

static const char* const VNAMES[6] = {"x", "y", "z", "w", "u", "v"};
inline std::vector<variable>& vars() { static std::vector<variable> v; return v; }
inline void init_vars() {                                   // before any fault is armed
    auto& v = vars(); v.clear();
    for (auto n : VNAMES) v.push_back(variable::get_variable(n));
    variable::get_variable("_t");
}
inline std::string str(const ZZ& z) {
    if (z.is_small()) return std::to_string(z.get_val());
    char* s = mpz_get_str(nullptr, 10, z.get_mpz_v()); std::string o = s; void (*f)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &f); f(s, o.size() + 1); return o;
}
inline std::string str(const QQ& q) { std::string n = str(q.get_num()), d = str(q.get_den()); return d == "1" ? n : n + "/" + d; }
inline std::string str(const Zp& z) { return std::to_string(z.number()); }
template <class Tc> struct mk;
template <> struct mk<ZZ> { static ZZ of(const std::string& s) { return ZZ(s); } };
template <> struct mk<QQ> { static QQ of(const std::string& s) { size_t i = s.find('/'); if (i == std::string::npos) return QQ(ZZ(s)); return QQ(ZZ(s.substr(0, i)), ZZ(s.substr(i + 1))); } };

// polynomial from text, built term by term and normalised by the library
template <class Tc, class comp>
void load(polynomial_<Tc, comp>& p, const std::string& t) {
    std::vector<std::string> terms = sim::split(t, ',');
    p.clear();
    for (auto& tm : terms) {
        if (tm.empty()) continue;
        auto cv = sim::split(tm, '@');
        basic_monomial<comp> m(p.comp_ptr());
        if (cv.size() > 1) { auto e = sim::split(cv[1], '.'); for (size_t i = 0; i < e.size() && i < 6; ++i) if (e[i] != "0" && !e[i].empty()) m.push_back({vars()[i], (int64_t)sim::toint(e[i])}); }
        m.normalization();
        Tc c = mk<Tc>::of(cv[0]);
        p.push_back({std::move(m), std::move(c)});
    }
    p.normalization();
}
template <class P> P poly(const std::string& t) { P p; load(p, t); return p; }
template <class Tc> upolynomial_<Tc> upoly(const std::string& t) {
    upolynomial_<Tc> p;
    for (auto& tm : sim::split(t, ',')) {
        if (tm.empty()) continue; auto cv = sim::split(tm, '@');
        int64_t e = cv.size() > 1 && !cv[1].empty() ? sim::toint(sim::split(cv[1], '.')[0]) : 0;
        p.push_back({umonomial(e), mk<Tc>::of(cv[0])});
    }
    p.normalization(); return p;
}
inline int vindex(const variable& v) { for (int i = 0; i < 6; ++i) if (vars()[i].serial() == v.serial()) return i; return -1; }
template <class comp> std::string text(const basic_monomial<comp>& m) {
    int e[6] = {0, 0, 0, 0, 0, 0}; std::string extra;
    for (auto& ve : m) { int i = vindex(ve.first); if (i < 0) extra += "?" + ve.first.name() + "^" + std::to_string(ve.second); else e[i] += (int)ve.second; }
    int last = -1; for (int i = 0; i < 6; ++i) if (e[i]) last = i;
    std::string o; for (int i = 0; i <= last; ++i) { if (i) o += '.'; o += std::to_string(e[i]); }
    return o + extra;
}
inline std::string text(const umonomial& m) { return m.deg() ? std::to_string(m.deg()) : ""; }
// stored order is kept: two texts are equal iff the representations are
template <class Tm, class Tc, class comp> std::string text(const basic_polynomial<Tm, Tc, comp>& p) {
    Host h; std::string o;
    for (auto& t : p) { if (!o.empty()) o += ','; o += str(t.second) + "@" + text(t.first); }
    return o;
}
template <class comp> std::string wf_mono(const basic_monomial<comp>& m) {
    int64_t d = 0; for (auto i = m.begin(); i != m.end(); ++i) { if (i->second == 0) return "zero exponent"; d += i->second; auto j = i; ++j; if (j != m.end() && !m.comp(i->first, j->first)) return "variables not in order"; }
    return d == m.deg() ? "" : "stored degree differs";
}
// representation invariant: terms strictly decreasing, no zero coefficient
template <class Tc, class comp> std::string wf(const polynomial_<Tc, comp>& p) {
    Host h;
    for (auto i = p.begin(); i != p.end(); ++i) {
        if (i->second == Tc(0)) return "zero coefficient stored";
        auto e = wf_mono(i->first); if (!e.empty()) return e;
        auto j = i; ++j; if (j != p.end() && !p.comp(i->first, j->first)) return "terms not strictly decreasing";
    }
    return "";
}
inline std::string wf_zp(const polynomial_<Zp, lex>& p) { for (auto& t : p) if (!t.second) return "zero coefficient stored"; return ""; }
template <class Tc> std::string wf(const upolynomial_<Tc>& p) {
    Host h; int64_t last = INT64_MAX;
    for (auto& t : p) { if (!t.second) return "zero coefficient stored"; if (t.first.deg() >= last) return "terms not strictly decreasing"; last = t.first.deg(); }
    return "";
}
}
