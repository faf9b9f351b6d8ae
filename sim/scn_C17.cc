// C17: monomial orders, and the conversions and mixed operators between the many representations of a polynomial.
#include "lib.hh"
#include "gens.hh"
#include "model.hh"
using namespace lib;
typedef model::MP MP; typedef model::Mono Mono;
typedef lex_<custom_var_order> LC; typedef grlex_<custom_var_order> GC; typedef univariate_priority_order UO;
static const int NT = 12;                               // kinds of representation
static uint64_t n_faults;
template <class F> static bool faulted(const std::string& at, const std::string& st, F&& f) {
    long k = (long)sim::toint(at); bool out = false; if (k > 0) sim::arm((uint64_t)k, st == "1");
    try { Lib l; f(); } catch (const std::bad_alloc&) { out = true; }
    auto s = sim::disarm(); if (s.fired) ++n_faults; if (out && !s.fired) sim::fail("OOM", "bad_alloc although no allocation failed"); return out;
}
struct Ord { bool deg; std::vector<int> rank; };        // independent definition of the orders
static int cmp(const Mono& a, const Mono& b, const Ord& o) {
    if (o.deg) { int x = 0, y = 0; for (int i = 0; i < 6; ++i) { x += a[i]; y += b[i]; } if (x != y) return x > y ? 1 : -1; }
    for (int v : o.rank) if (a[v] != b[v]) return a[v] > b[v] ? 1 : -1;
    return 0;
}
template <class T> struct coefs; template <class Tm, class Tc, class C> struct coefs<basic_polynomial<Tm, Tc, C>> { typedef Tc type; };
template <class P> struct is_u : std::false_type {}; template <class Tc> struct is_u<upolynomial_<Tc>> : std::true_type {};
template <class Tc, class C> static MP back(const polynomial_<Tc, C>& p) { MP o; for (auto& t : p) { Mono m{}; for (auto& v : t.first) { int i = vindex(v.first); if (i < 0) sim::fail("WRONG", "an unknown variable in a result"); m[i] += (int)v.second; } o.t[m] += mpq_class(str(t.second)); if (o.t[m] == 0) o.t.erase(m); } return o; }
template <class Tc> static MP back(const upolynomial_<Tc>& p) { MP o; for (auto& t : p) { Mono m{}; m[0] = (int)t.first.deg(); o.t[m] += mpq_class(str(t.second)); if (o.t[m] == 0) o.t.erase(m); } return o; }
static bool zok(const MP& m) { for (auto& t : m.t) if (t.second.get_den() != 1) return false; return true; }
static MP cleared(const MP& m) { mpz_class d = 1; for (auto& t : m.t) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), t.second.get_den().get_mpz_t()); return model::scale(m, mpq_class(d)); }
static bool onevar(const MP& m, int& v) { v = -1; for (int i = 0; i < 6; ++i) if (model::uses(m, i)) { if (v >= 0) return false; v = i; } return true; }
static MP rename(const MP& m, int a, int b) { if (a < 0 || a == b) return m; MP o; for (auto& t : m.t) { Mono k = t.first; std::swap(k[a], k[b]); o.t[k] = t.second; } return o; }
static bool big(const MP& m) { if (m.t.size() > 250) return true; for (auto& t : m.t) { int d = 0; for (int e : t.first) d += e; if (d > 400 || mpz_sizeinbase(t.second.get_num().get_mpz_t(), 2) > 4000 || mpz_sizeinbase(t.second.get_den().get_mpz_t(), 2) > 4000) return true; } return false; }
static mpq_class num(const std::string& s) { mpq_class q; if (s.empty() || q.set_str(s, 10)) sim::invalid("number"); if (q.get_den() == 0) sim::invalid("number"); q.canonicalize(); return q; }
static std::string nm(int t) { static const char* n[NT] = {"ZZ grlex", "QQ grlex", "ZZ lex", "QQ lex", "ZZ lex custom", "QQ lex custom", "ZZ grlex custom", "QQ grlex custom", "ZZ univariate priority", "QQ univariate priority", "ZZ dense", "QQ dense"}; return n[t]; }

struct World {
    LC lc; GC gc; UO uo; Ord ord[5];
    typedef polynomial_ZZ T0; typedef polynomial_QQ T1; typedef polynomial_<ZZ, lex> T2; typedef polynomial_<QQ, lex> T3; typedef polynomial_<ZZ, LC> T4; typedef polynomial_<QQ, LC> T5; typedef polynomial_<ZZ, GC> T6; typedef polynomial_<QQ, GC> T7; typedef polynomial_<ZZ, UO> T8; typedef polynomial_<QQ, UO> T9; typedef upolynomial_<ZZ> T10; typedef upolynomial_<QQ> T11;
    T0 r0[3]; T1 r1[3]; T2 r2[3]; T3 r3[3]; T4 r4[3]; T5 r5[3]; T6 r6[3]; T7 r7[3]; T8 r8[3]; T9 r9[3]; T10 r10[3]; T11 r11[3];
    MP m[NT][3];
    World(const std::vector<variable>& cv, variable uv) : lc(custom_var_order(cv)), gc(custom_var_order(cv)), uo(uv) { for (int i = 0; i < 3; ++i) { r4[i].comp(&lc); r5[i].comp(&lc); r6[i].comp(&gc); r7[i].comp(&gc); r8[i].comp(&uo); r9[i].comp(&uo); } }
    const lex* cp(lex*) { return &lex::init; } const grlex* cp(grlex*) { return &grlex::init; } const LC* cp(LC*) { return &lc; } const GC* cp(GC*) { return &gc; } const UO* cp(UO*) { return &uo; } const uless* cp(uless*) { return &uless::init; }
    template <class P> P fresh() { typedef typename P::compare_type C; return P(cp((C*)nullptr)); }
};
template <class F> static void pick(World& w, int t, F&& f) { switch (t) { case 0: f(w.r0); break; case 1: f(w.r1); break; case 2: f(w.r2); break; case 3: f(w.r3); break; case 4: f(w.r4); break; case 5: f(w.r5); break; case 6: f(w.r6); break; case 7: f(w.r7); break; case 8: f(w.r8); break; case 9: f(w.r9); break; case 10: f(w.r10); break; default: f(w.r11); } }
template <class R> struct elem; template <class P> struct elem<P[3]> { typedef P type; };
#define ELEM(r) typename elem<typename std::remove_reference<decltype(r)>::type>::type

template <class P> static void check_rep(World& w, const P& p, int t, const std::string& what) {
    sim::Host h;
    if constexpr (is_u<P>::value) { auto e = wf(p); if (!e.empty()) sim::fail("WF", what + ": " + e); }
    else {
        typedef typename P::compare_type C; if (!comp_consistent(p.comp(), *w.cp((C*)nullptr))) sim::fail("WF", what + ": the result is ordered by another monomial order");
        const Ord& o = w.ord[t / 2]; bool first = true; Mono last{};
        for (auto& x : p) { if (x.second == typename coefs<P>::type(0)) sim::fail("WF", what + ": zero coefficient stored"); int64_t d = 0; Mono m{}; int at = -1;
            for (auto& v : x.first) { int i = vindex(v.first); if (i < 0 || v.second == 0 || m[i]) sim::fail("WF", what + ": malformed monomial"); int pos = (int)(std::find(o.rank.begin(), o.rank.end(), i) - o.rank.begin()); if (pos <= at) sim::fail("WF", what + ": the variables of a monomial are not in the order's sequence"); at = pos; m[i] = (int)v.second; d += v.second; }
            if (d != x.first.deg()) sim::fail("WF", what + ": stored degree of a monomial is wrong"); if (!first && cmp(last, m, o) <= 0) sim::fail("WF", what + ": terms are not strictly decreasing in the monomial order"); last = m; first = false; }
    }
}
template <class P> static void expect(World& w, const P& p, const MP& e, int t, const std::string& what) { check_rep(w, p, t, what); sim::Host h; MP g = back(p); if (!(g == e)) sim::fail("WRONG", what + ": got " + model::text(g).substr(0, 300) + ", expected " + model::text(e).substr(0, 300)); }
static void all(World& w, const std::string& what) { for (int t = 0; t < NT; ++t) pick(w, t, [&](auto& r) { for (int i = 0; i < 3; ++i) expect(w, r[i], w.m[t][i], t, what + ": register " + std::to_string(i) + " (" + nm(t) + ")"); }); }

static std::string rmono(sim::Rng& r) { std::string o; for (int i = 0; i < 6; ++i) o += (i ? "." : "") + std::to_string(r.chance(1, 2) ? 0 : r.chance(1, 12) ? (long)r.below(200) : (long)r.below(4)); return o; }
static std::string rint(sim::Rng& r) { switch (r.below(6)) { case 0: return "0"; case 1: return std::string(r.chance(1, 2) ? "1" : "-1"); case 2: return std::to_string(r.range(-20, 20)); case 3: { static const char* e[] = {"-9223372036854775808", "9223372036854775807", "4611686018427387904", "-4611686018427387904", "2147483648", "-2147483649"}; return e[r.below(6)]; } default: return std::to_string((int64_t)r.next() >> r.below(63)); } }
static std::string rnum(sim::Rng& r, bool q) { std::string s = r.chance(1, 5) ? gens::bigint(r, 1 + (int)r.below(40)).get_str() : rint(r); if (q && r.chance(1, 2)) s += "/" + std::to_string(1 + r.below(30)); return s; }
static std::string rpoly(sim::Rng& r, bool q, bool u) { std::string o; int n = (int)r.below(r.chance(1, 8) ? 20 : 6); int sp = u ? 1 : 1 + (int)r.below(6); for (int i = 0; i < n; ++i) { std::string c = rnum(r, q); o += (o.empty() ? "" : ",") + c + "@"; for (int j = 0; j < sp; ++j) o += (j ? "." : "") + std::to_string(r.chance(1, 2) ? 0 : r.chance(1, 20) ? (long)r.below(90) : (long)r.below(u ? 12 : 4)); } return o; }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; std::string perm; int k = (int)r.below(7); for (int i = 0; i < k; ++i) perm += (i ? "." : "") + std::to_string(r.below(6)); p.add("ord", {perm, std::to_string(r.below(6))});
    bool faults = r.chance(1, 3); int n = 6 + (int)r.below(20); auto I = [&] { return std::to_string(r.below(3)); };
    auto at = [&](std::vector<std::string>& f) { if (faults && r.chance(1, 2)) { f.push_back(std::to_string(1 + r.below(r.chance(1, 2) ? 5 : 40))); f.push_back(r.chance(1, 3) ? "1" : "0"); } else { f.push_back("0"); f.push_back("0"); } };
    for (int i = 0; i < 3; ++i) { int t = (int)r.below(NT); p.add("set", {std::to_string(t), I(), rpoly(r, t & 1, t >= 10)}); }
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> f; std::string key; int t = (int)r.below(NT);
        switch (r.below(18)) {
        case 0: case 1: key = "set"; p.add(key, {std::to_string(t), I(), rpoly(r, t & 1, t >= 10)}); continue;
        case 2: case 3: case 4: key = "conv"; f = {std::to_string(t), I(), std::to_string(r.below(NT)), I(), std::to_string(r.below(5)), std::to_string(r.below(6))}; break;
        case 5: case 6: key = "sc"; f = {std::to_string(r.below(2)), I(), I(), std::to_string(r.below(16)), rnum(r, true), rmono(r)}; break;
        case 7: case 8: key = "mono"; f = {I(), std::to_string(r.below(22)), rmono(r), r.chance(1, 6) ? "0" : rmono(r), rnum(r, true)}; break;
        case 9: key = "mk"; f = {std::to_string(t), I(), std::to_string(r.below(6)), rnum(r, true), rmono(r), std::to_string(r.below(2))}; break;
        case 10: key = "asg"; f = {std::to_string(t), I(), I(), std::to_string(r.below(3)), std::to_string(r.below(6)), r.chance(1, 3) ? "0" : std::to_string(r.range(-3, 3)), std::to_string(r.below(6)), r.chance(1, 2) ? std::to_string(r.range(-3, 3)) : "1/2"}; break;
        case 11: key = "ask"; f = {std::to_string(t), I(), std::to_string(r.below(6))}; break;
        case 12: key = "ord3"; f = {std::to_string(r.below(5)), rmono(r), r.chance(1, 5) ? "" : rmono(r), rmono(r)}; break;
        case 13: key = "cmp"; f = {std::to_string(t), I(), I(), I()}; break;
        case 14: key = "times"; f = {std::to_string(t), I(), I(), rnum(r, t & 1), I()}; break;
        case 15: key = "der"; f = {std::to_string(t), I(), I()}; break;
        case 16: key = "uop"; f = {std::to_string(10 + r.below(2)), I(), I(), I(), std::to_string(r.below(7)), std::to_string(r.below(5))}; break;
        default: key = "zp"; f = {std::to_string(r.below(2)), I(), std::to_string(r.below(5)), I(), std::to_string(r.below(7))};
        }
        at(f); p.add(key, f);
    }
    return p;
}
template <class C> static basic_monomial<C> mono(const std::string& s, const C* c) { basic_monomial<C> m(c); auto e = sim::split(s, '.'); for (size_t i = 0; i < e.size() && i < 6; ++i) { long k = std::labs((long)(sim::toint(e[i]) % 1000)); if (k) m.push_back({vars()[i], k}); } m.normalization(); return m; }
static Mono mmono(const std::string& s) { Mono m{}; auto e = sim::split(s, '.'); for (size_t i = 0; i < e.size() && i < 6; ++i) m[i] = (int)(std::labs((long)(sim::toint(e[i]) % 1000))); return m; }
static MP term(const Mono& m, const mpq_class& c) { MP o; if (c != 0) o.t[m] = c; return o; }
template <class C> static Mono mback(const basic_monomial<C>& m) { Mono o{}; for (auto& x : m) o[vindex(x.first)] += (int)x.second; return o; }
static Mono madd(Mono a, const Mono& b, int k = 1) { for (int i = 0; i < 6; ++i) a[i] += k * b[i]; return a; }
static QQ qq(const mpq_class& q) { return mk<QQ>::of(q.get_str()); } static ZZ zz(const mpq_class& q) { return ZZ(q.get_num().get_str()); }
template <class Tc> static Tc cof(const mpq_class& q); template <> ZZ cof<ZZ>(const mpq_class& q) { return zz(q); } template <> QQ cof<QQ>(const mpq_class& q) { return qq(q); }

template <class C> static void order_facts(World& w, int oi, const C* c, const std::string& sa, const std::string& sb, const std::string& sc, const std::string& at, const std::string& st, const std::string& what) {
    auto a = mono(sa, c), b = mono(sb, c), d = mono(sc, c); Mono ma = mmono(sa), mb = mmono(sb), mc = mmono(sc); const Ord& o = w.ord[oi];
    auto gt = [&](const basic_monomial<C>& x, const basic_monomial<C>& y, const Mono& mx, const Mono& my) { bool g, e; { Lib l; g = (*c)(x, y); e = x == y; } int r = cmp(mx, my, o); if (g != (r > 0) || e != (r == 0)) sim::fail("ORDER", what + ": comparing " + text(x) + " with " + text(y)); };
    gt(a, b, ma, mb); gt(b, a, mb, ma); gt(b, d, mb, mc); gt(a, d, ma, mc); gt(a, a, ma, ma); basic_monomial<C> one(c); gt(a, one, ma, Mono{}); gt(one, a, Mono{}, ma);
    { Lib l; int k = (a > b) + (a == b) + (a < b); if (k != 1) { Host h; sim::fail("ORDER", what + ": of a>b, a==b, a<b there hold " + std::to_string(k)); } bool tr = !(a > b && b > d) || a > d, le = (a <= b) == !(a > b) && (a >= b) == !(a < b) && (a != b) == !(a == b), mu = !(a > b) || (a * d > b * d); if (!tr || !le || !mu) { Host h; sim::fail("ORDER", what + ": comparison operators are not those of a monomial order"); } }
    basic_monomial<C> x(c), y(c), z(c), q(c), ad(c), bd(c), pw(c); bool dv = false; int n = 1 + (ma[0] % 3);
    bool oom = faulted(at, st, [&] { x = lcm(a, b); y = clpoly::gcd(a, b); ad = a * d; bd = b * d; z = ad / d; dv = is_divexact(q, a, b); pw = pow(a, n); });
    if (mback(a) != ma || mback(b) != mb || mback(d) != mc) sim::fail("WRONG", what + ": an argument changed"); if (oom) return;
    Mono ml{}, mg{}, mp{}; bool md = true; for (int i = 0; i < 6; ++i) { ml[i] = std::max(ma[i], mb[i]); mg[i] = std::min(ma[i], mb[i]); md = md && ma[i] >= mb[i]; mp[i] = ma[i] * n; }
    auto is = [&](const basic_monomial<C>& u, const Mono& e, const char* s) { auto wfm = wf_mono(u); if (!wfm.empty()) sim::fail("WF", what + ": " + s + ": " + wfm); if (mback(u) != e) sim::fail("WRONG", what + ": " + s + " is " + text(u)); };
    is(x, ml, "lcm"); is(y, mg, "gcd"); is(ad, madd(ma, mc), "product"); is(z, ma, "quotient"); is(pw, mp, "power"); if (dv != md) sim::fail("WRONG", what + ": is_divexact"); if (md) is(q, madd(ma, mb, -1), "exact quotient");
    gt(ad, bd, madd(ma, mc), madd(mb, mc)); std::hash<basic_monomial<C>> hs; if (hs(z) != hs(a)) sim::fail("WRONG", what + ": equal monomials with different hashes");
}
static void exec(const sim::Plan& p) {
    n_faults = 0; init_vars(); const sim::Line* g = p.find("ord"); if (!g || g->f.size() < 2) sim::invalid("ord"); std::vector<int> first; for (auto& s : sim::split(g->f[0], '.')) { if (s.empty()) continue; int v = (int)(std::labs((long)sim::toint(s)) % 6); if (std::find(first.begin(), first.end(), v) == first.end()) first.push_back(v); }
    int up = (int)(std::labs((long)sim::toint(g->f[1])) % 6); std::vector<variable> cv; for (int v : first) cv.push_back(vars()[v]); World w(cv, vars()[up]);
    auto rank = [&](std::vector<int> a) { for (int i = 0; i < 6; ++i) if (std::find(a.begin(), a.end(), i) == a.end()) a.push_back(i); return a; };
    w.ord[0] = {true, rank({})}; w.ord[1] = {false, rank({})}; w.ord[2] = {false, rank(first)}; w.ord[3] = {true, rank(first)}; w.ord[4] = {false, rank({up})};
    // unlisted variables follow the listed ones in registration order, which is that of their indices here
    sim::set_tick_limit(400000000ull); uint64_t steps = 0, kinds = 0;
    for (auto& l : p.lines) {
        if (l.key == "ord" || ++steps > 60) continue; auto A = [&](size_t i) { return i < l.f.size() ? l.f[i] : std::string("0"); }; auto U = [&](size_t i, int n) { long long k = sim::toint(A(i)) % n; return (int)(k < 0 ? k + n : k); };
        std::string what = "step " + std::to_string(steps) + " " + l.key; for (auto& f : l.f) what += " " + f.substr(0, 100); sim::set_phase(what); std::string at = l.f.size() >= 2 ? l.f[l.f.size() - 2] : "0", st = l.f.empty() ? "0" : l.f.back();
        if (l.key == "set") { int t = U(0, NT), i = U(1, 3); MP x = model::parse(A(2)); for (auto& y : x.t) for (int e : y.first) if (e < 0) sim::invalid("exponent"); if (big(x) || (!(t & 1) && !zok(x))) sim::invalid("size"); if (t >= 10) for (int v = 1; v < 6; ++v) if (model::uses(x, v)) sim::invalid("variables");
            pick(w, t, [&](auto& r) { typedef ELEM(r) P; if constexpr (is_u<P>::value) r[i] = upoly<typename coefs<P>::type>(model::text(x)); else { auto q = w.fresh<P>(); load(q, model::text(x)); r[i] = q; } expect(w, r[i], x, t, what); }); w.m[t][i] = x; continue; }
        if (l.key == "conv") { int t = U(0, NT), i = U(1, 3), s = U(2, NT), j = U(3, 3), mode = U(4, 5), v = U(5, 6); MP x = w.m[s][j], e = x; int ov;
            pick(w, s, [&](auto& rs) { pick(w, t, [&](auto& rt) { typedef ELEM(rs) S; typedef ELEM(rt) T; typedef typename coefs<S>::type SC; typedef typename coefs<T>::type TC; bool self = (const void*)&rs[j] == (const void*)&rt[i];
                if constexpr (std::is_same<SC, QQ>::value && std::is_same<TC, ZZ>::value) e = cleared(e);
                T out = w.fresh<T>(); if ((i + j + s) & 1) { Lib b; out = rt[i]; if constexpr (!is_u<T>::value) out.comp(w.cp((typename T::compare_type*)nullptr)); } /* a target that already holds something */ bool moved = mode == 1, ok = true, oom = false; S src = rs[j];
                if constexpr (is_u<S>::value && !is_u<T>::value) { if constexpr (std::is_same<SC, TC>::value) { e = rename(e, 0, v); oom = faulted(at, st, [&] { poly_convert(src, out, vars()[v]); }); } else ok = false; }
                else if constexpr (is_u<T>::value && !is_u<S>::value) { if constexpr (std::is_same<TC, ZZ>::value && std::is_same<SC, QQ>::value) ok = false; else { if (!onevar(x, ov)) ok = false; else { e = rename(e, ov, 0); oom = faulted(at, st, [&] { if (mode == 2) out = src; else poly_convert(src, out); }); } } }
                else if constexpr (is_u<T>::value) { if constexpr (std::is_same<S, T>::value) { oom = faulted(at, st, [&] { out = src; }); } else oom = faulted(at, st, [&] { poly_convert(src, out); }); }
                else if constexpr (std::is_same<S, T>::value) { if (self && mode < 2) { oom = faulted(at, st, [&] { if (mode) poly_convert(std::move(rs[j]), rt[i]); else poly_convert(rs[j], rt[i]); }); Lib b; if (oom) { rs[j] = src; rs[j].comp(w.cp((typename S::compare_type*)nullptr)); } out = rs[j]; }
                    else oom = faulted(at, st, [&] { if (moved) poly_convert(std::move(src), out); else poly_convert(src, out); }); }
                else oom = faulted(at, st, [&] { switch (mode) { case 1: poly_convert(std::move(src), out); break; case 2: out = src; break; case 3: { T y(&out.comp()); y = src; out = std::move(y); break; } case 4: { if constexpr (std::is_same<typename T::compare_type, lex>::value || std::is_same<typename T::compare_type, grlex>::value) { T y(src); out = y; } else poly_convert(src, out); break; } default: poly_convert(src, out); } });
                if (!ok) return; if (oom && !moved) expect(w, src, x, s, what + ": the source after a failed request"); if (oom) return; if (!moved) expect(w, src, x, s, what + ": the source"); expect(w, out, e, t, what + ": " + nm(s) + " to " + nm(t)); { Lib b; rt[i] = std::move(out); } w.m[t][i] = e; sim::count("conversions"); kinds |= 1ull << t; }); }); }
        else if (l.key == "sc") { int t = U(0, 2), i = U(1, 3), j = U(2, 3), op = U(3, 16); mpq_class q = num(A(4)); if (!t) q = mpq_class(q.get_num()); bool fits = q.get_den() == 1 && mpz_fits_slong_p(q.get_num().get_mpz_t()); Mono k = mmono(A(5)); if (op < 4 && !fits) continue; long n = op < 4 ? mpz_get_si(q.get_num().get_mpz_t()) : 0; MP x = w.m[t][j], C = model::cst(q), K = term(k, 1), e; int v = U(4, 6);
            pick(w, t, [&](auto& r) { typedef ELEM(r) P; typedef typename coefs<P>::type Tc; if constexpr (std::is_same<P, polynomial_ZZ>::value || std::is_same<P, polynomial_QQ>::value) { P o; const P& a = r[j]; Tc c = cof<Tc>(q); monomial m = mono(A(5), &grlex::init); int64_t N = n; variable V = vars()[v];
                switch (op) { case 0: case 1: case 4: case 5: e = model::add(x, C); break; case 2: case 6: e = model::sub(x, C); break; case 3: case 7: e = model::sub(C, x); break; case 8: e = model::scale(x, q); break; case 9: case 10: e = model::add(x, K); break; case 11: e = model::sub(x, K); break; case 12: e = model::sub(K, x); break; case 13: e = model::mul(x, K); break; case 14: e = model::add(x, model::var(v)); break; default: e = model::mul(x, model::var(v)); }
                bool oom = faulted(at, st, [&] { switch (op) { case 0: o = a + N; break; case 1: o = N + a; break; case 2: o = a - N; break; case 3: o = N - a; break; case 4: o = a + c; break; case 5: o = c + a; break; case 6: o = a - c; break; case 7: o = c - a; break; case 8: o = a * c; break; case 9: o = a + m; break; case 10: o = m + a; break; case 11: o = a - m; break; case 12: o = m - a; break; case 13: o = a * m; break; case 14: o = a + V; break; default: o = a * V; } });
                if (!oom && !big(e)) { expect(w, o, e, t, what); Lib b; r[i] = std::move(o); w.m[t][i] = e; } } }); }
        else if (l.key == "mono") { int i = U(0, 3), op = U(1, 22); Mono a = mmono(A(2)), b = mmono(A(3)); mpq_class q = num(A(4)); mpq_class z(q.get_num()); bool fits = mpz_fits_slong_p(q.get_num().get_mpz_t()); if (!fits && (op >= 3 && op <= 6 || op == 8 || op == 9)) continue; int64_t n = fits ? mpz_get_si(q.get_num().get_mpz_t()) : 0; int v = U(2, 6), u = U(3, 6); monomial x = mono(A(2), &grlex::init), y = mono(A(3), &grlex::init); MP X = term(a, 1), Y = term(b, 1), e; bool ok = true; polynomial_ZZ o; polynomial_QQ oq; bool isq = op == 11 || op == 12; int pn = b[0] % 5;
            switch (op) { case 0: e = model::neg(X); break; case 1: e = model::add(X, Y); break; case 2: e = model::sub(X, Y); break; case 3: case 5: e = model::add(X, model::cst(z)); break; case 4: e = model::sub(X, model::cst(z)); break; case 6: e = model::sub(model::cst(z), X); break; case 7: case 8: case 9: case 10: e = model::scale(X, z); break; case 11: case 12: e = model::scale(X, q); break; case 13: e = model::mul(model::var(v), model::var(u)); break; case 14: e = model::pow(model::var(v), pn); break; case 15: { Mono m{}; for (int k = 0; k < 6; ++k) m[k] = a[k] * pn; e = term(m, 1); break; } case 16: e = model::mul(X, Y); break; case 17: for (int k = 0; k < 6; ++k) ok = ok && a[k] >= b[k]; if (ok) e = term(madd(a, b, -1), 1); break; case 18: e = model::add(model::var(v), model::var(u)); break; case 19: e = model::sub(model::var(v), X); break; case 20: e = model::scale(model::var(v), z); ok = fits; break; default: e = X; }
            if (!ok) continue; variable V = vars()[v], Uv = vars()[u]; ZZ c = zz(z); QQ cq = qq(q);
            bool oom = faulted(at, st, [&] { switch (op) { case 0: o = -x; break; case 1: o = x + y; break; case 2: o = x - y; break; case 3: o = x + n; break; case 4: o = x - n; break; case 5: o = n + x; break; case 6: o = n - x; break; case 7: o = x * c; break; case 8: o = x * n; break; case 9: o = n * x; break; case 10: o = c * x; break; case 11: oq = x * cq; break; case 12: oq = cq * x; break; case 13: o = V * Uv; break; case 14: o = pow(V, pn); break; case 15: o = pow(x, pn); break; case 16: o = x * y; break; case 17: o = x / y; break; case 18: o = V + Uv; break; case 19: o = V - x; break; case 20: o = V * n; break; default: o = +x; } });
            if (!oom) { if (isq) { expect(w, oq, e, 1, what); Lib bb; w.r1[i] = std::move(oq); w.m[1][i] = e; } else { expect(w, o, e, 0, what); Lib bb; w.r0[i] = std::move(o); w.m[0][i] = e; } } }
        else if (l.key == "mk") { int t = U(0, NT), i = U(1, 3), op = U(2, 6); mpq_class q = num(A(3)); Mono k = mmono(A(4)); int v = U(4, 6); if (t >= 10) continue; bool q_ok = t & 1; if (op == 3 && !q_ok) continue; mpq_class z(q.get_num()); MP e = op == 0 ? model::cst(mpq_class(std::to_string((int)(std::llabs(sim::toint(A(3).substr(0, 5))) % 2000) - 1000))) : op == 1 ? model::var(v) : op == 2 ? term(k, 1) : op == 3 ? model::cst(q) : model::cst(z); int n0 = op == 0 ? (int)(std::llabs(sim::toint(A(3).substr(0, 5))) % 2000) - 1000 : 0;
            pick(w, t, [&](auto& r) { typedef ELEM(r) P; if constexpr (!is_u<P>::value) { typedef typename P::compare_type C; P o = w.fresh<P>(); auto m = mono(A(4), w.cp((C*)nullptr)); ZZ c = zz(z); QQ cq = qq(q); variable V = vars()[v]; bool as = U(5, 2);
                bool oom = faulted(at, st, [&] { switch (op) { case 0: if (as) o = n0; else poly_convert(n0, o); break; case 1: if (as) o = V; else poly_convert(V, o); break; case 2: if (as) o = m; else poly_convert(m, o); break; case 3: if constexpr (std::is_same<typename coefs<P>::type, QQ>::value) { if (as) o = cq; else poly_convert(cq, o); } break; default: if (as) o = c; else poly_convert(c, o); } });
                if (!oom) { expect(w, o, e, t, what); Lib b; r[i] = std::move(o); w.m[t][i] = e; } } }); }
        else if (l.key == "asg") { int t = U(0, NT), i = U(1, 3), j = U(2, 3), op = U(3, 3), v = U(4, 6), v2 = U(6, 6); mpq_class c = num(A(5)), c2 = num(A(7)); if (!(t & 1) || op != 2) { if (!(t & 1) && op != 2) { c = mpq_class(c.get_num()); c2 = mpq_class(c2.get_num()); } } MP x = w.m[t][j]; if (model::tdeg(x) > 120) continue; bool u = t >= 10; if (u) v = 0; MP e = model::subst(x, v, c); if (!u && op && v2 != v) e = model::subst(e, v2, c2); if (big(e)) continue;
            pick(w, t, [&](auto& r) { typedef ELEM(r) P; typedef typename coefs<P>::type Tc; const P& a = r[j];
                if constexpr (is_u<P>::value) { mpq_class val = e.zero() ? mpq_class(0) : e.t.begin()->second; if (op == 2) { QQ o; bool oom = faulted(at, st, [&] { o = assign<QQ>(a, qq(c)); }); if (!oom && mpq_class(str(o)) != val) sim::fail("WRONG", what + ": value " + str(o) + ", expected " + val.get_str()); } else { Tc o; bool oom = faulted(at, st, [&] { o = assign(a, cof<Tc>(c)); }); if (!oom && mpq_class(str(o)) != val) sim::fail("WRONG", what + ": value " + str(o) + ", expected " + val.get_str()); } }
                else if (op == 2) { std::map<variable, QQ> mp; mp[vars()[v]] = qq(c); if (v2 != v) mp[vars()[v2]] = qq(c2); polynomial_<QQ, typename P::compare_type> o; bool oom = faulted(at, st, [&] { o = assign<QQ>(a, mp); }); if (!oom) expect(w, o, e, t | 1, what); }
                else { P o = w.fresh<P>(); bool oom; if (op == 0) oom = faulted(at, st, [&] { o = assign(a, vars()[v], cof<Tc>(c)); }); else { std::map<variable, Tc> mp; mp[vars()[v]] = cof<Tc>(c); if (v2 != v) mp[vars()[v2]] = cof<Tc>(c2); oom = faulted(at, st, [&] { o = assign(a, mp); }); } MP e2 = op == 0 ? model::subst(x, v, c) : e; if (!oom) { expect(w, o, e2, t, what); Lib b; r[i] = std::move(o); w.m[t][i] = e2; } } }); }
        else if (l.key == "ask") { int t = U(0, NT), j = U(1, 3), v = U(2, 6); const MP& x = w.m[t][j]; pick(w, t, [&](auto& r) { typedef ELEM(r) P; typedef typename coefs<P>::type Tc; const P& a = r[j]; auto bad = [&](const std::string& s) { Host h; sim::fail("WRONG", what + ": " + s); };
            if constexpr (is_u<P>::value) { int64_t d1 = 0, d2 = 0; bool n = false; bool oom = faulted(at, st, [&] { d1 = get_deg(a); d2 = degree(a); n = is_number(a); }); if (!oom && (d1 != (x.zero() ? 0 : model::deg(x, 0)) || d2 != d1 || n != x.constant())) bad("degree or is_number"); }
            else { int64_t d1 = 0, d2 = 0, dv = 0; bool n = false, thrown = false; Tc cst = 0; std::list<std::pair<variable, int64_t>> vs, vs2; P L = w.fresh<P>(); int64_t ld = -1; const Ord& o = w.ord[t / 2];
                std::vector<P> all3; all3.push_back(r[0]); all3.push_back(r[1]); all3.push_back(r[2]);
                bool oom = faulted(at, st, [&] { d1 = degree(a); d2 = get_deg(a); dv = degree(a, vars()[v]); n = is_number(a); vs = get_variables(a); vs2 = get_variables(all3); try { cst = tonum(a); } catch (const std::invalid_argument&) { thrown = true; } ld = leadcoeff(L, a, vars()[v]); });
                if (oom) return; int td = x.zero() ? 0 : model::tdeg(x), mv = x.zero() ? 0 : model::deg(x, v); if (d1 != td || d2 != td) bad("total degree"); if (dv != mv) bad("degree in a variable"); if (n != x.constant() || thrown == n) bad("is_number or tonum"); if (n && mpq_class(str(cst)) != (x.zero() ? mpq_class(0) : x.t.begin()->second)) bad("tonum");
                if (ld != mv) bad("degree reported by leadcoeff"); expect(w, L, mv ? model::coef(x, v, mv) : x, t, what + ": leading coefficient in a variable");
                auto vcheck = [&](const std::list<std::pair<variable, int64_t>>& l, std::vector<const MP*> ms, const char* s) { size_t k = 0; auto it = l.begin(); for (int q : o.rank) { int d = 0; for (auto y : ms) if (!y->zero()) d = std::max(d, model::deg(*y, q)); if (!d) continue; ++k; if (it == l.end() || vindex(it->first) != q || it->second != d) bad(s); ++it; } if (k != l.size()) bad(s); };
                vcheck(vs, {&x}, "the variables and degrees of a polynomial"); vcheck(vs2, {&w.m[t][0], &w.m[t][1], &w.m[t][2]}, "the variables and degrees of several polynomials");
                if (!x.constant()) {} int mvr = -1; for (int q : o.rank) if (model::uses(x, q)) { mvr = q; break; } int lastv = -1; for (int q : o.rank) if (model::uses(x, q)) lastv = q;
                if constexpr (std::is_same<typename P::compare_type, lex>::value || std::is_same<typename P::compare_type, LC>::value || std::is_same<typename P::compare_type, UO>::value) { variable fv; int64_t fd = 0; std::pair<variable, int64_t> lv; P dr = w.fresh<P>(); bool oom2 = faulted(at, st, [&] { fv = get_first_var(a); fd = get_first_deg(a); lv = get_last_var_deg(a); dr = derivative(a); }); if (oom2) return;
                    if (fd != (mvr < 0 ? 0 : model::deg(x, mvr)) || (mvr >= 0 && vindex(fv) != mvr)) bad("first variable or its degree"); if (mvr >= 0 && (vindex(lv.first) != lastv || lv.second != model::deg(x, lastv))) bad("last variable or its degree"); expect(w, dr, mvr < 0 ? MP() : model::deriv(x, mvr), t, what + ": derivative in the main variable");
                    if constexpr (std::is_same<Tc, ZZ>::value) { P lcf = w.fresh<P>(); bool oom3 = faulted(at, st, [&] { lcf = leadcoeff(a); }); if (!oom3) expect(w, lcf, mvr < 0 ? x : model::coef(x, mvr, model::deg(x, mvr)), t, what + ": leading coefficient"); }
                    if constexpr (std::is_same<typename P::compare_type, UO>::value) { int64_t ud = 0; { Lib b; ud = get_up_deg(a); } if (ud != (x.zero() ? 0 : model::deg(x, up))) bad("degree in the prioritised variable"); P O = w.fresh<P>(); int64_t k = 0; bool oom4 = faulted(at, st, [&] { k = leadcoeff(O, a); }); if (!oom4) { if (k != ud) bad("degree reported by leadcoeff"); expect(w, O, ud ? model::coef(x, up, (int)ud) : x, t, what + ": leading coefficient in the prioritised variable"); } } } } }); }
        else if (l.key == "ord3") { int o = U(0, 5); if (o == 0) order_facts(w, 0, &grlex::init, A(1), A(2), A(3), at, st, what); else if (o == 1) order_facts(w, 1, &lex::init, A(1), A(2), A(3), at, st, what); else if (o == 2) order_facts(w, 2, &w.lc, A(1), A(2), A(3), at, st, what); else if (o == 3) order_facts(w, 3, &w.gc, A(1), A(2), A(3), at, st, what); else order_facts(w, 4, &w.uo, A(1), A(2), A(3), at, st, what); sim::count("monomial triples"); }
        else if (l.key == "cmp") { int t = U(0, NT), i = U(1, 3), j = U(2, 3), k = U(3, 3); pick(w, t, [&](auto& r) { typedef ELEM(r) P; const P &a = r[i], &b = r[j], &c = r[k]; int n; bool eq, tr, le; size_t h1, h2; { Lib lb; n = (a > b) + (a == b) + (a < b); eq = a == b; tr = !(a > b && b > c) || a > c; le = (a <= b) == !(a > b) && (a >= b) == !(a < b) && (a != b) == !eq; if constexpr (!is_u<P>::value) { std::hash<P> hs; h1 = hs(a); h2 = hs(b); } else h1 = h2 = 0; }
            if (n != 1 || !tr || !le) sim::fail("ORDER", what + ": comparison of polynomials is not a total order"); if (eq != (w.m[t][i] == w.m[t][j])) sim::fail("WRONG", what + ": equality"); if (eq && h1 != h2) sim::fail("WRONG", what + ": equal polynomials with different hashes"); }); }
        else if (l.key == "times") { int t = U(0, NT), i = U(1, 3), j = U(2, 3), k = U(4, 3); mpq_class q = num(A(3)); if (!(t & 1)) q = mpq_class(q.get_num()); MP e = model::scale(w.m[t][j], q), e2 = model::add(e, w.m[t][k]), e3 = model::mul(e, w.m[t][k]); if (big(e2) || big(e3)) continue;
            pick(w, t, [&](auto& r) { typedef ELEM(r) P; typedef typename coefs<P>::type Tc; P o = w.fresh<P>(), s = w.fresh<P>(), m = w.fresh<P>(); bool oom = faulted(at, st, [&] { o = r[j] * cof<Tc>(q); s = o + r[k]; m = o * r[k]; }); if (!oom) { expect(w, o, e, t, what); expect(w, s, e2, t, what + ": sum"); expect(w, m, e3, t, what + ": product"); Lib b; r[i] = std::move(s); w.m[t][i] = e2; } }); }
        else if (l.key == "der") { int t = U(0, NT), i = U(1, 3), j = U(2, 3); pick(w, t, [&](auto& r) { typedef ELEM(r) P; P o = w.fresh<P>(); int v = is_u<P>::value ? 0 : (i + j) % 6; MP e = model::deriv(w.m[t][j], v); bool oom = faulted(at, st, [&] { if constexpr (is_u<P>::value) o = derivative(r[j]); else o = derivative(r[j], vars()[v]); }); if (!oom) { expect(w, o, e, t, what); Lib b; r[i] = std::move(o); w.m[t][i] = e; } }); }
        else if (l.key == "uop") { int t = 10 + U(0, 2), i = U(1, 3), j = U(2, 3), k = U(3, 3), op = U(4, 7), n = U(5, 5); const MP &x = w.m[t][j], &y = w.m[t][k]; pick(w, t, [&](auto& r) { typedef ELEM(r) P; typedef typename coefs<P>::type Tc; if constexpr (is_u<P>::value) { const P &a = r[j], &b = r[k]; P o; MP e; bool oom = false;
            switch (op) {
            case 0: e = model::add(x, y); oom = faulted(at, st, [&] { o = a + b; }); break; case 1: e = model::sub(x, y); oom = faulted(at, st, [&] { o = a - b; }); break;
            case 2: e = model::mul(x, y); if (big(e)) return; oom = faulted(at, st, [&] { o = a * b; }); break; case 3: e = model::pow(x, n); if (big(e)) return; oom = faulted(at, st, [&] { o = pow(a, n); }); break;
            case 4: { if constexpr (std::is_same<Tc, ZZ>::value) { if (y.zero()) return; e = x; MP pr = model::mul(x, y); if (big(pr)) return; P A2 = upoly<Tc>(model::text(pr)); oom = faulted(at, st, [&] { o = A2 / b; }); break; } else return; }
            case 5: { if constexpr (std::is_same<Tc, ZZ>::value) { if (y.zero()) return; int d = model::deg(y, 0); mpq_class lc = model::coef(y, 0, d).t.begin()->second; if (abs(lc) != 1 || model::deg(x, 0) > 60) return; MP rem = x, quo; while (!rem.zero() && model::deg(rem, 0) >= d) { int D = model::deg(rem, 0); MP f = model::scale(model::var(0, D - d), model::coef(rem, 0, D).t.begin()->second * lc); if (D == d) f = model::cst(model::coef(rem, 0, D).t.begin()->second * lc); quo = model::add(quo, f); rem = model::sub(rem, model::mul(f, y)); if (big(rem) || big(quo)) return; } P q2; oom = faulted(at, st, [&] { polynomial_div(q2, o, a, b); }); e = rem; if (!oom) expect(w, q2, quo, t, what + ": quotient"); break; } else return; }
            default: { if constexpr (std::is_same<Tc, ZZ>::value) { if (y.zero() || model::deg(y, 0) < 1 || model::deg(x, 0) - model::deg(y, 0) > 8) return; int d = model::deg(y, 0); MP lc = model::coef(y, 0, d), rem = x; int k2 = std::max(0, (x.zero() ? 0 : model::deg(x, 0)) - d + 1); while (!rem.zero() && model::deg(rem, 0) >= d) { int D = model::deg(rem, 0); MP f = model::mul(model::coef(rem, 0, D), D == d ? model::cst(1) : model::var(0, D - d)); rem = model::sub(model::mul(rem, lc), model::mul(f, y)); --k2; } rem = model::mul(rem, model::pow(lc, k2)); e = rem; oom = faulted(at, st, [&] { upoly_prem(o, a, b, vars()[n]); }); break; } else return; } }
            if (big(e)) return; if (!oom) { expect(w, o, e, t, what); Lib bb; r[i] = std::move(o); w.m[t][i] = e; } } }); }
        else if (l.key == "zp") { static const uint64_t PR[] = {2, 3, 5, 65537, 4294967291ull, 18446744073709551557ull, 13971694685687283973ull}; uint64_t pr = PR[U(4, 7)]; mpz_class pz(std::to_string(pr)); int j = U(1, 3), i = U(3, 3), tt = U(2, 5); bool u = U(0, 2); const MP& x = w.m[u ? 10 : 0][j]; MP e; for (auto& y : x.t) { mpz_class c = y.second.get_num() % pz; if (c < 0) c += pz; if (c != 0) e.t[y.first] = c; }
            if (u) { upolynomial_ZZ o; bool oom = faulted(at, st, [&] { auto f = polynomial_mod(w.r10[j], pr); poly_convert(f, o); }); if (!oom) { expect(w, o, e, 10, what); Lib b; w.r10[i] = std::move(o); w.m[10][i] = e; } }
            else pick(w, tt * 2, [&](auto& r) { typedef ELEM(r) P; if constexpr (!is_u<P>::value && std::is_same<typename coefs<P>::type, ZZ>::value) { P o = w.fresh<P>(); bool mv = i & 1; bool oom = faulted(at, st, [&] { auto f = polynomial_mod(w.r0[j], pr); if (mv) poly_convert(std::move(f), o); else poly_convert(f, o); }); if (!oom) { expect(w, o, e, tt * 2, what); Lib b; r[i] = std::move(o); w.m[tt * 2][i] = e; } } }); }
        else continue;
        all(w, what); sim::check_heap(what.c_str());
    }
    uint64_t h = 0; for (int t = 0; t < NT; ++t) for (int i = 0; i < 3; ++i) h = sim::mix(h, sim::fnv(model::text(w.m[t][i]))); sim::log("end " + std::to_string(h));
    if (steps > 6 && __builtin_popcountll(kinds) > 1) sim::nontrivial(); if (n_faults) { sim::nontrivial(); sim::count("allocation failures", n_faults); }
    sim::sample(std::to_string(steps) + " steps over " + std::to_string(__builtin_popcountll(kinds)) + " representations");
}
const sim::Scenario sim::scenario = {"C17", gen, exec, 2000000000ull, 60};
