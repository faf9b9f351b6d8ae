#pragma once
#include "ops.hh"
#include "lib.hh"
namespace ops {
using namespace lib;
using model::MP; using sim::Rng;
// ---- text of any result, representation included
inline std::string show(bool b) { return b ? "yes" : "no"; }
inline std::string show(int x) { return std::to_string(x); }
inline std::string show(long x) { return std::to_string(x); }
inline std::string show(unsigned long x) { return std::to_string(x); }
inline std::string show(double x) { return std::to_string(x); }
inline std::string show(const std::string& s) { return "'" + s + "'"; }
inline std::string show(const ZZ& z) { return str(z); }
inline std::string show(const QQ& q) { return str(q.get_num()) + "/" + str(q.get_den()); }
inline std::string show(const Zp& z) { return str(z) + "%" + std::to_string(z.prime()); }
inline std::string show(const variable& v) { return v.name(); }
template <class Tm, class Tc, class comp> std::string show(const basic_polynomial<Tm, Tc, comp>& p) { std::string o = "["; for (auto& t : p) { o += show(t.second); o += "@"; o += text(t.first); o += ","; } return o + "]"; }
inline std::string show(const uroot& r) { if (r.isinf()) return "inf"; if (r.isneginf()) return "-inf"; return "root{" + show(r.poly()) + ":" + show(r.left()) + "," + show(r.right()) + "}"; }
template <class T> std::string show(const graph<T>& g);
template <class T> std::string show(const std::vector<T>& v);
template <class T> std::string show(const std::list<T>& v);
template <class T> std::string show(const std::set<T>& v);
template <class A, class B> std::string show(const std::pair<A, B>& p);
template <class P> std::string show(const factorization<P>& f);
template <class T> std::string show(const std::vector<T>& v) { std::string o = "("; for (const auto& x : v) { o += show(x); o += ";"; } return o + ")"; }
template <class T> std::string show(const std::list<T>& v) { std::string o = "("; for (auto& x : v) { o += show(x); o += ";"; } return o + ")"; }
template <class T> std::string show(const std::set<T>& v) { std::string o = "("; for (auto& x : v) { o += show(x); o += ";"; } return o + ")"; }
template <class A, class B> std::string show(const std::pair<A, B>& p) { return "<" + show(p.first) + "," + show(p.second) + ">"; }
template <class P> std::string show(const factorization<P>& f) { return "content " + show(f.content) + " factors " + show(f.factors); }
template <class T> std::string show(const graph<T>& g) { return show(g.nodes()) + show(g.adjacency_list()); }

template <class A, class R, class F> struct Fn : Call {
    A a; F f; std::unique_ptr<R> r;
    Fn(A x, F g) : a(std::move(x)), f(g) {}
    void run() override { const A& c = a; Lib l; R t = f(c); Host h; r.reset(); { Lib l2; r.reset(new R(std::move(t))); } }
    std::string result() override { Host h; return r ? show(*r) : "none"; }
    std::string args() override { Host h; return show(a); }
    void clear() override { Lib l; r.reset(); }
};
template <class A, class F> std::unique_ptr<Call> fn(A a, F f) { typedef decltype(f((const A&)a)) R; return std::unique_ptr<Call>(new Fn<A, R, F>(std::move(a), f)); }
template <class A, class B> std::pair<A, B> two(A a, B b) { return std::pair<A, B>(std::move(a), std::move(b)); }

// ---- argument generators
inline std::string num(Rng& r) { switch (r.below(6)) { case 0: return std::to_string(r.range(-9, 9)); case 1: return std::to_string(r.range(-1000000007, 1000000007)); case 2: return std::to_string((int64_t)r.next()); case 3: return r.chance(1, 2) ? "9223372036854775807" : "-9223372036854775808"; default: return mpz_class(gens::bigint(r, 64 + (int)r.below(300))).get_str(); } }
inline std::string nz(Rng& r) { std::string s = num(r); return s == "0" ? "7" : s; }
inline MP anyp(Rng& r, int nv, int d, int t) { MP p = gens::rp(r, nv, d, t, r.chance(1, 2) ? 9 : 1000000007); if (r.chance(1, 4)) p = gens::big_coeffs(r, p, 40 + (int)r.below(120)); return p; }
inline std::string T(const MP& p) { return model::text(p); }
}
#define MAKE , [](const ops::SV& a) -> std::unique_ptr<ops::Call>
#define OP(NAME, W, RND, ...) static ops::Reg reg_##NAME(ops::Op{#NAME, W, RND, [](sim::Rng & r) -> ops::SV __VA_ARGS__});
