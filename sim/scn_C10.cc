// C10: contracts of the random generators under every draw sequence.
#include "lib.hh"
#include "model.hh"
using namespace lib;
typedef std::vector<std::string> SV;
static std::string N(long long v) { return std::to_string(v); }
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; p.add("draws", {sim::draws_text(sim::draws_gen(r))});
    int n = 1 + (int)r.below(4);
    for (int i = 0; i < n; ++i) {
        long lo, hi; switch (r.below(6)) { case 0: lo = 1; hi = 1; break; case 1: lo = -1; hi = 1; break; case 2: lo = 0; hi = 1 + (long)r.below(3); break; case 3: lo = -(long)r.below(4) - 1; hi = 0; break; case 4: lo = -2147483647 - 1; hi = 2147483647; break; default: lo = r.range(-50, 50); hi = lo + (long)r.below(60); }
        if (r.chance(1, 24)) lo = hi = 0; else if (lo == 0 && hi == 0) hi = 1;
        if (r.chance(1, 8)) std::swap(lo, hi);
        int nv = 1 + (int)r.below(4), deg = (int)r.below(7), len = 1 + (int)r.below(r.chance(1, 4) ? 60 : 8);
        switch (r.below(9)) {
        case 0: { long m = (long)(r.chance(1, 6) ? 1 + r.below(1ull << 40) : 1 + r.below(r.chance(1, 2) ? 6 : 200)); p.add("op", {"select", N(m), N((long)r.below(r.chance(1, 2) ? 5 : 40)), N((long)r.below(2))}); break; }
        case 1: case 2: if (r.chance(1, 5)) { nv = 5 + (int)r.below(16); deg = 4 + (int)r.below(17); } else if (r.chance(1, 8)) { bool wide = r.chance(1, 2); nv = wide ? 16 + (int)r.below(45) : 1 + (int)r.below(6); deg = wide ? 1 + (int)r.below(8) : 20 + (int)r.below(77); } p.add("op", {"poly", N(nv), N(deg), N(len), N(lo), N(hi), N((long)r.below(2))}); break;
        case 3: p.add("op", {"prob", N(nv), N(deg > 5 ? 5 : deg), N((long)r.below(17)), N(lo), N(hi)}); break;
        case 4: p.add("op", {"sample", N((long)r.below(12)), N((long)r.below(14))}); break;
        case 5: p.add("op", {"upoly", N((long)r.below(20)), N(len), N(lo), N(hi)}); break;
        case 6: p.add("op", {"polyqq", N(nv), N(deg), N(len), N(lo), N(hi), N(1 + (long)r.below(r.chance(1, 2) ? 3 : 100)), N((long)r.below(2))}); break;
        case 7: p.add("op", {"graph", N((long)r.below(12)), N((long)r.below(17))}); break;
        default: p.add("op", {"polys", N(nv), N(deg > 3 ? 3 : deg), N((long)r.below(17)), N((long)r.below(17)), N(lo), N(hi)}); break;
        }
    }
    return p;
}
static std::vector<variable> V;
static unsigned __int128 binom(long n, long k) { if (k > n - k) k = n - k; unsigned __int128 r = 1; for (long i = 0; i < k; ++i) { r = r * (n - i) / (i + 1); if (r >> 100) return r; } return r; }
template <class P> void terms(const P& p, const std::vector<variable>& vs, long deg, long lo, long hi, const char* what) {
    std::set<std::vector<long>> seen;
    for (auto& t : p) {
        std::vector<long> e(vs.size(), 0); long d = 0;
        for (auto& ve : t.first) { size_t k = 0; while (k < vs.size() && vs[k].serial() != ve.first.serial()) ++k; if (k == vs.size()) sim::fail("VARS", std::string(what) + " uses a variable that was not given"); if (ve.second <= 0) sim::fail("FORM", std::string(what) + " stores a zero exponent"); e[k] += ve.second; d += ve.second; }
        if (!seen.insert(e).second) sim::fail("DUP", std::string(what) + " has a repeated monomial");
        if (d > deg) sim::fail("DEGREE", std::string(what) + " has a term of degree " + N(d) + " above " + N(deg));
        mpq_class c(str(t.second));
        if (c == 0) sim::fail("ZERO", std::string(what) + " has a zero term");
        if (c < lo || c > hi) sim::fail("RANGE", std::string(what) + " has coefficient " + str(t.second) + " outside [" + N(lo) + "," + N(hi) + "]");
    }
}
template <class P> long tdeg(const P& p) { long m = -1; for (auto& t : p) { long d = 0; for (auto& ve : t.first) d += ve.second; m = std::max(m, d); } return m; }
static void exec(const sim::Plan& p) {
    init_vars(); V.clear();
    for (int i = 0; i < 64; ++i) V.push_back(variable::get_variable("v" + N(i)));
    sim::draws_begin(sim::draws_parse(p.knob("draws", "1")));
    uint64_t calls = 0;
    for (auto& ln : p.lines) {
        if (ln.key != "op" || ln.f.empty()) continue;
        std::string k = ln.f[0]; auto A = [&](size_t i) { return i < ln.f.size() ? (long)sim::toint(ln.f[i]) : 0l; };
        std::string what; for (auto& x : ln.f) what += (what.empty() ? "" : " ") + x;
        sim::set_phase("random generator: " + what); ++calls; sim::count("call " + k);
        auto range = [&](size_t i, long& lo, long& hi) { lo = A(i); hi = A(i + 1); if (lo < -2147483648l || hi > 2147483647l || lo > 2147483647l || hi < -2147483648l) sim::invalid("range"); };
        auto nvdeg = [&](long& nv, long& d, long maxv, long maxd) { nv = A(1); d = A(2); if (nv < 1 || nv > maxv || d < 0 || d > maxd) sim::invalid("size"); };
        sim::set_tick_limit(60000000);
        if (k == "select") {
            long m = A(1), n = A(2); bool nr = A(3) != 0; if (m < 1 || n < 0 || n > 1000 || m > (1l << 41)) sim::invalid("select");
            std::vector<size_t> v; { Lib l; v = random_select((size_t)m, (size_t)n, nr); }
            size_t want = nr ? (size_t)std::min(m, n) : (size_t)n;
            if (v.size() != want) sim::fail("SIZE", what + " returned " + N((long)v.size()) + " values");
            for (size_t i = 0; i < v.size(); ++i) { if (v[i] >= (size_t)m) sim::fail("RANGE", what + " returned " + std::to_string(v[i])); if (i && (nr ? v[i - 1] >= v[i] : v[i - 1] > v[i])) sim::fail("ORDER", what + " returned " + std::to_string(v[i - 1]) + " before " + std::to_string(v[i])); sim::log(std::to_string(v[i])); }
        } else if (k == "poly" || k == "polyqq") {
            long nv, d, lo, hi; nvdeg(nv, d, 64, 96); range(4, lo, hi); long len = A(3); if (len < 0 || len > 500) sim::invalid("len");
            long l0 = std::min(lo, hi), h0 = std::max(lo, hi); std::vector<variable> vs(V.begin(), V.begin() + nv);
            bool add = A(k == "poly" ? 6 : 7) != 0; unsigned __int128 total = binom(nv + d, d);
            if (total > ((unsigned __int128)1 << 57)) sim::invalid("monomial space too large for 64-bit ranks");
            long cap = (unsigned __int128)len > total ? (long)total : len;
            auto common = [&](auto& q) {
                if (lo == 0 && hi == 0) { if (!q.empty()) sim::fail("RANGE", what + " is not zero although only zero coefficients are in range"); return; }
                if (len > 0 && tdeg(q) != d) sim::fail("DEGREE", what + " has degree " + N(tdeg(q)));
                long sz = (long)q.size(); if (sz > cap + (add ? 1 : 0)) sim::fail("TERMS", what + " has " + N(sz) + " terms");
                if (sz < cap) sim::fail("TERMS", what + " has only " + N(sz) + " of " + N(cap) + " distinct terms");
                if (add && len > 0) { bool c = false; for (auto& t : q) if (t.first.empty()) c = true; if (!c) sim::fail("CONST", what + " lacks the requested constant term"); }
            };
            if (k == "poly") { polynomial_ZZ q; { Lib l; q = random_polynomial<ZZ>(vs, (uint64_t)d, (uint64_t)len, {(int)lo, (int)hi}, add); } terms(q, vs, d, l0, h0, what.c_str()); common(q); auto e = wf(q); if (!e.empty()) sim::fail("FORM", what + ": " + e); sim::log(text(q)); }
            else {
                long den = A(6); if (den < 1 || den > 1000000) sim::invalid("den"); polynomial_QQ q; { Lib l; q = random_polynomial_QQ(vs, (uint64_t)d, (uint64_t)len, {(int)lo, (int)hi}, (int)den, add); }
                long mx = std::max(std::labs(l0), std::labs(h0)); terms(q, vs, d, std::min(l0, -0l) < 0 ? -mx : 0, h0 > 0 ? mx : 0, what.c_str()); common(q);
                for (auto& t : q) { mpq_class c(str(t.second)); if (c.get_den() > den) sim::fail("DEN", what + " has denominator " + c.get_den().get_str()); mpz_class n = c.get_num(); bool ok = false; for (mpz_class k2 = 1; k2 * c.get_den() <= den && !ok; ++k2) if (n * k2 >= l0 && n * k2 <= h0) ok = true; if (!ok) sim::fail("RANGE", what + " has coefficient " + c.get_str()); }
                sim::log(text(q));
            }
        } else if (k == "prob" || k == "polys") {
            long nv, d, lo, hi; nvdeg(nv, d, 5, 6); bool ps = k == "polys"; range(ps ? 5 : 4, lo, hi); long l0 = std::min(lo, hi), h0 = std::max(lo, hi); std::vector<variable> vs(V.begin(), V.begin() + nv);
            long pn = A(3); if (pn < 0 || pn > 16) sim::invalid("p");
            if (!ps) {
                polynomial_ZZ q; { Lib l; q = random_polynomial<ZZ>(vs, (uint64_t)d, (double)pn / 16, (int)lo, (int)hi); }
                terms(q, vs, d, l0, h0, what.c_str()); auto e = wf(q); if (!e.empty()) sim::fail("FORM", what + ": " + e);
                if (pn == 0 && !q.empty()) sim::fail("PROB", what + " is not empty");
                if (pn == 16 && (l0 > 0 || h0 < 0) && (unsigned __int128)q.size() != binom(nv + d, d)) sim::fail("PROB", what + " has " + N((long)q.size()) + " terms instead of all");
                sim::log(text(q));
            } else {
                long p2 = A(4); if (p2 < 0 || p2 > 16) sim::invalid("p");
                std::vector<polynomial_ZZ> q; { Lib l; q = random_polynomials<ZZ>(vs, (uint64_t)d, (double)pn / 16, (double)p2 / 16, (int)lo, (int)hi); }
                if ((long)q.size() > nv) sim::fail("SIZE", what + " returned too many polynomials");
                for (auto& x : q) { terms(x, vs, d, l0, h0, what.c_str()); auto e = wf(x); if (!e.empty()) sim::fail("FORM", what + ": " + e); sim::log(text(x)); }
            }
        } else if (k == "sample") {
            long sz = A(1), n = A(2); if (sz < 0 || sz > 200 || n < 0 || n > 1000) sim::invalid("sample"); std::vector<int> l; for (long i = 0; i < sz; ++i) l.push_back((int)(i / 2)); std::vector<int> o; { Lib b; o = RandomSample(l, (uint64_t)n); }
            if ((long)o.size() != std::min(sz, n)) sim::fail("SIZE", what + " returned " + N((long)o.size()) + " elements");
            std::multiset<int> ms(l.begin(), l.end()); for (int x : o) { auto it = ms.find(x); if (it == ms.end()) sim::fail("SAMPLE", what + " returned an element too often or not in the list"); ms.erase(it); sim::log(N(x)); }
        } else if (k == "upoly") {
            long d = A(1), len = A(2), lo, hi; range(3, lo, hi); if (d < 0 || d > 200 || len < 0 || len > 500) sim::invalid("upoly");
            upolynomial_<ZZ> q; { Lib l; q = random_upolynomial<ZZ>((uint64_t)d, (uint64_t)len, {(int)lo, (int)hi}); }
            if (lo == 0 && hi == 0) { if (!q.empty()) sim::fail("RANGE", what + " is not zero although only zero coefficients are in range"); continue; }
            long cap = std::min(len, d + 1); auto e = wf(q); if (!e.empty()) sim::fail("FORM", what + ": " + e);
            if (len > 0 && (q.empty() || q.front().first.deg() != d)) sim::fail("DEGREE", what + " has the wrong degree");
            if ((long)q.size() != cap) sim::fail("TERMS", what + " has " + N((long)q.size()) + " terms"); for (auto& t : q) { mpz_class c(str(t.second)); if (c < std::min(lo, hi) || c > std::max(lo, hi)) sim::fail("RANGE", what + " has coefficient " + c.get_str()); } sim::log(text(q));
        } else if (k == "graph") {
            long n = A(1), pn = A(2); if (n < 0 || n > 24 || pn < 0 || pn > 16) sim::invalid("graph"); std::vector<variable> vs(V.begin(), V.begin() + n); graph<variable> G; { Lib l; G = random_graph<variable>(vs, (double)pn / 16); }
            if ((long)G.size() != n) sim::fail("NODES", what + " has " + N((long)G.size()) + " nodes"); long m = 0;
            for (long i = 0; i < n; ++i) { if (G.node((uint64_t)i) != vs[i] || G.index(vs[i]) != (uint64_t)i) sim::fail("NODES", what + " misplaces a node"); for (auto j : G.adjacency_list()[i]) { if ((long)j >= n) sim::fail("EDGE", what + " has an edge to nowhere"); if ((long)j == i) sim::fail("LOOP", what + " has a loop"); if (!G.adjacency_list()[j].count((uint64_t)i)) sim::fail("SYM", what + " is not symmetric"); ++m; } }
            if (pn == 0 && m) sim::fail("PROB", what + " has edges"); if (pn == 16 && m != n * (n - 1)) sim::fail("PROB", what + " is not complete"); sim::log("graph " + N(m));
        }
    }
    sim::check_heap("after the calls");
    sim::count("generator calls", calls); sim::count("random words", sim::draws_used()); sim::count("adversarial words", sim::draws_adversarial());
    if (sim::draws_adversarial()) sim::nontrivial();
    sim::sample(p.text().substr(0, 400));
}
const sim::Scenario sim::scenario = {"C10", gen, exec, 60000000ull, 30};
