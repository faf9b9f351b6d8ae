// C12: exact values through histories of arithmetic with aliasing and failing steps.
#include "lib.hh"
#include "model.hh"
using namespace lib; using model::MP;
typedef std::vector<std::string> SV;
typedef polynomial_<ZZ, lex> PL; typedef polynomial_<Zp, grlex> PM; typedef upolynomial_<ZZ> PU;
static std::string N(long long v) { return std::to_string(v); }
static const char* const PRIMES[] = {"2", "3", "5", "101", "65521", "2147483647", "4294967291", "2305843009213693951", "9223372036854775783", "18446744073709551557", "9223372036854775837", "13971694685687283973", "5851883612412477421"};
static const char* const EDGE[] = {"0", "1", "-1", "2", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "4294967296", "-4294967296", "3037000500", "-3037000499", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "170141183460469231731687303715884105727", "6", "-10", "1000000007"};

// op|name|dst|a|b|imm|failAt|sticky
static const SV ZOPS = {"zadd", "zsub", "zmul", "zdiv", "zmod", "zaddeq", "zsubeq", "zmuleq", "zdiveq", "zmodeq", "zneg", "zabs", "zgcd", "zlcm", "zpow", "zshl", "zshr", "zaddmul", "zsubmul", "zfdivq", "zfdivqr", "zfdivr", "zinv", "zcopy", "zmove", "zswap", "zint", "zset", "zmpz", "zcmp", "zinfo", "zself", "zprime"};
static const SV QOPS = {"qadd", "qsub", "qmul", "qdiv", "qaddeq", "qsubeq", "qmuleq", "qdiveq", "qneg", "qabs", "qpow", "qmake", "qcopy", "qmove", "qswap", "qcmp", "qint", "qself"};
static const SV NOPS = {"nadd", "nsub", "nmul", "ndiv", "naddeq", "nsubeq", "nmuleq", "ndiveq", "nneg", "npow", "ninv", "nint", "nzz", "nmuli", "ncmp", "ncopy", "naddmul", "nsubmul"};
static const SV POPS = {"add", "sub", "mul", "neg", "pow", "copy", "move", "swap", "self", "scal", "divx", "divr", "der", "sub1", "subm", "addn", "subn", "addm", "subm2", "make", "cmp", "info", "lc", "coeff", "prem", "raw", "norm", "quot"};
static const SV XOPS = {"xPL", "xLP", "xPR", "xRP", "xUP", "xPU", "xPM", "xMP", "xLM"};
static const std::string PT = "PLRUM";
static std::string bigz(sim::Rng& r) { if (r.chance(1, 3)) return EDGE[r.below(sizeof EDGE / sizeof *EDGE)]; if (r.chance(1, 2)) return N(r.range(-20, 20)); mpz_class z = 1; int b = 1 + (int)r.below(r.chance(1, 3) ? 300 : 70); for (int i = 0; i < b; ++i) z = z * 2 + (unsigned long)r.below(2); if (r.chance(1, 2)) z = -z; return z.get_str(); }
static std::string rawpoly(sim::Rng& r, char k) {                 // unsorted, may repeat monomials or have zero terms
    std::string o; int t = (int)r.below(6); int nv = k == 'U' ? 1 : 1 + (int)r.below(4);
    for (int i = 0; i < t; ++i) { std::string c = r.chance(1, 6) ? bigz(r) : N(r.range(-4, 4)); if (k == 'R' && r.chance(1, 2)) { c += "/" + N(1 + (long)r.below(6)); } std::string e; for (int v = 0; v < nv; ++v) e += (v ? "." : "") + N((long)r.below(r.chance(1, 5) ? 9 : 3)); o += (i ? "," : "") + c + "@" + e; if (r.chance(1, 4)) { o += ",";  o += (c[0] == '-' ? c.substr(1) : "-" + c) + "@" + e; ++i; } }
    return o;
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; p.add("primes", {PRIMES[r.below(13)], PRIMES[r.below(13)]});
    int n = 4 + (int)r.below(r.chance(1, 4) ? 60 : 24); int mode = (int)r.below(5); bool faults = r.chance(2, 3);
    for (int i = 0; i < n; ++i) {
        std::string op; int w = mode == 4 ? (int)r.below(4) : mode; char t = 0;
        if (w == 0) op = r.pick(ZOPS); else if (w == 1) op = r.chance(1, 6) ? r.pick(ZOPS) : r.pick(QOPS); else if (w == 2 && r.chance(1, 3)) op = r.pick(NOPS);
        else { if (r.chance(1, 8)) op = r.pick(XOPS); else { t = PT[r.below(5)]; op = std::string(1, t) + r.pick(POPS); if (r.chance(1, 5)) op = std::string(1, t) + (r.chance(1, 2) ? "make" : "raw"); } }
        if (w <= 1 && r.chance(1, 8)) {                           // aimed at the change of representation around +-2^63: X op (small - X), edge op edge
            static const char* const TWO[] = {"zadd", "zsub", "zaddeq", "zsubeq", "zmul", "zdiv", "zmod", "zdiveq", "zmodeq", "zmuleq", "zgcd", "zlcm", "zfdivq", "zfdivr", "zfdivqr", "zaddmul", "zsubmul", "zinv", "zcmp"};
            static const char* const EDGE2[] = {"9223372036854775807", "9223372036854775808", "9223372036854775809", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "-1", "1", "-2", "18446744073709551616", "-18446744073709551616", "4611686018427387904", "-4611686018427387904"};
            mpz_class X(bigz(r)), Y; if (r.chance(1, 2)) { X = mpz_class(EDGE2[r.below(13)]); Y = mpz_class(EDGE2[r.below(13)]); } else { Y = (r.chance(1, 2) ? mpz_class(-X) : X) + (long)r.range(-3, 3); if (r.chance(1, 3)) Y += mpz_class(EDGE2[r.below(13)]); }
            long k = (long)r.below(6), a = (long)r.below(6), b = (a + 1 + (long)r.below(5)) % 6;
            p.add("op", SV{"zset", N(a), "0", "0", X.get_str()}); p.add("op", SV{"zset", N(b), "0", "0", Y.get_str()}); p.add("op", SV{TWO[r.below(sizeof TWO / sizeof *TWO)], N(r.chance(1, 3) ? a : k), N(a), N(b), N((long)r.below(1u << 20))}); continue;
        }
        std::string imm; long k = (long)r.below(6);
        if (op == "zset" || op == "zmpz" || op == "nzz") imm = bigz(r); else if (op == "qmake") imm = bigz(r) + "/" + bigz(r); else if (op == "zint" || op == "qint" || op == "nint" || op == "nmuli") { imm = EDGE[r.below(8)]; if (r.chance(1, 2)) imm = N(r.range(-9, 9)); }
        else if (op == "zshl" || op == "zshr") imm = N((long)r.below(r.chance(1, 2) ? 5 : 140)); else if (op == "zpow" || op == "qpow") imm = N((long)r.below(6)); else if (op == "npow") imm = N((long)r.below(1u << 30));
        else if (t && op.size() > 1 && (op.substr(1) == "make" || op.substr(1) == "raw" || op.substr(1) == "norm")) imm = rawpoly(r, t); else imm = N((long)r.below(1u << 20));
        long a = (long)r.below(6), b = (long)r.below(6); if (r.chance(1, 4)) a = k; if (r.chance(1, 4)) b = k; if (r.chance(1, 8)) b = a;
        SV f{op, N(k), N(a), N(b), imm};
        if (faults && r.chance(1, 3)) { f.push_back(N(1 + (long)r.below(r.chance(1, 2) ? 4 : 30))); f.push_back(N((long)r.chance(1, 3))); }
        p.add("op", f);
    }
    return p;
}
// ---------------------------------------------------------------- register files
static const int NZ = 6, NQ = 4, NN = 4, NP = 4;
struct Regs {
    ZZ Z[NZ]; QQ Q[NQ]; Zp Nn[NN]; polynomial_ZZ P[NP]; PL L[NP]; polynomial_QQ R[NP]; PU U[NP]; PM M[NP];
};
static Regs* G; static mpz_class mZ[NZ]; static mpq_class mQ[NQ]; static mpz_class mN[NN]; static MP mP[5][NP]; static uint64_t pr[2]; static mpz_class prz[2];
static MP modp(const MP& a, const mpz_class& p) { MP r; for (auto& x : a.t) { mpz_class d = x.second.get_den(), di; if (mpz_invert(di.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t()) == 0 && d != 1) sim::invalid("denominator"); mpz_class c = x.second.get_num() * (d == 1 ? mpz_class(1) : di); mpz_fdiv_r(c.get_mpz_t(), c.get_mpz_t(), p.get_mpz_t()); if (c != 0) r.t[x.first] = c; } return r; }
static mpz_class modz(mpz_class a, const mpz_class& p) { mpz_fdiv_r(a.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return a; }
template <class T> T& reg(int i);
template <> polynomial_ZZ& reg(int i) { return G->P[i]; } template <> PL& reg(int i) { return G->L[i]; } template <> polynomial_QQ& reg(int i) { return G->R[i]; } template <> PU& reg(int i) { return G->U[i]; } template <> PM& reg(int i) { return G->M[i]; }
template <class T> constexpr int kind() { return std::is_same<T, polynomial_ZZ>::value ? 0 : std::is_same<T, PL>::value ? 1 : std::is_same<T, polynomial_QQ>::value ? 2 : std::is_same<T, PU>::value ? 3 : 4; }
template <class T> struct coef_of; template <class m, class c, class o> struct coef_of<basic_polynomial<m, c, o>> { typedef c type; };
static uint64_t lp(int i) { return pr[i / 2]; }                   // primes of modular registers: 0,1 first, 2,3 second
template <class T> T from(const std::string& t, int i, bool norm = true) {   // raw terms into the library type
    T p;
    for (auto& tm : sim::split(t, ',')) {
        if (tm.empty()) continue; auto cv = sim::split(tm, '@'); if (cv.empty() || cv[0].empty()) sim::invalid("poly");
        if constexpr (std::is_same<T, PU>::value) { int64_t e = cv.size() > 1 && !cv[1].empty() ? sim::toint(sim::split(cv[1], '.')[0]) : 0; p.push_back({umonomial(e), ZZ(cv[0])}); }
        else {
            typename std::decay<decltype(p.front().first)>::type m;
            if (cv.size() > 1) { auto e = sim::split(cv[1], '.'); for (size_t v = 0; v < e.size() && v < 6; ++v) if (sim::toint(e[v])) m.push_back({vars()[v], (int64_t)sim::toint(e[v])}); }
            m.normalization();
            if constexpr (std::is_same<T, PM>::value) { Zp c(ZZ(cv[0]), lp(i)); p.push_back({std::move(m), c}); }
            else p.push_back({std::move(m), mk<typename coef_of<T>::type>::of(cv[0])});
        }
    }
    if (norm) p.normalization();
    return p;
}
template <class T> bool okp(int i, std::string& why) {
    T& p = reg<T>(i); const MP& m = mP[kind<T>()][i]; std::string f;
    if constexpr (std::is_same<T, PM>::value) { for (auto& t : p) if (t.second.prime() != lp(i)) { why = "coefficient with prime " + std::to_string(t.second.prime()); return false; } for (auto a = p.begin(); a != p.end(); ++a) { if (!a->second) f = "zero coefficient stored"; auto b = a; ++b; if (b != p.end() && !p.comp(a->first, b->first)) f = "terms not strictly decreasing"; } }
    else f = wf(p);
    std::string t = text(p); if (!f.empty()) { why = f + " in " + t; return false; }
    MP v = model::parse(t); if (v != m) { why = "is " + t + " instead of " + model::text(m); return false; }
    return true;
}
static const char* const KN[] = {"polynomial_ZZ", "polynomial_<ZZ,lex>", "polynomial_QQ", "upolynomial_ZZ", "polynomial_<Zp>"};
static std::string g_op;
static void check(int skipk, int skipi, int skip2 = -1) {                        // every register except a failed target
    std::string why; auto bad = [&](const std::string& what, int i) { sim::fail("VALUE", "after \"" + g_op + "\" " + what + " register " + N(i) + " " + why); };
    for (int i = 0; i < NZ; ++i) if (!(skipk == 10 && (skipi == i || skip2 == i))) { std::string s = str(G->Z[i]); if (s != mZ[i].get_str()) { why = "is " + s + " instead of " + mZ[i].get_str(); bad("integer", i); } ZZ f(s); if (!(f == G->Z[i]) || f.hash() != G->Z[i].hash() || f < G->Z[i] || G->Z[i] < f) { why = s + " is not equal to, or hashes differently from, a fresh copy"; bad("integer", i); } }
    for (int i = 0; i < NQ; ++i) if (!(skipk == 11 && skipi == i)) { mpq_class& m = mQ[i]; if (str(G->Q[i].get_num()) != m.get_num().get_str() || str(G->Q[i].get_den()) != m.get_den().get_str()) { why = "is " + str(G->Q[i].get_num()) + "/" + str(G->Q[i].get_den()) + " instead of " + m.get_str(); bad("rational", i); } }
    for (int i = 0; i < NN; ++i) if (!(skipk == 12 && skipi == i)) { if (std::to_string(G->Nn[i].number()) != mN[i].get_str() || G->Nn[i].prime() != lp(i)) { why = "is " + str(G->Nn[i]) + " mod " + std::to_string(G->Nn[i].prime()) + " instead of " + mN[i].get_str() + " mod " + std::to_string(lp(i)); bad("modular", i); } }
    for (int i = 0; i < NP; ++i) {
        if (!(skipk == 0 && skipi == i) && !okp<polynomial_ZZ>(i, why)) bad(KN[0], i); if (!(skipk == 1 && skipi == i) && !okp<PL>(i, why)) bad(KN[1], i);
        if (!(skipk == 2 && skipi == i) && !okp<polynomial_QQ>(i, why)) bad(KN[2], i); if (!(skipk == 3 && skipi == i) && !okp<PU>(i, why)) bad(KN[3], i); if (!(skipk == 4 && skipi == i) && !okp<PM>(i, why)) bad(KN[4], i);
    }
}
static size_t bits(const mpz_class& z) { return z == 0 ? 1 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static size_t bits(const MP& p) { size_t b = 0; for (auto& x : p.t) b = std::max(b, bits(x.second.get_num()) + bits(x.second.get_den())); return b; }
static MP moddiv(const MP&, const MP&);
// ---------------------------------------------------------------- one step
struct Step { std::string op; int k, a, b; std::string imm; long at; bool sticky; };
static uint64_t n_faults = 0, n_throws = 0, n_skip = 0, n_div0 = 0;
// runs body under the planned fault; returns 0 done, 1 bad_alloc, 2 domain/invalid_argument
template <class F> int run(const Step& s, F body) {
    int rc = 0; if (s.at > 0) sim::arm((uint64_t)s.at, s.sticky);
    try { Lib l; body(); } catch (const std::bad_alloc&) { rc = 1; } catch (const std::domain_error&) { rc = 2; } catch (const std::invalid_argument&) { rc = 3; }
    auto f = sim::disarm(); if (f.fired) { ++n_faults; }
    if (rc == 1 && !f.fired) sim::fail("BADALLOC", "\"" + g_op + "\" reported lack of memory although none was injected");
    if (rc == 1) ++n_throws; return rc;
}
static void expect(bool ok, const std::string& what) { if (!ok) sim::fail("RESULT", "\"" + g_op + "\": " + what); }
static bool zstep(const Step& s) {
    int k = s.k % NZ, a = s.a % NZ, b = s.b % NZ; ZZ &K = G->Z[k], &A = G->Z[a], &B = G->Z[b]; mpz_class ma = mZ[a], mb = mZ[b], want = mZ[k]; const std::string& o = s.op; std::string imm = s.imm;
    long im = (long)sim::toint(imm); bool div0 = false; int k2 = -1; mpz_class want2; std::function<void()> f; bool same = false;
    if (o == "zadd") { want = ma + mb; f = [&] { K = A + B; }; } else if (o == "zsub") { want = ma - mb; f = [&] { K = A - B; }; } else if (o == "zmul") { want = ma * mb; f = [&] { K = A * B; }; }
    else if (o == "zaddeq") { want += ma; f = [&] { K += A; }; } else if (o == "zsubeq") { want -= ma; f = [&] { K -= A; }; } else if (o == "zmuleq") { want *= ma; f = [&] { K *= A; }; }
    else if (o == "zdiv" || o == "zmod") { if (mb == 0) div0 = true; else want = o == "zdiv" ? mpz_class(ma / mb) : mpz_class(ma % mb); if (o == "zdiv") f = [&] { K = A / B; }; else f = [&] { K = A % B; }; }
    else if (o == "zdiveq" || o == "zmodeq") { if (ma == 0) div0 = true; else want = o == "zdiveq" ? mpz_class(want / ma) : mpz_class(want % ma); if (o == "zdiveq") f = [&] { K /= A; }; else f = [&] { K %= A; }; }
    else if (o == "zneg") { want = -ma; f = [&] { K = -A; }; } else if (o == "zabs") { want = abs(ma); f = [&] { K = abs(A); }; } else if (o == "zgcd") { want = gcd(ma, mb); f = [&] { K = gcd(A, B); }; } else if (o == "zlcm") { want = lcm(ma, mb); f = [&] { K = lcm(A, B); }; }
    else if (o == "zpow") { if (im < 0 || im > 12) sim::invalid("pow"); mpz_pow_ui(want.get_mpz_t(), ma.get_mpz_t(), (unsigned long)im); f = [&] { K = pow(A, (uint64_t)im); }; }
    else if (o == "zshl") { if (im < 0 || im > 400) sim::invalid("shift"); want = ma << im; if (s.b & 1) f = [&] { K = A << (unsigned long)im; }; else { want = mZ[k] << im; f = [&] { K <<= (unsigned long)im; }; } }
    else if (o == "zshr") { if (im < 0 || im > 400) sim::invalid("shift"); mpz_class x = (s.b & 1) ? ma : mZ[k]; mpz_fdiv_q_2exp(want.get_mpz_t(), x.get_mpz_t(), (unsigned long)im); if (s.b & 1) f = [&] { K = A >> (unsigned long)im; }; else f = [&] { K >>= (unsigned long)im; }; }
    else if (o == "zaddmul") { want += ma * mb; f = [&] { K.addmul(A, B); }; } else if (o == "zsubmul") { want -= ma * mb; f = [&] { K.submul(A, B); }; }
    else if (o == "zfdivq") { if (mb == 0) div0 = true; else mpz_fdiv_q(want.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()); f = [&] { ZZ::fdiv_q(K, A, B); }; }
    else if (o == "zfdivr") { if (mb == 0) div0 = true; else mpz_fdiv_r(want.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()); f = [&] { ZZ::fdiv_r(K, A, B); }; }
    else if (o == "zfdivqr") { k2 = (k + 1) % NZ; if (k2 == a || k2 == b || k == a || k == b) { k2 = -1; if (mb == 0) div0 = true; else mpz_fdiv_q(want.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()); f = [&] { ZZ q, r; ZZ::fdiv_qr(q, r, A, B); K = std::move(q); }; } else { if (mb == 0) div0 = true; else { mpz_fdiv_q(want.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()); mpz_fdiv_r(want2.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()); } f = [&] { ZZ::fdiv_qr(K, G->Z[k2], A, B); }; } }
    else if (o == "zinv") { if (mb == 0 || k == a || k == b) return false; bool inv = mpz_invert(want.get_mpz_t(), ma.get_mpz_t(), mb.get_mpz_t()) != 0; bool got = false; int rc = run(s, [&] { got = ZZ::invert(K, A, B); }); if (rc == 1) { check(10, k); K = B; mZ[k] = mb; return true; } expect(rc == 0 && got == inv, "wrong answer"); if (!inv) { { Lib l; K = 1; } want = 1; } mZ[k] = want; return true; }
    else if (o == "zcopy") { want = ma; f = [&] { K = A; }; } else if (o == "zself") { f = [&] { K = K; K += K; K -= K; K = A; K = K * K; }; want = k == a ? mpz_class(0) : mpz_class(ma * ma); }
    else if (o == "zmove") { if (k == a) return false; want = ma; f = [&] { K = std::move(A); }; k2 = -2; }
    else if (o == "zswap") { want = ma; f = [&] { if (s.b & 1) K.swap(A); else swap(K, A); }; if (k != a) { k2 = a; want2 = mZ[k]; } }
    else if (o == "zint") { static mpz_class v; v = mpz_class(imm); bool fits = v >= mpz_class("-9223372036854775808") && v <= mpz_class("9223372036854775807"), u = v >= 0 && v <= mpz_class("18446744073709551615"); int c = s.b % 6; want = v;
        if (c == 0 && fits) f = [&] { K = (long)v.get_si(); }; else if (c == 1 && u) f = [&] { K = (unsigned long)v.get_ui(); }; else if (c == 2 && v.fits_sint_p()) f = [&] { K = (int)v.get_si(); }; else if (c == 3 && v.fits_uint_p()) f = [&] { K = (unsigned int)v.get_ui(); }; else if (c == 4 && u) f = [&] { K = (unsigned long long)v.get_ui(); }; else if (fits) f = [&] { K = (long long)v.get_si(); }; else f = [&] { K = ZZ((unsigned long)v.get_ui()); }; if (!fits && !u) return false; }
    else if (o == "zset") { want = mpz_class(imm); f = [&] { K = ZZ(imm); }; } else if (o == "zmpz") { mpz_class v(imm); want = v; static mpz_class keep; keep = v; f = [&] { K = ZZ(keep.get_mpz_t()); }; }
    else if (o == "zprime") { if (bits(ma) > 80 || ma < 0) return false; mpz_nextprime(want.get_mpz_t(), ma.get_mpz_t()); f = [&] { K = next_prime(A); }; }
    else if (o == "zcmp" || o == "zinfo") {
        Lib l; same = true; int c = cmp(ma, mb);
        if (o == "zcmp") { expect((A == B) == (c == 0) && (A != B) == (c != 0) && (A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0), "comparison of " + ma.get_str() + " and " + mb.get_str()); }
        else { expect(A.sgn() == sgn(ma) && sgn(A) == sgn(ma) && A.is_zero() == (ma == 0) && (bool)A == (ma != 0) && A.is_one() == (ma == 1) && A.is_odd() == (mpz_odd_p(ma.get_mpz_t()) != 0), "predicates of " + ma.get_str());
            if (ma != 0) { expect(A.sizeinbase(2) == mpz_sizeinbase(ma.get_mpz_t(), 2), "sizeinbase 2 of " + ma.get_str()); mpz_class aa = abs(ma); size_t d = aa.get_str().size(), g = A.sizeinbase(10); expect(g == d || g == d + 1, "sizeinbase 10 of " + ma.get_str()); }
            if (mb != 0) { mpz_class d = abs(mb); if (bits(d) <= 64) expect(A.fdiv_ui(d.get_ui()) == mpz_fdiv_ui(ma.get_mpz_t(), d.get_ui()), "fdiv_ui of " + ma.get_str() + " by " + d.get_str()); }
            if (ma.fits_slong_p()) expect(A.get_si() == ma.get_si(), "get_si"); }
        return true;
    }
    else sim::invalid("op");
    if (bits(want) > 6000) { ++n_skip; return false; }
    int rc = run(s, f);
    if (div0) { if (rc != 2 && rc != 1) sim::fail("DIVZERO", "\"" + g_op + "\": division of " + ma.get_str() + " by zero was not reported"); ++n_div0; }
    else if (rc >= 2) sim::fail("SPURIOUS", "\"" + g_op + "\" threw an arithmetic error");
    if (rc) { check(10, k, k2); if (o == "zmove") sim::fail("MOVE", "moving an integer needed memory"); { Lib l; K = ZZ(B); if (&K == &B) K = 5; if (k2 >= 0) { G->Z[k2] = K; } } mZ[k] = k == b ? mpz_class(5) : mb; if (k2 >= 0) mZ[k2] = mZ[k]; return true; }
    mZ[k] = want; if (k2 >= 0) mZ[k2] = want2; if (o == "zmove") { Lib l; A = 3; mZ[a] = 3; } return true;
}
static bool qstep(const Step& s) {
    int k = s.k % NQ, a = s.a % NQ, b = s.b % NQ; QQ &K = G->Q[k], &A = G->Q[a], &B = G->Q[b]; mpq_class ma = mQ[a], mb = mQ[b], want = mQ[k], want2; const std::string& o = s.op; long im = (long)sim::toint(s.imm); bool div0 = false; int k2 = -1; std::function<void()> f;
    if (o == "qadd") { want = ma + mb; f = [&] { K = A + B; }; } else if (o == "qsub") { want = ma - mb; f = [&] { K = A - B; }; } else if (o == "qmul") { want = ma * mb; f = [&] { K = A * B; }; }
    else if (o == "qdiv") { if (mb == 0) div0 = true; else want = ma / mb; f = [&] { K = A / B; }; }
    else if (o == "qaddeq") { want += ma; f = [&] { K += A; }; } else if (o == "qsubeq") { want -= ma; f = [&] { K -= A; }; } else if (o == "qmuleq") { want *= ma; f = [&] { K *= A; }; }
    else if (o == "qdiveq") { if (ma == 0) div0 = true; else want /= ma; f = [&] { K /= A; }; }
    else if (o == "qneg") { want = -ma; f = [&] { K = -A; }; } else if (o == "qabs") { want = abs(ma); f = [&] { K = abs(A); }; }
    else if (o == "qpow") { if (im < 0 || im > 12) sim::invalid("pow"); mpz_class n, d; mpz_pow_ui(n.get_mpz_t(), ma.get_num().get_mpz_t(), (unsigned long)im); mpz_pow_ui(d.get_mpz_t(), ma.get_den().get_mpz_t(), (unsigned long)im); want = mpq_class(n, d); f = [&] { K = pow(A, (uint64_t)im); }; }
    else if (o == "qmake") { auto v = sim::split(s.imm, '/'); if (v.size() < 2) sim::invalid("q"); static std::string n, d; n = v[0]; d = v[1]; mpz_class mn(n), md(d); if (md == 0) div0 = true; else { want = mpq_class(mn, md); want.canonicalize(); } if (mn.fits_slong_p() && md.fits_slong_p() && (s.b & 1)) { static long long x, y; x = mn.get_si(); y = md.get_si(); f = [&] { K = QQ(x, y); }; } else f = [&] { K = QQ(ZZ(n), ZZ(d)); }; }
    else if (o == "qcopy") { want = ma; f = [&] { K = A; }; } else if (o == "qself") { want = ma; want = want + want; f = [&] { K = K; K = A; K += K; }; }
    else if (o == "qmove") { if (k == a) return false; want = ma; f = [&] { K = std::move(A); }; }
    else if (o == "qswap") { want = ma; f = [&] { if (s.b & 1) K.swap(A); else swap(K, A); }; if (k != a) { k2 = a; want2 = mQ[k]; } }
    else if (o == "qint") { static mpz_class v; v = mpz_class(s.imm); if (!v.fits_slong_p()) { want = v; f = [&] { K = QQ(ZZ(s.imm)); }; } else { want = v; if (s.b & 1) f = [&] { K = (long long)v.get_si(); }; else f = [&] { K = QQ((long)v.get_si()); }; } }
    else if (o == "qcmp") { Lib l; int c = cmp(ma, mb); expect((A == B) == (c == 0) && (A != B) == (c != 0) && (A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0) && sgn(A) == sgn(ma) && A.is_zero() == (ma == 0), "comparison of " + ma.get_str() + " and " + mb.get_str()); if (c == 0) expect(A.hash() == B.hash(), "hash of equal rationals differs"); return true; }
    else sim::invalid("op");
    if (bits(want.get_num()) + bits(want.get_den()) > 6000) { ++n_skip; return false; }
    int rc = run(s, f);
    if (div0) { if (rc != 2 && rc != 1) sim::fail("DIVZERO", "\"" + g_op + "\": division by zero was not reported"); ++n_div0; } else if (rc >= 2) sim::fail("SPURIOUS", "\"" + g_op + "\" threw an arithmetic error");
    if (rc) { check(11, k); if (k == b) { { Lib l; K = QQ(7, 3); } mQ[k] = mpq_class(7, 3); } else { { Lib l; K = B; } mQ[k] = mb; } return true; }
    mQ[k] = want; if (k2 >= 0) mQ[k2] = want2; if (o == "qmove") { Lib l; A = 3; mQ[a] = 3; } return true;
}
static bool nstep(const Step& s) {
    int k = s.k % NN, g = k / 2, a = 2 * g + s.a % 2, b = 2 * g + s.b % 2; const mpz_class& p = prz[g]; Zp &K = G->Nn[k], &A = G->Nn[a], &B = G->Nn[b]; mpz_class ma = mN[a], mb = mN[b], want = mN[k], iv; const std::string& o = s.op; long im = (long)sim::toint(s.imm); std::function<void()> f; bool div0 = false;
    if (o == "nadd") { want = ma + mb; f = [&] { K = A + B; }; } else if (o == "nsub") { want = ma - mb; f = [&] { K = A - B; }; } else if (o == "nmul") { want = ma * mb; f = [&] { K = A * B; }; }
    else if (o == "ndiv") { if (mb == 0) div0 = true; else mpz_invert(iv.get_mpz_t(), mb.get_mpz_t(), p.get_mpz_t()); want = ma * iv; f = [&] { K = A / B; }; }
    else if (o == "naddeq") { want += ma; f = [&] { K += A; }; } else if (o == "nsubeq") { want -= ma; f = [&] { K -= A; }; } else if (o == "nmuleq") { want *= ma; f = [&] { K *= A; }; }
    else if (o == "ndiveq") { if (ma == 0) div0 = true; else mpz_invert(iv.get_mpz_t(), ma.get_mpz_t(), p.get_mpz_t()); want *= iv; f = [&] { K /= A; }; }
    else if (o == "nneg") { want = -ma; f = [&] { K = -A; }; } else if (o == "ninv") { if (ma == 0) div0 = true; else mpz_invert(want.get_mpz_t(), ma.get_mpz_t(), p.get_mpz_t()); f = [&] { K = A.inv(); }; }
    else if (o == "npow") { if (im < 0) return false; mpz_powm_ui(want.get_mpz_t(), ma.get_mpz_t(), (unsigned long)im, p.get_mpz_t()); f = [&] { K = pow(A, (int64_t)im); }; }
    else if (o == "nint") { static mpz_class v; v = mpz_class(s.imm); if (!v.fits_slong_p()) return false; want = v; if (s.b & 1) f = [&] { K = (int64_t)v.get_si(); }; else f = [&] { K = Zp((int64_t)v.get_si(), lp(k)); }; }
    else if (o == "nzz") { want = mpz_class(s.imm); static ZZ z; z = ZZ(s.imm); if (s.b & 1) f = [&] { K = z; }; else f = [&] { K = Zp(z, lp(k)); }; }
    else if (o == "nmuli") { static mpz_class v; v = mpz_class(s.imm); if (!v.fits_slong_p()) return false; want = ma * v; if (s.b & 1) f = [&] { K = A * (int64_t)v.get_si(); }; else f = [&] { K = (int64_t)v.get_si() * A; }; }
    else if (o == "naddmul") { want += ma * mb; f = [&] { addmul(K, A, B); }; } else if (o == "nsubmul") { want -= ma * mb; f = [&] { submul(K, A, B); }; }
    else if (o == "ncopy") { want = ma; f = [&] { K = A; }; }
    else if (o == "ncmp") { Lib l; mpz_class v = ma; expect((A == B) == (ma == mb) && (A != B) == (ma != mb) && (bool)A == (ma != 0), "comparison"); if (mb.fits_slong_p()) { int64_t q = mb.get_si(); expect((A == q) == (ma == mb) && (q == A) == (ma == mb) && (A != q) == (ma != mb), "comparison with an integer"); } return true; }
    else sim::invalid("op");
    int rc = run(s, f); if (div0) { if (rc == 0) sim::fail("DIVZERO", "\"" + g_op + "\": division by zero was not reported"); ++n_div0; want = mN[k]; } else if (rc) sim::fail("SPURIOUS", "\"" + g_op + "\" threw"); mN[k] = modz(want, p); return true;
}
// pseudo-division identity through the model: lc^e * g = q*f + r
static MP pseudo(MP g, const MP& f, int v, bool full) { int df = model::deg(f, v); MP lc = model::coef(f, v, df); int e = std::max(model::deg(g, v) - df + 1, 0); while (!g.zero() && model::deg(g, v) >= df) { int dg = model::deg(g, v); MP c = model::coef(g, v, dg); g = model::sub(model::mul(g, lc), model::mul(model::mul(c, model::var(v, dg - df)), f)); --e; if (df == 0 && dg == 0) break; } if (full) for (; e > 0; --e) g = model::mul(g, lc); return g; }
template <class T> bool pstep(const Step& s) {
    constexpr int KD = kind<T>(); constexpr bool modu = KD == 4, uni = KD == 3; typedef typename coef_of<T>::type C;
    int k = s.k % NP, a = s.a % NP, b = s.b % NP; if (modu) { a = 2 * (k / 2) + a % 2; b = 2 * (k / 2) + b % 2; }
    T &K = reg<T>(k), &A = reg<T>(a), &B = reg<T>(b); MP ma = mP[KD][a], mb = mP[KD][b], want = mP[KD][k], want2; std::string o = s.op.substr(1); long im = (long)sim::toint(s.imm); int k2 = -1; bool div0 = false; std::function<void()> f; auto fin = [&](const MP& m) { return modu ? modp(m, prz[k / 2]) : m; };
    auto big = [&](const MP& m) { return m.t.size() > 120 || bits(m) > 3000 || model::tdeg(m) > 60; };
    auto toobig = [&](const MP& x, const MP& y) { return x.t.size() * y.t.size() > 1500 || bits(x) + bits(y) > 3000 || model::tdeg(x) + model::tdeg(y) > 60; };
    int v = uni ? 0 : (int)(im % 5);
    if (o == "add") { want = model::add(ma, mb); f = [&] { K = A + B; }; } else if (o == "sub") { want = model::sub(ma, mb); f = [&] { K = A - B; }; }
    else if (o == "mul") { if (toobig(ma, mb)) return false; want = model::mul(ma, mb); f = [&] { K = A * B; }; }
    else if (o == "neg") { want = model::neg(ma); f = [&] { K = -A; }; }
    else if (o == "pow") { unsigned e = (unsigned)(im % 5); if (modu && ma.zero() && e == 0) return false; if (ma.t.size() > 6 || model::tdeg(ma) > 10 || bits(ma) > 300) return false; want = model::pow(ma, e); f = [&] { K = pow(A, (int64_t)e); }; }
    else if (o == "copy") { want = ma; f = [&] { K = A; }; } else if (o == "self") { if (toobig(ma, ma)) return false; want = model::mul(ma, ma); f = [&] { K = A; K = K; K = K + K; K = K - K; K = A; K = K * K; }; if (a == k) { want = model::sub(ma, ma); f = [&] { K = K + K; K = K - K; }; } }
    else if (o == "move") { if (k == a) return false; want = ma; f = [&] { K = std::move(A); }; }
    else if (o == "swap") { want = ma; f = [&] { K.swap(A); }; if (k != a) { k2 = a; want2 = mP[KD][k]; } }
    else if (o == "scal") { long c = im % 7 - 3; want = model::scale(ma, mpq_class(c)); static C cc; if constexpr (modu) cc = Zp((int64_t)c, lp(k)); else cc = C(c); f = [&] { K = A * cc; }; }
    else if (o == "divx" || o == "quot") { if (mb.zero()) { if (o == "quot") { div0 = true; f = [&] { K = A / B; }; } else return false; } else { if (toobig(ma, mb)) return false; MP pq = fin(model::mul(ma, mb)); static T prod; prod = from<T>(model::text(pq), k); want = ma; if (o == "divx") f = [&] { K = prod / B; }; else f = [&] { T q(prod.comp_ptr()); polynomial_div(q, prod, B); K = std::move(q); }; } }
    else if (o == "divr") {                                        // division with remainder
        if (mb.zero()) { div0 = true; f = [&] { T q(A.comp_ptr()), r(A.comp_ptr()); if constexpr (KD == 2 || modu) polynomial_div(q, A, B); else polynomial_div(q, r, A, B); K = std::move(q); }; }
        else if constexpr (KD == 2 || modu) return false; else { if (toobig(ma, mb) || ma.t.size() > 12 || mb.t.size() > 8 || model::tdeg(ma) > 12) return false; T q(A.comp_ptr()), r(A.comp_ptr()); int rc = run(s, [&] { polynomial_div(q, r, A, B); }); if (rc > 1) sim::fail("SPURIOUS", "\"" + g_op + "\" threw"); if (rc) { check(-1, -1); return true; }
            std::string fq, fr; if constexpr (!modu) { fq = wf(q); fr = wf(r); } if (!fq.empty() || !fr.empty()) sim::fail("FORM", "\"" + g_op + "\" quotient or remainder not canonical: " + fq + fr + " in " + text(q) + " ; " + text(r));
            MP Q = model::parse(text(q)), R = model::parse(text(r)); if (fin(model::add(model::mul(Q, mb), R)) != ma) sim::fail("DIVREM", "\"" + g_op + "\": " + model::text(ma) + " divided by " + model::text(mb) + " gave quotient " + model::text(Q) + " and remainder " + model::text(R));
            if constexpr (KD == 2 || modu) for (auto& t : r) { typename std::decay<decltype(t.first)>::type m1; if (is_divexact(m1, t.first, B.front().first)) sim::fail("DIVREM", "\"" + g_op + "\" left a remainder term divisible by the leading term"); }
            Lib l; K = std::move(q); want = Q; mP[KD][k] = want; return true; } }
    else if (o == "der") { want = model::deriv(ma, v); if constexpr (uni) f = [&] { K = derivative(A); }; else if constexpr (KD == 1) { if (im % 2 && !A.empty() && !A.front().first.empty()) { want = model::deriv(ma, vindex(get_first_var(A))); f = [&] { K = derivative(A); }; } else f = [&] { K = derivative(A, vars()[v]); }; } else f = [&] { K = derivative(A, vars()[v]); }; }
    else if (o == "sub1" || o == "subm") {
        if (model::tdeg(ma) > 20 || bits(ma) > 600) return false; long c = (im / 8) % 7 - 3, c2 = (im / 64) % 5 - 2; static C cc, cd; if constexpr (modu) { cc = Zp((int64_t)c, lp(k)); cd = Zp((int64_t)c2, lp(k)); } else { cc = C(c); cd = C(c2); }
        if constexpr (uni) { if (k != a) return false; mpz_class w = 0; for (auto& t : ma.t) { mpz_class pw; mpz_class mc(c); mpz_pow_ui(pw.get_mpz_t(), mc.get_mpz_t(), (unsigned long)t.first[0]); w += t.second.get_num() * pw; } ZZ got; int rc = run(s, [&] { got = assign(A, ZZ(c)); }); if (rc == 0) expect(str(got) == w.get_str(), "evaluation gave " + str(got) + " instead of " + w.get_str()); return true; }
        else if (o == "sub1") { want = model::subst(ma, v, mpq_class(c)); f = [&] { K = assign(A, vars()[v], cc); }; }
        else { int v2 = (v + 1 + (int)(im / 1024) % 4) % 5; want = model::subst(model::subst(ma, v, mpq_class(c)), v2, mpq_class(c2)); static std::map<variable, C> mm; mm.clear(); mm[vars()[v]] = cc; mm[vars()[v2]] = cd; f = [&] { K = assign(A, mm); }; } }
    else if (o == "addn" || o == "subn" || o == "addm" || o == "subm2") {
        if constexpr (KD == 0 || KD == 2) { long c = im % 9 - 4; static C cc; cc = C(c); monomial m; if (im & 64) m.push_back({vars()[v], (int64_t)(1 + im / 512 % 3)}); if (im & 128) m.push_back({vars()[(v + 1) % 5], 1}); m.normalization(); MP mm; { model::Mono e{}; for (auto& x : m) e[vindex(x.first)] = (int)x.second; mm.t[e] = 1; }
            if (o == "addn") { want = model::add(ma, model::cst(c)); if (im & 32) f = [&] { K = A + cc; }; else if (im & 16) f = [&] { K = cc + A; }; else if (im & 8) f = [&] { K = A + (int64_t)c; }; else f = [&] { K = (int64_t)c + A; }; }
            else if (o == "subn") { want = model::sub(ma, model::cst(c)); if (im & 32) f = [&] { K = A - cc; }; else if (im & 16) { want = model::neg(want); f = [&] { K = cc - A; }; } else if (im & 8) f = [&] { K = A - (int64_t)c; }; else { want = model::neg(want); f = [&] { K = (int64_t)c - A; }; } }
            else if (o == "addm") { want = model::add(ma, mm); if (im & 32) f = [&] { K = A + m; }; else f = [&] { K = m + A; }; } else { want = model::sub(ma, mm); if (im & 32) f = [&] { K = A - m; }; else { want = model::neg(want); f = [&] { K = m - A; }; } }
            if (big(want)) return false; int rc = run(s, f); if (rc > 1) sim::fail("SPURIOUS", "threw"); if (rc) { check(KD, k); if (k == a) { Lib l; K = T(); mP[KD][k] = MP(); } else { Lib l; K = A; mP[KD][k] = ma; } return true; } mP[KD][k] = want; return true;
        } else return false; }
    else if (o == "make") { MP m; for (auto& t : sim::split(s.imm, ',')) if (!t.empty()) m = model::add(m, model::parse(t)); want = m; static T src; src = from<T>(s.imm, k, false); f = [&] { K = T(src.data()); }; }
    else if (o == "raw" || o == "norm") { MP m; for (auto& t : sim::split(s.imm, ',')) if (!t.empty()) m = model::add(m, model::parse(t)); want = m; static T src; src = from<T>(s.imm, k, false); f = [&] { T t(src); t.normalization(); K = std::move(t); }; }
    else if (o == "cmp") { Lib l; bool e = A == B; expect(e == (ma == mb) && (A != B) == (ma != mb), "equality of " + model::text(ma) + " and " + model::text(mb)); if constexpr (!modu) { bool lt = A < B, gt = A > B; expect((int)lt + (int)gt + (int)e == 1 && (A <= B) == (lt || e) && (A >= B) == (gt || e), "order relations of " + model::text(ma) + " and " + model::text(mb) + " are inconsistent"); } if constexpr (!modu && !uni) { if (e) { std::hash<T> h; expect(h(A) == h(B), "hash of equal polynomials differs"); } } return true; }
    else if (o == "info") {
        Lib l; long td = ma.zero() ? 0 : model::tdeg(ma); expect(A.degree() == td, "degree"); expect(A.is_normal(), "is_normal() is false for " + model::text(ma)); if constexpr (!modu) expect(A.str() == from<T>(model::text(ma), k).str(), "printed form");
        expect(is_number(A) == ma.constant(), "is_number");
        if constexpr (!uni) { for (int w = 0; w < 6; ++w) expect(degree(A, vars()[w]) == (ma.zero() ? 0 : std::max(0, model::deg(ma, w))), "degree in a variable"); std::set<int> vs; for (auto& x : A.variables()) { int w = vindex(x.first); expect(w >= 0 && vs.insert(w).second && x.second == model::deg(ma, w), "variables()"); } for (int w = 0; w < 6; ++w) expect((vs.count(w) != 0) == model::uses(ma, w), "variables()"); }
        return true; }
    else if (o == "lc" || o == "coeff") { if constexpr (uni || modu) return false; else { int d = std::max(0, model::deg(ma, v)); if (ma.zero()) return false; if (o == "lc") { want = model::coef(ma, v, d); f = [&] { K = leadcoeff(A, vars()[v]); }; } else { std::vector<T> cs; int rc = run(s, [&] { cs = coeff(A, vars()[v]); }); if (rc > 1) sim::fail("SPURIOUS", "threw"); if (rc) { check(-1, -1); return true; } expect((int)cs.size() == d + 1, "number of coefficients"); for (int i = 0; i <= d; ++i) { auto e = wf(cs[i]); if (!e.empty() || model::parse(text(cs[i])) != model::coef(ma, v, i)) sim::fail("RESULT", "\"" + g_op + "\": coefficient " + N(i) + " of " + model::text(ma) + " is " + text(cs[i]) + " " + e); } return true; } } }
    else if (o == "prem") { if constexpr (uni || modu) return false; else { if (mb.zero()) { div0 = true; f = [&] { K = prem(A, B, vars()[v]); }; } else { if (ma.t.size() > 8 || mb.t.size() > 5 || model::tdeg(ma) > 7 || model::tdeg(mb) > 5 || bits(ma) > 200 || bits(mb) > 200) return false;
            int dg = std::max(0, model::deg(ma, v)), df = std::max(0, model::deg(mb, v)); MP rem = pseudo(ma, mb, v, true); if (df == 0) rem = MP();
            if (im & 256) { T q(A.comp_ptr()), r(A.comp_ptr()); int rc = run(s, [&] { q = pquo(r, A, B, vars()[v]); }); if (rc > 1) sim::fail("SPURIOUS", "threw"); if (rc) { check(-1, -1); return true; } auto e = wf(q) + wf(r); MP Q = model::parse(text(q)), R = model::parse(text(r)), lc = model::coef(mb, v, df), lhs = ma; for (int i = 0; i < std::max(0, dg - df + 1); ++i) lhs = model::mul(lhs, lc); if (!e.empty() || R != rem || model::add(model::mul(Q, mb), R) != lhs) sim::fail("PREM", "\"" + g_op + "\": pquo of " + model::text(ma) + " by " + model::text(mb) + " gave " + text(q) + " ; " + text(r) + " " + e); return true; }
            want = rem; f = [&] { K = prem(A, B, vars()[v]); }; } } }
    else sim::invalid("op");
    want = fin(want); want2 = k2 >= 0 && modu && k2 / 2 != k / 2 ? MP() : want2; if (modu && (o == "copy" || o == "move" || o == "swap") && a / 2 != k / 2) return false;
    if (big(want)) { ++n_skip; return false; }
    int rc = run(s, f);
    if (div0) { if (rc == 0) sim::fail("DIVZERO", "\"" + g_op + "\": division by the zero polynomial was not reported"); ++n_div0; } else if (rc >= 2) sim::fail("SPURIOUS", "\"" + g_op + "\" threw an arithmetic error");
    if (rc) { check(KD, k); if (k == b || k == a) { { Lib l; K = from<T>("", k); } mP[KD][k] = MP(); } else { { Lib l; K = B; } mP[KD][k] = mb; } return true; }
    mP[KD][k] = want; if (k2 >= 0) mP[KD][k2] = want2; if (o == "move") { { Lib l; A = from<T>("", a); } mP[KD][a] = MP(); } return true;
}
static bool xstep(const Step& s) {                                // conversions between representations
    int k = s.k % NP, a = s.a % NP; const std::string& o = s.op; MP want; int kd; std::function<void()> f;
    if (o == "xPL") { kd = 1; want = mP[0][a]; f = [&] { poly_convert(G->P[a], G->L[k]); }; } else if (o == "xLP") { kd = 0; want = mP[1][a]; f = [&] { poly_convert(G->L[a], G->P[k]); }; }
    else if (o == "xPR") { kd = 2; want = mP[0][a]; f = [&] { poly_convert(G->P[a], G->R[k]); }; }
    else if (o == "xRP") { kd = 0; mpz_class d = 1; for (auto& x : mP[2][a].t) d = lcm(d, x.second.get_den()); want = model::scale(mP[2][a], mpq_class(d)); f = [&] { poly_convert(G->R[a], G->P[k]); }; }
    else if (o == "xUP") { kd = 0; want = mP[3][a]; f = [&] { poly_convert(G->U[a], G->P[k], vars()[0]); }; }
    else if (o == "xPU") { kd = 3; for (auto& x : mP[0][a].t) for (int v = 1; v < 6; ++v) if (x.first[v]) return false; want = mP[0][a]; f = [&] { poly_convert(G->P[a], G->U[k]); }; }
    else if (o == "xPM") { kd = 4; want = modp(mP[0][a], prz[k / 2]); f = [&] { G->M[k] = polynomial_mod(G->P[a], lp(k)); }; }
    else if (o == "xMP") { kd = 0; want = mP[4][a]; for (auto& x : want.t) if (!mpz_fits_slong_p(x.second.get_num().get_mpz_t())) ; f = [&] { poly_convert(G->M[a], G->P[k]); }; }
    else { kd = 4; want = modp(mP[0][a], prz[k / 2]); f = [&] { polynomial_ZZ t(G->P[a]); G->M[k] = polynomial_mod(std::move(t), lp(k)); }; }
    int rc = run(s, f); if (rc >= 2) sim::fail("SPURIOUS", "\"" + g_op + "\" threw"); if (rc) { check(kd, k); Lib l; switch (kd) { case 0: G->P[k] = polynomial_ZZ(); break; case 1: G->L[k] = PL(); break; case 2: G->R[k] = polynomial_QQ(); break; case 3: G->U[k] = PU(); break; default: G->M[k] = PM(); } mP[kd][k] = MP(); return true; }
    mP[kd][k] = want; return true;
}
static void exec(const sim::Plan& p) {
    init_vars(); auto* pl = p.find("primes"); for (int i = 0; i < 2; ++i) { prz[i] = mpz_class(pl && (int)pl->f.size() > i ? pl->f[i] : "101"); if (prz[i] < 2 || bits(prz[i]) > 64 || !mpz_probab_prime_p(prz[i].get_mpz_t(), 20)) sim::invalid("prime"); pr[i] = prz[i].get_ui(); }
    { Lib l; G = new Regs(); } for (int i = 0; i < NN; ++i) { G->Nn[i] = Zp((uint64_t)0, lp(i)); }
    uint64_t done = 0;
    for (auto& ln : p.lines) {
        if (ln.key != "op" || ln.f.size() < 4) continue; Step s{ln.f[0], 0, 0, 0, ln.f.size() > 4 ? ln.f[4] : "0", ln.f.size() > 5 ? (long)sim::toint(ln.f[5]) : 0, ln.f.size() > 6 && ln.f[6] == "1"};
        s.k = (int)sim::toint(ln.f[1]); s.a = (int)sim::toint(ln.f[2]); s.b = (int)sim::toint(ln.f[3]); if (s.k < 0 || s.a < 0 || s.b < 0 || s.op.empty()) sim::invalid("op");
        g_op.clear(); for (auto& x : ln.f) g_op += (g_op.empty() ? "" : " ") + x; sim::set_phase("step " + g_op); sim::set_tick_limit(30000000);
        bool did; switch (s.op[0]) { case 'z': did = zstep(s); break; case 'q': did = qstep(s); break; case 'n': did = nstep(s); break; case 'x': did = xstep(s); break; case 'P': did = pstep<polynomial_ZZ>(s); break; case 'L': did = pstep<PL>(s); break; case 'R': did = pstep<polynomial_QQ>(s); break; case 'U': did = pstep<PU>(s); break; case 'M': did = pstep<PM>(s); break; default: sim::invalid("op"); }
        if (did) { ++done; check(-1, -1); }
    }
    { std::string all; for (auto& z : G->Z) all += str(z) + " "; for (auto& z : G->P) all += text(z) + " "; sim::log(all); Lib l; delete G; }
    sim::check_heap("at the end"); sim::count("steps", done); sim::count("injected allocation failures", n_faults); sim::count("steps ended by bad_alloc", n_throws); sim::count("divisions by zero", n_div0); sim::count("steps skipped for size", n_skip);
    if (done >= 3) sim::nontrivial(); sim::sample(p.text().substr(0, 400));
}
const sim::Scenario sim::scenario = {"C12", gen, exec, 60000000ull, 30};
