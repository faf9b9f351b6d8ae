// C05: number streams under chunking, end of input, stream failures.
#include "lib.hh"
#include "model.hh"
#include <streambuf>
using namespace lib;
using model::MP;

// content delivered in planned chunks; at `stop` bytes the source ends or breaks
struct InBuf : std::streambuf {
    std::string data; std::vector<int> chunks; size_t pos = 0, ci = 0; long stop; bool broken; std::vector<char> buf; uint64_t refills = 0; bool threw = false, ended = false;
    InBuf(std::string d, std::vector<int> c, long s, bool b) : data(std::move(d)), chunks(std::move(c)), stop(s), broken(b) {}
    int_type underflow() override {
        Host h;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t limit = stop >= 0 && (size_t)stop < data.size() ? (size_t)stop : data.size();
        if (pos >= limit) {
            ended = true;
            if (broken && stop >= 0) { threw = true; throw std::runtime_error("simulated device error"); }
            return traits_type::eof();
        }
        size_t n = chunks.empty() ? limit : (size_t)std::max(1, chunks[ci++ % chunks.size()]);
        n = std::min(n, limit - pos); ++refills;
        buf.assign(data.begin() + pos, data.begin() + pos + n); pos += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};
// accepts `cap` bytes, then fails (short write, then eof or exception)
struct OutBuf : std::streambuf {
    std::string got; long cap; bool throws; uint64_t rejected = 0;
    OutBuf(long c, bool t) : cap(c), throws(t) {}
    bool full() const { return cap >= 0 && (long)got.size() >= cap; }
    int_type overflow(int_type c) override { Host h; if (full()) { ++rejected; if (throws) throw std::runtime_error("simulated device error"); return traits_type::eof(); } got += (char)c; return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        Host h; std::streamsize k = n; if (cap >= 0) k = std::min<std::streamsize>(n, std::max(0l, cap - (long)got.size()));
        got.append(s, (size_t)k); if (k < n) { ++rejected; if (throws) throw std::runtime_error("simulated device error"); } return k;
    }
};
static bool isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool parse_int(const std::string& t, mpz_class& z) {
    size_t i = 0; if (i < t.size() && t[i] == '-') ++i;
    if (i >= t.size()) return false;
    for (size_t j = i; j < t.size(); ++j) if (t[j] < '0' || t[j] > '9') return false;
    z = mpz_class(t, 10); return true;
}
// 1 valid, 0 malformed, 2 not decided by the documented grammar (either outcome is accepted)
static int parse_q(const std::string& t, bool rational, mpq_class& q) {
    mpz_class a, b;
    if (t.find('+') != std::string::npos) return 2;
    if (!rational) { if (!parse_int(t, a)) return 0; q = a; return 1; }
    size_t s = t.find('/');
    if (s == std::string::npos) { if (!parse_int(t, a)) return 0; q = a; return 1; }
    if (!parse_int(t.substr(0, s), a) || !parse_int(t.substr(s + 1), b)) return 0;
    if (b == 0) return 0;
    q = mpq_class(a, b); q.canonicalize(); return 1;
}
static std::string num_token(sim::Rng& r, bool rat) {
    auto I = [&](bool nz) { std::string s; switch (r.below(6)) { case 0: s = std::to_string(r.range(-9, 9)); break; case 1: s = std::to_string(r.range(-1000000, 1000000)); break; case 2: s = r.chance(1, 2) ? "9223372036854775807" : "-9223372036854775808"; break; case 3: s = r.chance(1, 2) ? "9223372036854775808" : "-9223372036854775809"; break; case 4: { s = r.chance(1, 2) ? "-" : ""; int n = 19 + (int)r.below(60); s += (char)('1' + r.below(9)); while (n--) s += (char)('0' + r.below(10)); break; } default: s = std::to_string((int64_t)r.next()); }
        if (nz && mpz_class(s) == 0) s = "7"; return s; };
    std::string s = I(false);
    if (rat && r.chance(2, 3)) s += "/" + I(true);
    return s;
}
static std::string bad_token(sim::Rng& r) {
    static const char* B[] = {"abc", "12x", "3/", "/4", "1/0", "0/0", "-", "--3", "5/2/3", "1e5", "0x10", "1.5", "3/-", "-/3", "7/x", "12345678901234567890123/0", "99999999999999999999999y", "1/00", "2//3", "?", "4/5z", "12345678901234567890/abc", "-0/0", "a/b"};
    std::string s = B[r.below(sizeof B / sizeof *B)];
    if (r.chance(1, 4)) s += num_token(r, false);
    return s;
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p; bool rat = r.chance(2, 3);
    if (r.chance(1, 4)) {                                   // output / round trip
        p.add("mode", {r.chance(1, 2) ? "polyout" : "out"}); p.add("type", {rat ? "QQ" : "ZZ"});
        std::string s; int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) { if (i) s += ' '; s += num_token(r, rat); }
        p.add("content", {sim::hexenc(s)});
        for (const char* k : {"poly", "poly2"}) p.add(k, {model::text(model::random_poly(r, 1 + (int)r.below(4), 3, (int)r.below(6), r.chance(1, 3) ? 1 : r.chance(1, 2) ? 20 : INT64_C(4000000000000000000)))});
        p.add("what", {std::to_string(r.below(12))}); p.add("term", {std::to_string(r.below(12))}); p.add("prime", {std::to_string(r.below(4))});
        p.add("cap", {std::to_string(r.chance(1, 4) ? -1 : (long)r.below(60))}); p.add("throws", {r.chance(1, 3) ? "1" : "0"}); p.add("mask", {std::to_string(r.chance(1, 2) ? 0 : r.below(8))});
        return p;
    }
    p.add("mode", {"in"}); p.add("type", {rat ? "QQ" : "ZZ"});
    std::string s; int n = 1 + (int)r.below(5); static const char* WS[] = {" ", "\n", "\t", "  ", " \r\n", ""};
    if (r.chance(1, 4)) s += WS[r.below(5)];
    bool bads = r.chance(1, 2);
    for (int i = 0; i < n; ++i) { s += bads && r.chance(1, 3) ? bad_token(r) : num_token(r, rat); if (i + 1 < n || r.chance(1, 2)) s += WS[r.below(5)]; }
    if (r.chance(1, 10)) { size_t k = r.below(s.size() + 1); s.insert(k, 1, (char)r.below(256)); }
    if (r.chance(1, 12)) s.clear();
    p.add("content", {sim::hexenc(s)});
    std::string c; int nc = (int)r.below(5); for (int i = 0; i < nc; ++i) { if (i) c += ','; c += std::to_string(1 + r.below(r.chance(1, 2) ? 3 : 20)); }
    p.add("chunks", {c});
    p.add("stop", {std::to_string(r.chance(1, 2) ? -1 : (long)r.below(s.size() + 1))}); p.add("broken", {r.chance(2, 3) ? "1" : "0"});
    p.add("mask", {std::to_string(r.chance(1, 2) ? 0 : r.below(8))}); p.add("reads", {std::to_string(1 + r.below(7))});
    p.add("reset", {r.chance(1, 2) ? "1" : "0"});
    return p;
}
static std::ios_base::iostate mask_of(long m) { if (m < 0 || m > 7) sim::invalid("mask"); std::ios_base::iostate s = std::ios_base::goodbit; if (m & 1) s |= std::ios_base::failbit; if (m & 2) s |= std::ios_base::badbit; if (m & 4) s |= std::ios_base::eofbit; return s; }
static std::string rd(std::istream& is, ZZ& z) { Lib l; is >> z; return ""; }
static std::string rd(std::istream& is, QQ& z) { Lib l; is >> z; return ""; }
static std::string canon(const ZZ& z) { if (!z.is_small() && mpz_fits_slong_p(z.get_mpz_v())) return "small value stored big"; return ""; }
static std::string canon(const QQ& q) {
    auto e = canon(q.get_num()); if (e.empty()) e = canon(q.get_den()); if (!e.empty()) return e;
    mpz_class n(str(q.get_num())), d(str(q.get_den()));
    if (d <= 0) return "denominator not positive"; if (gcd(n, d) != 1) return "not in lowest terms"; return "";
}
template <class T> void input(const sim::Plan& p, bool rat) {
    std::string s = sim::hexdec(p.knob("content", "")); std::vector<int> ch; for (auto& x : sim::split(p.knob("chunks", ""), ',')) if (!x.empty()) ch.push_back((int)std::min(4096ll, std::max(1ll, sim::toint(x))));
    long stop = (long)p.num("stop", -1); bool broken = p.num("broken", 0) != 0; long m = (long)p.num("mask", 0); int reads = (int)std::min(20ll, p.num("reads", 1)); bool reset = p.num("reset", 0) != 0;
    InBuf b(s, ch, stop, broken); std::istream is(&b); is.exceptions(mask_of(m));
    T v = mk<T>::of("424242424242424242424242"); std::string old = str(v), shown = s.substr(0, 200);
    size_t limit = stop >= 0 && (size_t)stop < s.size() ? (size_t)stop : s.size(), cur = 0;
    uint64_t okreads = 0, badreads = 0, errs = 0;
    for (int i = 0; i < reads; ++i) {
        int64_t lb = sim::live_blocks(), lg = sim::live_gmp(); (void)lb;
        bool was_good = is.good(); bool threw = false, sysfail = false;
        sim::set_phase("read " + std::to_string(i) + " of " + (rat ? "QQ" : "ZZ") + " from \"" + shown + "\"");
        try { rd(is, v); }
        catch (const std::ios_base::failure&) { threw = true; sysfail = true; }
        catch (const std::runtime_error& e) { threw = true; if (std::string(e.what()) != "simulated device error") sim::fail("FOREIGN", std::string("read let an exception escape: ") + e.what()); }
        catch (const std::exception& e) { sim::fail("FOREIGN", std::string("read let an exception escape: ") + e.what()); }
        if (threw && !m) sim::fail("FOREIGN", "read threw although the stream's exception mask is empty");
        (void)sysfail;
        std::string now = str(v), cf = canon(v);
        if (!cf.empty()) sim::fail("TORN", "after the read the target is not a valid number: " + cf + " (" + now + ")");
        // expected
        mpq_class want; int kind = 0; bool deverr = false;
        if (!was_good) kind = 0;
        else {
            while (cur < limit && isws(s[cur])) ++cur;
            size_t e = cur; while (e < limit && !isws(s[e])) ++e;
            deverr = (e >= limit) && broken && stop >= 0;       // the device broke before the token ended
            std::string tok = s.substr(cur, e - cur);
            if (e == cur) kind = 0; else kind = parse_q(tok, rat, want);
            cur = e;
        }
        if (deverr) {                                           // only the complete token or nothing may be delivered
            if (now != old) sim::fail("TORN", "the device failed before the number ended, but the target became " + now);
            if (!is.bad() && !is.fail() && !threw) sim::fail("SILENT", "a device error was not reported by the stream state");
            ++errs;
        } else if (kind == 1) {
            std::string ws = want.get_str();
            if (threw && (m & 4) && now == old) {}          // end of input reported by exception before delivery
            else if (now != ws) sim::fail("VALUE", "read " + now + " instead of " + ws);
            if (is.fail() && !(m & 4)) sim::fail("STATE", "a complete number was read but the stream reports failure");
            old = now; ++okreads;
        } else if (kind == 0) {
            if (now != old) sim::fail("TORN", "nothing valid could be read but the target changed from " + old + " to " + now);
            if (!is.fail() && !threw) sim::fail("SILENT", "malformed or missing input was not reported by the stream state");
            ++badreads;
        } else old = now;
        int64_t big = (mpz_class(str(T(v)).substr(0, str(T(v)).find('/'))) == 0 ? 0 : 0); (void)big; (void)lg;
        sim::log("read -> " + now + (is.fail() ? " F" : "") + (is.bad() ? " B" : "") + (is.eof() ? " E" : "") + (threw ? " T" : ""));
        if (reset && (is.fail() || is.bad()) && !b.ended) { is.exceptions(std::ios_base::goodbit); is.clear(); is.exceptions(mask_of(m)); }
        else if (b.ended) { /* stays at end */ }
    }
    { int64_t g0; { Lib l; v = T(0); } g0 = sim::live_gmp(); if (g0 > 3) sim::fail("LEAK", std::to_string(g0) + " GMP blocks left behind"); }
    if (sim::live_blocks() > 8) sim::fail("LEAK", "library blocks left behind");
    sim::count("numbers read", okreads); sim::count("malformed or missing tokens", badreads); sim::count("device errors", errs); sim::count("short chunks", b.refills > 1 ? b.refills : 0); if (stop >= 0 && !broken) sim::count("early end of input");
    if (b.refills > 1 || errs || badreads) sim::nontrivial();
}
// memory that stays allocated after a write is a leak if the same write leaves more each time it is repeated
template <class P> static bool leaks(const P& v, long cap, bool th, long m, int64_t slack) {
    int64_t g = 0, b = 0; bool more = false;
    for (int k = 0; k < 5; ++k) {
        g = sim::live_gmp(); b = sim::live_blocks(); OutBuf* ob = new OutBuf(cap, th); std::ostream* os = new std::ostream(ob); os->exceptions(mask_of(m) & ~std::ios_base::eofbit);
        try { Lib l; *os << v; } catch (...) {} delete os; delete ob;
        more = sim::live_gmp() > g || sim::live_blocks() > b + slack; if (k > 1 && !more) return false;
    }
    return more;
}
template <class T> void output(const sim::Plan& p) {
    std::string s = sim::hexdec(p.knob("content", "")); long cap = (long)p.num("cap", -1); bool th = p.num("throws", 0) != 0; long m = (long)p.num("mask", 0);
    OutBuf b(cap, th); std::ostream os(&b); os.exceptions(mask_of(m) & ~std::ios_base::eofbit);
    std::string want; uint64_t fails = 0;
    for (auto& t : sim::split(s, ' ')) {
        if (t.empty()) continue; mpq_class q; if (parse_q(t, true, q) != 1) sim::invalid("bad number");
        if (std::is_same<T, ZZ>::value && t.find('/') != std::string::npos) sim::invalid("not an integer");
        T v = mk<T>::of(t); std::string before = str(v); int64_t g = sim::live_gmp(), lb = sim::live_blocks(); bool good = os.good(), threw = false;
        sim::set_phase("write " + before);
        try { Lib l; os << v; } catch (const std::ios_base::failure&) { threw = true; } catch (const std::runtime_error& e) { threw = true; if (std::string(e.what()) != "simulated device error") sim::fail("FOREIGN", e.what()); } catch (const std::exception& e) { sim::fail("FOREIGN", std::string("write let an exception escape: ") + e.what()); }
        if (threw && !m) sim::fail("FOREIGN", "write threw although the exception mask is empty");
        if (str(v) != before || !canon(v).empty()) sim::fail("CHANGED", "writing changed the number from " + before + " to " + str(v));
        if ((sim::live_gmp() != g || sim::live_blocks() > lb + 2) && leaks(v, cap >= 0 ? std::max(0l, cap - (long)(b.got.size() > before.size() ? b.got.size() - before.size() : 0)) : -1, th, m, 0)) sim::fail("LEAK", "writing " + before + " leaked memory" + (threw ? " when the stream threw" : ""));
        if (good) want += before;
        bool complete = b.got == want;
        if (want.compare(0, b.got.size(), b.got) != 0) sim::fail("OUTPUT", "wrote " + b.got + " instead of " + want);
        if (!complete) { ++fails; if (os.good()) sim::fail("SILENT", "output was truncated but the stream is good"); break; }
        if (!os.good()) break;
        if (complete && os.good()) { std::istringstream is(before); T w; { Lib l; is >> w; } if (str(w) != before || !(w == v)) sim::fail("ROUNDTRIP", "printed " + before + " and read back " + str(w)); }
    }
    sim::count("truncated writes", fails); sim::count("numbers written"); if (fails) sim::nontrivial();
}
// ---- printed text is read back by an independent reader: sums of c, c*m, m, with m = x^e*y*...
static mpz_class prime_of(const sim::Plan& p) { static const char* P[] = {"18446744073709551557", "3", "7", "2"}; return mpz_class(P[(size_t)p.num("prime", 0) % 4]); }
static bool read_poly(const std::string& t, MP& out, std::string& why) {
    std::string acc; size_t i = 0; bool first = true; out = MP();
    if (t.empty()) { why = "empty text"; return false; }
    while (i < t.size()) {
        int sg = 1, signs = 0; while (i < t.size() && (t[i] == '+' || t[i] == '-')) { if (t[i] == '-') sg = -sg; ++i; ++signs; }
        if (!first && !signs) { why = "terms run together"; return false; }
        if (first && signs && t[i - 1] == '+') { why = "leading plus"; return false; }
        if (signs > 2) { why = "stray signs"; return false; }
        first = false; std::string num; int e[6] = {0, 0, 0, 0, 0, 0}; bool any = false;
        while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '/')) num += t[i++];
        if (!num.empty()) { any = true; if (i < t.size() && t[i] == '*') { ++i; any = false; } }
        if (!any || (i < t.size() && t[i] != '+' && t[i] != '-')) {
            if (!num.empty() && any) { why = "no * after a coefficient"; return false; }
            for (;;) {
                if (i >= t.size()) { why = "text ends in the middle of a term"; return false; }
                int v = -1; if (t[i] == '#') v = 0; else for (int k = 0; k < 6; ++k) if (t[i] == VNAMES[k][0]) v = k;
                if (v < 0) { why = "unexpected character"; return false; }
                ++i; long ex = 1; if (i < t.size() && t[i] == '^') { std::string x; ++i; while (i < t.size() && isdigit((unsigned char)t[i])) x += t[i++]; if (x.empty() || x.size() > 6) { why = "bad exponent"; return false; } ex = std::stol(x); }
                e[v] += (int)ex;
                if (i < t.size() && t[i] == '*') { ++i; continue; }
                break;
            }
        }
        if (num.empty()) num = "1";
        size_t sl = num.find('/'); if (sl == 0 || sl + 1 == num.size() || num.find('/', sl == std::string::npos ? num.size() : sl + 1) != std::string::npos) { why = "bad coefficient"; return false; }
        mpq_class c(num); c.canonicalize(); if (sg < 0) c = -c;
        MP m = model::cst(c); for (int k = 0; k < 6; ++k) if (e[k]) m = model::mul(m, model::var(k, e[k]));
        out = model::add(out, m);
    }
    return true;
}
static MP mod_p(const MP& a, const mpz_class& p) { std::string o; for (auto& tm : sim::split(model::text(a), ',')) { if (tm.empty()) continue; auto cv = sim::split(tm, '@'); mpz_class c(cv[0]); mpz_class r; mpz_mod(r.get_mpz_t(), c.get_mpz_t(), p.get_mpz_t()); if (r != 0) o += (o.empty() ? "" : ",") + r.get_str() + "@" + (cv.size() > 1 ? cv[1] : ""); } return model::parse(o); }
// items between the brackets of "[ a , b ]"
static bool read_list(const std::string& t, char l, char r, std::vector<std::string>& v) {
    v.clear(); if (t.size() < 4 || t[0] != l || t[1] != ' ' || t.back() != r || t[t.size() - 2] != ' ') return false;
    std::string in = t.size() > 4 ? t.substr(2, t.size() - 4) : ""; if (in.empty()) return true;
    size_t i = 0; for (;;) { size_t k = in.find(" , ", i); v.push_back(in.substr(i, k == std::string::npos ? k : k - i)); if (k == std::string::npos) break; i = k + 3; } return true;
}
static void polyout(const sim::Plan& p) {
    init_vars(); std::string t = p.knob("poly", ""), t2 = p.knob("poly2", "");
    long cap = (long)p.num("cap", -1); bool th = p.num("throws", 0) != 0; long m = (long)p.num("mask", 0); int what = (int)(p.num("what", 0) % 12);
    for (auto& x : {t, t2}) { MP a = model::parse(x); if (!model::integral(a)) sim::invalid("integral"); for (int k = 0; k < 6; ++k) if (model::deg(a, k) > 100000) sim::invalid("degree"); }
    // print to a sound stream (must say exactly the value), then to one that fails after `cap` bytes
    auto go = [&](const auto& P, auto snap, auto says) {
        std::ostringstream ref; { Lib l; ref << P; } auto before = snap(P);
        std::string bad = says(ref.str()); if (!bad.empty()) sim::fail("TEXT", "printed " + ref.str().substr(0, 300) + ": " + bad);
        OutBuf b(cap, th); std::ostream os(&b); os.exceptions(mask_of(m) & ~std::ios_base::eofbit); bool threw = false;
        int64_t g = sim::live_gmp(); sim::set_phase("write " + ref.str().substr(0, 200));
        try { Lib l; os << P; } catch (const std::ios_base::failure&) { threw = true; } catch (const std::runtime_error& e) { threw = true; if (std::string(e.what()) != "simulated device error") sim::fail("FOREIGN", e.what()); } catch (const std::exception& e) { sim::fail("FOREIGN", std::string("write let an exception escape: ") + e.what()); }
        if (threw && !m) sim::fail("FOREIGN", "write threw although the exception mask is empty");
        if (snap(P) != before) sim::fail("CHANGED", "printing changed the value " + ref.str().substr(0, 300));
        if (sim::live_gmp() != g && leaks(P, cap, th, m, 0)) sim::fail("LEAK", "printing leaked memory");
        if (ref.str().compare(0, b.got.size(), b.got) != 0) sim::fail("OUTPUT", "wrote " + b.got + " instead of " + ref.str());
        if (b.got != ref.str()) { sim::count("truncated polynomial writes"); sim::nontrivial(); if (os.good()) sim::fail("SILENT", "output was truncated but the stream is good"); }
        else if (!os.good()) sim::fail("STATE", "complete output but the stream is not good");
        sim::count("polynomials written");
    };
    auto T = [](const auto& x) { return text(x); };
    auto reads = [](const MP& want) { return [want](const std::string& s) -> std::string { MP got; std::string why; if (!read_poly(s, got, why)) return "cannot be read (" + why + ")"; return got == want ? "" : "reads as " + model::text(got).substr(0, 200) + " instead of " + model::text(want).substr(0, 200); }; };
    auto strs = [&](const auto& P, const MP& want) { std::string s; { Lib l; s = P.str(); } std::string bad = reads(want)(s); if (!bad.empty()) sim::fail("TEXT", "str() is " + s.substr(0, 300) + ": " + bad); };
    auto sparse = [&](const auto& P, const MP& want) {
        go(P, T, reads(want)); strs(P, want);
        if (!P.empty()) { size_t k = (size_t)p.num("term", 0) % P.size(); auto mono = (P.begin() + k)->first; std::string e = text(mono); MP w = model::parse("1@" + e); go(mono, T, reads(w)); strs(mono, w); }
    };
    MP A = model::parse(t); mpz_class pr = prime_of(p);
    auto halves = [](const std::string& x) { std::string o; int k = 0; for (auto& tm : sim::split(x, ',')) { if (tm.empty()) continue; auto cv = sim::split(tm, '@'); mpq_class c(mpz_class(cv[0]), mpz_class(1 + (k++ * 5) % 7)); c.canonicalize(); o += (o.empty() ? "" : ",") + c.get_str() + "@" + (cv.size() > 1 ? cv[1] : ""); } return o; };
    auto uni = [](const std::string& x) { MP a = model::parse(x), o; for (auto& tm : sim::split(model::text(a), ',')) { if (tm.empty()) continue; auto cv = sim::split(tm, '@'); o = model::add(o, model::parse(cv[0] + "@" + (cv.size() > 1 ? cv[1].substr(0, cv[1].find('.')) : ""))); } return o; };
    auto utext = [](const MP& a) { return model::text(a); };
    auto zp = [&](const std::string& x) { auto q = poly<polynomial_<ZZ, lex>>(x); return polynomial_mod(q, mpz_get_ui(pr.get_mpz_t())); };
    switch (what) {
        case 0: sparse(poly<polynomial_ZZ>(t), A); break;
        case 1: sparse(poly<polynomial_<ZZ, lex>>(t), A); break;
        case 2: sparse(poly<polynomial_QQ>(halves(t)), model::parse(halves(t))); break;
        case 3: { univariate_priority_order c(vars()[(size_t)p.num("term", 0) % 4]); polynomial_<ZZ, univariate_priority_order> P(&c); load(P, t); sparse(P, A); break; }
        case 4: { auto P = zp(t); go(P, T, [&](const std::string& s) -> std::string { MP got; std::string why; if (!read_poly(s, got, why)) return "cannot be read (" + why + ")"; return mod_p(got, pr) == mod_p(A, pr) ? "" : "reads as another residue than " + model::text(A); }); break; }
        case 5: { MP u = uni(t); auto P = upoly<ZZ>(utext(u)); go(P, T, reads(u)); strs(P, u); if (!P.empty()) { auto mo = P.begin()->first; MP w = model::parse("1@" + text(mo)); go(mo, [](const umonomial& x) { return text(x); }, reads(w)); strs(mo, w); } break; }
        case 6: { MP u = model::parse(halves(utext(uni(t)))); auto P = upoly<QQ>(utext(u)); go(P, T, reads(u)); strs(P, u); break; }
        case 7: case 8: {                                                // lists and sets of polynomials
            std::vector<std::string> in; size_t n = (size_t)p.num("term", 0) % 4; for (size_t i = 0; i < n; ++i) in.push_back(i == 0 ? t : i == 1 ? t2 : i == 2 ? "" : "1@0.1,-1@");
            auto lst = [&](char l, char r, std::vector<MP> want, bool sorted) { return [=](const std::string& s) -> std::string { std::vector<std::string> v; if (!read_list(s, l, r, v)) return "not a list"; std::vector<MP> got; for (auto& x : v) { MP g; std::string why; if (!read_poly(x, g, why)) return "item " + x + " cannot be read (" + why + ")"; got.push_back(g); } auto w = want; if (sorted) { std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); std::sort(got.begin(), got.end()); } return got == w ? "" : "other items than printed"; }; };
            std::vector<MP> want; for (auto& x : in) want.push_back(model::parse(x));
            if (what == 7) { std::vector<polynomial_ZZ> V; for (auto& x : in) V.push_back(poly<polynomial_ZZ>(x)); go(V, [](const std::vector<polynomial_ZZ>& x) { std::string o; for (auto& q : x) o += text(q) + ";"; return o; }, lst('[', ']', want, false)); }
            else { std::set<polynomial_ZZ> V; for (auto& x : in) V.insert(poly<polynomial_ZZ>(x)); go(V, [](const std::set<polynomial_ZZ>& x) { std::string o; for (auto& q : x) o += text(q) + ";"; return o; }, lst('{', '}', want, true)); }
            break; }
        case 10: {                                                       // a graph: every node with its neighbours
            graph<variable> g; size_t n = (size_t)p.num("term", 0) % 7; std::set<std::pair<size_t, size_t>> E; { Lib l; for (size_t i = 0; i < n && i < 6; ++i) g.add_node(vars()[(i * 5 + 2) % 6]); n = g.size(); }
            for (char c : t + t2) if (n > 1) { size_t a = (unsigned char)c % n, b = ((unsigned char)c / 7) % n; if (a == b) continue; { Lib l; g.add_edge_index(a, b); } E.insert({a, b}); E.insert({b, a}); }
            go(g, [](const graph<variable>& x) { std::string o; for (size_t i = 0; i < x.size(); ++i) { o += x.node(i).name() + ":"; for (auto j : x.adjacency_list()[i]) o += std::to_string(j) + ","; } return o; }, [&](const std::string& s) -> std::string {
                std::istringstream is(s); std::string ln; if (!std::getline(is, ln) || ln != "{") return "no opening line"; std::set<std::string> seen; std::set<std::pair<std::string, std::string>> got, want; bool closed = false;
                while (std::getline(is, ln)) { if (ln == "}") { closed = true; break; } auto c = ln.find(':'); if (ln.empty() || c == std::string::npos) return "line without a node"; std::string a = ln.substr(1, c - 1), w; if (ln[0] != ' ' || !seen.insert(a).second) return "node twice"; std::istringstream ws(ln.substr(c + 1)); while (ws >> w) if (!got.insert({a, w}).second) return "edge twice"; }
                if (!closed || std::getline(is, ln) || seen.size() != n) return "another number of nodes"; for (auto& e : E) want.insert({g.node(e.first).name(), g.node(e.second).name()}); for (size_t i = 0; i < n; ++i) if (!seen.count(g.node(i).name())) return "a node is missing"; return got == want ? "" : "other edges"; });
            break; }
        case 11: {                                                       // a real root: its interval, or plus and minus infinity
            auto side = [&](const std::string& x) { std::string h = halves(x); auto a = sim::split(h, ','); return a.empty() || a[0].empty() ? mpq_class(0) : mpq_class(sim::split(a[0], '@')[0]); }; mpq_class L = side(t), R = side(t2); size_t k = (size_t)p.num("term", 0) % 6; MP u = uni(t);
            uroot x; if (k == 0) x = uroot::inf(); else if (k == 1) x = uroot::neginf(); else { auto up = upoly<ZZ>(utext(u)); QQ l = mk<QQ>::of(L.get_str()), r = mk<QQ>::of(R.get_str()); Lib b; x = uroot(up, l, r); }
            go(x, [](const uroot& y) { return (y.isinf() ? "inf" : y.isneginf() ? "-inf" : str(y.left()) + " " + str(y.right()) + " " + text(y.poly())); }, [&](const std::string& s) -> std::string {
                if (k < 2) return s == (k ? "-inf" : "inf") ? "" : "not infinity"; auto c = s.find(','); if (s.size() < 5 || s[0] != '{' || s.back() != '}' || c == std::string::npos) return "not an interval"; auto num = [](const std::string& y, mpq_class& q) { if (y.empty() || y.find_first_not_of("-0123456789/") != std::string::npos || q.set_str(y, 10)) return false; q.canonicalize(); return true; };
                mpq_class a, b; if (!num(s.substr(1, c - 1), a) || !num(s.substr(c + 1, s.size() - c - 2), b)) return "an end point cannot be read"; return a == L && b == R ? "" : "another interval"; });
            break; }
        default: {                                                       // variables and their lists
            std::vector<variable> V; size_t n = (size_t)p.num("term", 0) % 6; for (size_t i = 0; i < n; ++i) V.push_back(vars()[(i * 5 + 3) % 6]);
            go(V, [](const std::vector<variable>& x) { std::string o; for (auto& v : x) o += std::to_string(v.serial()) + ";"; return o; }, [&](const std::string& s) -> std::string { std::vector<std::string> v; if (!read_list(s, '[', ']', v)) return "not a list"; if (v.size() != V.size()) return "another number of variables"; for (size_t i = 0; i < v.size(); ++i) if (v[i] != V[i].name()) return "another variable"; return ""; });
        }
    }
}
static void exec(const sim::Plan& p) {
    std::string mode = p.knob("mode", "in"); bool rat = p.knob("type", "QQ") == "QQ";
    { std::istringstream is("12/5"); std::ostringstream os; QQ q; is >> q; os << q << ZZ("123456789012345678901234567890"); }   // warm-up
    sim::count("mode " + mode);
    if (mode == "in") { if (rat) input<QQ>(p, true); else input<ZZ>(p, false); }
    else if (mode == "out") { if (rat) output<QQ>(p); else output<ZZ>(p); }
    else polyout(p);
    sim::sample(mode + " " + p.text().substr(0, 300));
}
const sim::Scenario sim::scenario = {"C05", gen, exec, 20000000ull, 30};
