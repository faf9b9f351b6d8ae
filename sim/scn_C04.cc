// C04: variable registry histories with allocation failures.
#include "lib.hh"
using namespace lib;

static const char* NAMES[] = {"a", "b", "c", "x", "y", "zz", "alpha_beta_gamma_delta_epsilon", "a_rather_long_variable_name_number_two", "Q", "q1", "#var_1", "#var_2", "#var_3", "#var_7", "_t", "x_with_a_name_longer_than_sixteen"};
static const int NN = 16;

static std::string name_of(long long a) {       // 0..15 from the table, others generated: similar prefixes, automatic-looking, long, not ASCII
    if (a < NN) return NAMES[a]; std::string k = std::to_string(a / 6);
    switch (a % 6) { case 0: return "v" + k; case 1: return "#var_" + k; case 2: return std::string((size_t)(a / 6 % 90), 'q') + k; case 3: return "\xce\xb1" + k; case 4: return "v " + k; default: return "#var_0" + k; }
}
static sim::Plan gen(sim::Rng& r, const std::string&) {
    sim::Plan p;
    int n = 3 + (int)r.below(r.chance(1, 3) ? 60 : 22);
    bool faults = r.chance(3, 4), autos = r.chance(3, 4), dels = r.chance(5, 6), rnd = r.chance(1, 4);
    int span = 2 + (int)r.below(NN - 1);
    bool big = r.chance(1, 60), grow = big && r.chance(1, 2); if (big) n = 150 + (int)r.below(400); if (big || r.chance(1, 6)) span = 30 + (int)r.below(600);
    for (int i = 0; i < n; ++i) {
        std::string k; std::string a = std::to_string(r.below(span));
        switch (grow && i < n / 2 ? r.below(6) : r.below(11)) {
        case 0: case 1: case 2: k = "get"; break;
        case 3: k = r.chance(1, 2) ? "ctor" : "new"; break;
        case 4: case 5: k = autos ? "auto" : "get"; break;
        case 6: case 7: k = dels ? "del" : "get"; break;
        case 8: k = dels ? r.chance(1, 3) ? "delx" : "dels" : "get"; a = std::to_string(r.below(12)); break;
        case 9: k = r.chance(1, 2) ? "look" : "sweep"; a = std::to_string(r.below(12)); break;
        default: k = rnd ? "rand" : "auto"; a = std::to_string(1 + r.below(200)); break;
        }
        std::string f = "0", st = "0";
        if (faults && r.chance(2, big ? 20 : 5)) { f = std::to_string(1 + r.below(r.chance(2, 3) ? 3 : 7)); st = r.chance(1, 4) ? "1" : "0"; }
        p.add("op", {k, a, f, st});
    }
    return p;
}
typedef std::map<std::string, size_t> Reg;
static Reg live; static size_t peak = 0; static std::set<size_t> ever;

static void verify(const char* when) {
    for (auto& kv : live) {
        std::string nm; size_t s, s2;
        { Lib l; variable v = variable::get_variable(kv.first); s = v.serial(); nm = v.name(); }
        if (s != kv.second) sim::fail("LOOKUP", std::string(when) + ": name " + kv.first + " should denote serial " + std::to_string(kv.second) + " but denotes " + std::to_string(s));
        if (nm != kv.first) sim::fail("NAME", std::string(when) + ": variable looked up as " + kv.first + " prints " + nm);
        { Lib l; variable v = variable::get_variable(kv.second); s2 = v.serial(); nm = v.name(); }
        if (nm != kv.first || s2 != kv.second) sim::fail("NAME", std::string(when) + ": serial " + std::to_string(kv.second) + " should print " + kv.first + " but prints " + nm);
        std::ostringstream o; o << variable::get_variable(kv.second);
        if (o.str() != kv.first) sim::fail("NAME", std::string(when) + ": printing serial " + std::to_string(kv.second) + " gives " + o.str());
    }
    std::string nm; size_t s; { Lib l; variable v = variable::get_variable(""); s = v.serial(); nm = v.name(); }
    if (s != 0 || !nm.empty()) sim::fail("EMPTY", std::string(when) + ": the reserved variable changed");
}
static void created(const std::string& name, size_t s, bool automatic) {
    if (name.empty()) sim::fail("NAME", "a new variable has no name");
    for (auto& kv : live) {
        if (kv.second == s) sim::fail("SERIAL", "new variable " + name + " got serial " + std::to_string(s) + " of the live variable " + kv.first);
        if (kv.first == name) sim::fail("DUPNAME", "a second live variable was given the name " + name + (automatic ? " automatically" : ""));
    }
    if (s == 0) sim::fail("SERIAL", "new variable got the reserved serial 0");
    live[name] = s; ever.insert(s); if (live.size() > peak) peak = live.size();
    if (ever.size() > peak) sim::fail("LEAKSERIAL", "serial " + std::to_string(s) + " was added although a freed serial was available (" + std::to_string(ever.size()) + " serials used, at most " + std::to_string(peak) + " variables were ever live)");
}
static void exec(const sim::Plan& p) {
    live.clear(); peak = 0; ever.clear();
    uint64_t fired = 0, ops = 0, dels = 0, autos = 0, hits = 0, reuse = 0;
    polynomial_ZZ keep; std::vector<std::string> keepv; std::string keeptext;
    for (auto& ln : p.lines) {
        if (ln.key != "op" || ln.f.size() < 4) continue;
        std::string k = ln.f[0]; long long a = sim::toint(ln.f[1]); uint64_t at = (uint64_t)std::max(0ll, sim::toint(ln.f[2])); bool sticky = ln.f[3] == "1";
        if (a < 0) a = -a;
        std::string name = name_of(a % 5000);
        sim::set_phase(k + " " + (k == "get" || k == "del" || k == "new" || k == "ctor" ? name : ln.f[1]) + " fail-at " + ln.f[2]);
        bool failed = false; size_t s = 0; std::string nm; ++ops;
        std::string key = name; size_t before = ever.size();
        std::vector<std::pair<std::string, size_t>> lv(live.begin(), live.end());
        auto guarded = [&](auto&& f) {
            sim::arm(at, sticky);
            try { Lib l; f(); } catch (const std::bad_alloc&) { failed = true; }
            catch (const std::exception& e) { sim::disarm(); sim::fail("EXC", std::string("unexpected exception ") + e.what()); }
            auto st = sim::disarm();
            if (st.fired) { ++fired; if (!failed) sim::count("failures absorbed"); }
            else if (failed) sim::fail("EXC", "bad_alloc although no allocation failed");
        };
        if (k == "get" || k == "ctor" || (k == "new" && !live.count(name))) {
            if (k == "new") guarded([&] { variable v = variable::new_variable(key); s = v.serial(); });
            else if (k == "ctor") guarded([&] { variable v(key); s = v.serial(); });
            else { auto own = live.find(name); bool byref = own != live.end() && (name.size() + ops) % 2; guarded([&] { variable v = byref ? variable::get_variable(variable::get_variable(own->second).name()) : variable::get_variable(key); s = v.serial(); }); }
            if (!failed) {
                if (live.count(name)) { ++hits; if (live[name] != s) sim::fail("LOOKUP", "name " + name + " should denote serial " + std::to_string(live[name]) + " but denotes " + std::to_string(s)); }
                else { created(name, s, false); if (ever.size() == before) ++reuse; }
            }
            sim::log(k + " " + name + (failed ? " failed" : " -> " + std::to_string(s)));
        } else if (k == "auto") {
            guarded([&] { variable v = variable::new_variable(); s = v.serial(); });
            if (!failed) { nm = variable::get_variable(s).name(); created(nm, s, true); ++autos; if (ever.size() == before) ++reuse; }
            sim::log("auto" + std::string(failed ? " failed" : " -> " + nm));
        } else if (k == "del") {
            auto own = live.find(name); bool byref = own != live.end() && (name.size() + ops) % 2; /* the name as the registry itself holds it */ guarded([&] { if (byref) variable::del_variable(variable::get_variable(own->second).name()); else variable::del_variable(key); });
            if (!failed && live.erase(name)) ++dels;
            sim::log("del " + name + (failed ? " failed" : ""));
        } else if (k == "dels") {
            if (lv.empty()) continue;
            auto pr = lv[a % lv.size()];
            guarded([&] { variable::del_variable(pr.second); });
            if (!failed) { live.erase(pr.first); ++dels; }
            sim::log("dels " + pr.first + (failed ? " failed" : ""));
        } else if (k == "delx") {   // a serial no live variable has: already deleted, reserved or never given
            std::vector<size_t> dead{0};
            for (size_t e : ever) { bool is = false; for (auto& kv : live) is = is || kv.second == e; if (!is) dead.push_back(e); }
            dead.push_back((ever.empty() ? 0 : *ever.rbegin()) + 1); dead.push_back(1000000 + (size_t)a);
            size_t t = dead[(size_t)a % dead.size()];
            guarded([&] { variable::del_variable(t); });
            sim::log("delx " + std::to_string(t) + (failed ? " failed" : "")); sim::count("deletions of a serial that is not live");
        } else if (k == "look") {
            if (lv.empty()) continue;
            auto pr = lv[a % lv.size()];
            guarded([&] { variable v = variable::get_variable(pr.first); s = v.serial(); });
            if (!failed && s != pr.second) sim::fail("LOOKUP", "name " + pr.first + " denotes " + std::to_string(s));
        } else if (k == "rand") {
            std::vector<variable> vs; for (auto& kv : live) if (vs.size() < 3) vs.push_back(variable::get_variable(kv.second));
            sim::Draws d; d.seed = (uint64_t)a; sim::draws_begin(d);
            if (vs.empty()) { guarded([&] { auto u = random_upolynomial<ZZ>(3, 2, {-5, 5}); }); }
            else {
                polynomial_ZZ q; guarded([&] { q = random_polynomial<ZZ>(vs, 2, 3, {-9, 9}); });
                if (!failed && !q.empty()) { keep = q; keeptext.clear(); std::ostringstream o; o << keep; keeptext = o.str(); keepv.clear(); for (auto& v : get_variables(keep)) keepv.push_back(v.first.name()); }
            }
            // random_upolynomial may register "_t"
            if (vs.empty()) {
                if (!failed) { size_t t; { Lib l; t = variable::get_variable("_t").serial(); } if (!live.count("_t")) created("_t", t, false); }
                else {
                    // the name may or may not have been registered before the failure hit a later step: learn it
                    size_t t; { Lib l; t = variable::get_variable("_t").serial(); } if (!live.count("_t")) created("_t", t, false);
                }
            }
        }
        verify(failed ? "after a failed call" : "after the call");
        if (!keepv.empty()) {
            bool alive = true; for (auto& n : keepv) if (!live.count(n)) alive = false;
            if (!alive) { keepv.clear(); keep.clear(); }
            else { std::ostringstream o; o << keep; if (o.str() != keeptext) sim::fail("POLY", "a polynomial in live variables printed " + keeptext + " and now prints " + o.str()); }
        }
    }
    sim::check_heap("after the history");
    sim::count("registry operations", ops); sim::count("allocation failures fired", fired); sim::count("deletions", dels); sim::count("automatic variables", autos); sim::count("serials reused", reuse); sim::count("look-ups of live names", hits);
    if (fired || reuse) sim::nontrivial();
    std::string t = p.text(); sim::sample(t.substr(0, 400));
}
const sim::Scenario sim::scenario = {"C04", gen, exec, 20000000ull, 30};
