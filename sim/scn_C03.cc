// OBJS: ops_num ops_poly ops_alg ops_fac ops_misc ops_more
// C03: every public operation with allocation failures at planned points.
#include "ops.hh"
#include "lib.hh"
using namespace lib;
using ops::SV;

static sim::Plan gen(sim::Rng& r, const std::string& tier) {
    sim::Plan p; auto& t = ops::table(); int tot = 0; for (auto& o : t) tot += o.weight;
    int k = (int)r.below(tot); const ops::Op* o = nullptr; for (auto& x : t) { if (k < x.weight) { o = &x; break; } k -= x.weight; }
    SV f{o->name, sim::draws_text(sim::draws_gen(r))}; for (auto& a : o->gen(r)) f.push_back(a);
    p.add("op", f);
    int n = 2 + (int)r.below(tier == "thorough" ? 14 : 9);
    for (int i = 0; i < n; ++i) {
        std::string pos; switch (r.below(4)) { case 0: pos = "#" + std::to_string(1 + r.below(12)); break; case 1: pos = "-" + std::to_string(r.below(12)); break; default: pos = std::to_string(r.below(1000000)); }
        p.add("fault", {pos, r.chance(1, 3) ? "1" : "0"});
    }
    return p;
}
static std::string globals() {
    sim::Host h; std::string o = std::to_string(Zp::cur_prime());
    for (int i = 0; i < 6; ++i) { Lib l; variable v = variable::get_variable(VNAMES[i]); std::string s = variable::get_variable(v.serial()).name(); { Host g; o += " " + s + "=" + std::to_string(v.serial()); } }
    return o;
}
static std::string N(uint64_t x) { return std::to_string(x); }
static std::string cut(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static void exec(const sim::Plan& p) {
    init_vars();
    const sim::Line* l = p.find("op"); if (!l || l->f.size() < 2) sim::invalid("no operation");
    const ops::Op* o = ops::find(l->f[0]); if (!o) sim::invalid("unknown operation");
    sim::Draws d = sim::draws_parse(l->f[1]); SV a(l->f.begin() + 2, l->f.end());
    std::unique_ptr<ops::Call> c; sim::draws_begin(d);
    try { c = o->make(a); } catch (const std::exception& e) { sim::invalid(std::string("arguments: ") + e.what()); }
    std::string name = o->name; sim::sample(name);
    auto run = [&] { sim::draws_begin(d); Lib s; c->run(); };
    sim::set_soft_limit(1500000000ull);
    // memory stays allocated after an ended call: a leak if it grows again each time the same call is repeated (a scratch area kept for reuse does not)
    auto grows = [&](uint64_t at, bool st) {
        bool more = false;
        for (int k = 0; k < 5; ++k) {
            int64_t b = sim::live_blocks(), g = sim::live_gmp(); if (at) sim::arm(at, st); try { run(); } catch (...) {} if (at) sim::disarm(); c->clear();
            more = sim::live_blocks() > b || sim::live_gmp() > g; if (k > 1 && !more) return false;
        }
        return more;
    };
    sim::set_phase(name + " undisturbed");
    std::string args = c->args(), glob = globals(), want;
    try { run(); } catch (const std::bad_alloc&) { sim::fail("OOM", name + ": bad_alloc although no allocation failed"); } catch (const std::exception& e) { sim::invalid(std::string("the undisturbed call throws: ") + e.what()); }
    want = c->result(); c->clear();
    int64_t nb = sim::live_blocks(), ng = sim::live_gmp(); uint64_t a0 = sim::alloc_count(), tk = sim::ticks();
    run(); uint64_t n = sim::alloc_count() - a0; tk = sim::ticks() - tk;
    if (c->result() != want) sim::fail("REPEAT", name + ": the same call with the same draws gave " + cut(c->result()) + " after " + cut(want));
    c->clear();
    int64_t lb = sim::live_blocks() - nb, lg = sim::live_gmp() - ng;
    if ((lb > 0 || lg > 0) && !grows(0, false)) { sim::count("scratch memory kept"); lb = lg = 0; }
    if (lb > 0) sim::fail("LEAK", name + ": an undisturbed call left " + N(lb) + " blocks allocated");
    if (lg > 0) sim::fail("LEAK", name + ": an undisturbed call left " + N(lg) + " integers allocated");
    if (!n) return;
    sim::log(name + " allocations " + N(n)); sim::count("operation " + name);
    sim::set_soft_limit(tk * 80 + 1500000000ull);
    int k = 0;
    for (auto& f : p.lines) {
        if (f.key != "fault" || f.f.size() < 2 || k > 40) continue; ++k;
        uint64_t at; const std::string& s = f.f[0]; if (s.empty()) continue;
        if (s[0] == '#') at = std::min<uint64_t>(n, (uint64_t)std::labs((long)sim::toint(s.substr(1)))); else if (s[0] == '-') { uint64_t b = (uint64_t)sim::toint(s.substr(1)); at = b < n ? n - b : 1; } else at = 1 + (uint64_t)((__uint128_t)(uint64_t)sim::toint(s) * n / 1000000);
        if (at < 1) at = 1; bool st = f.f[1] == "1";
        std::string w = name + " with " + (st ? "all requests from number " : "request number ") + N(at) + " of " + N(n) + " failing"; sim::set_phase(w);
        nb = sim::live_blocks(); ng = sim::live_gmp();
        bool oom = false, other = false; std::string what;
        sim::arm(at, st);
        try { run(); } catch (const std::bad_alloc&) { oom = true; } catch (const std::exception& e) { other = true; sim::Host h; what = e.what(); } catch (...) { other = true; what = "an unknown exception"; }
        auto q = sim::disarm();
        if (q.fired) { sim::nontrivial(); sim::count(st ? "memory exhausted" : "single failed allocation"); }
        if (oom && !q.fired) sim::fail("OOM", w + ": bad_alloc although no allocation failed");
        if (other) sim::fail("WRONGEXC", w + ": ended with " + what + " instead of bad_alloc");
        if (!oom) { std::string got = c->result(); if (got != want) sim::fail("WRONG", w + ": completed with " + cut(got) + ", undisturbed " + cut(want)); if (q.fired) sim::count("completed without the memory"); }
        c->clear();
        lb = sim::live_blocks() - nb; lg = sim::live_gmp() - ng;
        if ((lb > 0 || lg > 0) && !grows(at, st)) { sim::count("scratch memory kept"); lb = lg = 0; }
        if (lb > 0) sim::fail("LEAK", w + ": " + N(lb) + " blocks stay allocated");
        if (lg > 0) sim::fail("LEAK", w + ": " + N(lg) + " integers stay allocated");
        sim::check_heap(w.c_str());
        if (c->args() != args) sim::fail("ARGS", w + ": the arguments changed from " + cut(args) + " to " + cut(c->args()));
        if (globals() != glob) sim::fail("GLOBAL", w + ": process-wide state changed from " + glob + " to " + globals());
        sim::set_phase(name + " repeated after: " + w);
        try { run(); } catch (const std::exception& e) { sim::fail("RETRY", name + " repeated with memory available ended with " + std::string(e.what()) + " after: " + w); }
        std::string got = c->result(); if (got != want) sim::fail("RETRY", name + " repeated with memory available gave " + cut(got) + ", undisturbed " + cut(want) + "; after: " + w);
        c->clear();
        if (c->args() != args) sim::fail("ARGS", w + ": the repeated call changed its arguments");
        sim::log(N(at) + (oom ? " oom" : " completed"));
    }
}
const sim::Scenario sim::scenario = {"C03", gen, exec, 6000000000ull, 60};
