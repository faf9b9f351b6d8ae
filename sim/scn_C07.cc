// OBJS: ops_num ops_poly ops_alg ops_fac ops_misc ops_more
// C07: independent operations in two to four simulated threads under planned schedules.
#include "ops.hh"
#include "lib.hh"
using namespace lib;
using ops::SV;

static const ops::Op* choose(sim::Rng& r) {
    auto& t = ops::table(); int tot = 0; for (auto& o : t) tot += o.weight;
    int k = (int)r.below(tot); for (auto& x : t) { if (k < x.weight) return &x; k -= x.weight; } return &t[0];
}
static sim::Plan gen(sim::Rng& r, const std::string& tier) {
    sim::Plan p; int nt = 2 + (r.chance(1, 3) ? (int)r.below(3) : 0); bool same = r.chance(1, 2), copy = r.chance(1, 5);
    p.add("threads", {std::to_string(nt)}); p.add("cold", {r.chance(2, 3) ? "1" : "0"}); p.add("first", {std::to_string(r.below(nt))});
    const ops::Op *o = choose(r), *last = nullptr; SV a;
    for (int i = 0; i < nt; ++i) { int n = 1 + (int)r.below(3); for (int j = 0; j < n; ++j) {
        if (!same || r.chance(1, 4)) o = choose(r);
        if (!copy || o != last) a = o->gen(r);
        last = o;
        SV f{std::to_string(i), o->name, sim::draws_text(sim::draws_gen(r))}; for (auto& x : a) f.push_back(x); p.add("op", f); } }
    int n = (int)r.below(tier == "thorough" ? 400 : 160), mode = (int)r.below(5); uint64_t q = 1 + r.below(300);
    for (int i = 0; i < n; ++i) { uint64_t g; switch (mode) { case 0: g = 1 + r.below(4); break; case 1: g = 1 + r.below(60); break; case 2: g = 1 + r.below(3000); break; case 3: g = r.chance(1, 2) ? 1 + r.below(8) : 1 + r.below(20000); break; default: g = q; } p.add("switch", {std::to_string(g), std::to_string(r.below(4))}); }
    if (r.chance(1, 6)) p.add("fault", {std::to_string(1 + r.below(r.chance(1, 2) ? 60 : 3000))});
    return p;
}
static std::string N(uint64_t x) { return std::to_string(x); }
static std::string cut(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
struct Item { int th; std::string name; sim::Draws d; std::unique_ptr<ops::Call> c; std::string args, got, want, what; bool oom = false, bad = false; };
static void exec(const sim::Plan& p) {
    init_vars();
    int nt = (int)p.num("threads", 2); if (nt < 1 || nt > 8) sim::invalid("threads"); bool cold = p.num("cold", 1) != 0; unsigned first = (unsigned)std::labs((long)p.num("first", 0));
    std::vector<Item> it; std::vector<sim::Switch> sw; uint64_t fault = 0;
    for (auto& l : p.lines) {
        if (l.key == "switch" && l.f.size() > 1) sw.push_back({std::max<uint64_t>(1, (uint64_t)std::labs((long)sim::toint(l.f[0]))), (unsigned)std::labs((long)sim::toint(l.f[1]))});
        if (l.key == "fault" && !l.f.empty()) fault = (uint64_t)std::labs((long)sim::toint(l.f[0]));
        if (l.key != "op" || l.f.size() < 3 || it.size() > 24) continue;
        const ops::Op* o = ops::find(l.f[1]); if (!o) sim::invalid("unknown operation");
        Item x; x.th = (int)(std::labs((long)sim::toint(l.f[0])) % nt); x.name = o->name; x.d = sim::draws_parse(l.f[2]); SV a(l.f.begin() + 3, l.f.end());
        sim::draws_begin(x.d); try { x.c = o->make(a); } catch (const std::exception& e) { sim::invalid(std::string("arguments: ") + e.what()); }
        x.args = x.c->args(); it.push_back(std::move(x));
    }
    if (it.empty()) sim::invalid("no operation");
    uint64_t prime = Zp::cur_prime(); std::string names; for (auto& x : it) names += (names.empty() ? "" : " ") + N(x.th) + ":" + x.name; sim::sample(names);
    auto serial = [&] { for (auto& x : it) { sim::set_phase(x.name + " alone"); sim::draws_begin(x.d); try { Lib s; x.c->run(); } catch (const std::exception& e) { sim::invalid(std::string("the call alone throws: ") + e.what()); } x.want = x.c->result(); x.c->clear(); } };
    sim::set_soft_limit(3000000000ull);
    uint64_t tk = 0; if (!cold) { tk = sim::ticks(); serial(); tk = sim::ticks() - tk; }
    std::vector<std::function<void()>> b;
    for (int i = 0; i < nt; ++i) b.push_back([&it, i] {
        for (auto& x : it) if (x.th == i) { sim::draws_begin(x.d); try { Lib s; x.c->run(); } catch (const std::bad_alloc&) { x.oom = true; } catch (const std::exception& e) { sim::Host h; x.bad = true; x.what = e.what(); } }
    });
    sim::set_phase("threads " + names); uint64_t t0 = sim::ticks();
    if (fault) sim::arm(fault, false);
    auto st = sim::run_threads(b, sw, first % nt); auto q = fault ? sim::disarm() : sim::AllocFault();
    t0 = sim::ticks() - t0;
    for (auto& x : it) { x.got = x.oom || x.bad ? "" : x.c->result(); x.c->clear(); }
    if (cold) { serial(); }
    (void)tk;
    sim::log("switches " + N(st.switches)); sim::count("switches", st.switches); sim::count("waits on static initialisation", st.guard_waits); if (q.fired) sim::count("allocation failures");
    if (st.switches > 3) sim::nontrivial();
    uint64_t ooms = 0;
    for (auto& x : it) {
        std::string w = x.name + " in thread " + N(x.th) + " of " + N(nt) + (x.args.size() < 400 ? " on " + x.args : "");
        if (x.bad) sim::fail("EXCEPTION", w + " ended with " + x.what + "; alone it succeeds");
        if (x.oom) { ++ooms; if (!q.fired) sim::fail("OOM", w + ": bad_alloc although no allocation failed"); continue; }
        if (x.got != x.want) sim::fail("DIFFERS", w + " gave " + cut(x.got) + "; alone " + cut(x.want));
        if (x.c->args() != x.args) sim::fail("ARGS", w + ": arguments changed");
        sim::log(x.name + " same");
    }
    if (ooms > 1) sim::fail("OOM", "one failed allocation ended " + N(ooms) + " calls");
    if (st.mutex_waits) sim::count("mutex waits", st.mutex_waits);
    if (Zp::cur_prime() != prime) sim::fail("GLOBAL", "the default modulus changed");
    sim::check_heap("after the threads");
}
const sim::Scenario sim::scenario = {"C07", gen, exec, 8000000000ull, 60};
