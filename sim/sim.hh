// Simulator interface: one process, every choice taken from a plan.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- plans
struct Line { std::string key; std::vector<std::string> f; };
struct Plan {
    std::vector<Line> lines;
    void add(const std::string& key, std::vector<std::string> f = {}) { lines.push_back({key, std::move(f)}); }
    const Line* find(const std::string& key) const;
    std::string knob(const std::string& key, const std::string& dflt) const;
    long long num(const std::string& key, long long dflt) const;
    std::string text() const;
    static Plan parse(const std::string& t);
};
std::vector<std::string> split(const std::string& s, char c);
std::string hexenc(const std::string& s);
std::string hexdec(const std::string& s);
long long toint(const std::string& s);

// ---------------------------------------------------------------- outcome of a run
[[noreturn]] void fail(const std::string& cls, const std::string& msg);   // property violated
[[noreturn]] void invalid(const std::string& why);                        // plan outside the property's domain
void log(const std::string& ev);          // event log (hashed; printed when verbose)
void count(const std::string& key, uint64_t n = 1);   // evidence counters (fault kinds fired, probes)
void sample(const std::string& s);        // optional short description of this run
void nontrivial();                        // this run met the property's non-triviality rule
void set_phase(const std::string& p);     // what is running (for crash reports)

// ---------------------------------------------------------------- ticks (executed basic blocks)
uint64_t ticks();
void set_tick_limit(uint64_t n);          // absolute from now; 0: default
void set_progress_limit(uint64_t n);      // like set_tick_limit, but counted from the last word of the planned draw prefix
void set_soft_limit(uint64_t n);          // the same, but reaching it abandons the run without a verdict
// scope in which library code runs: counts ticks, tags allocations as the library's
struct Lib { bool prev; Lib(); ~Lib(); };
struct Host { bool prev; Host(); ~Host(); };  // leave library scope temporarily (harness callbacks)

// ---------------------------------------------------------------- allocation faults
struct AllocFault { bool armed = false; uint64_t at = 0; bool sticky = false; uint64_t seen = 0; uint64_t fired = 0; uintptr_t site = 0; };
void arm(uint64_t at, bool sticky);       // fail the at-th (1-based) library allocation from now
AllocFault disarm();                      // returns what happened
AllocFault peek();
int64_t live_blocks();                    // library-tagged operator new blocks
int64_t live_gmp();                       // library-tagged GMP blocks
void check_heap(const char* where);       // canaries of all live blocks and of the quarantine
uint64_t alloc_count();
bool fault_in_flight();

// ---------------------------------------------------------------- random draws
struct Seg { char kind; uint64_t n; uint64_t a; };   // see core.cc
struct Draws { std::vector<Seg> segs; uint64_t seed = 1; };
std::string draws_text(const Draws& d);
Draws draws_parse(const std::string& s);
Draws draws_gen(Rng& r);                  // swarm choice of policy
void draws_begin(const Draws& d);         // reset the random source of the calling thread
uint64_t draws_used();                    // words delivered since draws_begin
uint64_t draws_adversarial();             // of which not fair
uint64_t draws_engines();
uint32_t rd_token();
bool token_issued(uint64_t s, uint32_t& id);
uint64_t draw_word(unsigned bits);

// ---------------------------------------------------------------- threads
struct Switch { uint64_t gap; unsigned to; };
struct SchedStats { uint64_t switches = 0, blocked = 0, guard_waits = 0, mutex_waits = 0; uint64_t hash = 0; };
SchedStats run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& plan, unsigned first);
int self();                               // index of the running simulated thread or -1

// ---------------------------------------------------------------- scenario
struct Scenario {
    const char* id;
    Plan (*gen)(Rng& r, const std::string& tier);
    void (*exec)(const Plan& p);
    uint64_t tick_limit;                  // default per-run cap
    uint64_t wall_s;                      // abandon (not a verdict) after this
};
extern const Scenario scenario;           // defined by scn_*.cc
}
