// Simulator core. Compiled without basic-block callbacks.
#include "sim.hh"
#include <gmp.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <set>
#include <unordered_set>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>

namespace sim {
// ================================================================ shared result of one run
static const int MAXCNT = 256;
struct Cnt { char k[48]; uint64_t v; };
struct Shared {
    int status;                 // 0 running, 1 ok, 2 fail, 3 invalid
    char cls[80]; char msg[6000]; char phase[400]; char sample[700];
    uint64_t loghash, pathhash, ticks, allocs, words; int nontrivial;
    int ncnt; Cnt cnt[MAXCNT];
    int nsites; uintptr_t sites[4096];
    uint8_t cov[1 << 16];
};
static Shared* SH;
static bool g_verbose = false;
static const Scenario* SC;

// ================================================================ ticks
static __thread bool t_lib = false;
static __thread int t_self = -1;
static __thread uint32_t t_prev = 0;
static uint64_t g_progress = 0, g_ticks = 0, g_next = ~0ull, g_limit = ~0ull, g_path = 1469598103934665603ull;
static uint64_t g_next_switch = ~0ull; static bool g_soft = false;
static void renext() { g_next = g_limit < g_next_switch ? g_limit : g_next_switch; }
static void sched_tick();
[[noreturn]] static void finish(int st) {
    SH->pathhash = g_path; SH->ticks = g_ticks; SH->status = st;
    fflush(stdout);
    _exit(0);
}
__attribute__((noinline)) static void slow() {
    if (g_ticks >= g_limit) {
        t_lib = false;
        if (g_soft) { snprintf(SH->cls, sizeof SH->cls, "LONG"); finish(4); }
        snprintf(SH->cls, sizeof SH->cls, "HANG");
        snprintf(SH->msg, sizeof SH->msg, "did not finish within %llu basic blocks during: %.300s", (unsigned long long)g_limit, SH->phase);
        finish(2);
    }
    if (g_ticks >= g_next_switch) sched_tick();
}
}
extern "C" __attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc() {
    using namespace sim;
    if (!t_lib) return;
    uint32_t pc = (uint32_t)(uintptr_t)__builtin_return_address(0);
    SH->cov[(pc ^ t_prev) & 0xffff] = 1;
    t_prev = pc >> 1;
    g_path = (g_path ^ pc) * 1099511628211ull;
    if (++g_ticks >= g_next) slow();
}
namespace sim {
uint64_t ticks() { return g_ticks; }
void set_soft_limit(uint64_t n) { set_tick_limit(n); g_soft = true; }
void set_progress_limit(uint64_t n) { set_tick_limit(n); g_progress = n; }
void set_tick_limit(uint64_t n) { g_soft = false; g_progress = 0; g_limit = g_ticks + (n ? n : SC->tick_limit); renext(); }
Lib::Lib() : prev(t_lib) { t_lib = true; }
Lib::~Lib() { t_lib = prev; }
Host::Host() : prev(t_lib) { t_lib = false; }
Host::~Host() { t_lib = prev; }

// ================================================================ utils
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull + b); r.next(); return r.next() ^ (b << 1); }
uint64_t fnv(const std::string& s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> v; size_t i = 0;
    if (s.empty()) return v;
    for (;;) { size_t j = s.find(c, i); if (j == std::string::npos) { v.push_back(s.substr(i)); return v; } v.push_back(s.substr(i, j - i)); i = j + 1; }
}
std::string hexenc(const std::string& s) { static const char* d = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
std::string hexdec(const std::string& s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
long long toint(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }

const Line* Plan::find(const std::string& key) const { for (auto& l : lines) if (l.key == key) return &l; return nullptr; }
std::string Plan::knob(const std::string& key, const std::string& d) const { auto* l = find(key); return l && !l->f.empty() ? l->f[0] : d; }
long long Plan::num(const std::string& key, long long d) const { auto* l = find(key); return l && !l->f.empty() ? toint(l->f[0]) : d; }
std::string Plan::text() const { std::string o; for (auto& l : lines) { o += l.key; for (auto& f : l.f) { o += '|'; o += f; } o += '\n'; } return o; }
Plan Plan::parse(const std::string& t) {
    Plan p;
    for (auto& ln : split(t, '\n')) {
        if (ln.empty() || ln[0] == '#') continue;
        auto v = split(ln, '|');
        Line l; l.key = v[0]; l.f.assign(v.begin() + 1, v.end());
        if (!ln.empty() && ln.back() == '|') {}
        p.lines.push_back(std::move(l));
    }
    return p;
}

void fail(const std::string& cls, const std::string& msg) {
    t_lib = false;
    snprintf(SH->cls, sizeof SH->cls, "%s", cls.c_str());
    snprintf(SH->msg, sizeof SH->msg, "%s", msg.c_str());
    finish(2);
}
void invalid(const std::string& why) { t_lib = false; snprintf(SH->msg, sizeof SH->msg, "%s", why.c_str()); finish(3); }
void log(const std::string& ev) {
    Host h;
    char b[64]; snprintf(b, sizeof b, "%llu ", (unsigned long long)g_ticks);
    SH->loghash = fnv(ev, fnv(b, SH->loghash));
    if (g_verbose) { printf("  [%s] %s\n", b, ev.c_str()); fflush(stdout); }
}
void count(const std::string& key, uint64_t n) {
    for (int i = 0; i < SH->ncnt; ++i) if (key == SH->cnt[i].k) { SH->cnt[i].v += n; return; }
    if (SH->ncnt < MAXCNT) { snprintf(SH->cnt[SH->ncnt].k, 48, "%s", key.c_str()); SH->cnt[SH->ncnt++].v = n; }
}
void sample(const std::string& s) { snprintf(SH->sample, sizeof SH->sample, "%s", s.c_str()); }
void nontrivial() { SH->nontrivial = 1; }
void set_phase(const std::string& p) { snprintf(SH->phase, sizeof SH->phase, "%s", p.c_str()); }

// ================================================================ allocation
struct Hdr { uint64_t magic; size_t size; uint64_t seq; uint32_t lib; uint32_t pad; Hdr *prev, *next; };
static_assert(sizeof(Hdr) % 16 == 0, "alignment");
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11ull, FREED = 0xdeadf4eedeadf4eeull;
static const size_t TAIL = 16;
static Hdr g_list = {0, 0, 0, 0, 0, &g_list, &g_list};
static int64_t g_live = 0, g_live_gmp = 0; static uint64_t g_live_bytes = 0;
static uint64_t g_allocs = 0;
static AllocFault g_fault;
static const int QN = 512; static Hdr* g_q[QN]; static int g_qi = 0;
static void heap_bug(const char* what, const char* where) {
    t_lib = false;
    snprintf(SH->cls, sizeof SH->cls, "HEAP");
    snprintf(SH->msg, sizeof SH->msg, "heap corruption (%s) %s during: %.300s", what, where, SH->phase);
    finish(2);
}
static void mem_cap() {
    if (g_live_bytes > (3ull << 29)) {
        t_lib = false;
        if (g_soft) { snprintf(SH->cls, sizeof SH->cls, "BIG"); finish(4); }
        snprintf(SH->cls, sizeof SH->cls, "RUNAWAY");
        snprintf(SH->msg, sizeof SH->msg, "more than 1.5 GB live during: %.300s", SH->phase);
        finish(2);
    }
}
static inline bool tail_ok(Hdr* h) { unsigned char* t = (unsigned char*)(h + 1) + h->size; for (size_t i = 0; i < TAIL; ++i) if (t[i] != 0xC5) return false; return true; }
static void q_check(Hdr* h, const char* where) {
    unsigned char* p = (unsigned char*)(h + 1);
    if (h->magic != FREED) heap_bug("freed block header overwritten", where);
    for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xDD) heap_bug("write after free", where);
}
static void* sim_alloc(size_t n, bool nothrow, uintptr_t site) {
    if (t_lib) {
        ++g_allocs;
        if (g_fault.armed) {
            ++g_fault.seen;
            if (g_fault.at && (g_fault.sticky ? g_fault.seen >= g_fault.at : g_fault.seen == g_fault.at)) {
                if (!g_fault.fired) {
                    g_fault.site = site;
                    bool have = false;
                    for (int i = 0; i < SH->nsites; ++i) if (SH->sites[i] == site) { have = true; break; }
                    if (!have && SH->nsites < 4096) SH->sites[SH->nsites++] = site;
                }
                ++g_fault.fired;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        if (n > (1ull << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n + TAIL);
    if (!h) abort();
    h->magic = MAGIC; h->size = n; h->seq = g_allocs; h->lib = t_lib; h->pad = 0;
    h->next = &g_list; h->prev = g_list.prev; g_list.prev->next = h; g_list.prev = h;
    memset(h + 1, 0xCD, n); memset((char*)(h + 1) + n, 0xC5, TAIL);
    if (t_lib) { ++g_live; g_live_bytes += n; if (g_live_bytes > (3ull << 29)) mem_cap(); }
    return h + 1;
}
static void sim_free(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == FREED) heap_bug("double free", "in operator delete");
    if (h->magic != MAGIC) heap_bug("bad pointer or header overwritten", "in operator delete");
    if (!tail_ok(h)) heap_bug("write past the end", "in operator delete");
    h->prev->next = h->next; h->next->prev = h->prev;
    if (h->lib) { --g_live; g_live_bytes -= h->size; }
    h->magic = FREED; memset(p, 0xDD, h->size);
    if (h->size <= 2048) {
        Hdr* old = g_q[g_qi]; g_q[g_qi] = h; g_qi = (g_qi + 1) % QN;
        if (old) { q_check(old, "found when recycling a freed block"); free(old); }
    } else free(h);
}
void check_heap(const char* where) {
    for (Hdr* h = g_list.next; h != &g_list; h = h->next) { if (h->magic != MAGIC) heap_bug("live block header overwritten", where); if (!tail_ok(h)) heap_bug("write past the end", where); }
    for (int i = 0; i < QN; ++i) if (g_q[i]) q_check(g_q[i], where);
}
void arm(uint64_t at, bool sticky) { g_fault = AllocFault(); g_fault.armed = true; g_fault.at = at; g_fault.sticky = sticky; }
AllocFault disarm() { AllocFault f = g_fault; g_fault = AllocFault(); return f; }
AllocFault peek() { return g_fault; }
int64_t live_blocks() { return g_live; }
int64_t live_gmp() { return g_live_gmp; }
uint64_t alloc_count() { return g_allocs; }

// time spent inside GMP on big numbers is invisible to the block callback: charge it by size
static inline void big_ticks(size_t n) { if (n > 64) { g_ticks += n / 8 + (n > 512 ? (n / 64) * (n / 256) : 0); if (g_ticks >= g_next) slow(); } }
struct GHdr { size_t size; uint32_t lib; uint32_t magic; };
static void* gm_alloc(size_t n) {
    GHdr* h = (GHdr*)malloc(sizeof(GHdr) + n); if (!h) abort();
    h->size = n; h->lib = t_lib; h->magic = 0x6a3b71u; memset(h + 1, 0xCD, n);
    if (t_lib) { ++g_live_gmp; g_live_bytes += n; mem_cap(); big_ticks(n); }
    return h + 1;
}
static void gm_free(void* p, size_t) {
    if (!p) return;
    GHdr* h = (GHdr*)p - 1;
    if (h->magic != 0x6a3b71u) heap_bug("bad free of a GMP block", "in mpz_clear");
    h->magic = 0;
    if (h->lib) { --g_live_gmp; g_live_bytes -= h->size; }
    memset(p, 0xDD, h->size); free(h);
}
static void* gm_realloc(void* p, size_t, size_t n) {
    GHdr* h = (GHdr*)p - 1;
    if (h->magic != 0x6a3b71u) heap_bug("bad realloc of a GMP block", "in mpz_realloc");
    if (h->lib) { g_live_bytes -= h->size; g_live_bytes += n; mem_cap(); big_ticks(n); }
    h = (GHdr*)realloc(h, sizeof(GHdr) + n); if (!h) abort();
    h->size = n; return h + 1;
}
__attribute__((constructor(101))) static void early() {
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mp_set_memory_functions(gm_alloc, gm_realloc, gm_free);
}
}
void* operator new(size_t n) { return sim::sim_alloc(n, false, (uintptr_t)__builtin_return_address(0)); }
void* operator new[](size_t n) { return sim::sim_alloc(n, false, (uintptr_t)__builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, true, (uintptr_t)__builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, true, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }

namespace sim {
// ================================================================ random draws
// segment kinds: f fair; 0 all bits zero; m all bits one; c counting from a; p pairs (0, a+i/2);
// P pairs (0, a); k constant a; h constant with a in the top 16 bits; g grid of step 2^bits/a; e one fair
// word repeated; r counting down from a; s small fair word below a; S pairs (0, small fair below a)
struct DrawState {
    Draws d; size_t seg = 0; uint64_t pos = 0, used = 0, adv = 0; Rng r{1}; uint64_t echo = 0;
    uint64_t tokens = 0; uint32_t engines = 0; std::set<uint64_t> issued;
};
static __thread DrawState* t_draw = nullptr;
static DrawState& ds() { if (!t_draw) { Host h; t_draw = new DrawState(); } return *t_draw; }
void draws_begin(const Draws& d) {
    Host h; DrawState& s = ds(); s = DrawState(); s.d = d; s.r = Rng(mix(d.seed, 77));
}
uint64_t draws_used() { return ds().used; }
uint64_t draws_adversarial() { return ds().adv; }
uint64_t draws_engines() { return ds().engines; }
uint32_t rd_token() { Host h; DrawState& s = ds(); uint32_t t = (uint32_t)mix(s.d.seed ^ 0x70c3, ++s.tokens); s.issued.insert(t); return t; }
bool token_issued(uint64_t v, uint32_t& id) { Host h; DrawState& s = ds(); if (!s.issued.count(v)) return false; id = ++s.engines; return true; }
uint64_t draw_word(unsigned bits) {
    DrawState& s = ds(); ++s.used; ++SH->words;
    uint64_t mask = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    while (s.seg < s.d.segs.size() && s.pos >= s.d.segs[s.seg].n) { ++s.seg; s.pos = 0; }
    uint64_t w;
    if (s.seg >= s.d.segs.size()) w = s.r.next();
    else {
        const Seg& g = s.d.segs[s.seg]; uint64_t i = s.pos++;
        if (g.kind != 'f') ++s.adv;
        if (g_progress) { g_limit = g_ticks + g_progress; renext(); }
        switch (g.kind) {
        case '0': w = 0; break;
        case 'm': w = ~0ull; break;
        case 'c': w = g.a + i; break;
        case 'r': w = g.a - i; break;
        case 'p': w = (i & 1) ? g.a + i / 2 : 0; break;
        case 'P': w = (i & 1) ? g.a : 0; break;
        case 'k': w = g.a; break;
        case 'h': w = (g.a & 0xffff) << (bits - 16); break;
        case 'g': { uint64_t step = g.a ? (mask / g.a) : 1; w = i * step + (step >> 1); break; }
        case 'e': if (i == 0) s.echo = s.r.next(); w = s.echo; break;
        case 's': w = 1 + s.r.below(g.a ? g.a : 1); break;
        case 'S': w = (i & 1) ? s.r.below(g.a ? g.a : 1) : 0; break;
        default: w = s.r.next();
        }
    }
    return bits == 64 ? w : (w & mask);
}
std::string draws_text(const Draws& d) {
    std::string o = std::to_string(d.seed);
    for (auto& g : d.segs) { o += ';'; o += g.kind; o += ',' + std::to_string(g.n) + ',' + std::to_string(g.a); }
    return o;
}
Draws draws_parse(const std::string& s) {
    Draws d; auto v = split(s, ';'); if (v.empty()) return d;
    d.seed = strtoull(v[0].c_str(), nullptr, 10);
    for (size_t i = 1; i < v.size(); ++i) { auto w = split(v[i], ','); if (w.size() < 3 || w[0].empty()) continue; d.segs.push_back({w[0][0], strtoull(w[1].c_str(), nullptr, 10), strtoull(w[2].c_str(), nullptr, 10)}); }
    return d;
}
Draws draws_gen(Rng& r) {
    Draws d; d.seed = 1 + r.below(1u << 30);
    if (r.chance(1, 8)) return d;                                   // fair only
    int n = 1 + (int)r.below(4);
    static const char kinds[] = "0mccppPkhgesSsSr";
    for (int i = 0; i < n; ++i) {
        Seg g; g.kind = kinds[r.below(sizeof kinds - 1)];
        if (r.chance(1, 4)) g.kind = 'f';
        g.n = 1 + (r.chance(1, 2) ? r.below(6) : r.chance(3, 4) ? r.below(60) : r.below(600));
        switch (g.kind) {
        case 'c': case 'p': case 'P': case 'k': g.a = r.below(r.chance(1, 2) ? 4 : 40); break;
        case 'r': g.a = r.chance(1, 2) ? ~0ull - r.below(80) : 40 + r.below(40); break;
        case 'h': g.a = r.below(65536); break;
        case 'g': g.a = 2 + r.below(30); break;
        case 's': case 'S': g.a = 1 + r.below(12); break;
        default: g.a = 0;
        }
        d.segs.push_back(g);
    }
    return d;
}
}
extern "C" int rand(void) noexcept { return (int)(sim::draw_word(32) >> 1); }
extern "C" void srand(unsigned) noexcept {}
extern "C" long random(void) noexcept { return (long)(sim::draw_word(32) >> 1); }
extern "C" time_t time(time_t* t) noexcept { time_t v = 1700000000 + (time_t)(sim::g_ticks / 1000000); if (t) *t = v; return v; }

namespace sim {
// ================================================================ threads
struct Th { sem_t sem; bool done = true; const std::function<void()>* body = nullptr; pthread_t id; };
static Th g_th[16]; static int g_nth = 0; static int g_cur = -1; static sem_t g_main;
static const std::vector<Switch>* g_plan = nullptr; static size_t g_plan_i = 0;
static SchedStats g_st; static uint64_t g_idle_yields = 0, g_idle_tick = 0;
int self() { return t_self; }
static void to_thread(int n) {
    int me = t_self; if (n == me) return;
    ++g_st.switches; g_cur = n; g_st.hash = (g_st.hash ^ (g_ticks * 31 + (uint64_t)n)) * 1099511628211ull;
    sem_post(&g_th[n].sem);
    while (sem_wait(&g_th[me].sem) != 0) {}
}
static int next_alive(int from, unsigned step) {
    int alive[16], k = 0; for (int i = 0; i < g_nth; ++i) if (!g_th[i].done && i != from) alive[k++] = i;
    if (!k) return -1;
    return alive[step % k];
}
static void arm_switch() {
    g_next_switch = g_ticks + (g_plan && g_plan_i < g_plan->size() ? (*g_plan)[g_plan_i].gap : 250000);
    renext();
}
static void sched_tick() {
    if (t_self < 0) { g_next_switch = ~0ull; renext(); return; }
    bool l = t_lib; t_lib = false;
    unsigned to = g_plan_i < g_plan->size() ? (*g_plan)[g_plan_i].to : (unsigned)(t_self);
    if (g_plan_i < g_plan->size()) ++g_plan_i;
    int n = next_alive(t_self, to);
    arm_switch();
    if (n >= 0) to_thread(n);
    t_lib = l;
}
static void yield_blocked() {
    bool l = t_lib; t_lib = false;
    ++g_st.blocked;
    if (g_idle_tick != g_ticks) { g_idle_tick = g_ticks; g_idle_yields = 0; }
    if (++g_idle_yields > 4000) fail("DEADLOCK", std::string("all threads wait on each other during: ") + SH->phase);
    int n = next_alive(t_self, (unsigned)g_idle_yields);
    if (n < 0) fail("DEADLOCK", std::string("a thread waits for itself during: ") + SH->phase);
    to_thread(n);
    t_lib = l;
}
static pthread_key_t g_key; static void th_end(void* a);
static void* th_main(void* a) {
    int i = (int)(intptr_t)a;
    while (sem_wait(&g_th[i].sem) != 0) {}
    t_self = i;
    pthread_setspecific(g_key, (void*)(intptr_t)(i + 1));
    (*g_th[i].body)();
    t_lib = false;
    return nullptr;                                      // destructors of thread_local objects still run with this thread's turn
}
static void th_end(void* a) {                                // after them: the turn goes to another thread
    int i = (int)(intptr_t)a - 1;
    g_th[i].done = true;
    int n = next_alive(i, 0);
    t_self = -1;
    if (n >= 0) { g_cur = n; g_st.hash = (g_st.hash ^ (g_ticks * 31 + (uint64_t)n)) * 1099511628211ull; sem_post(&g_th[n].sem); }
    else sem_post(&g_main);
}
SchedStats run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& plan, unsigned first) {
    Host h;
    static bool key = false; if (!key) { key = true; if (pthread_key_create(&g_key, th_end)) abort(); }
    g_nth = (int)bodies.size(); g_plan = &plan; g_plan_i = 0; g_st = SchedStats(); sem_init(&g_main, 0, 0);
    for (int i = 0; i < g_nth; ++i) { sem_init(&g_th[i].sem, 0, 0); g_th[i].done = false; g_th[i].body = &bodies[i]; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20);
    for (int i = 0; i < g_nth; ++i) if (pthread_create(&g_th[i].id, &at, th_main, (void*)(intptr_t)i)) abort();
    arm_switch();
    g_cur = (int)(first % g_nth); sem_post(&g_th[g_cur].sem);
    while (sem_wait(&g_main) != 0) {}
    for (int i = 0; i < g_nth; ++i) pthread_join(g_th[i].id, nullptr);
    g_next_switch = ~0ull; renext(); g_plan = nullptr;
    return g_st;
}
}
// function-local statics, mutexes, once flags: blocking becomes a scheduling decision
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    char* b = (char*)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (sim::t_self < 0) return 1;
        ++sim::g_st.guard_waits; sim::yield_blocked();
    }
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept { char* b = (char*)g; b[0] = 1; b[1] = 0; }
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept { ((char*)g)[1] = 0; }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (sim::t_self >= 0) { while (true) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; ++sim::g_st.mutex_waits; sim::yield_blocked(); } }
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!real) { void* p = dlsym(RTLD_NEXT, "pthread_mutex_lock"); memcpy(&real, &p, sizeof p); }
    return real(m);
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { while (true) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY || sim::t_self < 0) return r; sim::yield_blocked(); } }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { while (true) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY || sim::t_self < 0) return r; sim::yield_blocked(); } }
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) {
    volatile int* s = (volatile int*)o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
        if (sim::t_self < 0) return 0;
        sim::yield_blocked();
    }
}

// ================================================================ driver
namespace sim {
static void on_terminate() {
    bool l = t_lib; (void)l; t_lib = false;
    std::string w = "no active exception";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { w = x.what(); } catch (...) { w = "unknown"; } }
    fail("TERMINATE", "std::terminate (" + w + ") during: " + SH->phase);
}
struct Outcome { std::string status, cls, msg; };
static Outcome run_forked(const Plan& p, bool verbose) {
    SH->status = 0; SH->cls[0] = SH->msg[0] = SH->phase[0] = SH->sample[0] = 0; SH->loghash = 1469598103934665603ull;
    SH->pathhash = SH->ticks = SH->words = SH->allocs = 0; SH->nontrivial = 0; SH->ncnt = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        std::set_terminate(on_terminate);
        g_verbose = verbose;
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm((unsigned)SC->wall_s);
        set_tick_limit(0);
        try { SC->exec(p); }
        catch (const std::exception& e) { fail("ESCAPED", std::string("exception escaped: ") + e.what() + " during: " + SH->phase); }
        catch (...) { fail("ESCAPED", std::string("unknown exception escaped during: ") + SH->phase); }
        t_lib = false;
        check_heap("at the end of the run");
        SH->allocs = g_allocs;
        finish(1);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.cls = SH->cls; o.msg = SH->msg;
    if (SH->status == 1) o.status = "OK";
    else if (SH->status == 2) o.status = "FAIL";
    else if (SH->status == 3) o.status = "INVALID";
    else if (SH->status == 4) o.status = "LONG";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o.status = "WALL";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.status = "KILLED";
    else if (WIFSIGNALED(st)) { o.status = "FAIL"; o.cls = std::string("CRASH:") + strsignal(WTERMSIG(st)); o.msg = std::string("killed by signal during: ") + SH->phase; }
    else { o.status = "FAIL"; o.cls = "CRASH:exit"; o.msg = "process exited unexpectedly"; }
    for (auto& c : o.cls) if (c == ' ' || c == '|') c = '_';
    return o;
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}
static std::string slurp(const char* f) { std::string s; FILE* h = fopen(f, "rb"); if (!h) { fprintf(stderr, "cannot read %s\n", f); exit(2); } char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t run_seed(uint64_t base, uint64_t i) { return mix(mix(base, fnv(SC->id)), i); }
static Plan gen_plan(uint64_t base, uint64_t i, const std::string& tier) {
    Rng r(run_seed(base, i)); Plan p = SC->gen(r, tier); return p;
}
static uint64_t run_hash() { return SH->loghash * 1099511628211ull ^ SH->pathhash ^ SH->ticks; }
static int drive(int argc, char** argv) {
    SC = &scenario;
    if (argc < 2) { fprintf(stderr, "usage: gen|exec|batch\n"); return 2; }
    std::string mode = argv[1];
    if (mode == "gen") { std::string t = gen_plan(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), argc > 4 ? argv[4] : "quick").text(); fwrite(t.data(), 1, t.size(), stdout); return 0; }
    if (mode == "exec") {
        Plan p = Plan::parse(slurp(argv[2]));
        Outcome o = run_forked(p, argc > 3);
        printf("{\"status\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"ticks\":%llu,\"words\":%llu}\n", jstr(o.status).c_str(), jstr(o.cls).c_str(), jstr(o.msg).c_str(),
               (unsigned long long)run_hash(), (unsigned long long)SH->ticks, (unsigned long long)SH->words);
        return 0;
    }
    if (mode == "batch") {
        uint64_t base = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), maxruns = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]); const char* out = argv[7]; std::string tier = argv[8];
        double t0 = now(); uint64_t runs = 0, ok = 0, inv = 0, wall = 0, nontriv = 0; unsigned long long tsum = 0, tmax = 0, words = 0, allocs = 0; uint64_t imax = 0;
        std::map<std::string, uint64_t> cnt; std::set<uint64_t> sigs; std::set<uintptr_t> sites; std::string fails, samples, hashes; int nf = 0, ns = 0, nh = 0;
        for (uint64_t k = 0; k < maxruns && now() - t0 < secs; ++k) {
            uint64_t i = start + k * stride;
            Plan p = gen_plan(base, i, tier);
            Outcome o = run_forked(p, false);
            ++runs; tsum += SH->ticks; words += SH->words; allocs += SH->allocs;
            if (SH->ticks > tmax) { tmax = SH->ticks; imax = i; }
            for (int c = 0; c < SH->ncnt; ++c) cnt[SH->cnt[c].k] += SH->cnt[c].v;
            for (int c = 0; c < SH->nsites; ++c) sites.insert(SH->sites[c]);
            SH->nsites = 0;
            if (o.status == "OK") {
                ++ok; if (SH->nontrivial) { ++nontriv; sigs.insert(SH->pathhash ^ SH->loghash); }
                if (ns < 3 && SH->sample[0] && SH->nontrivial) { if (ns++) samples += ","; samples += jstr(SH->sample); }
            } else if (o.status == "INVALID") ++inv;
            else if (o.status == "FAIL") {
                if (nf++) fails += ",";
                fails += "{\"index\":" + std::to_string(i) + ",\"cls\":" + jstr(o.cls) + ",\"msg\":" + jstr(o.msg) + "}";
            } else { ++wall; cnt["abandoned:" + o.status]++; if (wall <= 3) fprintf(stderr, "abandoned run index %llu (%s) in %s\n", (unsigned long long)i, o.status.c_str(), SH->phase); }
            if (nh < 40 && (o.status == "OK" || o.status == "INVALID")) { char b[80]; snprintf(b, sizeof b, "%s[%llu,\"%016llx\"]", nh ? "," : "", (unsigned long long)i, (unsigned long long)run_hash()); hashes += b; ++nh; }
            if (nf >= 4) break;
        }
        uint64_t edges = 0; for (size_t i = 0; i < sizeof SH->cov; ++i) edges += SH->cov[i];
        FILE* f = fopen(out, "wb"); if (!f) return 2;
        fprintf(f, "{\"runs\":%llu,\"ok\":%llu,\"invalid\":%llu,\"abandoned\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"ticks\":%llu,\"max_ticks\":%llu,\"max_index\":%llu,\"words\":%llu,\"allocs\":%llu,\"edges\":%llu,\"wall\":%.3f,",
                (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)inv, (unsigned long long)wall, (unsigned long long)nontriv, sigs.size(), tsum, tmax, (unsigned long long)imax, words, allocs, (unsigned long long)edges, now() - t0);
        fprintf(f, "\"counts\":{"); bool first = true; for (auto& c : cnt) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\"sites\":["); first = true; for (auto s : sites) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)s); first = false; }
        fprintf(f, "],\"sigs\":["); first = true; for (auto s : sigs) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
        fprintf(f, "],\"cov\":\""); for (size_t i = 0; i < sizeof SH->cov; i += 4) fprintf(f, "%x", SH->cov[i] | SH->cov[i + 1] << 1 | SH->cov[i + 2] << 2 | SH->cov[i + 3] << 3);
        fprintf(f, "\",\"samples\":[%s],\"hashes\":[%s],\"fails\":[%s]}\n", samples.c_str(), hashes.c_str(), fails.c_str());
        fclose(f);
        return 0;
    }
    return 2;
}
}
int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    struct rlimit rl = {512u << 20, 512u << 20}; getrlimit(RLIMIT_STACK, &rl);
    return sim::drive(argc, argv);
}
