#include "sim.hpp"

#include <algorithm>
#include <chrono>
#include <cerrno>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

#include <boost/thread.hpp>

extern "C" {
void* __real_malloc(size_t n);
void* __real_calloc(size_t a, size_t b);
void* __real_realloc(void* p, size_t n);
void  __real_free(void* p);
int   __real_clock_gettime(clockid_t c, struct timespec* ts);
}

std::function<void(bool, const void*, double)> sim_open_hook;

namespace sim {

const int SIM_RAND_MAX = 2147483647;

static const char* KIND_NAMES[N_KINDS] = {"read", "write", "pop", "push", "clock", "intr", "cb",
                                          "gt", "cand", "alloc", "rand", "step"};
static const char* FAULT_NAMES[N_FAULTS] = {
    "preemption", "map_read_error", "allocation_failure", "map_changed_mid_call", "stall",
    "wall_clock_jump_forward", "wall_clock_jump_back", "interrupt_request", "callback_error",
    "goal_test_error", "candidate_callback_error", "candidate_callback_stop", "time_limit_hit",
    "memory_poison", "biased_random_source", "map_write_error", "planner_abandoned",
    "callback_reenters_other_planner", "map_resized_in_place"};

const char* kind_name(int k) { return k >= 0 && k < N_KINDS ? KIND_NAMES[k] : "any"; }
int kind_of(const std::string& s)
{
    for (int i = 0; i < N_KINDS; ++i)
        if (s == KIND_NAMES[i]) return i;
    return -1;
}
const char* fault_name(int f) { return FAULT_NAMES[f]; }

u64 mix(u64 a, u64 b)
{
    u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
    z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 32);
}

// ------------------------------------------------------------------ plans
Op& Op::set(const std::string& k, const std::string& v)
{
    for (auto& p : kv)
        if (p.first == k) { p.second = v; return *this; }
    kv.push_back(std::make_pair(k, v));
    return *this;
}
bool Op::has(const std::string& k) const
{
    for (auto& p : kv) if (p.first == k) return true;
    return false;
}
i64 Op::num(const std::string& k, i64 def) const
{
    for (auto& p : kv) if (p.first == k) return atoll(p.second.c_str());
    return def;
}
std::string Op::str(const std::string& k, const std::string& def) const
{
    for (auto& p : kv) if (p.first == k) return p.second;
    return def;
}
std::string Op::text() const
{
    std::string s = kind;
    for (auto& p : kv) s += " " + p.first + "=" + p.second;
    return s;
}
const Op* Plan::find(const std::string& k) const
{
    for (auto& o : ops) if (o.kind == k) return &o;
    return nullptr;
}
std::vector<const Op*> Plan::all(const std::string& k) const
{
    std::vector<const Op*> r;
    for (auto& o : ops) if (o.kind == k) r.push_back(&o);
    return r;
}
i64 Plan::num(const std::string& kind, const std::string& key, i64 def) const
{
    const Op* o = find(kind);
    return o ? o->num(key, def) : def;
}
std::string Plan::text() const
{
    std::string s;
    for (auto& o : ops) s += o.text() + "\n";
    return s;
}
Plan Plan::parse(const std::string& text)
{
    Plan p;
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string w;
        if (!(ls >> w)) continue;
        Op o(w);
        while (ls >> w) {
            size_t e = w.find('=');
            if (e == std::string::npos) continue;
            o.set(w.substr(0, e), w.substr(e + 1));
        }
        p.ops.push_back(o);
    }
    return p;
}

// ------------------------------------------------------------------ shared result of a run
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOL = 2 };
enum { MAX_STATES = 8192 };
struct Shared {
    volatile int status;
    char cls[96];
    char detail[3000];
    u64 hash;
    u64 fired[N_FAULTS];
    u64 total[N_KINDS];
    u64 yields;
    u64 sim_ns;
    u64 nontrivial;
    u64 n_states;
    u64 states[MAX_STATES];
};
static Shared* R = nullptr;
static bool g_trace = false;
static int g_outfd = 1;

static void out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void out(const char* fmt, ...)
{
    char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    ssize_t w = write(g_outfd, buf, n);
    (void)w;
}

void fired(int f) { R->fired[f]++; }
u64 fired_count(int f) { return R->fired[f]; }
void note_nontrivial() { R->nontrivial = 1; }
bool tracing() { return g_trace; }
u64 run_hash() { return R->hash; }

static thread_local int tl_inlib = 0;
struct Quiet { int s; Quiet() : s(tl_inlib) { tl_inlib = 0; } ~Quiet() { tl_inlib = s; } };

void ev(const char* tag, u64 a, u64 b, u64 c, u64 d)
{
    u64 h = R->hash;
    for (const char* p = tag; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    h = mix(h, a); h = mix(h, b); h = mix(h, c); h = mix(h, d);
    R->hash = h;
    if (g_trace && getenv("SIM_EVENTS")) out("  ev %s %llu %llu %llu %llu -> %016llx\n", tag, a, b, c, d, h);
}
void state(u64 h)
{
    if (R->n_states < MAX_STATES) R->states[R->n_states++] = h;
}
void trace(const char* fmt, ...)
{
    if (!g_trace) return;
    Quiet q;
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    out("  [%3d t=%lld ns] %s\n", current_task(), now(), buf);
}

static void finish_run(int status)
{
    R->sim_ns = now();
    R->status = status;
    _exit(0);
}
void fail(const char* cls, const char* fmt, ...)
{
    tl_inlib = 0;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->detail, sizeof R->detail, fmt, ap);
    va_end(ap);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    if (g_trace) out("  FAIL %s: %s\n", R->cls, R->detail);
    finish_run(ST_VIOL);
    abort();
}

// ------------------------------------------------------------------ clock
static i64 g_now = 0, g_wall_off = 0;
static i64 g_cost[N_KINDS] = {100, 100, 500, 200, 0, 0, 1000, 100, 1000, 0, 10, 0};
static u64 g_clock_reads = 0;
i64 now() { return g_now; }
i64 wall() { return 1600000000ll * 1000000000ll + g_now + g_wall_off; }
void advance(i64 ns) { if (ns > 0) g_now += ns; }
void jump_wall(i64 ns)
{
    g_wall_off += ns;
    fired(ns >= 0 ? F_WALL_FWD : F_WALL_BACK);
    trace("wall clock jumps by %lld ns", ns);
}
void set_cost(int k, i64 ns) { g_cost[k] = ns; }
u64 clock_reads() { return g_clock_reads; }

// ------------------------------------------------------------------ tasks
struct Task {
    int id;
    sem_t sem;
    std::function<void()> f;
    std::thread th;
    bool done;
    bool interrupt;
    int phase;
    u64 cnt[N_KINDS];
    u64 tie_seed, tie_seq;
    Task() : id(-1), done(false), interrupt(false), phase(0), tie_seed(1), tie_seq(0)
    {
        memset(cnt, 0, sizeof cnt);
        sem_init(&sem, 0, 0);
    }
};
static Task g_main;
static std::vector<Task*> g_tasks;
static Task* g_cur = &g_main;
static thread_local Task* tl_task = &g_main;

int current_task() { return g_cur->id; }
void pretend_task(int id) { g_cur->id = id; }

static void wait_sem(sem_t* s)
{
    while (sem_wait(s) != 0 && errno == EINTR) {}
}
static void hand_to(Task* t)
{
    Task* me = tl_task;
    if (t == me) return;
    g_cur = t;
    sem_post(&t->sem);
    wait_sem(&me->sem);
}
static Task* next_alive(int from)
{
    int n = (int)g_tasks.size();
    for (int i = 1; i <= n; ++i) {
        Task* t = g_tasks[(from + i) % n];
        if (!t->done) return t;
    }
    return nullptr;
}
int spawn(std::function<void()> f)
{
    Task* t = new Task();
    t->id = (int)g_tasks.size();
    t->f = f;
    g_tasks.push_back(t);
    t->th = std::thread([t] {
        tl_task = t;
        wait_sem(&t->sem);
        t->f();
        tl_inlib = 0;
        t->done = true;
        ev("task-done", t->id);
        Task* n = next_alive(t->id);
        g_cur = n ? n : &g_main;
        sem_post(&g_cur->sem);
    });
    return t->id;
}
void run_tasks()
{
    if (g_tasks.empty()) return;
    Task* first = next_alive((int)g_tasks.size() - 1);
    if (first) {
        g_cur = first;
        sem_post(&first->sem);
        wait_sem(&g_main.sem);
    }
    for (Task* t : g_tasks) t->th.join();
    g_tasks.clear();
    g_cur = &g_main;
}
bool task_done(int t) { return t < 0 || t >= (int)g_tasks.size() || g_tasks[t]->done; }
void switch_to_next()
{
    Quiet q;
    if (g_cur->id < 0) return;
    Task* n = next_alive(g_cur->id);
    if (n && n != g_cur) { ev("sw", g_cur->id, n->id); hand_to(n); }
}
static Task* task_by_id(int t) { if (t == g_cur->id) return g_cur; return t < 0 || t >= (int)g_tasks.size() ? (t < 0 ? &g_main : nullptr) : g_tasks[t]; }
void request_interrupt(int t)
{
    Task* k = task_by_id(t);
    if (k && !k->interrupt) { k->interrupt = true; fired(F_INTERRUPT); trace("interrupt requested for task %d", t); }
}
void clear_interrupt(int t) { Task* k = task_by_id(t); if (k) k->interrupt = false; }
bool interrupt_pending() { return g_cur->interrupt; }
void nested(int id, std::function<void()> f)
{
    Quiet q;
    Task* me = g_cur;
    int i = me->id, ph = me->phase;
    bool in = me->interrupt;
    u64 ts = me->tie_seed, tq = me->tie_seq, c[N_KINDS];
    memcpy(c, me->cnt, sizeof c);
    me->id = id; me->interrupt = false;
    f();
    me->id = i; me->phase = ph; me->interrupt = in; me->tie_seed = ts; me->tie_seq = tq;
    memcpy(me->cnt, c, sizeof c);
}

// ------------------------------------------------------------------ triggers
struct Trigger { int t, s, k; u64 n; bool any_t, any_s, any_k, done; Op op; };
static std::vector<Trigger>* g_trig = nullptr;
static ActionHandler* g_handler = nullptr;
static std::function<void(int, bool)>* g_obs = nullptr;
void set_observer(std::function<void(int, bool)> f) { delete g_obs; g_obs = f ? new std::function<void(int, bool)>(f) : nullptr; }
static u64 g_steps = 0, g_step_limit = 2000000;

void set_action_handler(ActionHandler h) { delete g_handler; g_handler = new ActionHandler(h); }
ActionHandler get_action_handler() { return g_handler ? *g_handler : ActionHandler(); }
void clear_triggers() { if (g_trig) g_trig->clear(); }
void load_triggers(const Plan& p)
{
    if (!g_trig) g_trig = new std::vector<Trigger>();
    g_trig->clear();
    for (auto& o : p.ops) {
        if (o.kind != "at") continue;
        Trigger t;
        t.any_t = !o.has("t"); t.t = (int)o.num("t");
        t.any_s = !o.has("s"); t.s = (int)o.num("s");
        t.k = kind_of(o.str("k", "any")); t.any_k = t.k < 0;
        t.n = (u64)o.num("n");
        t.done = false;
        t.op = o;
        g_trig->push_back(t);
    }
}
static bool g_trig_on = true;
void enable_triggers(bool on) { g_trig_on = on; }
void rearm_triggers()
{
    if (!g_trig) return;
    for (auto& t : *g_trig) t.done = false;
}
void phase(int s)
{
    g_cur->phase = s;
    memset(g_cur->cnt, 0, sizeof g_cur->cnt);
}
int current_phase() { return g_cur->phase; }
u64 count(int k) { return g_cur->cnt[k]; }
u64 total(int k) { return R->total[k]; }
void set_step_limit(u64 n) { g_step_limit = n; }
void allow_steps(u64 n) { g_step_limit += n; }

// returns true if an allocation at this point must fail
static bool yield_inner(int kind);
static bool yield_impl(int kind)
{
    Quiet q;
    if (g_obs) (*g_obs)(kind, false);
    bool r = yield_inner(kind);
    if (g_obs) (*g_obs)(kind, true);
    return r;
}
static bool yield_inner(int kind)
{
    Quiet q;
    Task* me = g_cur;
    me->cnt[kind]++;
    R->total[kind]++;
    R->yields++;
    ++g_steps;
    if (g_steps > g_step_limit)
        fail("no-progress", "no end after %llu steps of the simulation", g_steps);
    advance(g_cost[kind]);
    bool fail_alloc = false;
    if (!g_trig || !g_trig_on || g_trig->empty()) return false;
    Trigger* thrower = nullptr;
    Trigger* sw = nullptr;
    for (size_t i = 0; i < g_trig->size(); ++i) {
        Trigger& t = (*g_trig)[i];
        if (t.done) continue;
        if (!t.any_t && t.t != me->id) continue;
        if (!t.any_s && t.s != me->phase) continue;
        if (t.any_k) {
            if (g_steps != t.n) continue;
        } else {
            if (t.k != kind) continue;
            if (me->cnt[kind] < t.n) continue;
            i64 m = t.op.num("m", 1);
            if (me->cnt[kind] >= t.n + (u64)m) continue;
        }
        const std::string what = t.op.str("do");
        bool last = me->cnt[kind] + 1 >= t.n + (u64)t.op.num("m", 1);
        if (t.any_k || last) t.done = true;
        if (what == "sw") {
            sw = &t;
        } else if (what == "stall") {
            advance(t.op.num("ns"));
            fired(F_STALL);
            ev("stall", t.op.num("ns"));
        } else if (what == "jump") {
            jump_wall(t.op.num("ns"));
            ev("jump", (u64)t.op.num("ns"));
        } else if (what == "intr") {
            request_interrupt((int)t.op.num("task", me->id));
            ev("intr-req", me->id);
        } else if (what == "fail") {
            if (kind == ALLOC) fail_alloc = true;
        } else if (what == "throw" || what == "stop") {
            thrower = &t;
        } else if (g_handler && *g_handler) {
            (*g_handler)(t.op, kind);
        }
    }
    if (sw) {
        int to = (int)sw->op.num("to", -1);
        Task* n = (to >= 0 && to < (int)g_tasks.size() && !g_tasks[to]->done) ? g_tasks[to] : nullptr;
        if (!n && me->id >= 0) n = next_alive(me->id);
        if (n && n != me && me->id >= 0) {
            fired(F_PREEMPT);
            ev("sw", me->id, n->id, kind);
            trace("preempted at %s #%llu, task %d runs", kind_name(kind), me->cnt[kind], n->id);
            hand_to(n);
            trace("resumed");
        }
    }
    if (fail_alloc) {
        fired(F_ALLOC_FAIL);
        ev("alloc-fail", me->cnt[kind]);
        trace("allocation #%llu of this phase fails", me->cnt[kind]);
        return true;
    }
    if (thrower && g_handler && *g_handler) (*g_handler)(thrower->op, kind);
    return false;
}
void yield(int kind) { yield_impl(kind); }

// ------------------------------------------------------------------ memory
struct Slot { void* p; size_t n; };
enum { TAB = 1 << 18 };
static Slot* g_tab = nullptr;
static u64 g_live = 0, g_live_bytes = 0, g_allocs = 0;
static u64 g_fail_first = 0, g_fail_n = 0, g_failed = 0;
static int g_poison = 0;
static Rng* g_poison_rng = nullptr;
static char g_poison_rng_mem[sizeof(Rng)];

static size_t slot_of(void* p) { return (size_t)(mix((u64)(size_t)p, 7) & (TAB - 1)); }
static void track(void* p, size_t n)
{
    if (!g_tab) {
        g_tab = (Slot*)mmap(nullptr, TAB * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    size_t i = slot_of(p);
    size_t guard = 0;
    while (g_tab[i].p && g_tab[i].p != (void*)1) { i = (i + 1) & (TAB - 1); if (++guard > TAB - 2) return; }
    g_tab[i].p = p; g_tab[i].n = n;
    ++g_live; g_live_bytes += n;
    if (g_live_bytes > (3ull << 30)) fail("memory-runaway", "more than 3 GB in use by the code under test");
}
static void untrack(void* p, bool scrub = true)
{
    if (!g_tab) return;
    size_t i = slot_of(p);
    size_t guard = 0;
    while (g_tab[i].p) {
        if (g_tab[i].p == p) {
            g_tab[i].p = (void*)1;
            --g_live; g_live_bytes -= g_tab[i].n;
#ifndef __SANITIZE_ADDRESS__
            if (scrub) memset(p, 0xDB, g_tab[i].n);       // a later use of it shows
#endif
            return;
        }
        i = (i + 1) & (TAB - 1);
        if (++guard > TAB - 2) return;
    }
}
static void poison(void* p, size_t n)
{
    switch (g_poison) {
    default:
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: {
        u64* q = (u64*)p;
        size_t w = n / 8;
        u64 x = g_poison_rng ? g_poison_rng->next() | 1 : 88172645463325252ull;
        for (size_t i = 0; i < w; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; q[i] = x; }
        if (n % 8) memset((char*)p + w * 8, (int)(x & 0xFF), n % 8);
        break;
    }
    case 3: { double d = -1.5; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char*)p + i, &d, 8); break; }
    case 4: { double d = 1e6; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char*)p + i, &d, 8); break; }
    case 5: { int d = 1; for (size_t i = 0; i + 4 <= n; i += 4) memcpy((char*)p + i, &d, 4); break; }
    }
    if (g_poison) R->fired[F_POISON]++;
}
static void* lib_alloc(size_t n, bool zero)
{
    Quiet q;
    ++g_allocs;
    bool bad = yield_impl(ALLOC);
    if (g_fail_first && g_allocs >= g_fail_first && g_allocs < g_fail_first + g_fail_n) {
        if (!bad) { fired(F_ALLOC_FAIL); trace("allocation #%llu (%zu bytes) fails", g_allocs, n); }
        bad = true;
    }
    if (bad) { ++g_failed; return nullptr; }
    void* p = __real_malloc(n ? n : 1);
    if (!p) return nullptr;
    if (zero) memset(p, 0, n); else poison(p, n);
    track(p, n);
    return p;
}
Lib::Lib() : saved(tl_inlib) { tl_inlib = 1; }
Lib::~Lib() { tl_inlib = saved; }
Env::Env() : saved(tl_inlib) { tl_inlib = 0; }
Env::~Env() { tl_inlib = saved; }
u64 live_blocks() { return g_live; }
u64 live_bytes() { return g_live_bytes; }
u64 alloc_count() { return g_allocs; }
void reset_alloc_stats() { g_allocs = 0; g_failed = 0; }
void set_fail_alloc(u64 first, u64 n) { g_fail_first = first; g_fail_n = n; }
u64 failed_allocs() { return g_failed; }
void set_poison(int mode, u64 seed)
{
    g_poison = mode;
    g_poison_rng = new (g_poison_rng_mem) Rng(seed);
}
int poison_mode() { return g_poison; }
// a reference run: whatever is not initialised has other contents
void other_poison() { int m = poison_mode(); set_poison(m ? m % 5 + 1 : 0, 4711); }

// ------------------------------------------------------------------ ties, random numbers
void set_tie_seed(u64 s) { g_cur->tie_seed = s; g_cur->tie_seq = 0; }
static RandSource* g_rand = nullptr;
static Rng g_rand_rng(1);
void set_rand_source(RandSource s) { delete g_rand; g_rand = s ? new RandSource(s) : nullptr; }

}  // namespace sim

using namespace sim;

uint64_t sim_tie()
{
    // seed 0: first in, first out; 1: last in, first out; else pseudo-random
    u64 n = ++g_cur->tie_seq;
    if (g_cur->tie_seed == 0) return 0;
    if (g_cur->tie_seed == 1) return ~n;
    return mix(g_cur->tie_seed, n);
}
void sim_on_push(const void* node, double key)
{
    Quiet q;
    if (sim_open_hook) sim_open_hook(true, node, key);
    sim::yield(PUSH);
}
bool sim_searching() { return sim::count(PUSH) > 0; }
void sim_on_pop(const void* node, double key)
{
    Quiet q;
    if (sim_open_hook) sim_open_hook(false, node, key);
    sim::yield(POP);
}

// ------------------------------------------------------------------ link seams
extern "C" {
void* __wrap_malloc(size_t n)
{
    if (!tl_inlib) return __real_malloc(n);
    void* p = lib_alloc(n, false);
    if (!p) errno = ENOMEM;
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (!tl_inlib) return __real_calloc(a, b);
    return lib_alloc(a * b, true);
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!tl_inlib) return __real_realloc(p, n);
    void* q = lib_alloc(n, false);
    if (!q) return nullptr;
    if (p) {
        untrack(p, false);
        void* r = __real_realloc(p, n ? n : 1);
        untrack(q);
        __real_free(q);
        track(r, n);
        return r;
    }
    return q;
}
void __wrap_free(void* p)
{
    if (p) untrack(p);
    __real_free(p);
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    i64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : now();
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*)
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    tv->tv_sec = wall() / 1000000000ll;
    tv->tv_usec = (wall() % 1000000000ll) / 1000;
    return 0;
}
time_t __wrap_time(time_t* t)
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    time_t r = wall() / 1000000000ll;
    if (t) *t = r;
    return r;
}
clock_t __wrap_clock(void)
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    return (clock_t)(now() / 1000);
}
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    ev("clk", 1, wall());
    return wall();
}
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    Quiet q;
    ++g_clock_reads;
    sim::yield(CLOCK);
    ev("clk", 0, now());
    return now();
}
int __wrap_rand(void)
{
    Quiet q;
    sim::yield(RAND);
    if (g_rand && *g_rand) return (*g_rand)();
    return (int)(g_rand_rng.next() & 0x7FFFFFFF);
}
void __wrap_srand(unsigned s)
{
    Quiet q;
    g_rand_rng = Rng(s);
}
void __wrap__ZN5boost11this_thread18interruption_pointEv()
{
    bool pending;
    {
        Quiet q;
        sim::yield(INTR);
        pending = g_cur->interrupt;
        if (pending) {
            g_cur->interrupt = false;
            ev("interrupted", g_cur->id);
            trace("interrupted");
        }
    }
    if (pending) throw boost::thread_interrupted();
}
}

void* operator new(size_t n)
{
    void* p = tl_inlib ? lib_alloc(n, false) : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return tl_inlib ? lib_alloc(n, false) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (p) { untrack(p); __real_free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ pristine references
namespace sim {
static int g_zreq = -1, g_zres = -1;
static void write_all(int fd, const void* p, size_t n)
{
    const char* c = (const char*)p;
    while (n) { ssize_t w = write(fd, c, n); if (w <= 0) _exit(9); c += w; n -= (size_t)w; }
}
static bool read_all(int fd, void* p, size_t n)
{
    char* c = (char*)p;
    while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= (size_t)r; }
    return true;
}
void start_zygote(std::function<std::string(const std::string&)> handler)
{
    Quiet q;
    int a[2], b[2];
    if (pipe(a) || pipe(b)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        close(a[1]); close(b[0]);
        for (;;) {
            u64 n;
            if (!read_all(a[0], &n, 8)) _exit(0);
            std::string req(n, 0);
            if (n && !read_all(a[0], &req[0], n)) _exit(0);
            pid_t c = fork();
            if (c == 0) {
                std::string res = handler(req);
                tl_inlib = 0;
                u64 m = res.size();
                char ok = 1;
                write_all(b[1], &ok, 1); write_all(b[1], &m, 8); write_all(b[1], res.data(), res.size());
                _exit(0);
            }
            int st;
            while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || R->status != ST_RUNNING) {
                char ok = 0; u64 m = (u64)st;
                write_all(b[1], &ok, 1); write_all(b[1], &m, 8);
            }
        }
    }
    close(a[0]); close(b[1]);
    g_zreq = a[1]; g_zres = b[0];
}
std::string in_pristine(const std::string& req)
{
    Quiet q;
    u64 n = req.size();
    Shared* keep = (Shared*)malloc(sizeof(Shared) - sizeof(R->states));
    memcpy(keep, R, sizeof(Shared) - sizeof(R->states));
    write_all(g_zreq, &n, 8); write_all(g_zreq, req.data(), req.size());
    char ok; u64 m = 0;
    if (!read_all(g_zres, &ok, 1) || !read_all(g_zres, &m, 8)) _exit(7);
    if (!ok) {
        if (R->status != ST_RUNNING) _exit(0);     // the child reported a violation
        // it died: its report is on the shared stderr; die the same way
        if (WIFSIGNALED((int)m)) { signal(WTERMSIG((int)m), SIG_DFL); raise(WTERMSIG((int)m)); }
        _exit(WEXITSTATUS((int)m) ? WEXITSTATUS((int)m) : 8);
    }
    std::string res(m, 0);
    if (m && !read_all(g_zres, &res[0], m)) _exit(7);
    u64 h = R->hash;
    u64 ns = R->n_states;
    memcpy(R, keep, sizeof(Shared) - sizeof(R->states));   // the reference does not count
    R->n_states = ns;
    free(keep);
    ev("pristine", h, res.size());
    return res;
}
}  // namespace sim

// ------------------------------------------------------------------ runs
namespace sim {

struct RunResult { int status; std::string cls, detail; u64 hash; bool timed_out; };

static std::string classify_crash(int st, const std::string& err)
{
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        std::string w = err.substr(p + 25);
        w = w.substr(0, w.find_first_of(" \n"));
        return "memory-error:" + w;
    }
    p = err.find("runtime error: ");
    if (p != std::string::npos) {
        std::string w = err.substr(p + 15);
        w = w.substr(0, w.find('\n'));
        std::string r;
        for (size_t i = 0; i < w.size() && r.size() < 40; ++i) {
            if (isdigit((unsigned char)w[i])) continue;
            r += isalpha((unsigned char)w[i]) ? w[i] : '-';
        }
        return "undefined-behaviour:" + r;
    }
    p = err.find("Assertion `");
    if (p != std::string::npos) {
        std::string w = err.substr(p + 11);
        w = w.substr(0, w.find('\''));
        for (auto& c : w) if (c == ' ' || c == '=') c = '_';
        return "assertion:" + w.substr(0, 60);
    }
    if (err.find("terminate called") != std::string::npos) return "uncaught-exception";
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return "hang";
    if (WIFSIGNALED(st)) return "signal:" + std::to_string(WTERMSIG(st));
    return "exit:" + std::to_string(WEXITSTATUS(st));
}

static int g_errfd = -1;

static void apply_common(const Plan& p)
{
    const Op* o = p.find("poison");
    if (o) set_poison((int)o->num("mode"), (u64)o->num("seed", 1));
    set_step_limit((u64)p.num("limit", "steps", 2000000));
    g_rand_rng = Rng((u64)p.num("rand", "seed", 1));
    for (auto c : p.all("cost")) {
        int k = kind_of(c->str("k"));
        if (k >= 0) set_cost(k, c->num("ns"));
    }
}

static RunResult run_plan(const Scenario& sc, const Plan& plan)
{
    memset(R, 0, sizeof(Shared) - sizeof(R->states));
    R->hash = 1469598103934665603ull;
    if (g_errfd >= 0) { if (ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET); }
    pid_t pid = fork();
    if (pid == 0) {
        if (g_errfd >= 0) dup2(g_errfd, 2);
        struct rlimit rl;
        rl.rlim_cur = 30; rl.rlim_max = 35;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        apply_common(plan);
        load_triggers(plan);
        sc.run(plan);
        tl_inlib = 0;
        finish_run(ST_OK);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.timed_out = false;
    if (R->status == ST_RUNNING) {
        std::string err;
        if (g_errfd >= 0) {
            lseek(g_errfd, 0, SEEK_SET);
            char buf[65536];
            ssize_t n;
            while ((n = read(g_errfd, buf, sizeof buf)) > 0 && err.size() < (8u << 20)) err.append(buf, n);
        }
        r.status = ST_VIOL;
        r.cls = classify_crash(st, err);
        size_t p = err.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = err.find("runtime error: ");
        if (p == std::string::npos) p = err.find("Assertion `");
        if (p == std::string::npos) p = err.size() > 600 ? err.size() - 600 : 0;
        r.detail = "the run died: " + err.substr(p, 900);
    } else {
        r.status = R->status;
        r.cls = R->cls;
        r.detail = R->detail;
    }
    r.hash = R->hash;
    return r;
}

static std::string slurp(const std::string& f)
{
    std::string s;
    FILE* fp = fopen(f.c_str(), "r");
    if (!fp) return s;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, fp)) > 0) s.append(buf, n);
    fclose(fp);
    return s;
}
static void spit(const std::string& f, const std::string& s)
{
    FILE* fp = fopen(f.c_str(), "w");
    if (!fp) return;
    fwrite(s.data(), 1, s.size(), fp);
    fclose(fp);
}
static std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += ' ';
        else r += c;
    }
    return r;
}
static double real_now()
{
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Plan gen_plan(const Scenario& sc, u64 seed, u64 idx, int tier)
{
    Rng rng(mix(seed, mix(idx, 0x5117)));
    Plan p;
    sc.gen(rng, p, tier);
    return p;
}

// ddmin over plan lines, then shrinking of numbers
static Plan minimise(const Scenario& sc, Plan plan, const std::string& cls, double tlimit)
{
    double t0 = real_now();
    auto bad = [&](const Plan& p) {
        RunResult r = run_plan(sc, p);
        return r.status == ST_VIOL && r.cls == cls;
    };
    size_t n = 2;
    while (plan.ops.size() >= 2 && real_now() - t0 < tlimit) {
        size_t chunk = std::max<size_t>(1, plan.ops.size() / n);
        bool reduced = false;
        for (size_t i = 0; i < plan.ops.size() && real_now() - t0 < tlimit; i += chunk) {
            Plan c;
            for (size_t j = 0; j < plan.ops.size(); ++j)
                if (j < i || j >= i + chunk) c.ops.push_back(plan.ops[j]);
            if (bad(c)) {
                plan = c;
                n = std::max<size_t>(2, n - 1);
                reduced = true;
                break;
            }
        }
        if (!reduced) {
            if (chunk == 1) break;
            n = std::min(plan.ops.size(), n * 2);
        }
    }
    for (int round = 0; round < 2; ++round) {
        bool any = false;
        for (size_t i = 0; i < plan.ops.size() && real_now() - t0 < tlimit; ++i) {
            for (size_t j = 0; j < plan.ops[i].kv.size(); ++j) {
                const std::string key = plan.ops[i].kv[j].first, val = plan.ops[i].kv[j].second;
                if (key == "seed" || key == "s" || key == "t" || key == "id") continue;
                char* e;
                i64 v = strtoll(val.c_str(), &e, 10);
                if (*e || v == 0) continue;
                i64 cand[3] = {0, v / 2, v > 0 ? v - 1 : v + 1};
                for (int c = 0; c < 3 && real_now() - t0 < tlimit; ++c) {
                    if (cand[c] == v) continue;
                    Plan q = plan;
                    q.ops[i].kv[j].second = std::to_string(cand[c]);
                    if (bad(q)) { plan = q; any = true; break; }
                }
            }
        }
        if (!any) break;
    }
    return plan;
}

int main_loop(int argc, char** argv, const std::vector<Scenario>& scs)
{
    signal(SIGPIPE, SIG_IGN);
    // same addresses in every execution, where the system lets us
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    R = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_outfd = dup(1);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    if (argc < 3) { fprintf(stderr, "usage: %s gen|run|min|shard PROP ...\n", argv[0]); return 2; }
    std::string mode = argv[1], prop = argv[2];
    const Scenario* sc = nullptr;
    for (auto& s : scs) if (prop == s.prop) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    g_errfd = memfd_create("simerr", 0);

    if (mode == "gen" && argc >= 6) {
        Plan p = gen_plan(*sc, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5]));
        out("%s", "");
        std::string t = p.text();
        ssize_t w = write(g_outfd, t.data(), t.size()); (void)w;
        return 0;
    }
    if (mode == "run" && argc >= 4) {
        g_trace = argc >= 5 && std::string(argv[4]) == "-v";
        Plan p = Plan::parse(slurp(argv[3]));
        RunResult r = run_plan(*sc, p);
        out("{\"status\":\"%s\",\"class\":\"%s\",\"hash\":\"%016llx\",\"detail\":\"%s\"}\n",
            r.status == ST_OK ? "ok" : "violation", json_escape(r.cls).c_str(), r.hash, json_escape(r.detail).c_str());
        return r.status == ST_OK ? 0 : 1;
    }
    if (mode == "min" && argc >= 6) {
        Plan p = Plan::parse(slurp(argv[3]));
        Plan m = minimise(*sc, p, argv[5], argc >= 7 ? atof(argv[6]) : 60);
        spit(argv[4], m.text());
        RunResult r = run_plan(*sc, m);
        out("{\"status\":\"%s\",\"class\":\"%s\",\"hash\":\"%016llx\",\"detail\":\"%s\"}\n",
            r.status == ST_OK ? "ok" : "violation", json_escape(r.cls).c_str(), r.hash, json_escape(r.detail).c_str());
        return 0;
    }
    if (mode == "shard" && argc >= 10) {
        u64 seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
            cnt = strtoull(argv[6], 0, 10);
        double tlim = atof(argv[7]);
        std::string outdir = argv[8];
        int tier = atoi(argv[9]);
        double t0 = real_now();
        u64 runs = 0, nontriv = 0, sim_ns = 0, yields = 0, gate = 0, gate_bad = 0;
        u64 fired_sum[N_FAULTS] = {0}, runs_with[N_FAULTS] = {0}, total_sum[N_KINDS] = {0};
        std::set<u64> hashes, states;
        std::map<std::string, u64> viol;
        std::string vj;
        bool timeup = false;
        double slow = 0; u64 slow_i = 0, long_y = 0, long_i = 0;
        for (u64 i = start; i < cnt; i += stride) {
            if (real_now() - t0 > tlim) { timeup = true; break; }
            Plan p = gen_plan(*sc, seed, i, tier);
            double t1 = real_now();
            RunResult r = run_plan(*sc, p);
            if (real_now() - t1 > slow) { slow = real_now() - t1; slow_i = i; }
            if (R->yields > long_y) { long_y = R->yields; long_i = i; }
            ++runs;
            nontriv += R->nontrivial;
            sim_ns += R->sim_ns;
            yields += R->yields;
            for (int f = 0; f < N_FAULTS; ++f) { fired_sum[f] += R->fired[f]; runs_with[f] += R->fired[f] ? 1 : 0; }
            for (int k = 0; k < N_KINDS; ++k) total_sum[k] += R->total[k];
            if (R->nontrivial) hashes.insert(r.hash);
            for (u64 s = 0; s < R->n_states && states.size() < 2000000; ++s) states.insert(R->states[s]);
            if (i % 97 == start % 97) {   // determinism: the same plan again must give the same log
                RunResult r2 = run_plan(*sc, p);
                ++gate;
                if (r2.hash != r.hash || r2.status != r.status) {
                    ++gate_bad;
                    if (gate_bad <= 3) spit(outdir + "/nondet_" + std::to_string(i) + ".plan", p.text());
                }
            }
            if (r.status == ST_VIOL) {
                u64& c = viol[r.cls];
                if (c++ == 0) {
                    std::string f = outdir + "/viol_" + std::to_string(seed) + "_" + std::to_string(i) + ".plan";
                    spit(f, p.text());
                    if (!vj.empty()) vj += ",";
                    vj += "{\"index\":" + std::to_string(i) + ",\"class\":\"" + json_escape(r.cls) + "\",\"detail\":\"" +
                          json_escape(r.detail) + "\",\"plan\":\"" + json_escape(f) + "\"}";
                }
                if (viol.size() >= 4 || c >= 10) break;
            }
        }
        std::string hf = outdir + "/hashes_" + std::to_string(start) + ".bin", sf = outdir + "/states_" + std::to_string(start) + ".bin";
        { std::string b; for (u64 h : hashes) b.append((const char*)&h, 8); spit(hf, b); }
        { std::string b; for (u64 h : states) b.append((const char*)&h, 8); spit(sf, b); }
        std::string fj, kj, rj;
        for (int f = 0; f < N_FAULTS; ++f) if (fired_sum[f]) {
            fj += (fj.empty() ? "" : ",") + std::string("\"") + FAULT_NAMES[f] + "\":" + std::to_string(fired_sum[f]);
            rj += (rj.empty() ? "" : ",") + std::string("\"") + FAULT_NAMES[f] + "\":" + std::to_string(runs_with[f]);
        }
        for (int k = 0; k < N_KINDS; ++k) kj += (kj.empty() ? "" : ",") + std::string("\"") + KIND_NAMES[k] + "\":" + std::to_string(total_sum[k]);
        out("{\"runs\":%llu,\"nontrivial\":%llu,\"sim_ns\":%llu,\"yields\":%llu,\"gate\":%llu,\"gate_bad\":%llu,\"wall\":%.3f,\"timeup\":%s,",
            runs, nontriv, sim_ns, yields, gate, gate_bad, real_now() - t0, timeup ? "true" : "false");
        out("\"slowest\":{\"seconds\":%.2f,\"index\":%llu},\"longest\":{\"steps\":%llu,\"index\":%llu},", slow, slow_i, long_y, long_i);
        out("\"fired\":{%s},\"runs_with\":{%s},\"yield_kinds\":{%s},", fj.c_str(), rj.c_str(), kj.c_str());
        ssize_t w = write(g_outfd, "\"violations\":[", 14); (void)w;
        w = write(g_outfd, vj.data(), vj.size()); (void)w;
        out("]}\n");
        return 0;
    }
    fprintf(stderr, "bad arguments\n");
    return 2;
}

}  // namespace sim
