// Deterministic simulation core: seeded plans, tasks, clock, memory and fault triggers.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <deque>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef long long i64;
typedef unsigned long long u64;

// ------------------------------------------------------------------ randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    i64 range(i64 lo, i64 hi) { return hi <= lo ? lo : lo + (i64)(next() % (u64)(hi - lo + 1)); }
    bool chance(int pct) { return (int)(next() % 100) < pct; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[next() % N]; }
    // log-uniform in [1, hi]: small numbers are as likely as big ones
    i64 scale(i64 hi)
    {
        if (hi <= 1) return 1;
        int bits = 0;
        while ((1ll << bits) <= hi) ++bits;
        i64 top = (1ll << range(1, bits)) - 1;
        i64 r = range(1, top);
        return r > hi ? hi : r;
    }
};
u64 mix(u64 a, u64 b);

// ------------------------------------------------------------------ plans
// One line per operation: "<kind> key=value ..."; values are integers or words.
struct Op {
    std::string kind;
    std::vector<std::pair<std::string, std::string> > kv;
    Op() {}
    explicit Op(const std::string& k) : kind(k) {}
    Op& set(const std::string& k, i64 v) { return set(k, std::to_string(v)); }
    Op& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
    Op& set(const std::string& k, const std::string& v);
    Op& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
    bool has(const std::string& k) const;
    i64 num(const std::string& k, i64 def = 0) const;
    std::string str(const std::string& k, const std::string& def = "") const;
    std::string text() const;
};
struct Plan {
    std::deque<Op> ops;           // references to elements stay valid while it grows
    Op& add(const std::string& kind) { ops.push_back(Op(kind)); return ops.back(); }
    const Op* find(const std::string& kind) const;
    std::vector<const Op*> all(const std::string& kind) const;
    i64 num(const std::string& kind, const std::string& key, i64 def = 0) const;
    std::string text() const;
    static Plan parse(const std::string& text);
};

// ------------------------------------------------------------------ yield points and triggers
// Each access of the code under test to the simulated environment is a yield point.
enum Kind {
    READ,    // map cell read
    WRITE,   // map cell write
    POP,     // open list: best node taken
    PUSH,    // open list: node added
    CLOCK,   // clock read
    INTR,    // interruption point
    CB,      // progress callback entered
    GT,      // goal test entered
    CAND,    // candidate callback entered
    ALLOC,   // memory requested by the code under test
    RAND,    // random number drawn
    STEP,    // harness step (between two calls into the code under test)
    N_KINDS
};
const char* kind_name(int k);
int kind_of(const std::string& s);

// Faults / disturbances that fired, by kind.
enum Fault {
    F_PREEMPT, F_READ_ERR, F_ALLOC_FAIL, F_MAP_CHANGE, F_STALL, F_WALL_FWD, F_WALL_BACK,
    F_INTERRUPT, F_CB_ERR, F_GT_ERR, F_CAND_ERR, F_CAND_STOP, F_TIMEOUT, F_POISON,
    F_RAND_BIAS, F_WRITE_ERR, F_ABANDON, F_REENTER, F_RESIZE, N_FAULTS
};
const char* fault_name(int f);
void fired(int f);
u64 fired_count(int f);

// A trigger is a plan line
//   at t=<task> s=<phase> k=<kind> n=<count> do=<action> ...
// t and s may be absent (any).  The core executes: sw (task switch), stall, jump, fail
// (ALLOC); all other actions go to the handler of the scenario, which may throw.
typedef std::function<void(const Op&, int kind)> ActionHandler;
void set_action_handler(ActionHandler h);
ActionHandler get_action_handler();
// called before (after = false) and after the triggers of each yield point
void set_observer(std::function<void(int kind, bool after)> f);
void load_triggers(const Plan& p);
void clear_triggers();
void rearm_triggers();      // all triggers may fire again (reference executions of a phase)
void enable_triggers(bool on);

void phase(int s);          // of the current task; resets its per-kind counters
int  current_phase();
u64  count(int kind);       // of the current task, in its current phase
u64  total(int kind);       // of this run
void yield(int kind);       // the yield point itself
void set_step_limit(u64 n); // progress bound of the run
void allow_steps(u64 n);    // more of them
// how often to repeat something that takes about this many steps, so that a run stays short in either build
inline i64 repetitions(i64 n, u64 work)
{
#ifdef __SANITIZE_ADDRESS__
    i64 most = 200000 / (i64)(work + 20) + 1;
#else
    i64 most = std::max<i64>(520, 7000000 / (i64)(work + 1));
#endif
    return std::max<i64>(0, std::min(n, most));
}

// ------------------------------------------------------------------ tasks
int  current_task();        // -1 outside tasks
void pretend_task(int id);  // the current task goes by this number (reference executions)
void nested(int id, std::function<void()> f);   // f runs inside of the current call, as task id; it must not throw
int  spawn(std::function<void()> f);
void run_tasks();           // runs all tasks to completion under the schedule
bool task_done(int t);
void switch_to_next();      // cooperative switch
void request_interrupt(int task);
void clear_interrupt(int task);
bool interrupt_pending();

// ------------------------------------------------------------------ clock (ns)
i64  now();                 // simulated monotonic time
i64  wall();                // simulated wall clock
void advance(i64 ns);
void jump_wall(i64 ns);
void set_cost(int kind, i64 ns);
u64  clock_reads();

// ------------------------------------------------------------------ memory
// Only allocations made while a Lib scope is open (and not suspended by Env) belong to the
// code under test: they are poisoned, counted, tracked and may fail.
struct Lib { Lib(); ~Lib(); int saved; };
struct Env { Env(); ~Env(); int saved; };
u64  live_blocks();         // tracked blocks not yet freed
u64  live_bytes();
u64  alloc_count();         // allocations attempted by the code under test
void reset_alloc_stats();
void set_fail_alloc(u64 first, u64 n);   // requests first..first+n-1 since the reset fail (0: none)
u64  failed_allocs();                    // since the reset
void set_poison(int mode, u64 seed);
int  poison_mode();
void other_poison();

// ------------------------------------------------------------------ ties, random numbers
void set_tie_seed(u64 s);   // of the current task; restarts its sequence
typedef std::function<int()> RandSource;
void set_rand_source(RandSource s);   // empty: seeded generator
extern const int SIM_RAND_MAX;

// ------------------------------------------------------------------ log, verdicts
void ev(const char* tag, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0);   // hashed into the run's log
void state(u64 h);                                                     // a distinct state reached
u64  run_hash();
void note_nontrivial();
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // shown on replay only
bool tracing();

inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }

// ------------------------------------------------------------------ pristine references
// start_zygote() forks a process that stays as it is now; in_pristine(req) lets it fork a
// child that runs the handler on req and returns what the handler returned.  Whatever the
// run did in the meantime (static state of the code under test included) is unknown there.
void start_zygote(std::function<std::string(const std::string&)> handler);
std::string in_pristine(const std::string& req);

// byte strings for requests and results
struct Pack {
    std::string s;
    Pack& i(i64 v) { s.append((const char*)&v, 8); return *this; }
    Pack& d(double v) { s.append((const char*)&v, 8); return *this; }
    Pack& b(const std::string& t) { i((i64)t.size()); s += t; return *this; }
};
struct Unpack {
    const std::string& s; size_t p;
    explicit Unpack(const std::string& t) : s(t), p(0) {}
    i64 i() { i64 v = 0; if (p + 8 <= s.size()) memcpy(&v, &s[p], 8); p += 8; return v; }
    double d() { double v = 0; if (p + 8 <= s.size()) memcpy(&v, &s[p], 8); p += 8; return v; }
    std::string b() { size_t n = (size_t)i(); if (p + n > s.size()) n = p <= s.size() ? s.size() - p : 0; std::string r = s.substr(p, n); p += n; return r; }
};

// ------------------------------------------------------------------ scenarios
struct Scenario {
    const char* prop;
    void (*gen)(Rng& rng, Plan& plan, int tier);
    void (*run)(const Plan& plan);
};
int main_loop(int argc, char** argv, const std::vector<Scenario>& scenarios);

struct ReadError : public std::runtime_error { ReadError() : std::runtime_error("simulated map read error") {} };
struct WriteError : public std::runtime_error { WriteError() : std::runtime_error("simulated map write error") {} };
struct CbError : public std::runtime_error { explicit CbError(const char* w) : std::runtime_error(w) {} };

}  // namespace sim

uint64_t sim_tie();
void     sim_on_push(const void* node, double key);
void     sim_on_pop(const void* node, double cost);
bool     sim_searching();
// scenario hook for open list traffic (may be empty)
extern std::function<void(bool push, const void* node, double key)> sim_open_hook;

#endif
