// A history of map changes and searches on one planner, and what is observed of each search.
#ifndef VERIF_HIST_HPP
#define VERIF_HIST_HPP
#include "grid.hpp"

struct Obs {
    bool active, pushed;
    sim::u64 pops;
    std::vector<sim::i64> pop_t;
    std::vector<double> pop_key;
    std::vector<int> cb_at;           // number of pops before each progress callback
    std::vector<int> gt_at;
    sim::i64 t_call, t_ret;
    sim::u64 cand_calls;
    int intr_kind;                    // yield kind at which an interruption request arrived; -1 none
    sim::u64 pops_after_intr;
    int threw_kind;
    std::string after_throw;          // first access after an error was thrown
    std::string after_stop;
    bool stop_pending, stopped;
    sim::u64 edits_before;
    std::set<const void*> popped;     // nodes taken up so far
    sim::u64 reopened;                // nodes put back after they had been taken up
    Obs() { clear(); }
    void clear()
    {
        active = pushed = false; pops = 0; pop_t.clear(); pop_key.clear(); cb_at.clear(); gt_at.clear();
        t_call = t_ret = 0; cand_calls = 0; intr_kind = -1; pops_after_intr = 0; threw_kind = -1;
        after_throw.clear(); after_stop.clear(); stop_pending = stopped = false; edits_before = 0; popped.clear(); reopened = 0;
    }
};
extern Obs g_obs;
// operations of a scenario's own between the searches; the last one also precedes a reference
extern std::function<void(const sim::Op&)> g_other_op;
extern sim::u64 g_edits;              // map edits by the environment during this search
void install_observer();
QResult observed_query(IPlanner& p, SimMap* map, const Query& q, bool set_map = true);

struct Hist {
    const sim::Plan& plan;
    const AlgoInfo* ai;
    std::vector<IPlanner*> planners;
    std::map<int, SimMap*> maps;
    SimMap* cur;
    explicit Hist(const sim::Plan& p, IPlanner* (*mk)() = nullptr);
    ~Hist();
    IPlanner* (*make)();
    IPlanner* planner(int i);
    void drop_planner(int i);
    // executes all operations; q lines go to f
    std::string rep_diff;      // what the repetitions before the current query disagree in
    void repeat(const sim::Op& o);
    void run(std::function<void(const Query&, const sim::Op&, IPlanner&)> f);
};

// generators
sim::Op& gen_query(sim::Rng& r, sim::Plan& p, const AlgoInfo& ai, int w, int h, int phase);
struct GenMaps { std::vector<std::pair<int, int> > dims; int cur; };
GenMaps gen_maps(sim::Rng& r, sim::Plan& p, int n, int maxdim);
// a map operation between two searches
void gen_map_op(sim::Rng& r, sim::Plan& p, GenMaps& gm, int maxdim);

// oracle of the shape of a path; returns "" or what is wrong
std::string check_path(const Query& q, const SimMap& m, const PathV& p, const AlgoInfo& ai, bool check_cost, bool goal_end = true, bool at_least = false);
std::string req_of(const AlgoInfo& ai, const Query& q, const MapData& m);
std::string diff_results(const std::string& a, const std::string& b);
// references: one search by a new planner in a process that has seen nothing else
struct Ref { std::string result; sim::u64 map_hash; sim::i64 dur; };
void zygote_grid();
Ref reference(const AlgoInfo& ai, const Query& q, const MapData& m, bool faults = true);
void gen_common(sim::Rng& r, sim::Plan& p);
// one fault somewhere in phase s
void gen_fault(sim::Rng& r, sim::Plan& p, const sim::Op& q, int s, int cells, bool cb_exact, int w, int h);
#endif
