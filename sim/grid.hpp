// Grid planners of the library behind one interface, queries and their results.
#ifndef VERIF_GRID_HPP
#define VERIF_GRID_HPP
#include "maps.hpp"
#include <functional>
#include <memory>
#include <stack>
#include <cslibs_path_planning/common/Pose2d.h>

struct Injected : public std::runtime_error {
    int id;
    explicit Injected(int i) : std::runtime_error("injected error"), id(i) {}
};
struct OddError { int id; };           // not derived from std::exception
struct InjectedLogic : public std::logic_error {
    int id;
    explicit InjectedLogic(int i) : std::logic_error("injected logic error"), id(i) {}
};
struct InjectedAlloc : public std::bad_alloc {
    int id;
    explicit InjectedAlloc(int i) : id(i) {}
};
enum { ERR_RUNTIME, ERR_ODD, ERR_INTERRUPTED, ERR_LOGIC, ERR_ALLOC };

struct PathPt { double x, y, theta, dist; int forward, steer; };
typedef std::vector<PathPt> PathV;

enum Outcome { O_PATH, O_OUTSIDE, O_LOGIC, O_INTERRUPTED, O_INJECTED, O_ODD, O_NOMEM, O_OTHER };
inline const char* outcome_name(int o)
{
    static const char* N[] = {"path", "outside-map", "logic-error", "interrupted", "injected-error", "odd-error", "out-of-memory", "other-error"};
    return N[o];
}
struct QResult {
    int outcome, err_id, expansions, multi;
    std::string what;
    PathV path;
    std::vector<PathV> cands;
    QResult() : outcome(O_PATH), err_id(0), expansions(-1), multi(-1) {}
    // what the caller can see
    std::string pack(bool with_cands = true) const
    {
        sim::Pack p;
        p.i(outcome).i(err_id).i(expansions).i(multi).b(what);
        auto one = [&](const PathV& v) {
            p.i((sim::i64)v.size());
            for (auto& q : v) p.d(q.x).d(q.y).d(q.theta).d(q.dist).i(q.forward).i(q.steer);
        };
        one(path);
        p.i(with_cands ? (sim::i64)cands.size() : 0);
        if (with_cands) for (auto& c : cands) one(c);
        return p.s;
    }
    void unpack(sim::Unpack& u)
    {
        outcome = (int)u.i(); err_id = (int)u.i(); expansions = (int)u.i(); multi = (int)u.i(); what = u.b();
        auto one = [&](PathV& v) {
            v.clear();
            sim::i64 n = u.i();
            for (sim::i64 i = 0; i < n && i < 100000; ++i) {
                PathPt q; q.x = u.d(); q.y = u.d(); q.theta = u.d(); q.dist = u.d(); q.forward = (int)u.i(); q.steer = (int)u.i();
                v.push_back(q);
            }
        };
        one(path);
        sim::i64 n = u.i();
        cands.resize((size_t)std::max<sim::i64>(0, std::min<sim::i64>(n, 100000)));
        for (auto& c : cands) one(c);
    }
    std::string text() const
    {
        char b[256];
        snprintf(b, sizeof b, "%s%s%s, %zu nodes%s, cost %.6g, %d expansions (%d again), %zu candidates", outcome_name(outcome),
                 what.empty() ? "" : " ", what.c_str(), path.size(), path.empty() ? " (empty)" : "",
                 path.empty() ? 0.0 : path.back().dist, expansions, multi, cands.size());
        std::string s = b;
        if (!path.empty()) {
            s += " [";
            for (size_t i = 0; i < path.size() && i < 12; ++i) {
                snprintf(b, sizeof b, "%s(%g,%g)", i ? " " : "", path[i].x, path[i].y);
                s += b;
            }
            s += path.size() > 12 ? " ...]" : "]";
        }
        return s;
    }
};

// q kind=0..4 sx sy sth gx gy gth over(permille of a cell) cb gtr(goal test radius) gth
struct Query {
    int kind;          // 0 pose, 1 pose+callback, 2 goal test, 3 goal test+callback, 4 start configuration
    double sx, sy, sth, gx, gy, gth;
    double over;       // in map units
    int gtr;           // radius of the accepted region of a goal test; -1: nothing is accepted
    int hgoal;         // goal test offers a heuristic goal
    int gtm;           // goal test: 0 stops at the first accepted node, 1 collects candidates and goes on
    int cand;          // candidate callback installed
    double tlimit;     // < 0: none set
    sim::u64 ties;
    int phase;
    int nocb;          // an empty callback is passed
    int sforward, ssteer, scustom;
    double turn, back;
    static Query parse(const sim::Op& o)
    {
        Query q;
        q.kind = (int)o.num("kind");
        q.sx = o.num("sx") / 10.0; q.sy = o.num("sy") / 10.0; q.sth = o.num("sth") / 1000.0;
        q.gx = o.num("gx") / 10.0; q.gy = o.num("gy") / 10.0; q.gth = o.num("gth") / 1000.0;
        q.over = o.num("over") / 1000.0;
        q.gtr = (int)o.num("gtr");
        q.hgoal = (int)o.num("hg");
        q.gtm = (int)o.num("gtm");
        q.cand = (int)o.num("cand");
        q.tlimit = !o.has("tl") ? -1.0 : o.num("tl") >= 4000000000000000000ll ? std::numeric_limits<double>::infinity() : o.num("tl") / 1e6;
        q.ties = (sim::u64)o.num("ties");
        q.phase = (int)o.num("s");
        q.sforward = (int)o.num("sf", 1); q.ssteer = (int)o.num("ss"); q.scustom = 0;
        q.turn = o.num("turn", 4000) / 1000.0; q.back = o.num("back", 2500) / 1000.0;
        return q;
    }
    void pack(sim::Pack& p) const
    {
        p.i(kind).d(sx).d(sy).d(sth).d(gx).d(gy).d(gth).d(over).i(gtr).i(hgoal).i(gtm).i(cand).d(tlimit).i((sim::i64)ties).i(phase)
            .i(sforward).i(ssteer).d(turn).d(back);
    }
    void unpack(sim::Unpack& u)
    {
        kind = (int)u.i(); sx = u.d(); sy = u.d(); sth = u.d(); gx = u.d(); gy = u.d(); gth = u.d(); over = u.d();
        gtr = (int)u.i(); hgoal = (int)u.i(); gtm = (int)u.i(); cand = (int)u.i(); tlimit = u.d(); ties = (sim::u64)u.i(); phase = (int)u.i();
        sforward = (int)u.i(); ssteer = (int)u.i(); turn = u.d(); back = u.d();
        nocb = 0; scustom = 0;
    }
    bool accepts(double x, double y) const { return gtr >= 0 && std::abs(x - gx) <= gtr && std::abs(y - gy) <= gtr; }
};

// what the harness-side callbacks do and saw in the running search of a task
struct Hooks {
    bool stop;                    // next candidate callback accepts
    PathV accepted;               // path that was accepted
    std::function<void()> on_cb;  // extra work inside the progress callback
    Hooks() : stop(false) {}
};
extern thread_local Hooks* g_hooks;

struct IPlanner {
    virtual ~IPlanner() {}
    virtual void set_map(SimMap* m) = 0;
    virtual void set_time_limit(double s) = 0;
    virtual void set_cand(bool on) = 0;
    virtual void run(const Query& q, QResult& r) = 0;      // may throw
    virtual int expansions() = 0;
    virtual int multi() = 0;      // of these, nodes that had been expanded before
    virtual void candidates(std::vector<PathV>& out) = 0;
};

enum Norm { NONE, L1, L2, LINF, OTHER };
struct AlgoInfo {
    int id;
    const char* name;
    int n, dist;            // neighbourhood
    Norm norm;
    int interval, start;    // progress callback
    bool reversed;
    IPlanner* (*make)();
};
extern const std::vector<AlgoInfo>& algos();
inline const AlgoInfo& algo(int i) { const auto& a = algos(); return a[(size_t)(i < 0 ? 0 : i) % a.size()]; }

// setMap + search, as one simulated call; q.phase labels it for the triggers
QResult run_query(IPlanner& p, SimMap* map, const Query& q, bool set_map = true);

// action handler shared by the grid scenarios: throw / stop / edit
void grid_actions(std::function<SimMap*()> cur_map);
extern bool g_threw;           // an error was thrown into the running search
extern int g_threw_ty, g_threw_id; // the first one
#endif
