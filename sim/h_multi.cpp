// Several planners that share nothing, interleaved at any step or nested in each other's callbacks (P06)
#include "steer.hpp"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
using namespace sim;

static const int GRIDS = 18, CARS = 8;
static bool g_solo = false;

// curve generator: patterns and settings from the plan
static const char* SEQ[] = {"LSL", "LSR", "RSL", "RSR", "LRL", "RLR", "|LSL", "|RSR", "L|SR", "LR|LR", "L|R|L", "|LSR", "RS|L"};

struct Agent {
    int id;
    const AlgoInfo* ai;                   // null: a curve generator
    IPlanner* p;
    lib_path::CurveGenerator* gen;
    const Op* setup;
    SimMap* map;
    std::vector<const Op*> ops;
    size_t next;
    bool busy;
    std::vector<std::string> results;
    Agent() : id(0), ai(nullptr), p(nullptr), gen(nullptr), setup(nullptr), map(nullptr), next(0), busy(false) {}
};
static std::vector<Agent*> g_agents;

static void make(Agent& a)
{
    for (int tries = 0; tries < 30; ++tries) {
        try {
            Lib l;
            if (a.ai) { a.p = a.ai->make(); return; }
            a.gen = new lib_path::CurveGenerator();
            int n = 0;
            for (int i = 0; i < 13; ++i)
                if ((a.setup->num("seqs", 15) >> i) & 1) {
                    std::stringstream err;
                    a.gen->parse(SEQ[i], err);
                    ++n;
                }
            if (!n) a.gen->parse("LSL");
            a.gen->set_circle_radius(std::max<i64>(20, a.setup->num("rad", 130)) / 100.0);
            a.gen->set_max_waypoint_distance(std::max<i64>(2, a.setup->num("wp", 15)) / 100.0);
            a.gen->set_cost_backwards(a.setup->num("cb", 100) / 100.0);
            a.gen->set_cost_curve(a.setup->num("cc", 100) / 100.0);
            a.gen->set_max_curve_arc(a.setup->num("arc", 10000) / 100.0);
            return;
        } catch (std::bad_alloc&) {
            delete a.gen;
            a.gen = nullptr;
        }
    }
}
static void drop(Agent& a)
{
    Lib l;
    delete a.p; a.p = nullptr;
    delete a.gen; a.gen = nullptr;
}
static std::string curve_query(Agent& a, const Op& o)
{
    phase((int)o.num("s"));
    clear_interrupt(current_task());
    Pack out;
    lib_path::Pose2d s(o.num("sx") / 10.0, o.num("sy") / 10.0, o.num("sth") / 1000.0), g(o.num("gx") / 10.0, o.num("gy") / 10.0, o.num("gth") / 1000.0);
    try {
        Lib l;
        std::unique_ptr<lib_path::Curve> c(a.gen->find_path(s, g, a.map, o.num("ign") != 0));
        if (!c) out.i(-1);
        else {
            out.i(1).d(c->weight()).d(c->curve_arc()).i(c->is_valid());
            c->reset_iteration();
            for (int n = 0; n < 20000 && c->has_next(); ++n) {
                lib_path::Pose2d q = c->next();
                out.d(q.x).d(q.y).d(q.theta);
            }
        }
    } catch (Injected& e) {
        out.i(100 + e.id);
    } catch (OddError& e) {
        out.i(300 + e.id);
    } catch (std::bad_alloc&) {
        out.i(500);
    } catch (std::exception& e) {
        out.i(600).b(e.what());
    }
    return out.s;
}
// performs the operations up to the next search, this included
static bool step(Agent& a)
{
    a.busy = true;
    bool more = false;
    while (a.next < a.ops.size() && !more) {
        const Op& o = *a.ops[a.next++];
        if (o.kind == "edit") a.map->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v"));
        else if (o.kind == "load") { MapData m = make_map(o); a.map->load(m); }
        else if (o.kind == "drop") { phase(0); drop(a); }
        else if (o.kind == "q") {
            if (a.ai ? !a.p : !a.gen) { phase(0); make(a); }
            if (a.ai) {
                Query q = Query::parse(o);
                q.tlimit = -1;
                Hooks* saved = g_hooks;
                g_hooks = nullptr;
                QResult r = run_query(*a.p, a.map, q);
                g_hooks = saved;
                a.results.push_back(r.pack());
            } else a.results.push_back(curve_query(a, o));
            u64 h = 14695981039346656037ull;
            for (unsigned char c : a.results.back()) h = (h ^ c) * 1099511628211ull;
            state(mix((u64)a.id, h));
            ev("answer", (u64)a.id, h);
            trace("agent %d: answer %016llx", a.id, h);
            more = true;
        }
    }
    a.busy = false;
    return more;
}
static void actions()
{
    grid_actions([]() -> SimMap* { int t = current_task(); return t >= 0 && t < (int)g_agents.size() ? g_agents[(size_t)t]->map : nullptr; });
    static ActionHandler base;
    base = get_action_handler();
    set_action_handler([](const Op& o, int kind) {
        if (o.str("do") != "nest") { base(o, kind); return; }
        if (g_solo || kind == ALLOC || kind == PUSH || kind == POP || kind == INTR || kind == CLOCK) return;
        size_t b = (size_t)o.num("a");
        if (b >= g_agents.size()) return;
        Agent& a = *g_agents[b];
        if (a.busy || a.next >= a.ops.size()) return;
        fired(F_REENTER);
        ev("nest", (u64)current_task(), b);
        trace("agent %zu searches inside a %s of agent %d", b, kind_name(kind), current_task());
        nested((int)b, [&] { step(a); });
        trace("back in agent %d", current_task());
    });
}
static void setup(const Plan& plan)
{
    set_car(plan.find("car"));
    set_cost(READ, 0);
    for (auto* o : plan.all("agent")) {
        if (g_agents.size() >= 4) break;
        Agent* a = new Agent();
        a->id = (int)g_agents.size();
        a->setup = o;
        if (!o->num("curve")) a->ai = &algo((int)o->num("algo"));
        g_agents.push_back(a);
    }
    if (g_agents.empty()) { static Op d("agent"); Agent* a = new Agent(); a->setup = &d; a->ai = &algo(0); g_agents.push_back(a); }
    for (auto& o : plan.ops) {
        size_t i = (size_t)o.num("a");
        if (i >= g_agents.size()) continue;
        Agent& a = *g_agents[i];
        if (o.kind == "map" && !a.map) a.map = new SimMap(make_map(o));
        else if (o.kind == "edit" || o.kind == "load" || o.kind == "q" || o.kind == "drop") a.ops.push_back(&o);
    }
    for (auto* a : g_agents) if (!a->map) { Op o("map"); a->map = new SimMap(make_map(o)); }
    actions();
}
static std::string all_results(Agent& a)
{
    Pack p;
    p.i((i64)a.results.size());
    for (auto& r : a.results) p.b(r);
    return p.s;
}
static void run_p06(const Plan& plan)
{
    u64 base;
    setup(plan);
    start_zygote([](const std::string& req) {
        Unpack u(req);
        Agent& a = *g_agents[(size_t)u.i()];
        g_solo = true;
        pretend_task(a.id);
        other_poison();
        rearm_triggers();
        while (step(a)) {}
        return all_results(a);
    });
    base = live_blocks();
    for (auto* a : g_agents)
        spawn([a] {
            for (;;) {
                // someone else is just running this agent's search inside of its own
                while (a->busy) switch_to_next();
                if (!step(*a)) break;
                switch_to_next();
            }
        });
    run_tasks();
    pretend_task(-1);
    if (fired_count(F_PREEMPT) + fired_count(F_REENTER)) note_nontrivial();
    for (auto* a : g_agents) {
        Pack req;
        req.i(a->id);
        std::string solo = in_pristine(req.s), mine = all_results(*a);
        if (solo != mine) {
            Unpack u(solo);
            size_t n = (size_t)u.i();
            for (size_t i = 0; i < n && i < a->results.size(); ++i) {
                std::string r = u.b();
                if (r == a->results[i]) continue;
                std::string d = a->ai ? diff_results(a->results[i], r) : std::string("another curve");
                fail("influenced", "search %zu of planner %d (%s) among others versus alone: %s", i + 1, a->id, a->ai ? a->ai->name : "curves", d.c_str());
            }
            fail("influenced", "planner %d answered %zu searches among others, %zu alone", a->id, a->results.size(), n);
        }
    }
    for (auto* a : g_agents) drop(*a);
    if (live_blocks() != base) fail("leak", "%lld blocks are not released with the planners", (i64)(live_blocks() - base));
}

static void gen_p06(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int n = r.chance(70) ? 2 : 3;
    std::vector<const AlgoInfo*> ais;
    int same = r.chance(45) ? (int)(r.chance(50) ? r.range(0, GRIDS - 1) : GRIDS + r.range(0, CARS - 1)) : -1;
    bool curves = r.chance(12);
    bool cars = false;
    for (int i = 0; i < n; ++i) {
        Op& o = p.add("agent");
        o.set("id", i);
        if (curves || r.chance(15)) {
            o.set("curve", 1).set("seqs", r.chance(30) ? 15 : r.range(1, 8191)).set("rad", r.pick({130, 60, 100, 200})).set("wp", r.pick({15, 30, 50}));
            if (r.chance(40)) o.set("cb", r.range(100, 300)).set("cc", r.range(100, 200));
            if (r.chance(30)) o.set("arc", r.range(100, 500));
            ais.push_back(nullptr);
        } else {
            int k = same >= 0 && r.chance(85) ? same : (int)(r.chance(55) ? r.range(0, GRIDS - 1) : GRIDS + r.range(0, CARS - 1));
            o.set("algo", k);
            ais.push_back(&algo(k));
            if (k >= GRIDS) cars = true;
        }
    }
    if (cars && r.chance(60)) {
        Op& o = p.add("car");
        static const int ST[] = {40, 40, 20, 100, 50, 60}, LA[] = {120, 120, 60, 200}, MSA[] = {60, 60, 45, 30}, SD[] = {15, 15, 20, 30};
        o.set("step", r.pick(ST)).set("la", r.pick(LA)).set("msa", r.pick(MSA)).set("sd", r.pick(SD)).set("steps", r.range(1, 2));
        if (r.chance(50)) o.set("bw", 1);
    }
    static const int RES[] = {200, 400, 100, 250};
    int res = r.pick(RES);
    int ph = 0;
    std::vector<int> phases[4];
    for (int i = 0; i < n; ++i) {
        const AlgoInfo* ai = ais[(size_t)i];
        bool car = ai && ai->n >= DYN;
        int maxdim = !ai ? 40 : car ? 24 : 12;
        GenMaps g;
        g.cur = 0;
        auto shape = [&](Op& o) {
            gen_map(r, o, maxdim);
            if (car || !ai) {
                o.set("res", !ai ? r.pick(RES) : res);
                if (r.chance(50)) o.set("fill", r.chance(50) ? 7 : 0);
                o.set("w", std::max<i64>(o.num("w"), 8)).set("h", std::max<i64>(o.num("h"), 8));
            }
        };
        Op& m = p.add("map");
        m.set("a", i);
        shape(m);
        int w = (int)m.num("w"), h = (int)m.num("h");
        int nq = (int)r.range(1, tier ? 5 : 3);
        for (int k = 0; k < nq; ++k) {
            if (k && r.chance(40)) {
                if (r.chance(35)) { Op& o = p.add("load"); o.set("a", i); shape(o); w = (int)o.num("w"); h = (int)o.num("h"); }
                else if (r.chance(20)) p.add("drop").set("a", i);
                else for (int j = 0; j < 3; ++j)
                    p.add("edit").set("a", i).set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.chance(50) ? 0 : 255);
            }
            ++ph;
            phases[i].push_back(ph);
            if (!ai) {
                p.add("q").set("a", i).set("s", ph).set("sx", r.range(0, 10 * w)).set("sy", r.range(0, 10 * h)).set("gx", r.range(0, 10 * w)).set("gy", r.range(0, 10 * h))
                    .set("sth", r.range(-3141, 3141)).set("gth", r.range(-3141, 3141)).set("ign", r.chance(15));
                if (r.chance(15)) p.add("at").set("t", i).set("s", ph).set("k", "read").set("n", r.scale(300)).set("do", "throw").set("id", r.range(1, 9));
                continue;
            }
            gen_query(r, p, *ai, w, h, ph);
            Op& q = p.ops.back();
            q.set("a", i);
            if (car) {
                q.set("sth", r.range(-3141, 3141)).set("gth", r.range(-3141, 3141));
                if (r.chance(50)) q.set("gth", q.num("sth"));
                if (q.num("kind") >= 2 && r.chance(20)) q.set("kind", 4).set("ss", 0).set("sf", r.range(0, 1));
                if (q.num("over")) q.set("over", r.range(1, 3000));
            }
            if (ai->interval == 0 && ai->start == 0) {} else if (r.chance(40)) q.set("kind", q.num("kind") >= 2 ? 3 : 1);
            if (car) p.add("at").set("t", i).set("s", ph).set("k", "pop").set("n", r.scale(300) + 5).set("do", "intr");
            else if (r.chance(15)) p.add("at").set("t", i).set("s", ph).set("k", r.pick({"pop", "read", "push"})).set("n", r.scale(80)).set("do", "intr");
            if (r.chance(25)) {
                Op& o = p.add("at");
                o.set("t", i).set("s", ph);
                switch (r.range(0, 3)) {
                case 0: o.set("k", "read").set("n", r.scale(200)).set("do", "throw").set("id", r.range(1, 9)); break;
                case 1: o.set("k", "alloc").set("n", r.scale(100)).set("do", "fail"); break;
                case 2: o.set("k", "read").set("n", r.scale(100)).set("do", "edit").set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.chance(50) ? 0 : 255); break;
                case 3: o.set("k", "gt").set("n", r.scale(30)).set("do", "throw").set("id", r.range(1, 9)); break;
                }
            }
        }
    }
    // the schedule
    static const char* K[] = {"read", "read", "read", "push", "pop", "intr", "alloc", "alloc", "gt", "cb", "cand"};
    int ns = (int)r.range(0, 10);
    for (int k = 0; k < ns; ++k) {
        int t = (int)r.range(0, n - 1);
        Op& o = p.add("at");
        o.set("t", t);
        if (r.chance(80)) o.set("s", phases[t][r.next() % phases[t].size()]);
        o.set("k", r.pick(K)).set("n", r.scale(300));
        if (r.chance(30)) o.set("m", r.scale(60));
        o.set("do", "sw");
        if (r.chance(30)) o.set("to", r.range(0, n - 1));
    }
    static const char* C[] = {"read", "gt", "cb", "cb", "cand"};
    int nn = (int)r.range(0, 4);
    for (int k = 0; k < nn; ++k) {
        int t = (int)r.range(0, n - 1);
        Op& o = p.add("at");
        o.set("t", t);
        if (r.chance(60)) o.set("s", phases[t][r.next() % phases[t].size()]);
        o.set("k", r.pick(C)).set("n", r.scale(60)).set("do", "nest").set("a", r.range(0, n - 1));
    }
}
int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P06", gen_p06, run_p06}};
    return main_loop(argc, argv, s);
}
