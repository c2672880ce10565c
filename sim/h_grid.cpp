// Scenarios of the grid planners: P01-P05, P07, P09, P10
#include "hist.hpp"
using namespace sim;

static int pick_algo(Rng& r, std::function<bool(const AlgoInfo&)> ok)
{
    for (;;) {
        const AlgoInfo& a = algo((int)r.range(0, (i64)algos().size() - 1));
        if (ok(a)) return a.id;
    }
}
// ------------------------------------------------------------------ P01
static void gen_p01(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(80) ? 9 : r.chance(90) ? 16 : 40;
    int a = pick_algo(r, [](const AlgoInfo&) { return true; });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    if (r.chance(30)) p.add("cost").set("k", "read").set("ns", 50000);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 3), maxdim);
    int nq = (int)r.range(2, 6);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(55)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        bool faulty = r.chance(i == nq ? 10 : 60);
        bool exact_cb = ai.interval == 1;
        Op q0 = gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        if (r.chance(12) && i < nq) q.set("nomap", 1);
        if (faulty && r.chance(25)) q.set("tl", r.chance(50) ? r.range(1000, 3000) : r.range(1000, 20000));
        if (r.chance(15)) q.set("gx", q.num("sx")).set("gy", q.num("sy"));
        Op copy = q;
        if (faulty) gen_fault(r, p, copy, i, w * h, exact_cb, w, h);
    }
}
static void run_p01(const Plan& plan)
{
    set_cost(CB, 0);       // when the callback comes depends on earlier searches (P09); let it not decide what a time limit allows
    zygote_grid();
    Hist h(plan);
    int faults = 0, compared = 0;
    struct Held { SimMap* m; unsigned w, h; };
    std::map<IPlanner*, Held> held;
    h.run([&](const Query& q, const Op& o, IPlanner& p) {
        if (o.num("nomap")) {
            // a search on the map (and the node marks) the planner still holds: whatever comes
            // out, it must not matter later.  The map object must not have changed its size.
            auto it = held.find(&p);
            if (it == held.end() || it->second.m->d.w != it->second.w || it->second.m->d.h != it->second.h) return;
            observed_query(p, it->second.m, q, false);
            ++faults;
            return;
        }
        MapData before = h.cur->d;
        held[&p] = Held{h.cur, before.w, before.h};
        if (!h.rep_diff.empty()) fail("differs-from-new-planner", "before search %d (%s): %s", q.phase, h.ai->name, h.rep_diff.c_str());
        QResult r = observed_query(p, h.cur, q);
        u64 after = h.cur->d.hash();
        std::string mine = r.pack();
        Ref ref = reference(*h.ai, q, before);
        if (ref.result != mine)
            fail("differs-from-new-planner", "search %d (%s): this planner versus a new one: %s", q.phase, h.ai->name,
                 diff_results(mine, ref.result).c_str());
        if (ref.map_hash != after) fail("map-left-different", "search %d left the map in another state than on a new planner", q.phase);
        if (compared || faults) note_nontrivial();
        if (r.outcome != O_PATH) ++faults;
        ++compared;
    });
}

// ------------------------------------------------------------------ P02
static void gen_p02(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(70) ? 10 : r.chance(90) ? 18 : 36;
    int a = pick_algo(r, [](const AlgoInfo& x) { return x.interval <= 1; });
    p.add("planner").set("algo", a);
    i64 rc = r.pick({1000, 10000, 100000, 1000000});
    p.add("cost").set("k", "read").set("ns", rc);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(30)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, algo(a), w, h, i);
        Op& q = p.ops.back();
        if (r.chance(30)) q.set("gtr", -1);
        i64 est = rc / 1000 * w * h * 8 + 1000;                // microseconds for the whole map
        if (r.chance(85)) q.set("tl", r.chance(10) ? (r.chance(50) ? 0 : -r.range(1, 5000)) : r.chance(30) ? r.scale(est * 20) + 1000 : r.range(1000, est * 3 + 2000));
        if (r.chance(8)) {
            // so far away that it never comes: minutes, a month, 100, 300 and 10000 years, infinity
            static const i64 FAR_[] = {300000000ll, 2592000000000ll, 3153600000000000ll, 9467085600000000ll, 315569520000000000ll, 4000000000000000000ll};
            q.set("tl", r.pick(FAR_));
        }
        int nd = (int)r.range(0, 3);
        for (int k = 0; k < nd; ++k) {
            static const char* K[] = {"read", "pop", "push", "intr", "clock", "gt", "cb", "clock"};
            Op& o = p.add("at");
            o.set("s", i).set("k", r.pick(K)).set("n", r.scale(w * h * 4));
            i64 ns = r.scale(est * 4) * 1000;
            if (r.chance(50)) o.set("do", "stall").set("ns", ns);
            else {
                static const i64 J[] = {1000000000ll, 3600000000000ll, 86400000000000ll};
                i64 j = r.chance(40) ? ns : r.pick(J);
                o.set("do", "jump").set("ns", r.chance(50) ? j : -j);
            }
        }
    }
}
static void run_p02(const Plan& plan)
{
    zygote_grid();
    Hist h(plan);
    h.run([&](const Query& q, const Op&, IPlanner& p) {
        MapData before = h.cur->d;
        Query free = q;
        free.tlimit = -1;
        Ref ref = reference(*h.ai, free, before);
        QResult r = observed_query(p, h.cur, q);
        Obs o = g_obs;
        std::string mine = r.pack();
        i64 limit = q.tlimit > 4e9 ? 4000000000000000000ll : q.tlimit > 0 ? (i64)std::llround(q.tlimit * 1e9) : 0;
        i64 elapsed = o.t_ret - o.t_call;
        if (mine != ref.result) {
            if (limit <= 0)
                fail("cut-off-without-limit", "no limit is set, but: %s", diff_results(mine, ref.result).c_str());
            if (elapsed < limit - 1000000)
                fail("cut-off-early", "limit %.3f ms, only %.6f ms elapsed, yet: %s", limit / 1e6, elapsed / 1e6, diff_results(mine, ref.result).c_str());
            fired(F_TIMEOUT);
            note_nontrivial();
            if (r.outcome != O_PATH) fail("cut-off-raises", "the search that was cut off ended with %s", r.text().c_str());
            if (!r.path.empty()) {
                if (q.over == 0 && q.kind <= 1) fail("cut-off-result", "cut off without candidates, but: %s", r.text().c_str());
                std::string e = check_path(q, *h.cur, r.path, *h.ai, false);
                if (!e.empty()) fail("cut-off-result", "path of the search that was cut off: %s", e.c_str());
            } else if (!r.cands.empty())
                fail("cut-off-result", "cut off with %zu candidates, but no path is returned", r.cands.size());
        }
        if (limit > 0 && !o.pop_t.empty()) {
            // the latest moment from which the limit can have been counted is the first expansion
            i64 deadline = o.pop_t[0] + limit;
            int late = 0;
            for (i64 t : o.pop_t) if (t > deadline) ++late;
            if (late > 1)
                fail("late", "limit %.3f ms: %d nodes were expanded after it had elapsed (last one %.3f ms after the first)", limit / 1e6, late,
                     (o.pop_t.back() - o.pop_t[0]) / 1e6);
            if (elapsed > limit / 2) note_nontrivial();
        }
    });
}

// ------------------------------------------------------------------ P03
static void gen_p03(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(80) ? 9 : r.chance(90) ? 14 : 36;
    int a = pick_algo(r, [](const AlgoInfo&) { return true; });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(1, 3);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(30)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        if (r.chance(30)) q.set("gtr", -1);
        if (r.chance(30)) q.set("tl", 1000000000);
        Op copy = q;
        i64 q_kind = copy.num("kind");
        gen_fault(r, p, copy, i, w * h, true, w, h);
        if (r.chance(30)) gen_fault(r, p, copy, i, w * h, true, w, h);
        bool cb = q_kind == 1 || q_kind == 3, gt = q_kind >= 2, cand = copy.num("cand");
        if ((cb || gt || cand) && r.chance(50)) {
            Op& o = p.add("at");
            const char* k = cb && r.chance(60) ? "cb" : gt && r.chance(60) ? "gt" : cand ? "cand" : cb ? "cb" : "gt";
            o.set("s", i).set("k", k).set("n", r.chance(50) ? r.range(1, 4) : r.scale(w * h));
            o.set("do", r.chance(40) ? "intr" : "throw");
            if (o.str("do") == "throw") o.set("id", r.range(1, 99)).set("ty", r.range(0, 4));
        }
    }
}
static void run_p03(const Plan& plan)
{
    set_cost(CB, 0);       // when the callback comes depends on earlier searches (P09); let it not decide what a time limit allows
    zygote_grid();
    Hist h(plan);
    h.run([&](const Query& q, const Op&, IPlanner& p) {
        MapData before = h.cur->d;
        QResult r = observed_query(p, h.cur, q);
        Obs o = g_obs;
        bool threw = g_threw;
        if (threw) {
            note_nontrivial();
            if (!o.after_throw.empty())
                fail("goes-on-after-error", "after the error was thrown the search made a %s access (then: %s)", o.after_throw.c_str(), r.text().c_str());
            int out = g_threw_ty == ERR_ODD ? O_ODD : g_threw_ty == ERR_INTERRUPTED ? O_INTERRUPTED : O_INJECTED;
            int id = g_threw_ty == ERR_LOGIC ? 1000 + g_threw_id : g_threw_ty == ERR_ALLOC ? 2000 + g_threw_id : g_threw_ty == ERR_INTERRUPTED ? 0 : g_threw_id;
            if (r.outcome != out || r.err_id != id)
                fail("error-changed", "the error thrown into the search reached the caller as: %s", r.text().c_str());
        } else {
            if (r.outcome == O_INJECTED || r.outcome == O_ODD || r.outcome == O_NOMEM || r.outcome == O_OTHER)
                fail("error-invented", "nothing failed, but the search ended with: %s", r.text().c_str());
            if (r.outcome == O_INTERRUPTED && o.intr_kind < 0)
                fail("error-invented", "nobody asked for an interruption, but the search was interrupted");
        }
        if (o.intr_kind >= 0) {
            note_nontrivial();
            u64 allowed = (o.intr_kind == CLOCK || o.intr_kind == INTR) ? 1 : 0;
            if (o.pops_after_intr > allowed)
                fail("interruption-ignored", "interruption requested at a %s; %llu more nodes were expanded, then: %s", kind_name(o.intr_kind),
                     o.pops_after_intr, r.text().c_str());
            // not interrupted: then the search was over already
            if (!threw && !o.stopped && !g_edits && r.outcome != O_INTERRUPTED && !(q.tlimit > 0 && o.t_ret - o.t_call >= (i64)(q.tlimit * 1e9) - 1000000)) {
                Ref ref = reference(*h.ai, q, before, false);
                if (r.pack() != ref.result)
                    fail("interruption-ignored", "interruption requested at a %s, yet the search neither was over nor ended by it: %s", kind_name(o.intr_kind),
                         diff_results(r.pack(), ref.result).c_str());
            }
        }
        if (o.stopped) {
            note_nontrivial();
            if (!o.after_stop.empty()) fail("goes-on-after-accept", "after a candidate was accepted the search made a %s access", o.after_stop.c_str());
        }
    });
}

// ------------------------------------------------------------------ P04
static void gen_p04(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(75) ? 9 : r.chance(90) ? 20 : 50;
    int a = pick_algo(r, [](const AlgoInfo&) { return true; });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    if (r.chance(30)) p.add("cost").set("k", "read").set("ns", 50000);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(60)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        if (r.chance(20)) q.set("tl", r.range(1000, 9000));
        Op copy = q;
        int ne = (int)r.range(0, 6);
        for (int k = 0; k < ne; ++k) {
            static const char* K[] = {"read", "read", "pop", "push"};
            Op& o = p.add("at");
            o.set("s", i).set("k", r.pick(K)).set("n", r.scale(w * h * 4)).set("do", "edit").set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1));
            o.set("v", r.chance(40) ? 0 : 255);
        }
        if (r.chance(15)) gen_fault(r, p, copy, i, w * h, true, w, h);
    }
}
static void run_p04(const Plan& plan)
{
    Hist h(plan);
    h.run([&](const Query& q, const Op&, IPlanner& p) {
        QResult r = observed_query(p, h.cur, q);
        bool at_least = g_obs.reopened != 0;     // then a node may not know yet that the one before has become nearer
        if (r.outcome != O_PATH) return;
        if (!r.path.empty()) note_nontrivial();
        std::string e = check_path(q, *h.cur, r.path, *h.ai, true, true, at_least);
        if (!e.empty()) fail("bad-path", "search %d (%s): %s; %s", q.phase, h.ai->name, e.c_str(), r.text().c_str());
        // a planned path that uses a node whose predecessor changed under a moving map may be cut into
        // nothing, but never into something else; candidates obey the same rules
        for (auto& c : r.cands) {
            PathV v = c;
            if (h.ai->reversed) std::reverse(v.begin(), v.end());
            e = check_path(q, *h.cur, v, *h.ai, true, q.kind <= 1, at_least);
            if (!e.empty()) fail("bad-candidate", "search %d (%s): candidate: %s", q.phase, h.ai->name, e.c_str());
        }
    });
}

// ------------------------------------------------------------------ P05
static void gen_p05(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(70) ? 10 : r.chance(80) ? 24 : 60;
    int a = pick_algo(r, [](const AlgoInfo& x) { return !(x.norm == L1 && x.n == 8); });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(50)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        for (auto it = q.kv.begin(); it != q.kv.end();) if (it->first == "over" || it->first == "cand" || it->first == "gtm") it = q.kv.erase(it); else ++it;
        Op copy = q;
        if (r.chance(12) && i < nq) gen_fault(r, p, copy, i, w * h, ai.interval == 1, w, h);
    }
}
static double heur(const AlgoInfo& ai, double dx, double dy)
{
    dx = std::abs(dx); dy = std::abs(dy);
    switch (ai.norm) {
    case L1: return dx + dy;
    case L2: return std::hypot(dx, dy);
    case LINF: return std::max(dx, dy);
    default: return 0;
    }
}
static void run_p05(const Plan& plan)
{
    Hist h(plan);
    h.run([&](const Query& q, const Op&, IPlanner& p) {
        bool faulted = false;
        QResult r = observed_query(p, h.cur, q);
        faulted = g_threw || g_edits || g_obs.intr_kind >= 0;
        if (faulted) return;
        const AlgoInfo& ai = *h.ai;
        const MapData& d = h.cur->d;
        double sx = q.sx, sy = q.sy, gx = q.gx, gy = q.gy;
        if (ai.reversed && q.kind <= 1) { std::swap(sx, gx); std::swap(sy, gy); }
        int csx = (int)std::floor(sx), csy = (int)std::floor(sy), cgx = (int)std::floor(gx), cgy = (int)std::floor(gy);
        bool pose = q.kind <= 1;
        bool start_out = !d.in(csx, csy), goal_out = pose && !d.in(cgx, cgy);
        if (start_out || goal_out) {
            if (r.outcome == O_PATH)
                fail("outside-not-reported", "%s (%g,%g) is outside of the %ux%u map, but: %s", start_out ? "start" : "goal", start_out ? sx : gx,
                     start_out ? sy : gy, d.w, d.h, r.text().c_str());
            if (r.outcome != O_OUTSIDE && r.outcome != O_LOGIC) fail("outside-not-reported", "reported as %s", r.text().c_str());
            return;
        }
        if (r.outcome != O_PATH) fail("unexpected-error", "%s", r.text().c_str());
        RefDist ref = ref_dijkstra(d, csx, csy, ai.n, ai.dist);
        double inf = std::numeric_limits<double>::infinity(), best_f = inf, best_g = inf;
        if (!(pose && d.occ(cgx, cgy)))
            for (int y = 0; y < (int)d.h; ++y) for (int x = 0; x < (int)d.w; ++x) {
                if (!ref.reach(x, y)) continue;
                bool acc = pose ? std::abs(x - cgx) <= ai.dist && std::abs(y - cgy) <= ai.dist : q.accepts(x, y);
                if (!acc) continue;
                // goal poses resolve to their cell
                double hx = pose ? heur(ai, x - cgx, y - cgy) : q.hgoal ? heur(ai, x - gx, y - gy) : 0;
                best_f = std::min(best_f, ref.at(x, y) + hx);
                best_g = std::min(best_g, ref.at(x, y));
            }
        note_nontrivial();
        if (best_g == inf) {
            if (!r.path.empty()) fail("path-out-of-nothing", "the goal cannot be reached, but: %s", r.text().c_str());
            return;
        }
        if (r.path.empty()) fail("no-path", "%s: the goal can be reached from (%d,%d) at cost %.9g, but no path was found", ai.name, csx, csy, best_g * d.res);
        PathV v = r.path;
        if (ai.reversed) std::reverse(v.begin(), v.end());
        std::string e = check_path(q, *h.cur, r.path, ai, true);
        if (!e.empty()) fail("bad-path", "%s; %s", e.c_str(), r.text().c_str());
        const PathPt& l = v.back();
        double g = l.dist / d.res, eps = 1e-7 * (1 + g);
        double gt = ref.at((int)l.x, (int)l.y);
        if (std::abs(g - gt) > eps)
            fail("not-shortest", "%s: path to (%g,%g) costs %.9g cells, the shortest one %.9g; %s", ai.name, l.x, l.y, g, gt, r.text().c_str());
        double f = g + (pose ? heur(ai, l.x - cgx, l.y - cgy) : q.hgoal ? heur(ai, l.x - gx, l.y - gy) : 0);
        if (f > best_f + eps && g > best_g + eps)
            fail("not-best-goal", "%s: ended at (%g,%g) with %.9g (estimated total %.9g), possible is %.9g (%.9g)", ai.name, l.x, l.y, g, f, best_g, best_f);
        if (pose && f > best_f + eps)
            fail("not-best-goal", "%s: ended at (%g,%g) with total %.9g, possible is %.9g", ai.name, l.x, l.y, f, best_f);
    });
}

// ------------------------------------------------------------------ P07
static void gen_p07(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(85) ? 5 : 8;
    int a = pick_algo(r, [](const AlgoInfo&) { return true; });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    p.add("allocs").set("from", 1).set("max", tier ? 600 : 160).set("burst", r.chance(75) ? 1 : r.range(2, 4));
    GenMaps g = gen_maps(r, p, (int)r.range(1, 3), maxdim);
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(70)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        p.ops.back().set("rep", 0);
        Op copy = p.ops.back();
        if (r.chance(15)) gen_fault(r, p, copy, i, w * h, false, w, h);
    }
}
static void run_p07(const Plan& plan)
{
    set_cost(CB, 0);       // when the callback comes depends on earlier searches (P09); let it not decide what a time limit allows
    struct One { std::string pack; QResult r; u64 map; bool threw; };
    auto execute = [&](u64 k, u64 burst, std::vector<One>& out, bool& leak, u64& nalloc) {
        rearm_triggers();
        u64 base = live_blocks();
        reset_alloc_stats();
        set_fail_alloc(k, burst);
        Hist* h = new Hist(plan);
        IPlanner* last = nullptr;
        bool dead = false;
        h->run([&](const Query& q, const Op&, IPlanner& p) {
            u64 f0 = failed_allocs();
            One o;
            u64 before = h->cur->d.hash();
            o.r = observed_query(p, h->cur, q);
            o.threw = failed_allocs() != f0;
            o.pack = o.r.pack();
            o.map = mix(before, h->cur->d.hash());
            out.push_back(o);
        });
        nalloc = alloc_count();
        set_fail_alloc(0, 0);
        delete h;
        leak = live_blocks() != base;
        if (leak) out.push_back(One());
        return live_blocks() - base;
    };
    std::vector<One> clean;
    bool leak = false;
    u64 total = 0;
    { std::vector<One> warm; execute(0, 0, warm, leak, total); }
    execute(0, 0, clean, leak, total);
    if (leak) fail("leak", "memory requested by the planner is not released with it (no failure injected)");
    u64 from = (u64)plan.num("allocs", "from", 1), max = (u64)plan.num("allocs", "max", 200), burst = (u64)std::max<i64>(1, plan.num("allocs", "burst", 1));
    u64 step = total > max ? (total + max - 1) / max : 1;
    if (from < 1) from = 1;
    u64 n = 0;
    for (u64 k = from; k <= total && n < max; k += step, ++n) {
        std::vector<One> got;
        u64 t2 = 0;
        ev("k", k);
        u64 left = 0;
        left = execute(k, burst, got, leak, t2);
        if (leak) fail("leak", "memory request %llu fails: %llu blocks are never released", k, left);
        note_nontrivial();
        bool seen = false;
        for (size_t i = 0; i < clean.size() && i < got.size(); ++i) {
            if (got[i].threw) {
                seen = true;
                if (got[i].r.outcome != O_NOMEM)
                    fail("not-reported", "memory request %llu fails in search %zu, which ended with: %s", k, i + 1, got[i].r.text().c_str());
                continue;
            }
            // an aborted search may have left map edits undone that the clean history made
            if (got[i].map != clean[i].map) break;
            if (got[i].pack != clean[i].pack)
                fail("different-afterwards", "memory request %llu fails; search %zu then gives %s instead of %s", k, i + 1, got[i].r.text().c_str(),
                     clean[i].r.text().c_str());
        }
        if (got.size() < clean.size()) fail("lost-search", "memory request %llu fails: only %zu of %zu searches came back", k, got.size(), clean.size());
    }
}

// ------------------------------------------------------------------ P09
static void gen_p09(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(80) ? 9 : r.chance(90) ? 16 : 40;
    int a = r.chance(85) ? pick_algo(r, [](const AlgoInfo& x) { return x.interval > 0; }) : pick_algo(r, [](const AlgoInfo&) { return true; });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    if (r.chance(30)) p.add("cost").set("k", "read").set("ns", 50000);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(2, 7);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(30)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        q.set("kind", r.chance(10) ? 0 : r.chance(50) ? 1 : 3);
        if (r.chance(30)) q.set("p", 1);
        if (r.chance(15)) q.set("tl", r.range(1000, 9000));
        Op copy = q;
        if (r.chance(35)) gen_fault(r, p, copy, i, w * h, true, w, h);
    }
}
static void run_p09(const Plan& plan)
{
    zygote_grid();
    Hist h(plan);
    const AlgoInfo& ai = *h.ai;
    int N = ai.interval, S = std::max(1, ai.start);
    // possible positions of the counter: -k: k start-up calls left; k > 0: finished expansions until the next call
    std::set<int> pos;
    pos.insert(-S);
    auto finished = [&](bool called, const char* where, const QResult& r) {
        std::set<int> nx;
        for (int s : pos) {
            bool c; int t;
            if (s < 0) { c = true; t = s + 1 == 0 ? N : s + 1; }
            else { c = s == 1; t = c ? N : s - 1; }
            if (c == called) nx.insert(t);
        }
        if (nx.empty())
            fail("callback-rhythm", "%s (every %d, start-up %d): %s after an expansion, %s; %s", ai.name, N, ai.start,
                 called ? "a callback came" : "no callback came", where, r.text().c_str());
        pos = nx;
    };
    h.run([&](const Query& q, const Op& o, IPlanner& p) {
        MapData before = h.cur->d;
        QResult r = observed_query(p, h.cur, q);
        Obs ob = g_obs;
        bool cbq = q.kind == 1 || q.kind == 3;
        if (!cbq || N == 0) {
            if (!ob.cb_at.empty()) fail("callback-uninvited", "%s: %zu callbacks in a search that has none", ai.name, ob.cb_at.size());
        } else {
            std::vector<int> calls(ob.pops + 1, 0);
            for (int c : ob.cb_at) {
                if (c == 0) fail("callback-rhythm", "%s: callback before the first expansion", ai.name);
                if (++calls[c] > 1) fail("callback-rhythm", "%s: two callbacks after expansion %d", ai.name, c);
            }
            bool early = r.outcome != O_PATH || (q.tlimit > 0 && ob.t_ret - ob.t_call >= (i64)(q.tlimit * 1e9) - 1000000) || ob.stopped;
            for (u64 i = 1; i < ob.pops; ++i) finished(calls[i] == 1, "in the middle of a search", r);
            if (ob.pops) {
                u64 i = ob.pops;
                if (early) {
                    // whatever happened in the last expansion: the next call is at most N finished expansions away
                    std::set<int> nx;
                    for (int s : pos) { if (s < 0) for (int k = s; k < 0; ++k) nx.insert(k); }
                    for (int k = 1; k <= N; ++k) nx.insert(k);
                    pos = nx;
                } else if (calls[i]) {
                    finished(true, "after the last expansion", r);
                } else if (!r.path.empty() && r.cands.empty()) {
                    // the last node was accepted: not a finished expansion
                } else if (r.path.empty() && r.cands.empty()) {
                    finished(false, "after the last expansion", r);
                } else {
                    std::set<int> keep = pos;
                    bool possible = false;
                    for (int s : pos) if (s > 1) possible = true;
                    if (possible) { finished(false, "after the last expansion", r); pos.insert(keep.begin(), keep.end()); }
                }
                note_nontrivial();
            }
        }
        if (cbq && !g_threw && ob.intr_kind < 0 && !(q.tlimit > 0)) {
            Query silent = q;
            silent.kind = q.kind - 1;
            Ref ref = reference(ai, silent, before);
            if (ref.result != r.pack() && g_edits == 0)
                fail("callback-changes-result", "%s: with callback versus without: %s", ai.name, diff_results(r.pack(), ref.result).c_str());
        }
    });
}

// ------------------------------------------------------------------ P10
static void gen_p10(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    int maxdim = r.chance(80) ? 10 : r.chance(90) ? 18 : 40;
    int a = pick_algo(r, [](const AlgoInfo& x) { return !(x.norm == L1 && x.n == 8); });
    const AlgoInfo& ai = algo(a);
    p.add("planner").set("algo", a);
    if (r.chance(40)) p.add("cost").set("k", "read").set("ns", 50000);
    GenMaps g = gen_maps(r, p, (int)r.range(1, 2), maxdim);
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(50)) gen_map_op(r, p, g, maxdim);
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        gen_query(r, p, ai, w, h, i);
        Op& q = p.ops.back();
        q.set("kind", r.chance(20) ? 2 : r.chance(70) ? 0 : 1);
        if (q.num("kind") == 2 && r.chance(80)) q.set("gtm", 1);
        if (r.chance(90)) q.set("over", r.chance(15) ? 1000000 : r.range(1, 8000)); else q.set("over", 0);
        if (r.chance(40)) q.set("over", r.range(1, 6) * 250);        // nodes exactly at the bound
        if (r.chance(40)) q.set("cand", 1);
        if (r.chance(20)) q.set("tl", r.range(1000, 9000));
        Op copy = q;
        if (r.chance(25)) gen_fault(r, p, copy, i, w * h, true, w, h);
        else if (q.num("cand") && r.chance(40)) p.add("at").set("s", i).set("k", "cand").set("n", r.range(1, 8)).set("do", "stop");
    }
}
static void run_p10(const Plan& plan)
{
    Hist h(plan);
    h.run([&](const Query& q, const Op&, IPlanner& p) {
        Hooks hooks;
        g_hooks = &hooks;
        QResult r = observed_query(p, h.cur, q);
        g_hooks = nullptr;
        Obs ob = g_obs;
        if (r.outcome != O_PATH) return;
        const AlgoInfo& ai = *h.ai;
        const MapData& d = h.cur->d;
        if (q.over == 0) { Env e; std::vector<PathV> c; { Lib l; p.candidates(c); } r.cands = c; }
        if (q.over == 0 && q.kind <= 1) {
            if (!r.cands.empty()) fail("stale-candidate", "search %d collects no candidates, but %zu are listed", q.phase, r.cands.size());
            return;
        }
        double sx = q.sx, sy = q.sy, gx = q.gx, gy = q.gy;
        bool pose = q.kind <= 1;
        if (ai.reversed && pose) { std::swap(sx, gx); std::swap(sy, gy); }
        int csx = (int)std::floor(sx), csy = (int)std::floor(sy), cgx = (int)std::floor(gx), cgy = (int)std::floor(gy);
        if (!d.in(csx, csy) || (pose && !d.in(cgx, cgy))) return;
        auto dist = [&](const PathPt& l) { return pose ? std::hypot(l.x - cgx, l.y - cgy) : std::hypot(l.x - gx, l.y - gy); };
        bool stat = g_edits == 0;
        double mind = std::numeric_limits<double>::infinity();
        std::set<std::pair<int, int> > cells;
        for (auto& c : r.cands) {
            PathV v = c;
            if (ai.reversed) std::reverse(v.begin(), v.end());
            std::string e = check_path(q, *h.cur, v, ai, stat);
            if (c.empty()) { if (stat) fail("bad-candidate", "an empty path is listed as a candidate"); else continue; }
            if (!e.empty()) fail("bad-candidate", "%s", e.c_str());
            const PathPt& l = c.back();
            mind = std::min(mind, dist(l));
            cells.insert(std::make_pair((int)l.x, (int)l.y));
        }
        if (!r.cands.empty()) note_nontrivial();
        PathV v = r.path;
        if (ai.reversed) std::reverse(v.begin(), v.end());
        if (ob.stopped) {
            const PathV& a = hooks.accepted;
            bool same = a.size() == v.size();
            for (size_t i = 0; same && i < a.size(); ++i) same = a[i].x == v[i].x && a[i].y == v[i].y;
            if (!same && stat) fail("accepted-not-returned", "a candidate of %zu nodes was accepted, but the result is: %s", a.size(), r.text().c_str());
            return;
        }
        if (r.cands.empty()) {
            if (!r.path.empty()) fail("path-without-candidate", "no candidate, but: %s", r.text().c_str());
        } else {
            if (v.empty()) { if (stat) fail("candidate-not-returned", "%zu candidates, but no path is returned", r.cands.size()); }
            else {
                double dd = dist(v.back());
                if (dd > mind + 1e-9) fail("not-nearest", "path ends %g cells from the goal, a candidate is at %g", dd, mind);
            }
        }
        bool timed = q.tlimit > 0 && ob.t_ret - ob.t_call >= (i64)(q.tlimit * 1e9) - 1000000;
        if (!stat) return;
        // completeness and bound
        RefDist ref = ref_dijkstra(d, csx, csy, ai.n, ai.dist);
        double inf = std::numeric_limits<double>::infinity(), fmin = inf;
        std::vector<std::pair<std::pair<int, int>, double> > region;
        if (!(pose && d.occ(cgx, cgy)))
            for (int y = 0; y < (int)d.h; ++y) for (int x = 0; x < (int)d.w; ++x)
                if (ref.reach(x, y) && (pose ? std::abs(x - cgx) <= ai.dist && std::abs(y - cgy) <= ai.dist : q.accepts(x, y))) {
                    double f = (ref.at(x, y) + (pose ? heur(ai, x - cgx, y - cgy) : 0)) * d.res;
                    region.push_back(std::make_pair(std::make_pair(x, y), f));
                    fmin = std::min(fmin, f);
                }
        double eps = 1e-7 * (1 + (fmin == inf ? 0 : fmin));
        // with whole and quarter costs every sum is exact, and so is the bound
        if (ai.n == 4 && (ai.norm != L2 || !pose) && d.res * 4 == std::floor(d.res * 4) && q.over * 4 == std::floor(q.over * 4)) eps = 0;
        int beyond = 0;
        double over = q.over;
        if (!pose) {
            if (q.gtm == 0) {            // ends with the first node it accepts
                if (!timed && fmin < inf && r.path.empty()) fail("no-path", "the goal test accepts reachable cells, but no path was found");
                if (r.cands.size() > 1) fail("goes-on-after-accept", "the goal test ended the search, yet there are %zu candidates", r.cands.size());
                return;
            }
            if (over == 0) over = inf;   // no bound
            else if (q.hgoal) {          // the bound is on cost plus estimate, the order is by cost
                if (!timed && fmin < inf && r.cands.empty()) fail("candidate-missed", "accepted cells can be reached, but there is no candidate");
                return;
            }
        }
        for (auto& c : region) {
            bool have = cells.count(c.first) > 0;
            if (!timed && !have && (eps > 0 ? c.second < fmin + over - eps : c.second <= fmin + over))
                fail("candidate-missed", "%s: goal region cell (%d,%d) has total cost %.9g, the first candidate %.9g, oversearch %.9g, but it is no candidate",
                     ai.name, c.first.first, c.first.second, c.second, fmin, q.over);
            if (have && c.second > fmin + over + eps) ++beyond;
        }
        if (beyond > 1) fail("beyond-bound", "%d candidates lie beyond the oversearch bound", beyond);
        int late = 0;
        for (double k : ob.pop_key) if (k > fmin + over + eps) ++late;
        if (ob.pop_key.size() && fmin < inf && late > 1)
            fail("beyond-bound", "%s: %d nodes were taken up beyond the first candidate's cost %.9g plus %.9g", ai.name, late, fmin, q.over);
        if (!timed && fmin < inf && r.cands.empty()) fail("candidate-missed", "the goal region can be reached, but there is no candidate");
    });
}

int main(int argc, char** argv)
{
    return main_loop(argc, argv, {{"P01", gen_p01, run_p01}, {"P02", gen_p02, run_p02}, {"P03", gen_p03, run_p03}, {"P04", gen_p04, run_p04},
                                  {"P05", gen_p05, run_p05}, {"P07", gen_p07, run_p07}, {"P09", gen_p09, run_p09}, {"P10", gen_p10, run_p10}});
}
