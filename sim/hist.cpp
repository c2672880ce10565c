#include "hist.hpp"
using namespace sim;

Obs g_obs;
u64 g_edits = 0;

void install_observer()
{
    set_observer([](int kind, bool after) {
        Obs& o = g_obs;
        if (!o.active) return;
        if (!after) {
            if (kind == PUSH) o.pushed = true;
            if (kind == ALLOC || kind == CLOCK || kind == STEP) return;
            if (g_threw && kind != INTR && kind != POP && kind != PUSH && o.after_throw.empty())
                o.after_throw = kind_name(kind);
            if (o.stopped && kind != INTR && kind != POP && kind != PUSH && o.after_stop.empty()) o.after_stop = kind_name(kind);
            if (kind == POP && o.pushed) {
                o.pops++;
                o.pop_t.push_back(now());
                if (o.intr_kind >= 0) o.pops_after_intr++;
            }
            if (kind == CB) o.cb_at.push_back((int)o.pops);
            if (kind == GT) o.gt_at.push_back((int)o.pops);
            if (kind == CAND) o.cand_calls++;
        } else {
            if (interrupt_pending() && o.intr_kind < 0) o.intr_kind = kind;
            if (kind == CAND && g_hooks && g_hooks->stop) o.stopped = true;
        }
    });
    sim_open_hook = [](bool push, const void* node, double key) {
        Obs& o = g_obs;
        if (!o.active) return;
        if (push) { if (o.popped.count(node)) ++o.reopened; }
        else if (o.pushed) { o.pop_key.push_back(key); o.popped.insert(node); }
    };
}

QResult observed_query(IPlanner& p, SimMap* map, const Query& q, bool set_map)
{
    g_obs.clear();
    map->watch();
    g_edits = 0;
    g_obs.t_call = now();
    g_obs.active = true;
    QResult r = run_query(p, map, q, set_map);
    g_obs.active = false;
    g_obs.t_ret = now();
    state(mix(map->d.hash(), mix((u64)r.outcome, mix(g_obs.pops, r.path.size()))));
    return r;
}

Hist::Hist(const Plan& p, IPlanner* (*mk)()) : plan(p), cur(nullptr), make(mk)
{
    ai = &algo((int)p.num("planner", "algo"));
    if (!make) make = ai->make;
    for (auto* o : p.all("map")) {
        MapData m = make_map(*o);
        int id = (int)o->num("id");
        if (maps.count(id)) continue;
        maps[id] = new SimMap(m);
        if (!cur) cur = maps[id];
    }
    if (!cur) { Op o("map"); maps[0] = cur = new SimMap(make_map(o)); }
    grid_actions([this] { ++g_edits; return cur; });
    install_observer();
}
IPlanner* Hist::planner(int i)
{
    if (i < 0) i = 0;
    while ((int)planners.size() <= i) planners.push_back(nullptr);
    for (int tries = 0; !planners[i]; ++tries) {
        try { Lib l; planners[i] = make(); } catch (std::bad_alloc&) { if (tries > 20) throw; }
    }
    return planners[i];
}
void Hist::drop_planner(int i)
{
    if (i >= 0 && i < (int)planners.size() && planners[i]) { Lib l; delete planners[i]; planners[i] = nullptr; }
}
Hist::~Hist()
{
    for (size_t i = 0; i < planners.size(); ++i) drop_planner((int)i);
    for (auto& m : maps) delete m.second;
}
std::function<void(const Op&)> g_other_op;
static const Op* g_last_other = nullptr;
static std::string fmt(const char* f, ...)
{
    char b[400];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
// many short searches on the same map, without faults; they all must end alike
void Hist::repeat(const Op& o)
{
    static const Op none("q");
    Query q = Query::parse(none);
    q.sx = std::floor((double)o.num("rx") / 10.0); q.sy = std::floor((double)o.num("ry") / 10.0);
    q.gx = q.sx + (double)o.num("rd"); q.gy = q.sy;
    q.ties = 1;
    q.phase = -5;
    if (ai->n >= 100 /* a car */) { q.tlimit = 0.02; q.gx = q.sx; }
    if (cur->d.v.size() > 4000) return;
    IPlanner& p = *planner((int)o.num("p"));
    enable_triggers(false);
    std::string first;
    i64 n = repetitions(o.num("rep"), cur->d.v.size());
    for (i64 i = 0; i < n; ++i) {
        allow_steps(400 + 30 * cur->d.v.size());
        std::string s = run_query(p, cur, q).pack();
        if (i == 0) first = s;
        else if (s != first && rep_diff.empty()) rep_diff = fmt("repetition %lld of a search: %s", i, diff_results(s, first).c_str());
    }
    enable_triggers(true);
}
void Hist::run(std::function<void(const Query&, const Op&, IPlanner&)> f)
{
    for (auto& o : plan.ops) {
        if (o.kind == "use") {
            auto it = maps.find((int)o.num("id"));
            if (it != maps.end()) cur = it->second;
        } else if (o.kind == "edit") {
            cur->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v"));
        } else if (o.kind == "load") {           // the map object gets other contents, maybe another size
            MapData m = make_map(o);
            if (m.w != cur->d.w || m.h != cur->d.h) fired(F_RESIZE);
            cur->load(m);
        } else if (o.kind == "move") {
            MapData m = cur->d;
            m.ox = (double)o.num("ox"); m.oy = (double)o.num("oy");
            m.res = std::max<i64>(1, o.num("res", 1000)) / 1000.0;
            cur->load(m);
        } else if (o.kind == "drop") {
            drop_planner((int)o.num("p"));
        } else if (o.kind == "q") {
            Query q = Query::parse(o);
            rep_diff.clear();
            if (o.num("rep") > 0 && !o.num("nomap")) repeat(o);
            f(q, o, *planner((int)o.num("p")));
        } else if (o.kind == "settings" && g_other_op) {
            g_last_other = &o;
            g_other_op(o);
        }
    }
}

Op& gen_query(Rng& r, Plan& p, const AlgoInfo& ai, int w, int h, int phase)
{
    Op& o = p.add("q");
    o.set("s", phase);
    static const int K[] = {0, 0, 0, 1, 2, 2, 3, 3};
    o.set("kind", r.pick(K));
    auto coord = [&](int n) -> i64 {
        if (r.chance(4)) return r.chance(50) ? -r.range(1, 30) : 10 * n + r.range(0, 30);
        i64 c = r.range(0, n - 1) * 10;
        if (r.chance(15)) c += r.range(1, 9);
        return c;
    };
    o.set("sx", coord(w)).set("sy", coord(h)).set("gx", coord(w)).set("gy", coord(h));
    if (r.chance(30)) o.set("sth", r.range(-3141, 3141)).set("gth", r.range(-3141, 3141));
    if (r.chance(35)) o.set("over", r.chance(20) ? 1000000 : r.range(1, 12000));
    if (o.num("over") && r.chance(50)) o.set("cand", 1);
    o.set("gtr", r.chance(15) ? -1 : r.range(0, 3));
    if (r.chance(50)) o.set("hg", 1);
    if (r.chance(30)) o.set("gtm", 1);
    o.set("ties", r.chance(20) ? (i64)r.range(0, 1) : (i64)(r.next() % 1000));
    if (phase > 1 && r.chance(2) && (ai.n < 100 || r.chance(12))) {           // as many searches before as counters of 7, 8, 9 and (rarely) 16 bits can hold
        o.set("rep", ai.n < 100 && r.chance(1) && r.chance(40) ? 65535 - r.range(0, 2) : r.pick({255, 255, 127, 511}) - r.range(0, 2));
        o.set("rx", coord(w)).set("ry", coord(h)).set("rd", r.range(0, 1));
    }
    return o;
}
GenMaps gen_maps(Rng& r, Plan& p, int n, int maxdim)
{
    GenMaps g;
    g.cur = 0;
    for (int i = 0; i < n; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_map(r, o, maxdim);
        g.dims.push_back(std::make_pair((int)o.num("w"), (int)o.num("h")));
    }
    return g;
}
void gen_map_op(Rng& r, Plan& p, GenMaps& g, int maxdim)
{
    switch (r.range(0, 5)) {
    case 0: case 1:
        if (g.dims.size() > 1) { g.cur = (int)r.range(0, (int)g.dims.size() - 1); p.add("use").set("id", g.cur); break; }
        // fall through
    case 2: case 3: {
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i)
            p.add("edit").set("x", r.range(0, g.dims[g.cur].first - 1)).set("y", r.range(0, g.dims[g.cur].second - 1)).set("v", r.chance(50) ? 0 : 255);
        break;
    }
    case 4: {
        Op& o = p.add("load");
        gen_map(r, o, maxdim);
        if (r.chance(25)) {       // same number of cells in another shape
            o.set("w", g.dims[g.cur].second); o.set("h", g.dims[g.cur].first);
        }
        g.dims[g.cur] = std::make_pair((int)o.num("w"), (int)o.num("h"));
        break;
    }
    case 5: {
        static const int RES[] = {1000, 50, 500, 2000};
        p.add("move").set("ox", r.range(-9, 9)).set("oy", r.range(-9, 9)).set("res", r.pick(RES));
        break;
    }
    }
}

std::string check_path(const Query& q, const SimMap& m, const PathV& p, const AlgoInfo& ai, bool check_cost, bool goal_end, bool at_least)
{
    if (p.empty()) return "";
    const MapData& d = m.d;
    double sx = q.sx, sy = q.sy, gx = q.gx, gy = q.gy;
    bool pose = q.kind <= 1;
    PathV path = p;
    if (ai.reversed) {
        std::reverse(path.begin(), path.end());     // as it was searched
        if (pose) { std::swap(sx, gx); std::swap(sy, gy); }
    }
    int csx = (int)std::floor(sx), csy = (int)std::floor(sy), cgx = (int)std::floor(gx), cgy = (int)std::floor(gy);
    if (!d.in(csx, csy)) return fmt("path although the start (%g,%g) is outside of the map", sx, sy);
    if (pose && !d.in(cgx, cgy)) return fmt("path although the goal (%g,%g) is outside of the map", gx, gy);
    size_t si = (size_t)csy * d.w + csx;
    if (!m.notocc_seen[si]) return fmt("path although the start cell (%d,%d) is occupied", csx, csy);
    std::set<std::pair<int, int> > seen;
    for (size_t i = 0; i < path.size(); ++i) {
        double fx = path[i].x, fy = path[i].y;
        int x = (int)fx, y = (int)fy;
        if (fx != x || fy != y) return fmt("node %zu (%g,%g) is not a cell", i, fx, fy);
        if (!d.in(x, y)) return fmt("node %zu (%d,%d) is outside of the map", i, x, y);
        if (!seen.insert(std::make_pair(x, y)).second) return fmt("cell (%d,%d) appears twice", x, y);
        if (i == 0) {
            if (x != csx || y != csy) return fmt("path begins at (%d,%d), start is (%d,%d)", x, y, csx, csy);
            if (check_cost && path[0].dist != 0) return fmt("distance of the start node is %g", path[0].dist);
            continue;
        }
        int dx = std::abs(x - (int)path[i - 1].x), dy = std::abs(y - (int)path[i - 1].y);
        bool ok = (dx == 0 || dx == ai.dist) && (dy == 0 || dy == ai.dist) && (dx || dy) && (ai.n == 8 || !(dx && dy));
        if (!ok) return fmt("no step of the neighbourhood: (%g,%g) -> (%d,%d)", path[i - 1].x, path[i - 1].y, x, y);
        if (!m.free_seen[(size_t)y * d.w + x]) return fmt("cell (%d,%d) was never free during the search", x, y);
        if (check_cost) {
            double step = (dx && dy ? std::sqrt(2.0) : 1.0) * ai.dist * d.res;
            double off = path[i].dist - path[i - 1].dist - step, eps = 1e-9 * (1 + path[i].dist);
            if (off < -eps || (off > eps && !at_least))
                return fmt("distance of node %zu is %.9g after %.9g, the step is %.9g long", i, path[i].dist, path[i - 1].dist, step);
        }
    }
    if (!goal_end) return "";
    int x = (int)path.back().x, y = (int)path.back().y;
    if (pose) {
        if (std::abs(x - cgx) > ai.dist || std::abs(y - cgy) > ai.dist)
            return fmt("path ends at (%d,%d), goal is (%d,%d)", x, y, cgx, cgy);
    } else if (!q.accepts(x, y)) {
        return fmt("path ends at (%d,%d), which the goal test does not accept", x, y);
    }
    return "";
}

std::string req_of(const AlgoInfo& ai, const Query& q, const MapData& m)
{
    Pack p;
    p.i(ai.id);
    q.pack(p);
    m.pack(p);
    return p.s;
}
static std::string diff_paths(const PathV& a, const PathV& b)
{
    if (a.size() != b.size()) return fmt("%zu and %zu nodes", a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        if (bits(a[i].x) != bits(b[i].x) || bits(a[i].y) != bits(b[i].y)) return fmt("node %zu is (%g,%g) and (%g,%g)", i, a[i].x, a[i].y, b[i].x, b[i].y);
        if (bits(a[i].theta) != bits(b[i].theta)) return fmt("heading of node %zu is %g and %g", i, a[i].theta, b[i].theta);
        if (bits(a[i].dist) != bits(b[i].dist)) return fmt("distance of node %zu is %.17g and %.17g", i, a[i].dist, b[i].dist);
        if (a[i].forward != b[i].forward || a[i].steer != b[i].steer) return fmt("direction or steering of node %zu", i);
    }
    return "";
}
std::string diff_results(const std::string& a, const std::string& b)
{
    QResult x, y;
    Unpack ua(a), ub(b);
    x.unpack(ua); y.unpack(ub);
    std::string s = x.text() + "  versus  " + y.text(), d = diff_paths(x.path, y.path);
    if (!d.empty()) return s + "; " + d;
    for (size_t i = 0; i < x.cands.size() && i < y.cands.size(); ++i) {
        d = diff_paths(x.cands[i], y.cands[i]);
        if (!d.empty()) return s + "; candidate " + std::to_string(i) + ": " + d;
    }
    return s;
}

void zygote_grid()
{
    // runs one query on a new planner in a process that has seen nothing else
    start_zygote([](const std::string& req) {
        Unpack u(req);
        const AlgoInfo& ai = algo((int)u.i());
        Query q; q.unpack(u);
        MapData m; m.unpack(u);
        bool faults = u.i() != 0;
        i64 other = u.i();
        if (other) g_other_op(*(const Op*)other);        // the plan is at the same place in this process
        SimMap map(m);
        grid_actions([&] { ++g_edits; return &map; });
        install_observer();
        other_poison();
        rearm_triggers();
        enable_triggers(faults);
        IPlanner* p;
        { Lib l; p = ai.make(); }
        QResult r = observed_query(*p, &map, q);
        Pack out;
        out.b(r.pack()).i((i64)map.d.hash()).i(g_obs.t_ret - g_obs.t_call);
        return out.s;
    });
}
Ref reference(const AlgoInfo& ai, const Query& q, const MapData& m, bool faults)
{
    std::string s = in_pristine(req_of(ai, q, m) + Pack().i(faults).i((i64)g_last_other).s);
    Unpack u(s);
    Ref r;
    r.result = u.b();
    r.map_hash = (u64)u.i();
    r.dur = u.i();
    return r;
}
void gen_common(Rng& r, Plan& p)
{
    Op& o = p.add("poison");
    o.set("mode", r.chance(25) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999));
}
// one fault somewhere in phase s
void gen_fault(Rng& r, Plan& p, const Op& q, int s, int cells, bool cb_exact, int w, int h)
{
    i64 kind = q.num("kind");
    bool gt = kind >= 2, cb = (kind == 1 || kind == 3) && cb_exact, cand = q.num("cand");
    auto n = [&](int hi) { return r.chance(20) ? r.range(1, 3) : r.scale(hi); };
    Op& o = p.add("at");
    o.set("s", s);
    switch (r.range(0, 7)) {
    case 0: case 1: o.set("k", "read").set("n", n(cells * 8)).set("do", "throw"); break;
    case 2: {
        static const char* K[] = {"read", "pop", "push", "intr", "clock"};
        const char* k = gt && r.chance(30) ? "gt" : cb && r.chance(30) ? "cb" : r.pick(K);
        o.set("k", k).set("n", n(cells * 2)).set("do", "intr");
        break;
    }
    case 3: if (gt) { o.set("k", "gt").set("n", n(cells)).set("do", "throw"); break; }   // fall through
    case 4: if (cb) { o.set("k", "cb").set("n", n(cells)).set("do", "throw"); break; }   // fall through
    case 5: if (cand) { o.set("k", "cand").set("n", r.range(1, 6)).set("do", r.chance(50) ? "throw" : "stop"); break; } // fall through
    default: {
        static const char* K[] = {"read", "pop", "push"};
        o.set("k", r.pick(K)).set("n", n(cells * 4)).set("do", "edit").set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.chance(35) ? 0 : 255);
        if (r.chance(30)) {
            Op& o2 = p.add("at");
            o2.set("s", s).set("k", r.pick(K)).set("n", n(cells * 6)).set("do", "edit").set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.chance(50) ? 0 : 255);
        }
        break;
    }
    }
    if (o.str("do") == "throw") { o.set("id", r.range(1, 99)); if (r.chance(50)) o.set("ty", r.range(1, 4)); }
}
