// Lines over the grid (P18) and maps as values (P19)
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
using namespace sim;
using lib_path::Point2d;

struct Injected : public std::runtime_error { int id; explicit Injected(int i) : std::runtime_error("injected error"), id(i) {} };
static void actions()
{
    set_action_handler([](const Op& o, int kind) {
        if (o.str("do") == "throw" && (kind == READ || kind == WRITE)) {
            fired(kind == READ ? F_READ_ERR : F_WRITE_ERR);
            ev("throw", (u64)o.num("id"));
            trace("task %d: %s fails", current_task(), kind == READ ? "reading the map" : "writing to the map");
            throw Injected((int)o.num("id", 1));
        }
    });
}
// outcome of f: 0 done, 2 injected error, 3 out of memory, 4 other
template <class F> static int guarded(F f)
{
    try { Lib l; f(); return 0; }
    catch (Injected&) { return 2; }
    catch (std::bad_alloc&) { return 3; }
    catch (...) { return 4; }
}
static int clampi(i64 v, i64 lo, i64 hi) { return (int)std::max(lo, std::min(hi, v)); }

// ------------------------------------------------------------------ P18
struct Ray {
    lib_path::Bresenham2d* b;
    bool set, in, has_map;             // never set / an end outside of the map: nothing to visit
    int m, x0, y0, x1, y1;             // map, ends
    int x, y, i, broken;               // current cell, its number, interrupted accesses
    Ray() : b(nullptr), set(false), in(false), has_map(false), m(0), x0(0), y0(0), x1(0), y1(0), x(0), y(0), i(0), broken(0) {}
    int length() const { return std::max(std::abs(x1 - x0), std::abs(y1 - y0)); }
};
struct RayTask {
    int id;
    std::vector<SimMap*> maps;         // maps of its own, and one that all tasks read
    std::map<int, Ray> rays;
    std::vector<const Op*> ops;
};
static void ask_cell(const RayTask& w, Ray& r, int k, const char* who)
{
    if (!r.in || !r.has_map) return;
    const SimMap& m = *w.maps[(size_t)r.m];
    int got = 0;
    Point2d p(0, 0);
    int e = guarded([&] {
        switch (k) {
        case 1: got = r.b->value(); break;
        case 2: got = r.b->isFree(); break;
        case 3: got = r.b->isOccupied(); break;
        case 4: got = r.b->isNoInformation(); break;
        default: r.b->point(p);
        }
    });
    if (e == 2) { ++r.broken; return; }
    if (e) fail("error-invented", "%s: asking for cell (%d,%d) ended with error %d", who, r.x, r.y, e);
    const MapData& d = m.d;
    int want = k == 1 ? d.at(r.x, r.y) : k == 2 ? d.free(r.x, r.y) : k == 3 ? d.occ(r.x, r.y) : d.noinf(r.x, r.y);
    if (k >= 1 && k <= 4 && got != want) fail("wrong-cell", "%s: answer %d of question %d about cell (%d,%d) is %d", who, got, k, r.x, r.y, want);
    if (k == 5 && std::hypot(p.x - (d.ox + (r.x + 0.5) * d.res), p.y - (d.oy + (r.y + 0.5) * d.res)) > 1e-6 * (1 + std::abs(d.ox) + std::abs(d.oy)))
        fail("wrong-cell", "%s: the point of cell (%d,%d) is (%g,%g)", who, r.x, r.y, p.x, p.y);
}
static void at_cell(const Ray& r, const char* who)
{
    unsigned x = 7777, y = 7777;
    { Lib l; r.b->coordinates(x, y); }
    if ((int)x != r.x || (int)y != r.y) fail("other-cells", "%s: the line from (%d,%d) to (%d,%d) is at (%d,%d), and was at (%d,%d)", who, r.x0, r.y0, r.x1, r.y1, (int)x, (int)y, r.x, r.y);
}
static void ray_step(RayTask& w, const Op& o)
{
    int s = (int)o.num("s"), id = (int)o.num("id");
    char who[100];
    snprintf(who, sizeof who, "task %d, step %d (%s)", w.id, s, o.kind.c_str());
    phase(s);
    yield(STEP);
    if (o.kind == "edit") { w.maps[0]->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v")); return; }
    if (o.kind == "drop") { auto it = w.rays.find(id); if (it != w.rays.end()) { { Lib l; delete it->second.b; } w.rays.erase(it); } return; }
    Ray& r = w.rays[id];
    if (!r.b) { Lib l; r.b = new lib_path::Bresenham2d; }
    if (o.kind == "fork") {            // a copy goes on from the same cell
        int to = (int)o.num("to");
        if (to == id) return;
        Ray& c = w.rays[to];
        Lib l;
        lib_path::Bresenham2d* b = new lib_path::Bresenham2d(*r.b);
        delete c.b;
        Env e;
        c = r;
        c.b = b;
        return;
    }
    if (o.kind == "ray") {
        int how = (int)o.num("how");
        if (r.set && r.in && r.i < r.length()) note_nontrivial();     // given up half way
        r.m = clampi(o.num("m"), 0, (i64)w.maps.size() - 1);
        const SimMap& m = *w.maps[(size_t)r.m];
        r.broken = 0; r.i = 0; r.set = true;
        if (how == 0) {
            // eighths of a cell, never exactly between two cells
            auto num = [&](const char* k) { i64 v = o.num(k); return v % 8 ? v : v + 4; };
            Point2d a(m.d.ox + num("x") * m.d.res / 8.0, m.d.oy + num("y") * m.d.res / 8.0), b(m.d.ox + num("x2") * m.d.res / 8.0, m.d.oy + num("y2") * m.d.res / 8.0);
            auto fl = [&](const char* k) { return (int)std::floor(num(k) / 8.0); };
            r.x0 = fl("x"); r.y0 = fl("y"); r.x1 = fl("x2"); r.y1 = fl("y2");
            { Lib l; r.b->set(&m, a, b); }
        } else {
            r.x0 = (int)o.num("x"); r.y0 = (int)o.num("y"); r.x1 = (int)o.num("x2"); r.y1 = (int)o.num("y2");
            Lib l;
            if (how == 1) r.b->setGrid(&m, r.x0, r.y0, r.x1, r.y1); else r.b->setGrid(r.x0, r.y0, r.x1, r.y1);
        }
        r.has_map = how != 2;
        r.in = how == 2 || (m.d.in(r.x0, r.y0) && m.d.in(r.x1, r.y1));
        r.x = r.x0; r.y = r.y0;
        if (r.in) at_cell(r, who);
        state(mix(mix((u64)how, r.in), mix((u64)(r.x1 - r.x0), (u64)(r.y1 - r.y0))));
        ev("ray", (u64)r.in, (u64)r.x0, (u64)r.y0);
        return;
    }
    if (o.kind != "walk") return;
    i64 n = o.has("n") ? std::max<i64>(0, o.num("n")) : (i64)1 << 40;
    int k = (int)o.num("ask");
    if (!r.set || !r.in) {             // nothing to visit
        for (int i = 0; i < 3; ++i) {
            bool more;
            { Lib l; more = r.b->next(); }
            if (more) fail("other-cells", "%s: a line that %s has a next cell", who, r.set ? "does not lie on the map" : "was never set");
        }
        return;
    }
    int L = r.length();
    double ux = L ? (double)(r.x1 - r.x0) / L : 0, uy = L ? (double)(r.y1 - r.y0) / L : 0;
    if (L > 3000) k = 0;
    if (L > 1000) allow_steps((u64)L * 4);
    if (r.i && r.broken) note_nontrivial();
    bool more = true;
    for (i64 j = 0; j < n; ++j) {
        at_cell(r, who);
        if (k) { ask_cell(w, r, k, who); at_cell(r, who); }
        { Lib l; more = r.b->next(); }
        if (more != (r.i < L))
            fail("other-cells", "%s: the line from (%d,%d) to (%d,%d) %s cell %d of %d", who, r.x0, r.y0, r.x1, r.y1, more ? "goes on after" : "ends at", r.i + 1, L + 1);
        if (!more) break;
        unsigned x, y;
        { Lib l; r.b->coordinates(x, y); }
        ++r.i;
        double px = r.x0 + ux * r.i, py = r.y0 + uy * r.i;
        if (std::abs((int)x - px) > 0.5 + 1e-6 || std::abs((int)y - py) > 0.5 + 1e-6)
            fail("other-cells", "%s: cell %d of the line from (%d,%d) to (%d,%d) is (%d,%d), the line passes (%.3f,%.3f)", who, r.i + 1, r.x0, r.y0, r.x1, r.y1, (int)x, (int)y, px, py);
        r.x = (int)x; r.y = (int)y;
        if (k && (j & 7) == 7) yield(STEP);
    }
    if (!more) {
        bool again;
        { Lib l; again = r.b->next(); }
        if (again) fail("other-cells", "%s: the line from (%d,%d) to (%d,%d) goes on after its end", who, r.x0, r.y0, r.x1, r.y1);
        at_cell(r, who);
    }
    ev("walk", (u64)r.i, (u64)r.x, (u64)r.y);
    state(mix(mix((u64)r.i, (u64)r.broken), mix((u64)(r.x1 - r.x0), (u64)(r.y1 - r.y0))));
}
static void run_p18(const Plan& plan)
{
    set_cost(READ, 0);
    actions();
    u64 base = live_blocks();
    std::map<int, RayTask> ts;
    std::unique_ptr<SimMap> common;
    for (auto* o : plan.all("map")) {
        int t = clampi(o->num("t"), -1, 2);
        if (t < 0) common.reset(new SimMap(make_map(*o)));
        else ts[t].maps.push_back(new SimMap(make_map(*o)));
    }
    for (auto& o : plan.ops) {
        if (o.kind == "map" || o.kind == "at" || o.kind == "poison") continue;
        auto it = ts.find(clampi(o.num("t"), 0, 2));
        if (it != ts.end()) it->second.ops.push_back(&o);
    }
    if (ts.empty()) return;
    int n = 0;
    std::vector<RayTask*> order;
    for (auto& p : ts) { p.second.id = n++; if (common) p.second.maps.push_back(common.get()); order.push_back(&p.second); }
    if (order.size() == 1) { for (auto* o : order[0]->ops) ray_step(*order[0], *o); }
    else {
        for (auto* w : order) spawn([w] { for (auto* o : w->ops) ray_step(*w, *o); });
        run_tasks();
    }
    for (auto* w : order) for (auto& a : w->rays) { Lib l; delete a.second.b; }
    if (fired_count(F_PREEMPT)) note_nontrivial();
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p18(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    int nt = r.chance(40) ? 1 : (int)r.range(2, 3), s = 0;
    static const int RES[] = {1000, 1000, 500, 250, 100, 50};
    struct M { int w, h; };
    std::vector<std::vector<M> > ms((size_t)nt);
    auto map = [&](int t) {
        M m = {(int)(r.chance(15) ? r.range(1, 2) : r.range(2, 30)), (int)(r.chance(15) ? r.range(1, 2) : r.range(2, 30))};
        if (r.chance(5)) { m.w = (int)r.range(120, 300); m.h = (int)r.range(1, 20); if (r.chance(50)) std::swap(m.w, m.h); }
        Op& o = p.add("map");
        o.set("t", t).set("w", m.w).set("h", m.h).set("res", r.pick(RES)).set("fill", r.pick({0, 1, 4, 4})).set("dens", r.range(5, 90)).set("seed", (i64)(r.next() % 100000));
        if (r.chance(30)) o.set("ox", r.range(-9, 9)).set("oy", r.range(-9, 9));
        if (r.chance(20)) o.set("noinfo", r.pick({0, 255, 100}));
        return m;
    };
    for (int t = 0; t < nt; ++t) { ms[(size_t)t].push_back(map(t)); if (r.chance(20)) ms[(size_t)t].push_back(map(t)); }
    if (r.chance(40)) { M m = map(-1); for (auto& v : ms) v.push_back(m); }
    int ops = (int)r.range(4, tier ? 60 : 30);
    for (int k = 0; k < ops; ++k) {
        int t = (int)r.range(0, nt - 1);
        ++s;
        int id = (int)r.range(0, 2), kind = (int)r.range(0, 19);
        auto op = [&](const char* kd) -> Op& { Op& o = p.add(kd); o.set("t", t).set("s", s).set("id", id); return o; };
        if (kind < 6) {
            int m = (int)r.range(0, (i64)ms[(size_t)t].size() - 1), how = (int)r.pick({0, 0, 1, 1, 2});
            const M& d = ms[(size_t)t][(size_t)m];
            Op& o = op("ray");
            o.set("how", how).set("m", m);
            i64 scale = how == 0 ? 8 : 1;
            auto c = [&](int n) -> i64 {
                if (how == 2) return r.chance(4) ? r.range(-70000, 70000) : r.range(-40, 40);
                i64 v = r.chance(6) ? r.range(-4, n + 4) : r.chance(15) ? r.pick({0, n - 1}) : r.range(0, n - 1);
                return v * scale + (how == 0 ? r.range(1, 7) : 0);
            };
            o.set("x", c(d.w)).set("y", c(d.h)).set("x2", c(d.w)).set("y2", c(d.h));
            if (r.chance(8)) o.set("x2", o.num("x"));
            if (r.chance(8)) o.set("y2", o.num("y"));
            if (r.chance(8)) o.set("y2", o.num("y") + r.pick({-1, 1}) * (o.num("x2") - o.num("x")));     // diagonal
        } else if (kind < 16) {
            Op& o = op("walk");
            o.set("ask", r.range(0, 5));
            if (r.chance(65)) o.set("n", r.range(0, 12));
            if (r.chance(30)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", "read").set("n", r.scale(12)).set("do", "throw").set("id", r.range(1, 99));
            if (nt > 1 && r.chance(50)) p.add("at").set("t", t).set("s", s).set("k", r.chance(60) ? "read" : "step").set("n", r.scale(12)).set("do", "sw");
        } else if (kind == 16) op("fork").set("to", r.range(0, 2));
        else if (kind == 17) op("drop");
        else if (kind == 18) { const M& d = ms[(size_t)t][0]; op("edit").set("x", r.range(0, d.w - 1)).set("y", r.range(0, d.h - 1)).set("v", r.pick({0, 50, 51, 100, 199, 200, 255})); }
        else { op("walk").set("ask", r.range(0, 5)); }
    }
}

// ------------------------------------------------------------------ P19
typedef lib_path::SimpleGridMap2d Simple;
typedef lib_path::RotatedGridMap2d Rotated;
typedef lib_path::CollisionGridMap2d Collision;
struct Value {
    int kind;                          // 0 plain, 1 rotated, 2 collision
    Simple* map;
    MapData d;
    double yaw;
    bool origin_known;                 // the origin was set after the rotation
    Value() : kind(0), map(nullptr), yaw(0), origin_known(true) {}
};
struct MapTask {
    int id;
    std::map<int, Value> v;
    std::vector<const Op*> ops;
};
static std::map<int, Value>* g_shared;
static bool alone;                     // no other task can run meanwhile

static void destroy(Value& v) { Lib l; delete v.map; v.map = nullptr; }
static void check_value(const Value& v, u64 seed, const char* who, const char* what)
{
    const Simple& m = *v.map;
    const lib_path::GridMap2d& g = m;
    const MapData& d = v.d;
    Lib l;
    if (g.getWidth() != d.w || g.getHeight() != d.h) fail("wrong-size", "%s: %s map is %ux%u instead of %ux%u", who, what, g.getWidth(), g.getHeight(), d.w, d.h);
    if (g.getResolution() != d.res) fail("wrong-setting", "%s: the resolution of %s map is %g instead of %g", who, what, g.getResolution(), d.res);
    if (v.kind == 0) {
        Point2d o = g.getOrigin();
        if (o.x != d.ox || o.y != d.oy) fail("wrong-setting", "%s: the origin of %s map is (%g,%g) instead of (%g,%g)", who, what, o.x, o.y, d.ox, d.oy);
    }
    if (g.getRotation() != (v.kind ? v.yaw : 0)) fail("wrong-setting", "%s: the rotation of %s map is %g instead of %g", who, what, g.getRotation(), v.yaw);
    for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) {
        int c = g.getValue(x, y);
        if (c != d.at((int)x, (int)y)) fail("wrong-cell", "%s: cell (%u,%u) of %s map is %d instead of %d", who, x, y, what, c, d.at((int)x, (int)y));
        bool f = g.isFree(x, y), o = g.isOccupied(x, y), n = g.isNoInformation(x, y);
        if (f != d.free((int)x, (int)y) || o != d.occ((int)x, (int)y) || n != d.noinf((int)x, (int)y))
            fail("wrong-answer", "%s: cell (%u,%u) of %s map with value %d is %s, %s and %s", who, x, y, what, c, f ? "free" : "not free", o ? "occupied" : "not occupied", n ? "unknown" : "known");
        if (!g.isInMap((int)x, (int)y)) fail("wrong-answer", "%s: cell (%u,%u) is not in %s map", who, x, y, what);
    }
    // positions: some cells on the map and around it
    Rng r(seed);
    double c = std::cos(v.kind ? v.yaw : 0), s = std::sin(v.kind ? v.yaw : 0);
    double far = 1 + std::abs(d.ox) + std::abs(d.oy) + d.res * (d.w + d.h);
    for (int i = 0; i < 12; ++i) {
        int x = i == 0 ? 0 : i == 1 ? (int)d.w - 1 : i == 2 ? -1 : i == 3 ? (int)d.w : (int)r.range(-4, d.w + 3);
        int y = i == 0 ? 0 : i == 1 ? (int)d.h - 1 : i == 4 ? -1 : i == 5 ? (int)d.h : (int)r.range(-4, d.h + 3);
        bool in = d.in(x, y);
        if (g.isInMap(x, y) != in) fail("wrong-answer", "%s: cell (%d,%d) is %s %s map", who, x, y, in ? "not in" : "in", what);
        double fx = r.unit() * 0.98 + 0.01, fy = r.unit() * 0.98 + 0.01;      // a point of the cell
        if ((v.kind == 0 || (v.yaw == 0 && v.origin_known)) && d.res * 8 == std::floor(d.res * 8)) {      // exact: also the edges, which belong to the cell above and right of them
            if (r.chance(50)) fx = 0;
            if (r.chance(50)) fy = 0;
        }
        double px, py;
        if (v.kind == 0 || v.origin_known) {                                 // where it has to be
            double u = (x + fx) * d.res, w = (y + fy) * d.res;
            px = d.ox + c * u - s * w; py = d.oy + s * u + c * w;
            double qx, qy;
            g.cell2pointSubPixel(x + fx, y + fy, qx, qy);
            if (std::hypot(qx - px, qy - py) > 1e-9 * far) fail("wrong-position", "%s: cell (%.2f,%.2f) of %s map is at (%g,%g) instead of (%g,%g)", who, x + fx, y + fy, what, qx, qy, px, py);
        } else g.cell2pointSubPixel(x + fx, y + fy, px, py);
        unsigned cx = 7777, cy = 7777;
        bool r1 = g.point2cell(px, py, cx, cy);
        if (r1 != in) fail("wrong-position", "%s: (%g,%g) in cell (%d,%d) is %s %s map", who, px, py, x, y, r1 ? "on" : "not on", what);
        if ((int)cx != x || (int)cy != y) fail("wrong-position", "%s: (%g,%g) is in cell (%d,%d) of %s map instead of (%d,%d)", who, px, py, (int)cx, (int)cy, what, x, y);
        if (g.isInMap(px, py) != in || g.isInMap(Point2d(px, py)) != in) fail("wrong-position", "%s: position (%g,%g) in cell (%d,%d) is %s %s map", who, px, py, x, y, in ? "not in" : "in", what);
        double sx = 7777, sy = 7777;
        bool r2 = m.point2cellSubPixel(px, py, sx, sy);
        if (r2 != in || std::hypot(sx - (x + fx), sy - (y + fy)) > 1e-6 * far / d.res)
            fail("wrong-position", "%s: (%g,%g) is %s %s map at (%.3f,%.3f) instead of %s it at (%.3f,%.3f)", who, px, py, r2 ? "on" : "not on", what, sx, sy, in ? "on" : "not on", x + fx, y + fy);
        if (in) {
            double qx, qy, ex, ey;
            g.cell2point((unsigned)x, (unsigned)y, qx, qy);
            g.cell2pointSubPixel(x + 0.5, y + 0.5, ex, ey);
            if (std::hypot(qx - ex, qy - ey) > 1e-9 * far) fail("wrong-position", "%s: the centre of cell (%d,%d) of %s map is (%g,%g) instead of (%g,%g)", who, x, y, what, qx, qy, ex, ey);
            float hx, hy;
            if (v.kind == 0) m.cell2point((unsigned)x, (unsigned)y, hx, hy);
            else static_cast<const Rotated&>(m).cell2point((unsigned)x, (unsigned)y, hx, hy);
            if (std::hypot(hx - ex, hy - ey) > 1e-5 * far) fail("wrong-position", "%s: the centre of cell (%d,%d) of %s map is about (%g,%g) instead of (%g,%g)", who, x, y, what, hx, hy, ex, ey);
        }
    }
}
static Simple* copy_of(const Value& v)
{
    if (v.kind == 0) return new Simple(*v.map);
    if (v.kind == 1) return new Rotated(static_cast<const Rotated&>(*v.map));
    return new Collision(static_cast<const Collision&>(*v.map));
}
static void map_step(MapTask& w, const Op& o)
{
    int s = (int)o.num("s"), id = clampi(o.num("id"), 0, 3);
    char who[100];
    snprintf(who, sizeof who, "task %d, step %d (%s)", w.id, s, o.kind.c_str());
    phase(s);
    yield(STEP);
    u64 f0 = failed_allocs(), live = live_blocks();
    int e = 0;
    Value& v = w.v[id];
    auto outcome = [&] {
        if (e && (e != 3 || failed_allocs() == f0)) fail("error-invented", "%s ended with error %d", who, e);
        if (alone && !e && failed_allocs() != f0) fail("error-lost", "%s: memory ran out, and nobody was told", who);
        if (e) {
            note_nontrivial();
            trace("%s: out of memory", who);
            if (alone && live_blocks() != live) fail("leak", "%s: failed for lack of memory and left %lld blocks", who, (i64)(live_blocks() - live));
        }
    };
    if (o.kind == "new") {
        int kind = clampi(o.num("kind"), 0, 2);
        unsigned mw = (unsigned)clampi(o.num("w", 3), 1, 400), mh = (unsigned)clampi(o.num("h", 3), 1, 400);
        double res = std::max<i64>(1, o.num("res", 1000)) / 1000.0, yaw = kind ? o.num("yaw") / 1000.0 : 0;
        if (v.map) destroy(v);
        live = live_blocks();
        Simple* m = nullptr;
        e = guarded([&] {
            if (kind == 0) m = new Simple(mw, mh, res);
            else if (kind == 1) m = new Rotated(mw, mh, yaw, res);
            else m = new Collision(mw, mh, yaw, res, 1.5 * res, -res, 2 * res);
        });
        outcome();
        if (e) { w.v.erase(id); return; }
        v = Value();
        v.kind = kind; v.map = m; v.yaw = yaw;
        v.d.w = mw; v.d.h = mh; v.d.res = res; v.d.ox = v.d.oy = 0;
        v.d.v.assign((size_t)mw * mh, 0);
    } else if (o.kind == "copy") {     // a new map, or over one of the same kind
        const Value* from = nullptr;
        if (o.num("shared")) { auto it = g_shared->find(clampi(o.num("from"), 0, 3)); if (it != g_shared->end()) from = &it->second; }
        else { auto it = w.v.find(clampi(o.num("from"), 0, 3)); if (it != w.v.end()) from = &it->second; }
        if (!from || !from->map) { if (!v.map) w.v.erase(id); return; }
        bool assign = v.map && v.kind == from->kind && o.num("assign");
        if (from == &v && !assign) return;
        Simple* m = nullptr;
        if (assign) {
            e = guarded([&] {
                if (v.kind == 0) *v.map = *from->map;
                else if (v.kind == 1) static_cast<Rotated&>(*v.map) = static_cast<const Rotated&>(*from->map);
                else static_cast<Collision&>(*v.map) = static_cast<const Collision&>(*from->map);
            });
        } else {
            if (v.map) destroy(v);
            live = live_blocks();
            e = guarded([&] { m = copy_of(*from); });
        }
        outcome();
        if (!e) {
            if (from != &v) { Simple* old = v.map; v = *from; v.map = assign ? old : m; }
        } else if (!assign) { w.v.erase(id); return; }
    } else if (!v.map) { w.v.erase(id); return; }
    else if (o.kind == "drop") { destroy(v); w.v.erase(id); return; }
    else if (o.kind == "set") {
        MapData n = make_map(o);
        std::vector<uint8_t> data = n.v;
        data.resize(data.size() + (size_t)clampi(o.num("more"), 0, 300), 77);
        double yaw = o.num("yaw") / 1000.0;
        e = guarded([&] {
            if (v.kind == 0) v.map->set(data, n.w, n.h);
            else static_cast<Rotated*>(v.map)->set(data, n.w, n.h, yaw);
        });
        outcome();
        if (!e) {
            v.d.w = n.w; v.d.h = n.h; v.d.v = n.v;
            if (v.kind && yaw != v.yaw) { v.yaw = yaw; v.origin_known = v.d.ox == 0 && v.d.oy == 0; }
        }
    } else if (o.kind == "fill") {
        uint8_t c = (uint8_t)o.num("v");
        { Lib l; v.map->set(c); }
        std::fill(v.d.v.begin(), v.d.v.end(), c);
    } else if (o.kind == "cell" || o.kind == "raw") {
        int x = clampi(o.num("x"), 0, (i64)v.d.w - 1), y = clampi(o.num("y"), 0, (i64)v.d.h - 1);
        uint8_t c = (uint8_t)o.num("v");
        { Lib l; if (o.kind == "cell") v.map->setValue((unsigned)x, (unsigned)y, c); else v.map->getData()[(size_t)y * v.d.w + x] = c; }
        v.d.v[(size_t)y * v.d.w + x] = c;
    } else if (o.kind == "lower") { { Lib l; v.map->setLowerThreshold((uint8_t)o.num("v")); } v.d.lower = (uint8_t)o.num("v"); }
    else if (o.kind == "upper") { { Lib l; v.map->setUpperThreshold((uint8_t)o.num("v")); } v.d.upper = (uint8_t)o.num("v"); }
    else if (o.kind == "noinfo") { { Lib l; v.map->setNoInformationValue((int)o.num("v")); } v.d.noinfo = (int)o.num("v"); }
    else if (o.kind == "res") {
        double res = std::max<i64>(1, o.num("v")) / 1000.0;
        { Lib l; v.map->setResolution(res); }
        v.d.res = res;
    } else if (o.kind == "origin") {
        double x = o.num("x") / 8.0, y = o.num("y") / 8.0;
        { Lib l; lib_path::GridMap2d& g = *v.map; g.setOrigin(Point2d(x, y)); }
        v.d.ox = x; v.d.oy = y; v.origin_known = true;
    } else return;
    for (auto& p : w.v) if (p.second.map) check_value(p.second, mix((u64)s, (u64)p.first), who, p.first == id ? (e ? "after running out of memory the" : "the") : "another");
    state(mix(mix((u64)v.kind, (u64)e), mix(v.d.hash(), mix(bits(v.yaw), (u64)(v.d.lower * 70000 + v.d.upper * 260 + v.d.noinfo)))));
    ev("op", (u64)s, (u64)e, v.d.hash());
}
static void run_p19(const Plan& plan)
{
    actions();
    u64 base = live_blocks();
    std::map<int, MapTask> ts;
    MapTask shared;
    shared.id = -1;
    for (auto& o : plan.ops) {
        if (o.kind == "at" || o.kind == "poison") continue;
        int t = clampi(o.num("t"), -1, 2);
        if (t < 0) shared.ops.push_back(&o); else ts[t].ops.push_back(&o);
    }
    std::map<int, Value> nothing;
    g_shared = &nothing;
    alone = true;
    for (auto* o : shared.ops) map_step(shared, *o);
    g_shared = &shared.v;
    alone = ts.size() == 1;
    int n = 0;
    for (auto& p : ts) p.second.id = n++;
    if (ts.size() == 1) { MapTask& w = ts.begin()->second; for (auto* o : w.ops) map_step(w, *o); }
    else if (ts.size() > 1) {
        for (auto& p : ts) { MapTask* w = &p.second; spawn([w] { for (auto* o : w->ops) map_step(*w, *o); }); }
        run_tasks();
    }
    for (auto& p : shared.v) if (p.second.map) check_value(p.second, 5, "at the end", "a shared");
    for (auto& p : shared.v) if (p.second.map) destroy(p.second);
    for (auto& w : ts) for (auto& p : w.second.v) if (p.second.map) destroy(p.second);
    if (fired_count(F_PREEMPT)) note_nontrivial();
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p19(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    int nt = r.chance(50) ? 1 : (int)r.range(2, 3), s = 0;
    static const int RES[] = {1000, 1000, 500, 250, 2000, 100, 50, 3};
    auto size = [&] { return r.chance(3) ? r.range(100, 300) : r.chance(20) ? r.range(1, 2) : r.range(1, 12); };
    auto yaw = [&] { return r.chance(30) ? 0 : r.chance(30) ? (i64)r.pick({1571, -1571, 3142, 785}) : r.range(-6500, 6500); };
    int made = 0;
    auto gen = [&](int t, bool fresh) {
        ++s;
        int id = (int)r.range(0, 2);
        auto op = [&](const char* k) -> Op& { Op& o = p.add(k); o.set("t", t).set("s", s).set("id", id); return o; };
        bool mem = false;
        switch (fresh ? 0 : (int)r.range(0, 15)) {
        case 0: {
            Op& o = op("new"); o.set("kind", r.pick({0, 0, 1, 1, 2})).set("w", size()).set("h", size()).set("res", r.pick(RES));
            if (o.num("w") * o.num("h") > 3000) o.set("h", r.range(1, 10));
            if (o.num("kind")) o.set("yaw", yaw());
            mem = true; ++made; break;
        }
        case 1: case 2: case 3: case 4: {
            Op& o = op("copy"); o.set("from", r.range(0, 2)); if (r.chance(70)) o.set("assign", 1); if (t >= 0 && r.chance(40)) o.set("shared", 1); mem = true; break;
        }
        case 5: case 6: case 7: {
            Op& o = op("set");
            o.set("w", size()).set("h", size()).set("fill", 4).set("seed", (i64)(r.next() % 100000)).set("dens", r.range(5, 90));
            if (o.num("w") * o.num("h") > 3000) o.set("h", r.range(1, 10));
            if (r.chance(60)) o.set("yaw", yaw());
            if (r.chance(10)) o.set("more", r.range(1, 300));
            mem = true; break;
        }
        case 8: op("fill").set("v", r.range(0, 255)); break;
        case 9: op("cell").set("x", size()).set("y", size()).set("v", r.range(0, 255)); break;
        case 10: op("raw").set("x", size()).set("y", size()).set("v", r.range(0, 255)); break;
        case 11: op(r.chance(50) ? "lower" : "upper").set("v", r.chance(30) ? (i64)r.pick({0, 50, 200, 255}) : r.range(0, 255)); break;
        case 12: op("noinfo").set("v", r.chance(30) ? -1 : r.range(0, 255)); break;
        case 13: op("res").set("v", r.pick(RES)); break;
        case 14: op("origin").set("x", r.range(-900, 900)).set("y", r.range(-900, 900)); break;
        default: op("drop");
        }
        if (mem && r.chance(30)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", "alloc").set("n", r.chance(60) ? r.range(1, 3) : r.scale(300)).set("do", "fail");
        if (nt > 1 && t >= 0 && r.chance(40)) p.add("at").set("t", t).set("s", s).set("k", r.chance(50) ? "alloc" : "step").set("n", r.range(1, 2)).set("do", "sw");
    };
    if (r.chance(40)) for (int i = (int)r.range(1, 5); i > 0; --i) gen(-1, made == 0);
    int ops = (int)r.range(4, tier ? 50 : 25);
    for (int t = 0; t < nt; ++t) gen(t, true);
    for (int k = 0; k < ops; ++k) gen((int)r.range(0, nt - 1), false);
}
int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P18", gen_p18, run_p18}, {"P19", gen_p19, run_p19}};
    return main_loop(argc, argv, s);
}
