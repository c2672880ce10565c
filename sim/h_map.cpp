// Collision map (P13) and map areas (P14)
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <cslibs_path_planning/common/GridMap2d.h>
using namespace sim;
using lib_path::Point2d;

struct Injected : public std::runtime_error { int id; explicit Injected(int i) : std::runtime_error("injected error"), id(i) {} };
static void actions()
{
    set_action_handler([](const Op& o, int kind) {
        if (o.str("do") == "throw" && (kind == READ || kind == WRITE)) {
            fired(kind == READ ? F_READ_ERR : F_WRITE_ERR);
            ev("throw", (u64)o.num("id"));
            trace("task %d: %s fails", current_task(), kind == READ ? "reading the map" : "writing to the map");
            throw Injected((int)o.num("id", 1));
        }
    });
}
// outcome of f: 0 done, 2 injected error, 3 out of memory, 4 other
template <class F> static int guarded(F f)
{
    try { Lib l; f(); return 0; }
    catch (Injected&) { return 2; }
    catch (std::bad_alloc&) { return 3; }
    catch (...) { return 4; }
}

// ------------------------------------------------------------------ P13
struct Foot { double f, b, w, yaw; };
struct CMap : public lib_path::CollisionGridMap2d {
    typedef lib_path::CollisionGridMap2d B;
    MapData d;
    Foot foot;
    CMap(const MapData& m, const Foot& f) : B(m.w, m.h, f.yaw, m.res, f.f, f.b, f.w), foot(f) { load(m, f.yaw); }
    CMap(const CMap& o) : B(o), d(o.d), foot(o.foot) {}
    CMap& operator=(const CMap& o) { B::operator=(o); Env e; d = o.d; foot = o.foot; return *this; }
    void load(const MapData& m, double yaw)
    {
        B::RotatedGridMap2d::set(m.v, m.w, m.h, yaw);
        setLowerThreshold((uint8_t)m.lower);
        setUpperThreshold((uint8_t)m.upper);
        setNoInformationValue(m.noinfo);
        Env e;
        d = m;
    }
    void edit(int x, int y, uint8_t v) { if (d.in(x, y)) { B::setValue(x, y, v); d.v[(size_t)y * d.w + x] = v; } }
    uint8_t getValue(const unsigned int x, const unsigned int y) const
    {
        Env e;
        if (!d.in((int)x, (int)y)) fail("map-out-of-bounds", "map of %ux%u accessed at (%d,%d)", d.w, d.h, (int)x, (int)y);
        yield(READ);
        return B::getValue(x, y);
    }
};
struct Query { int t, s, k, x, y, r; double th; };
static const char* KINDS[] = {"isFreeRotated", "isOccupiedRotated", "isNoInformationRotated"};
static int ask(const CMap& m, const Query& q)
{
    bool a = false;
    int o = guarded([&] {
        unsigned x = (unsigned)q.x, y = (unsigned)q.y;
        a = q.k == 0 ? m.isFreeRotated(x, y, q.th) : q.k == 1 ? m.isOccupiedRotated(x, y, q.th) : m.isNoInformationRotated(x, y, q.th);
    });
    return o ? o : a;
}
static std::string ans(int a) { return a == 0 ? "no" : a == 1 ? "yes" : a == 2 ? "injected error" : a == 3 ? "out of memory" : "other error"; }

// the cells surely inside of a footprint, and those surely outside of it, up to rasterisation
struct Judge {
    bool in_map, centre_free, centre_occ;
    bool core_occ, core_notfree, core_unknown, core_known, core_any;     // cells surely part of the footprint
    bool hull_occ, hull_notfree, hull_unknown, hull_known, hull_any;     // cells possibly part of it
    Judge(const MapData& m, const Foot& f, const Query& q)
    {
        in_map = m.in(q.x, q.y);
        centre_free = m.free(q.x, q.y); centre_occ = m.occ(q.x, q.y);
        core_occ = core_notfree = core_unknown = core_known = core_any = hull_occ = hull_notfree = hull_unknown = hull_known = hull_any = false;
        double F = f.f / m.res, B = f.b / m.res, H = f.w / m.res / 2;
        double R = std::max(std::hypot(F, H), std::hypot(B, H)), tol = 1.5 + 0.03 * R;
        int reach = (int)std::ceil(R + tol) + 1;
        double c = std::cos(q.th), s = std::sin(q.th);
        for (int dy = -reach; dy <= reach; ++dy) for (int dx = -reach; dx <= reach; ++dx) {
            int x = q.x + dx, y = q.y + dy;
            if (!m.in(x, y)) continue;
            double u = c * dx + s * dy, v = -s * dx + c * dy;
            bool core = u >= B + tol && u <= F - tol && std::abs(v) <= H - tol;
            bool hull = u >= B - tol && u <= F + tol && std::abs(v) <= H + tol;
            bool oc = m.occ(x, y), fr = m.free(x, y), un = m.noinf(x, y);
            if (core) { core_any = true; core_occ |= oc; core_notfree |= !fr; core_unknown |= un; core_known |= !un; }
            if (hull) { hull_any = true; hull_occ |= oc; hull_notfree |= !fr; hull_unknown |= un; hull_known |= !un; }
        }
    }
};
static void judge(const MapData& m, const Foot& f, const Query& q, int a)
{
    Judge j(m, f, q);
    int must = -1;
    const char* why = "";
    switch (q.k) {
    case 0:
        if (!j.in_map) { must = 0; why = "the cell is outside of the map"; }
        else if (!j.centre_free) { must = 0; why = "the cell itself is not free"; }
        else if (j.core_notfree) { must = 0; why = "a cell under the footprint is not free"; }
        else if (!j.hull_notfree) { must = 1; why = "all cells around are free"; }
        break;
    case 1:
        if (!j.in_map) { must = 0; why = "the cell is outside of the map"; }
        else if (j.centre_occ) { must = 1; why = "the cell itself is occupied"; }
        else if (j.core_occ) { must = 1; why = "a cell under the footprint is occupied"; }
        else if (!j.hull_occ) { must = 0; why = "no cell around is occupied"; }
        break;
    default:
        if (!j.in_map) { must = 0; why = "the cell is outside of the map"; }
        else if (j.centre_occ) { must = 0; why = "the cell itself is occupied"; }
        else if (j.core_any && !j.hull_known) { must = 1; why = "all cells around are unknown"; }
        else if (j.core_any && !j.hull_unknown) { must = 0; why = "no cell around is unknown"; }
    }
    if (must >= 0 && a < 2 && a != must)
        fail("wrong-answer", "%s(%d,%d,%.4f) is %s although %s", KINDS[q.k], q.x, q.y, q.th, ans(a).c_str(), why);
}
static Foot foot_of(const Plan& p, const char* kind)
{
    static const Op none("foot");
    const Op* o = p.find(kind);
    if (!o) o = &none;
    Foot f;
    f.f = o->num("f", 40) / 100.0; f.b = o->num("b", -20) / 100.0; f.w = std::max<i64>(1, o->num("w", 30)) / 100.0;
    if (f.b > f.f - 0.01) f.b = f.f - 0.01;
    f.yaw = o->num("yaw") / 1000.0;
    return f;
}
static void run_p13(const Plan& plan)
{
    set_cost(READ, 0);
    static const Op nomap("map");
    const Op* mo = plan.find("map");
    MapData data = make_map(mo ? *mo : nomap);
    Foot foot = foot_of(plan, "foot");
    auto fits = [](const Foot& f, const MapData& m) {
        return (f.f - f.b) * f.w / m.res / m.res <= 4000 && f.w / m.res >= 0.05 && std::max(std::abs(f.f), std::abs(f.b)) / m.res <= 300;
    };
    if (!fits(foot, data)) return;
    // the map of another robot
    const Op* mo2 = plan.find("map2");
    MapData data2 = mo2 ? make_map(*mo2) : data;
    Foot foot2 = foot_of(plan, "foot2");
    bool other = mo2 && fits(foot2, data2);
    std::map<int, std::vector<Query> > rounds;
    int ntasks = 1;
    for (auto* o : plan.all("q")) {
        Query q;
        q.t = (int)std::max<i64>(0, std::min<i64>(3, o->num("t"))); q.s = (int)o->num("s"); q.k = (int)(o->num("k") % 3);
        if (q.k < 0) q.k = 0;
        q.x = (int)o->num("x"); q.y = (int)o->num("y"); q.r = (int)o->num("r"); q.th = o->num("th") / 10000.0;
        rounds[q.r].push_back(q);
        ntasks = std::max(ntasks, q.t + 1);
    }
    actions();
    // request: footprint, groups of contents and queries; answered one after the other, last one first
    start_zygote([](const std::string& req) {
        Unpack u(req);
        i64 groups = u.i();
        other_poison();
        rearm_triggers();
        Pack p;
        for (i64 g = 0; g < groups; ++g) {
            Foot f; f.f = u.d(); f.b = u.d(); f.w = u.d(); f.yaw = u.d();
            MapData m; m.unpack(u);
            i64 n = u.i();
            std::vector<Query> qs((size_t)n);
            for (auto& q : qs) { q.t = (int)u.i(); q.s = (int)u.i(); q.k = (int)u.i(); q.x = (int)u.i(); q.y = (int)u.i(); q.th = u.d(); }
            pretend_task(-1);
            phase(-1);
            std::unique_ptr<CMap> c;
            { Lib l; c.reset(new CMap(m, f)); }
            std::vector<int> a((size_t)n);
            for (size_t i = (size_t)n; i-- > 0;) {
                pretend_task(qs[i].t);
                phase(qs[i].s);
                a[i] = ask(*c, qs[i]);
            }
            for (int v : a) p.i(v);
        }
        return p.s;
    });
    u64 base = live_blocks();
    std::vector<CMap*> own((size_t)ntasks, nullptr);
    CMap* map = nullptr;
    auto make = [&](const CMap* from, bool second = false) -> CMap* {
        CMap* c = nullptr;
        for (int i = 0; i < 30 && !c; ++i) {
            u64 live = live_blocks(), f0 = failed_allocs();
            int o = guarded([&] { c = from ? new CMap(*from) : second ? new CMap(data2, foot2) : new CMap(data, foot); });
            if (o && o != 3) fail("error-invented", "making a map ended with %s", ans(o).c_str());
            if (o) {
                note_nontrivial();
                trace("making a map failed");
                if (failed_allocs() == f0) fail("error-invented", "no request failed, but making a map ran out of memory");
                if (live_blocks() != live) fail("leak", "a map that could not be made for lack of memory left %lld blocks", (i64)(live_blocks() - live));
            }
        }
        return c;
    };
    phase(0);
    map = make(nullptr);
    if (!map) return;
    auto drop = [&](CMap*& c) { Lib l; delete c; c = nullptr; };
    auto assign = [&](CMap& to, const CMap& from) {
        u64 f0 = failed_allocs();
        for (int i = 0; i < 30; ++i) {
            int x = guarded([&] { to = from; });
            if (!x) break;
            note_nontrivial();
            if (x != 3 || failed_allocs() == f0) fail("error-invented", "assigning a map ended with %s", ans(x).c_str());
        }
    };
    struct Group { MapData m; Foot f; std::vector<Query> q; std::vector<int> a; };
    std::vector<Group> groups;
    int last = -1;
    for (auto& rq : rounds) {
        int r = rq.first;
        for (auto& o : plan.ops) if (o.num("r") == r && last != r) {
            if (o.kind == "edit") { Lib l; map->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v")); }
            else if (o.kind == "copy") {               // a reader gets a copy of its own
                size_t t = (size_t)std::max<i64>(0, o.num("t"));
                if (t >= own.size()) continue;
                phase((int)o.num("s"));
                if (own[t] && o.num("assign")) assign(*own[t], *map);
                else { drop(own[t]); own[t] = make(map); }
            }
            else if (o.kind == "other" && other) {     // the map of the other robot replaces one
                i64 t = o.num("t", -1);
                if (t >= (i64)own.size()) continue;
                phase((int)o.num("s"));
                CMap*& m = t < 0 ? map : own[(size_t)t];
                CMap* c = make(nullptr, true);
                if (!c) continue;
                if (m && o.num("assign")) { assign(*m, *c); drop(c); }
                else { drop(m); m = c; }
            }
            else if (o.kind == "self") { Lib l; CMap& m = *map; *map = m; }
            else if (o.kind == "swapbase") {           // a copy outlives the original
                phase((int)o.num("s"));
                CMap* c = make(map);
                if (c) { drop(map); map = c; }
            }
        }
        last = r;
        auto& qs = rq.second;
        std::vector<int> answers(qs.size(), -1);
        std::vector<MapData> seen((size_t)ntasks);
        std::vector<Foot> feet((size_t)ntasks);
        for (int t = 0; t < ntasks; ++t) {
            const CMap& m = own[(size_t)t] ? *own[(size_t)t] : *map;
            seen[(size_t)t] = m.d; feet[(size_t)t] = m.foot;
        }
        for (int t = 0; t < ntasks; ++t) spawn([&, t] {
            const CMap& m = own[(size_t)t] ? *own[(size_t)t] : *map;
            for (size_t i = 0; i < qs.size(); ++i) {
                if (qs[i].t != t) continue;
                phase(qs[i].s);
                answers[i] = ask(m, qs[i]);
                u64 h = mix((u64)answers[i], (u64)qs[i].k);
                ev("answer", h, (u64)qs[i].s);
                yield(STEP);
            }
        });
        run_tasks();
        pretend_task(-1);
        if (fired_count(F_PREEMPT)) note_nontrivial();
        std::vector<char> asked((size_t)ntasks, 0);
        for (int t = 0; t < ntasks; ++t) {
            if (asked[(size_t)t]) continue;
            Group g;                       // all readers of maps with these contents
            g.m = seen[(size_t)t]; g.f = feet[(size_t)t];
            auto same = [&](int o) {
                const Foot& f = feet[(size_t)o];
                return seen[(size_t)o].hash() == g.m.hash() && f.f == g.f.f && f.b == g.f.b && f.w == g.f.w && f.yaw == g.f.yaw;
            };
            for (int o = t; o < ntasks; ++o) if (!asked[(size_t)o] && same(o)) asked[(size_t)o] = (char)(1 + t);
            for (size_t i = 0; i < qs.size(); ++i) if (asked[(size_t)qs[i].t] == 1 + t) { g.q.push_back(qs[i]); g.a.push_back(answers[i]); }
            if (!g.q.empty()) groups.push_back(g);
        }
    }
    Pack p;
    p.i((i64)groups.size());
    for (auto& g : groups) {
        p.d(g.f.f).d(g.f.b).d(g.f.w).d(g.f.yaw);
        g.m.pack(p);
        p.i((i64)g.q.size());
        for (auto& q : g.q) p.i(q.t).i(q.s).i(q.k).i(q.x).i(q.y).d(q.th);
    }
    std::string alone = in_pristine(p.s);
    Unpack u(alone);
    for (auto& g : groups) for (size_t i = 0; i < g.q.size(); ++i) {
        int a = (int)u.i();
        const Query& q = g.q[i];
        trace("task %d: %s(%d,%d,%.4f) is %s, alone %s", q.t, KINDS[q.k], q.x, q.y, q.th, ans(g.a[i]).c_str(), ans(a).c_str());
        state(mix(mix((u64)g.a[i], (u64)q.k), mix(g.m.hash(), mix((u64)(q.x * 1000 + q.y), (u64)(i64)(q.th * 10)))));
        if (g.a[i] == 4) fail("error-invented", "%s(%d,%d,%.4f) ended with an error nobody injected", KINDS[q.k], q.x, q.y, q.th);
        if (g.a[i] != a)
            fail("influenced", "task %d: %s(%d,%d,%.4f) is %s, and %s when nothing else happens", q.t, KINDS[q.k], q.x, q.y, q.th, ans(g.a[i]).c_str(), ans(a).c_str());
        judge(g.m, g.f, q, g.a[i]);
    }
    for (auto& c : own) drop(c);
    drop(map);
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p13(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    static const int RES[] = {1000, 500, 250, 100, 50};
    int res = r.pick(RES), w = (int)r.range(3, 40), h = (int)r.range(3, 40);
    if (r.chance(3)) { w = (int)r.range(250, 300); if (r.chance(50)) std::swap(w, h); }
    Op& m = p.add("map");
    static const int F[] = {0, 0, 1, 1, 1, 4, 4, 5, 6, 2};
    m.set("w", w).set("h", h).set("res", res).set("fill", r.pick(F)).set("dens", r.chance(60) ? r.range(1, 6) : r.range(5, 60)).set("seed", (i64)(r.next() % 100000));
    if (r.chance(35)) m.set("noinfo", r.pick({0, 100, 254, 255}));
    auto gen_foot = [&](Op& f, int res) {
        double cell = res / 10.0;            // one cell in hundredths of a metre
        auto len = [&](double lo, double hi) { return (i64)((lo + r.unit() * (hi - lo)) * cell); };
        double big = tier ? 22 : 16;
        bool narrow = r.chance(25);
        if (narrow) big = 6;
        f.set("w", std::max<i64>(1, narrow ? len(0.5, 3) : len(3, big)));
        if (r.chance(10)) { i64 b = len(1, 8); f.set("b", b).set("f", b + 1 + len(1, big)); }
        else f.set("f", len(0, big * 0.7)).set("b", -len(0, big * 0.7));
        if (r.chance(40)) f.set("yaw", r.range(-3141, 3141));
    };
    gen_foot(p.add("foot"), res);
    if (std::max(w, h) >= 250 && r.chance(50)) {          // a long vehicle
        double cell = res / 10.0;
        Op& f = p.ops.back();
        f.set("w", (i64)(r.range(4, 12) * cell)).set("f", (i64)(r.range(60, 250) * cell)).set("b", -(i64)(r.range(0, 60) * cell));
        if (r.chance(50)) m.set("fill", 1).set("dens", r.range(0, 1));
    }
    bool other = r.chance(20);
    if (other) {
        int w2 = r.chance(40) ? w : (int)r.range(3, 40), h2 = r.chance(40) ? h : (int)r.range(3, 40), res2 = r.chance(60) ? res : r.pick(RES);
        Op& m2 = p.add("map2");
        m2.set("w", w2).set("h", h2).set("res", res2).set("fill", r.pick(F)).set("dens", r.chance(60) ? r.range(1, 6) : r.range(5, 60)).set("seed", (i64)(r.next() % 100000));
        if (r.chance(35)) m2.set("noinfo", r.pick({0, 100, 254, 255}));
        gen_foot(p.add("foot2"), res2);
    }
    int nt = (int)r.range(1, 4), nr = (int)r.range(1, 3), s = 0;
    if (r.chance(10)) p.add("at").set("s", 0).set("k", "alloc").set("n", r.scale(400)).set("do", "fail");
    for (int round = 1; round <= nr; ++round) {
        if (round > 1 || r.chance(30)) {
            for (int i = 0; i < 3; ++i) if (r.chance(50))
                p.add("edit").set("r", round).set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.pick({0, 0, 100, 255}));
            if (r.chance(30)) {
                p.add("copy").set("r", round).set("t", r.range(0, nt - 1)).set("assign", r.chance(50)).set("s", 1000 + round);
                if (r.chance(25)) p.add("at").set("s", 1000 + round).set("k", "alloc").set("n", r.scale(300)).set("do", "fail");
            }
            if (other && r.chance(60)) {
                p.add("other").set("r", round).set("t", r.range(-1, nt - 1)).set("assign", r.chance(70)).set("s", 1500 + round);
                if (r.chance(25)) p.add("at").set("s", 1500 + round).set("k", "alloc").set("n", r.scale(300)).set("do", "fail");
                if (r.chance(40)) p.add("copy").set("r", round).set("t", r.range(0, nt - 1)).set("assign", r.chance(70)).set("s", 1600 + round);
            }
            if (r.chance(5)) p.add("self").set("r", round);
            if (r.chance(12)) p.add("swapbase").set("r", round).set("s", 2000 + round);
        }
        int x0 = (int)r.range(0, w - 1), y0 = (int)r.range(0, h - 1);
        i64 th0 = r.range(-70000, 70000);
        // a heading at, or halfway between, those of the precomputed footprints
        auto slot = [&] { return (i64)std::llround(((r.chance(30) ? r.range(-1, 1) * 128 + r.range(-2, 2) : r.range(-256, 256)) + (r.chance(30) ? 0.5 : 0)) * 2 * M_PI / 128 * 10000); };
        for (int t = 0; t < nt; ++t) {
            int nq = (int)r.range(1, tier ? 14 : 8);
            for (int i = 0; i < nq; ++i) {
                Op& q = p.add("q");
                ++s;
                q.set("r", round).set("t", t).set("s", s).set("k", r.range(0, 2));
                if (r.chance(30)) q.set("x", x0).set("y", y0); else q.set("x", r.chance(7) ? r.range(-3, w + 3) : r.range(0, w - 1)).set("y", r.chance(7) ? r.range(-3, h + 3) : r.range(0, h - 1));
                q.set("th", r.chance(40) ? th0 : r.chance(20) ? slot() : r.chance(15) ? r.range(-4, 4) * 15708 : r.chance(5) ? r.range(-100000000, 100000000) : r.range(-70000, 70000));
                if (r.chance(8)) p.add("at").set("t", t).set("s", s).set("k", "read").set("n", r.scale(300)).set("do", "throw").set("id", r.range(1, 99));
                if (r.chance(3)) p.add("at").set("t", t).set("s", s).set("k", "alloc").set("n", r.range(1, 2)).set("do", "fail");
                if (nt > 1) for (int k = 0; k < 3; ++k) if (r.chance(60))
                    p.add("at").set("t", t).set("s", s).set("k", "read").set("n", r.scale(200)).set("do", "sw");
            }
        }
    }
}

// ------------------------------------------------------------------ P14
// the simulated map, which also records the accesses that succeeded
struct AMap : public SimMap {
    typedef std::pair<int, int> C;
    mutable std::vector<C> rd, wr;
    explicit AMap(const MapData& m) : SimMap(m) {}
    uint8_t getValue(const unsigned int x, const unsigned int y) const
    {
        if (depth) return SimMap::getValue(x, y);
        uint8_t v = SimMap::getValue(x, y);
        Env e; rd.push_back(C((int)x, (int)y));
        return v;
    }
    void setValue(const unsigned int x, const unsigned int y, const uint8_t v) { SimMap::setValue(x, y, v); Env e; wr.push_back(C((int)x, (int)y)); }
    bool isFree(const unsigned int x, const unsigned int y) const { bool b = SimMap::isFree(x, y); Env e; rd.push_back(C((int)x, (int)y)); return b; }
    bool isOccupied(const unsigned int x, const unsigned int y) const { bool b = SimMap::isOccupied(x, y); Env e; rd.push_back(C((int)x, (int)y)); return b; }
    bool isNoInformation(const unsigned int x, const unsigned int y) const { bool b = SimMap::isNoInformation(x, y); Env e; rd.push_back(C((int)x, (int)y)); return b; }
};
struct Area {
    int id, kind;                      // 0 circle, 1 buffer, 2 line
    lib_path::MapArea2d* a;
    std::vector<std::pair<int, int> > cells;
    std::vector<int> buf;              // -1: unspecified
    Area() : id(0), kind(0), a(nullptr) {}
};
struct Worker {
    int id;
    std::vector<AMap*> maps;
    std::vector<MapData> model;
    std::map<int, Area> areas;
    std::vector<const Op*> ops;
    int done_ops, bad;
    Worker() : id(0), done_ops(0), bad(0) {}
};
typedef std::vector<std::pair<int, int> > Cells;
static Cells walk(Area& a, size_t n, const char* who)
{
    Cells c;
    lib_path::MapArea2d* p = a.a;
    { Lib l; p->begin(); }
    for (size_t i = 0; i < n; ++i) {
        if (i > 200000) fail("endless", "%s: the traversal of an area does not end", who);
        bool more;
        { Lib l; more = p->next(); }
        if (!more) break;
        int x = 0, y = 0;
        { Lib l; p->getCell(x, y); }
        c.push_back(std::make_pair(x, y));
    }
    return c;
}
static Point2d point(const Op& o, const char* x, const char* y) { return Point2d(o.num(x) / 100.0, o.num(y) / 100.0); }
// what the cells of an area have to be
static void check_cells(const Area& a, const Op& o, const MapData& m)
{
    std::set<std::pair<int, int> > set(a.cells.begin(), a.cells.end());
    if (set.size() != a.cells.size()) fail("cell-twice", "an area of %zu cells visits %zu different ones", a.cells.size(), set.size());
    auto cell = [&](const Point2d& p, int& x, int& y) {
        double fx = (p.x - m.ox) / m.res, fy = (p.y - m.oy) / m.res;
        x = (int)std::floor(fx); y = (int)std::floor(fy);
        return m.in(x, y);
    };
    if (a.kind == 2) {
        int x0, y0, x1, y1;
        bool in = cell(point(o, "x", "y"), x0, y0);
        in = cell(point(o, "x2", "y2"), x1, y1) && in;
        if (!in) { if (!a.cells.empty()) fail("bad-cells", "a line with an end outside of the map has %zu cells", a.cells.size()); return; }
        size_t n = (size_t)std::max(std::abs(x1 - x0), std::abs(y1 - y0)) + 1;
        if (a.cells.size() != n) fail("bad-cells", "the line from (%d,%d) to (%d,%d) visits %zu cells instead of %zu", x0, y0, x1, y1, a.cells.size(), n);
        if (a.cells.front() != std::make_pair(x0, y0) || a.cells.back() != std::make_pair(x1, y1))
            fail("bad-cells", "the line from (%d,%d) to (%d,%d) visits (%d,%d) first and (%d,%d) last", x0, y0, x1, y1, a.cells.front().first, a.cells.front().second, a.cells.back().first, a.cells.back().second);
        double ux = n > 1 ? (double)(x1 - x0) / (double)(n - 1) : 0, uy = n > 1 ? (double)(y1 - y0) / (double)(n - 1) : 0;
        for (size_t i = 1; i < n; ++i)
            if (std::abs(a.cells[i].first - (x0 + ux * (double)i)) > 0.5 + 1e-6 || std::abs(a.cells[i].second - (y0 + uy * (double)i)) > 0.5 + 1e-6)
                fail("bad-cells", "the line from (%d,%d) to (%d,%d) visits (%d,%d), and passes (%.3f,%.3f)", x0, y0, x1, y1, a.cells[i].first, a.cells[i].second, x0 + ux * (double)i, y0 + uy * (double)i);
        for (size_t i = 1; i < n; ++i)
            if (std::abs(a.cells[i].first - a.cells[i - 1].first) > 1 || std::abs(a.cells[i].second - a.cells[i - 1].second) > 1)
                fail("bad-cells", "the line from (%d,%d) to (%d,%d) has a gap after (%d,%d)", x0, y0, x1, y1, a.cells[i - 1].first, a.cells[i - 1].second);
        return;
    }
    int cx, cy;
    double rad = o.num("rad") / 100.0;
    if (!cell(point(o, "x", "y"), cx, cy) || rad <= 0) {
        if (!a.cells.empty()) fail("bad-cells", "a circle without extent, or with its centre outside of the map, has %zu cells", a.cells.size());
        return;
    }
    if (rad <= m.res) {
        if (a.cells.size() != 1 || a.cells[0] != std::make_pair(cx, cy)) fail("bad-cells", "a circle no bigger than a cell visits %zu cells", a.cells.size());
        return;
    }
    int R = (int)(rad / m.res + 1e-9);
    for (auto& c : a.cells)
        if (std::abs(c.first - cx) > R || std::abs(c.second - cy) > R || std::hypot(c.first - cx, c.second - cy) > 1.125 * R + 1e-9 ||
            !set.count(std::make_pair(2 * cx - c.first, c.second)) || !set.count(std::make_pair(c.first, 2 * cy - c.second)))
            fail("bad-cells", "the circle of %d cells around (%d,%d) visits (%d,%d)", R, cx, cy, c.first, c.second);
    int I = (int)(rad / m.res - 1e-9);
    for (int y = -I; y <= I; ++y) for (int x = -I; x <= I; ++x)
        if (x * x + y * y <= I * I && !set.count(std::make_pair(cx + x, cy + y)))
            fail("bad-cells", "the circle of %d cells around (%d,%d) does not visit (%d,%d)", I, cx, cy, cx + x, cy + y);
}
static void same_map(const Worker& w, const char* after)
{
    for (size_t i = 0; i < w.maps.size(); ++i) {
        const MapData& m = w.model[i];
        w.maps[i]->depth++;            // quiet
        for (unsigned y = 0; y < m.h; ++y) for (unsigned x = 0; x < m.w; ++x) {
            int v = w.maps[i]->SimMap::getValue(x, y);
            if (v != m.at((int)x, (int)y)) { w.maps[i]->depth--; fail("wrong-cell", "after %s: cell (%u,%u) is %d instead of %d", after, x, y, v, m.at((int)x, (int)y)); }
        }
        w.maps[i]->depth--;
    }
}
static void step(Worker& w, const Op& o)
{
    int s = (int)o.num("s");
    size_t mi = (size_t)(o.num("m") ? 1 : 0);
    if (mi >= w.maps.size()) mi = 0;
    AMap* map = w.maps[mi];
    MapData& model = w.model[mi];
    char who[100];
    snprintf(who, sizeof who, "task %d, step %d (%s)", w.id, s, o.kind.c_str());
    phase(s);
    yield(STEP);
    u64 f0 = failed_allocs();
    if (o.kind == "edit") {
        int x = (int)o.num("x"), y = (int)o.num("y");
        if (!model.in(x, y)) return;
        map->edit(x, y, (uint8_t)o.num("v"));
        model.v[(size_t)y * model.w + x] = (uint8_t)o.num("v");
        return;
    }
    int id = (int)o.num("id");
    if (o.kind == "area") {
        map = w.maps[0];
        Area& a = w.areas[id];
        int kind = (int)o.num("kind");
        if (kind < 0 || kind > 2) kind = 0;
        u64 live = live_blocks();
        int e;
        bool fresh = !a.a || a.kind != kind;
        if (fresh) {
            if (a.a) { Lib l; delete a.a; a.a = nullptr; }
            a.kind = kind;
            live = live_blocks();
            e = guarded([&] {
                if (kind == 0) a.a = new lib_path::CircleArea(point(o, "x", "y"), o.num("rad") / 100.0, map);
                else if (kind == 1) a.a = new lib_path::CircleBuffer(point(o, "x", "y"), o.num("rad") / 100.0, map);
                else a.a = new lib_path::LineArea(point(o, "x", "y"), point(o, "x2", "y2"), map);
            });
        } else e = guarded([&] {
            if (kind == 2) static_cast<lib_path::LineArea*>(a.a)->set(point(o, "x", "y"), point(o, "x2", "y2"), map);
            else static_cast<lib_path::CircleArea*>(a.a)->init(point(o, "x", "y"), o.num("rad") / 100.0, map);
        });
        if (e && (e != 3 || failed_allocs() == f0)) fail("error-invented", "%s: making an area ended with error %d", who, e);
        if (e) {
            note_nontrivial();
            ++w.bad;
            trace("%s: out of memory", who);
            if (fresh) {
                if (live_blocks() != live) { /* other tasks do not run meanwhile */ fail("leak", "%s: an area that could not be made left %lld blocks", who, (i64)(live_blocks() - live)); }
                w.areas.erase(id);
                return;
            }
        }
        a.cells = walk(a, (size_t)-1, who);
        if (e) {
            std::set<std::pair<int, int> > set(a.cells.begin(), a.cells.end());
            if (set.size() != a.cells.size()) fail("cell-twice", "%s: after a failed request an area of %zu cells visits %zu different ones", who, a.cells.size(), set.size());
        } else check_cells(a, o, w.model[0]);
        a.buf.assign(a.cells.size(), e ? -1 : 0);
        state(mix(mix((u64)kind, a.cells.size()), (u64)e));
        return;
    }
    auto it = w.areas.find(id);
    if (it == w.areas.end() || !it->second.a) return;
    Area& a = it->second;
    map->rd.clear(); map->wr.clear();
    if (o.kind == "drop") { { Lib l; delete a.a; } w.areas.erase(it); return; }
    if (o.kind == "walk") {
        size_t n = o.has("n") ? (size_t)std::max<i64>(0, o.num("n")) : (size_t)-1;
        Cells c = walk(a, n, who);
        Cells want(a.cells.begin(), a.cells.begin() + (long)std::min(n, a.cells.size()));
        if (a.cells.size() < 2000) for (i64 k = 0, e = repetitions(o.num("rep"), a.cells.size()); k < e && c == want; ++k) c = walk(a, n, who);
        if (c != want) fail("other-cells", "%s: the traversal visits %zu cells, other ones than the first time (%zu)", who, c.size(), want.size());
        return;
    }
    if (o.kind == "center") {
        if (a.kind == 2) return;
        int e = guarded([&] { static_cast<lib_path::CircleArea*>(a.a)->setCenter(point(o, "x", "y"), w.maps[0]); });
        if (e) fail("error-invented", "%s: moving an area ended with error %d", who, e);
        const MapData& m = w.model[0];
        Point2d p = point(o, "x", "y");
        int x = (int)std::floor((p.x - m.ox) / m.res), y = (int)std::floor((p.y - m.oy) / m.res);
        Cells c = walk(a, (size_t)-1, who);
        if (c.size() != a.cells.size()) fail("other-cells", "%s: %zu cells, %zu before", who, c.size(), a.cells.size());
        if (m.in(x, y) && !c.empty()) {
            int dx = c[0].first - a.cells[0].first, dy = c[0].second - a.cells[0].second;
            for (size_t i = 0; i < c.size(); ++i)
                if (c[i].first - a.cells[i].first != dx || c[i].second - a.cells[i].second != dy) fail("other-cells", "%s: the area changed its shape", who);
            std::set<std::pair<int, int> > set(c.begin(), c.end());
            if (!w.bad && !set.count(std::make_pair(x, y))) fail("other-cells", "%s: the area moved to (%d,%d) does not contain its centre", who, x, y);
        } else if (!c.empty() && c != a.cells) fail("other-cells", "%s: the area moved although its new centre is outside of the map", who);
        a.cells = c;
        return;
    }
    // map operations: the cells on the map in the order of the traversal
    std::vector<size_t> in;
    for (size_t i = 0; i < a.cells.size(); ++i) if (model.in(a.cells[i].first, a.cells[i].second)) in.push_back(i);
    auto prefix = [&](const Cells& got, bool all, const char* what) {
        if (got.size() > in.size() || (all && got.size() != in.size()))
            fail("other-cells", "%s: %zu cells %s, the area has %zu of %zu on the map", who, got.size(), what, in.size(), a.cells.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (got[i] != a.cells[in[i]]) fail("other-cells", "%s: (%d,%d) %s where (%d,%d) is due", who, got[i].first, got[i].second, what, a.cells[in[i]].first, a.cells[in[i]].second);
    };
    if (o.kind == "stamp" || o.kind == "restore") {
        bool st = o.kind == "stamp";
        uint8_t v = (uint8_t)o.num("v");
        int e = guarded([&] { if (st) map->setAreaValue(*a.a, v); else map->setAreaValue(*a.a); });
        if (e && e != 2) fail("error-invented", "%s ended with error %d", who, e);
        prefix(map->wr, !e, "written");
        if (!map->rd.empty()) fail("other-cells", "%s: cells are read", who);
        for (size_t i = 0; i < map->wr.size(); ++i) {
            auto& c = a.cells[in[i]];
            uint8_t& t = model.v[(size_t)c.second * model.w + c.first];
            int b = a.kind == 1 ? a.buf[in[i]] : 0;
            if (st) t = v;
            else if (b >= 0) t = (uint8_t)b;
            else t = map->d.at(c.first, c.second);
        }
        if (e) { ++w.bad; note_nontrivial(); }
        else if (!st && w.bad) note_nontrivial();
        same_map(w, who);
    } else if (o.kind == "buffer") {
        int e = guarded([&] { map->getAreaValues(*a.a); });
        if (e && e != 2) fail("error-invented", "%s ended with error %d", who, e);
        prefix(map->rd, !e, "read");
        if (!map->wr.empty()) fail("other-cells", "%s: cells are written", who);
        for (size_t i = 0; i < map->rd.size(); ++i) a.buf[in[i]] = model.at(a.cells[in[i]].first, a.cells[in[i]].second);
        if (e) ++w.bad;
        same_map(w, who);
    } else if (o.kind == "ask") {
        int k = (int)(o.num("k") % 3);
        bool r = false;
        int e = guarded([&] { r = k == 0 ? map->isAreaFree(*a.a) : k == 1 ? map->isAreaOccupied(*a.a) : map->isAreaNoInformation(*a.a); });
        if (e && e != 2) fail("error-invented", "%s ended with error %d", who, e);
        std::set<std::pair<int, int> > set;
        for (size_t i : in) set.insert(a.cells[i]);
        for (auto& c : map->rd) if (!set.count(c)) fail("other-cells", "%s: (%d,%d) is read, which is no cell of the area", who, c.first, c.second);
        if (!map->wr.empty()) fail("other-cells", "%s: cells are written", who);
        if (!e) {
            size_t nf = 0, no = 0, nu = 0;
            for (auto& c : set) { nf += model.free(c.first, c.second); no += model.occ(c.first, c.second); nu += model.noinf(c.first, c.second); }
            int must = -1;
            if (k == 0) must = nf == set.size();
            else if (k == 1) must = no > 0;
            else if (!set.empty() && (nu == 0 || nu == set.size())) must = nu != 0;
            if (must >= 0 && (int)r != must)
                fail("wrong-answer", "%s: %s is %s with %zu free, %zu occupied and %zu unknown cells", who, k == 0 ? "isAreaFree" : k == 1 ? "isAreaOccupied" : "isAreaNoInformation", r ? "yes" : "no", nf, no, nu);
            state(mix(mix((u64)k, r), mix(nf, mix(no, nu))));
        } else ++w.bad;
    }
    ev("op", (u64)s, map->rd.size(), map->wr.size(), model.hash());
    state(mix(mix((u64)a.kind, a.cells.size()), mix(map->wr.size(), map->rd.size())));
}
static void run_p14(const Plan& plan)
{
    set_cost(READ, 0); set_cost(WRITE, 0);
    actions();
    u64 base = live_blocks();
    std::map<int, Worker> ws;
    for (auto* o : plan.all("map")) {
        Worker& w = ws[(int)std::max<i64>(0, std::min<i64>(2, o->num("t")))];
        MapData m = make_map(*o);
        if (!w.maps.empty()) { m.res = w.model[0].res; m.ox = w.model[0].ox; m.oy = w.model[0].oy; }
        w.model.push_back(m);
        w.maps.push_back(new AMap(m));
    }
    for (auto& o : plan.ops) {
        if (o.kind == "map" || o.kind == "at" || o.kind == "poison") continue;
        auto it = ws.find((int)std::max<i64>(0, std::min<i64>(2, o.num("t"))));
        if (it != ws.end()) it->second.ops.push_back(&o);
    }
    if (ws.empty()) return;
    int n = 0;
    std::vector<Worker*> order;
    for (auto& p : ws) { p.second.id = n++; order.push_back(&p.second); }
    if (order.size() == 1) { for (auto* o : order[0]->ops) step(*order[0], *o); }
    else {
        for (auto* w : order) spawn([w] { for (auto* o : w->ops) step(*w, *o); });
        run_tasks();
    }
    for (auto* w : order) for (auto& a : w->areas) { Lib l; delete a.second.a; }
    if (fired_count(F_PREEMPT)) note_nontrivial();
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p14(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    int nt = r.chance(40) ? 1 : (int)r.range(2, 3), s = 0;
    static const int RES[] = {1000, 1000, 500, 250, 100, 50};
    struct M { int w, h, res, ox, oy; } ms[3];
    for (int t = 0; t < nt; ++t) {
        M& m = ms[t];
        m = M{(int)(r.chance(10) ? r.range(1, 2) : r.range(2, 30)), (int)(r.chance(10) ? r.range(1, 2) : r.range(2, 30)), r.pick(RES), r.chance(30) ? (int)r.range(-9, 9) : 0, r.chance(30) ? (int)r.range(-9, 9) : 0};
        if (r.chance(3)) { m.w = (int)r.range(250, 300); m.h = (int)r.range(1, 12); if (r.chance(50)) std::swap(m.w, m.h); }
        Op& o = p.add("map");
        static const int F[] = {0, 1, 4, 4, 6};
        o.set("t", t).set("w", m.w).set("h", m.h).set("res", m.res).set("ox", m.ox).set("oy", m.oy).set("fill", r.pick(F)).set("dens", r.range(5, 90)).set("seed", (i64)(r.next() % 100000));
        if (r.chance(20)) o.set("noinfo", r.pick({0, 255, 100}));
        if (r.chance(20)) p.add("map").set("t", t).set("w", r.range(1, 30)).set("h", r.range(1, 30)).set("fill", 4).set("dens", r.range(5, 90)).set("seed", (i64)(r.next() % 100000));
    }
    std::vector<int> left;
    for (int t = 0; t < nt; ++t) left.push_back((int)r.range(4, tier ? 30 : 16));
    auto coord = [&](const M& m, bool x) -> i64 {           // hundredths of a metre
        double len = (x ? m.w : m.h) * m.res / 1000.0, f = r.chance(8) ? r.unit() * 1.6 - 0.3 : r.unit();
        double c = (x ? m.ox : m.oy) + f * len;
        i64 v = (i64)std::llround(c * 100), step = m.res / 10;      // not on an edge between cells
        if (step > 1 && ((v % step) + step) % step == 0) v += step / 2;
        return v;
    };
    for (;;) {
        std::vector<int> can;
        for (int t = 0; t < nt; ++t) if (left[(size_t)t]) can.push_back(t);
        if (can.empty()) break;
        int t = can[r.next() % can.size()];
        bool first = left[(size_t)t] == 0;
        (void)first;
        --left[(size_t)t];
        ++s;
        M& m = ms[t];
        int id = (int)r.range(0, 1);
        auto area = [&](int aid) {
            Op& o = p.add("area");
            int kind = (int)r.pick({0, 1, 1, 1, 2, 2});
            o.set("t", t).set("s", s).set("id", aid).set("kind", kind).set("x", coord(m, true)).set("y", coord(m, false));
            if (kind == 2) { o.set("x2", coord(m, true)).set("y2", coord(m, false)); if (r.chance(10)) o.set("x2", o.num("x")).set("y2", o.num("y")); }
            else o.set("rad", r.chance(6) ? -1 : (i64)(r.unit() * (r.chance(20) ? 1.2 : r.chance(3) ? 140 : 9) * m.res / 10));
            if (r.chance(10)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", "alloc").set("n", r.scale(14)).set("do", "fail");
        };
        auto op = [&](const char* k) -> Op& { Op& o = p.add(k); o.set("t", t).set("s", s).set("id", id); if (r.chance(12)) o.set("m", 1); return o; };
        bool access = false;
        switch (r.range(0, 12)) {
        case 0: case 1: area(id); break;
        case 2: { Op& o = op("walk"); if (r.chance(50)) o.set("n", r.range(0, 30)); if (r.chance(6)) o.set("rep", r.pick({255, 127, 511}) - r.range(0, 2)); break; }
        case 3: case 4: op("stamp").set("v", r.chance(30) ? r.range(0, 255) : (i64)r.pick({0, 255, 100})); access = true; break;
        case 5: case 6: op("buffer"); access = true; break;
        case 7: case 8: op("restore"); access = true; break;
        case 9: op("ask").set("k", r.range(0, 2)); access = true; break;
        case 10: p.add("center").set("t", t).set("s", s).set("id", id).set("x", coord(m, true)).set("y", coord(m, false)); break;
        case 11: p.add("edit").set("t", t).set("s", s).set("x", r.range(0, m.w - 1)).set("y", r.range(0, m.h - 1)).set("v", r.range(0, 255)); break;
        default: {          // buffer, overwrite, restore
            if (r.chance(60)) { Op& o = p.add("area"); o.set("t", t).set("s", s).set("id", id).set("kind", 1).set("x", coord(m, true)).set("y", coord(m, false)).set("rad", (i64)(r.unit() * 7 * m.res / 10)); ++s; }
            op("buffer"); ++s;
            op("stamp").set("v", r.range(0, 255));
            if (r.chance(60)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", "write").set("n", r.scale(60)).set("do", "throw").set("id", r.range(1, 99));
            ++s;
            op("restore");
        }
        }
        if (access && r.chance(15)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", r.chance(50) ? "read" : "write").set("n", r.scale(60)).set("do", "throw").set("id", r.range(1, 99));
        if (nt > 1 && r.chance(50)) p.add("at").set("t", t).set("s", s).set("k", r.chance(50) ? "read" : "write").set("n", r.scale(40)).set("do", "sw");
        if (nt > 1 && r.chance(30)) p.add("at").set("t", t).set("s", s).set("k", "step").set("n", 1).set("do", "sw");
    }
}
int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P13", gen_p13, run_p13}, {"P14", gen_p14, run_p14}};
    return main_loop(argc, argv, s);
}
