// The classic A* planner: histories of queries, maps and failures (P08)
#include "maps.hpp"
#include <sstream>
#include <cslibs_path_planning/a_star/AStar.h>
using namespace sim;

struct Injected : public std::runtime_error { int id; explicit Injected(int i) : std::runtime_error("injected error"), id(i) {} };
struct Answer {
    int outcome;                  // 0 no path, 1 path, 2 injected error, 3 out of memory, 4 other
    std::string what;
    std::vector<std::pair<int, int> > path;
    Answer() : outcome(0) {}
    std::string pack() const
    {
        Pack p;
        p.i(outcome).b(what).i((i64)path.size());
        for (auto& c : path) p.i(c.first).i(c.second);
        return p.s;
    }
    std::string text() const
    {
        static const char* N[] = {"no path", "path", "injected error", "out of memory", "other error"};
        std::string s = std::string(N[outcome]) + (what.empty() ? "" : " ") + what + ", " + std::to_string(path.size()) + " cells";
        for (size_t i = 0; i < path.size() && i < 10; ++i) s += " (" + std::to_string(path[i].first) + "," + std::to_string(path[i].second) + ")";
        return s;
    }
};
template <class F> static Answer guarded(F f)
{
    Answer a;
    try { Lib l; f(a); }
    catch (Injected& e) { a.outcome = 2; a.what = std::to_string(e.id); }
    catch (std::bad_alloc&) { a.outcome = 3; }
    catch (std::exception& e) { a.outcome = 4; a.what = e.what(); }
    catch (...) { a.outcome = 4; }
    if (a.outcome > 1) a.path.clear();
    return a;
}
static Answer query(lib_path::AStar& s, int sx, int sy, int gx, int gy)
{
    return guarded([&](Answer& a) {
        lib_path::waypoint_t from = {sx, sy}, to = {gx, gy};
        a.outcome = s.planPath(from, to);
        lib_path::path_t* p = s.getLastPath();
        Env e;
        for (auto& w : *p) a.path.push_back(std::make_pair(w.x, w.y));
    });
}
static std::string check(const MapData& m, const Answer& a, int sx, int sy, int gx, int gy)
{
    char b[300];
    bool inside = m.in(sx, sy) && m.in(gx, gy);
    if (a.outcome == 0) {
        if (!a.path.empty()) return "no path found, but the last path is not empty";
        if (!inside) return "";
        if (sx == gx && sy == gy) { if (m.free(sx, sy)) return "no path to the cell it starts in"; return ""; }
        if (!m.free(gx, gy) || !m.free(sx, sy)) return "";
        RefDist d = ref_dijkstra(m, sx, sy, 8, 1);
        if (d.reach(gx, gy)) { snprintf(b, sizeof b, "no path from (%d,%d) to (%d,%d) although there is one of length %g", sx, sy, gx, gy, d.at(gx, gy)); return b; }
        return "";
    }
    if (!inside) { snprintf(b, sizeof b, "path although start (%d,%d) or goal (%d,%d) is outside of the map", sx, sy, gx, gy); return b; }
    if (a.path.empty()) return "path found, but the last path is empty";
    if (a.path.front() != std::make_pair(sx, sy)) { snprintf(b, sizeof b, "path begins at (%d,%d), start is (%d,%d)", a.path.front().first, a.path.front().second, sx, sy); return b; }
    if (a.path.back() != std::make_pair(gx, gy)) { snprintf(b, sizeof b, "path ends at (%d,%d), goal is (%d,%d)", a.path.back().first, a.path.back().second, gx, gy); return b; }
    std::set<std::pair<int, int> > seen;
    for (size_t i = 0; i < a.path.size(); ++i) {
        int x = a.path[i].first, y = a.path[i].second;
        if (!m.in(x, y)) { snprintf(b, sizeof b, "cell (%d,%d) of the path is outside of the map", x, y); return b; }
        if (!m.free(x, y) && i + 1 < a.path.size()) { snprintf(b, sizeof b, "cell (%d,%d) of the path is not free", x, y); return b; }
        if (!seen.insert(a.path[i]).second) { snprintf(b, sizeof b, "cell (%d,%d) appears twice", x, y); return b; }
        if (i && (std::abs(x - a.path[i - 1].first) > 1 || std::abs(y - a.path[i - 1].second) > 1)) { snprintf(b, sizeof b, "cells %zu and %zu are not adjacent", i - 1, i); return b; }
    }
    // Nodes are taken and improved by whole numbers of their estimated cost (the code says so), so
    // that each step of a shortest path can add up to one cell, but not more (see DESIGN.md).
    if (a.path.size() > 1) {
        double len = 0, best;
        for (size_t i = 1; i < a.path.size(); ++i)
            len += a.path[i].first != a.path[i - 1].first && a.path[i].second != a.path[i - 1].second ? std::sqrt(2.0) : 1.0;
        RefDist d = ref_dijkstra(m, sx, sy, 8, 1);
        best = m.free(gx, gy) ? d.at(gx, gy) : std::numeric_limits<double>::infinity();
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx)
            if ((dx || dy) && m.in(gx + dx, gy + dy)) best = std::min(best, d.at(gx + dx, gy + dy) + (dx && dy ? std::sqrt(2.0) : 1.0));
        if (!(best < 1e9)) { snprintf(b, sizeof b, "path although none leads to the goal"); return b; }
        int steps = 0;                // straight and diagonal steps of a shortest path
        for (int dia = 0; dia * std::sqrt(2.0) < best + 1e-6; ++dia) {
            double straight = best - dia * std::sqrt(2.0);
            if (std::fabs(straight - std::round(straight)) < 1e-6) { steps = dia + (int)std::lround(straight); break; }
        }
        if (len > best + steps + 1e-6) { snprintf(b, sizeof b, "path of length %g, the shortest has %g", len, best); return b; }
    }
    return "";
}
static void actions(std::function<SimMap*()>)
{
    set_action_handler([](const Op& o, int kind) {
        if (o.str("do") == "throw" && kind == READ) {
            fired(F_READ_ERR);
            ev("throw", (u64)o.num("id"));
            trace("reading the map fails");
            throw Injected((int)o.num("id", 1));
        }
    });
}
static void run_p08(const Plan& plan)
{
    std::map<int, SimMap*> maps;
    SimMap* cur = nullptr;
    for (auto* o : plan.all("map")) {
        int id = (int)o->num("id");
        if (maps.count(id)) continue;
        maps[id] = new SimMap(make_map(*o));
        if (!cur) cur = maps[id];
    }
    if (!cur) { Op o("map"); maps[0] = cur = new SimMap(make_map(o)); }
    actions([&] { return cur; });
    start_zygote([](const std::string& req) {
        Unpack u(req);
        int s = (int)u.i(), sx = (int)u.i(), sy = (int)u.i(), gx = (int)u.i(), gy = (int)u.i();
        MapData m; m.unpack(u);
        SimMap map(m);
        other_poison();
        rearm_triggers();
        phase(-1);
        lib_path::AStar* p;
        { Lib l; p = new lib_path::AStar(&map); }
        phase(s);
        Answer a = query(*p, sx, sy, gx, gy);
        return a.pack();
    });
    u64 base = live_blocks();
    lib_path::AStar* p = nullptr;
    bool set = false;                 // the planner knows the current map
    int n = 0, ph = 0;
    auto give = [&]() -> bool {
        for (int tries = 0; tries < 12; ++tries) {
            u64 f0 = failed_allocs();
            Answer a = guarded([&](Answer&) {
                if (!p) p = new lib_path::AStar(cur); else p->setNewMap(cur);
            });
            bool nomem = failed_allocs() != f0;
            if (nomem) note_nontrivial();
            if (nomem && a.outcome != 3) fail("not-reported", "a memory request failed while the map was set, but nothing was reported");
            if (!nomem && a.outcome == 3) fail("error-invented", "out of memory reported, but no request failed");
            if (a.outcome == 0) { set = true; return true; }
        }
        return false;
    };
    for (auto& o : plan.ops) {
        if (o.kind == "use") {
            auto it = maps.find((int)o.num("id"));
            if (it != maps.end() && it->second != cur) { cur = it->second; set = false; }
        } else if (o.kind == "edit") cur->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v"));
        else if (o.kind == "load") {
            MapData m = make_map(o);
            if (m.w != cur->d.w || m.h != cur->d.h) { fired(F_RESIZE); set = false; }
            cur->load(m);
        } else if (o.kind == "again") set = false;
        else if (o.kind == "rep") {                // many short searches without faults; they all must end alike
            phase(-5);
            int sx = (int)o.num("x"), sy = (int)o.num("y"), gx = sx + (int)o.num("d"), gy = sy;
            if (cur->d.v.size() > 4000) continue;
            std::string first;
            enable_triggers(false);
            for (i64 i = 0, n = repetitions(o.num("n"), cur->d.v.size()); i < n; ++i) {
                allow_steps(200 + 20 * cur->d.v.size());
                if (o.num("map")) set = false;
                if (!set && !give()) break;
                Answer a = query(*p, sx, sy, gx, gy);
                if (i == 0) {
                    first = a.pack();
                    if (a.outcome > 2) fail("error-invented", "nothing failed, but the search ended with %s", a.text().c_str());
                    std::string e = a.outcome < 2 ? check(cur->d, a, sx, sy, gx, gy) : "";
                    if (!e.empty()) fail("bad-path", "repeated search: %s", e.c_str());
                } else if (a.pack() != first) fail("differs-from-new-planner", "repetition %lld of a search: %s", i, a.text().c_str());
            }
            enable_triggers(true);
        }
        else if (o.kind == "drop") { Lib l; delete p; p = nullptr; set = false; }
        else if (o.kind == "q") {
            ph = (int)o.num("s");
            phase(1000 + ph);                      // setting the map
            if (!set && !give()) continue;
            phase(ph);
            int sx = (int)o.num("sx"), sy = (int)o.num("sy"), gx = (int)o.num("gx"), gy = (int)o.num("gy");
            u64 f0 = failed_allocs();
            trace("query (%d,%d) -> (%d,%d) on %ux%u", sx, sy, gx, gy, cur->d.w, cur->d.h);
            Answer a = query(*p, sx, sy, gx, gy);
            trace("answer: %s", a.text().c_str());
            bool nomem = failed_allocs() != f0;
            u64 h = 1469598103934665603ull;
            for (unsigned char c : a.pack()) h = (h ^ c) * 1099511628211ull;
            ev("answer", h);
            state(mix(h, cur->d.hash()));
            if (nomem) {
                note_nontrivial();
                if (a.outcome != 3) fail("not-reported", "a memory request failed, but the search ended with %s", a.text().c_str());
                continue;
            }
            if (a.outcome >= 3) fail("error-invented", "nothing failed, but the search ended with %s", a.text().c_str());
            if (a.outcome < 2) {
                std::string e = check(cur->d, a, sx, sy, gx, gy);
                if (!e.empty()) fail("bad-path", "search %d: %s", ph, e.c_str());
            } else note_nontrivial();
            bool allocs = false;
            for (auto* t : plan.all("at")) if (t->str("k") == "alloc" && t->num("s") == ph) allocs = true;
            if (!allocs) {
                Pack q;
                q.i(ph).i(sx).i(sy).i(gx).i(gy);
                cur->d.pack(q);
                std::string ref = in_pristine(q.s);
                if (ref != a.pack()) {
                    Answer r;
                    Unpack u(ref);
                    r.outcome = (int)u.i(); r.what = u.b();
                    i64 k = u.i();
                    for (i64 i = 0; i < k; ++i) { int x = (int)u.i(); int y = (int)u.i(); r.path.push_back(std::make_pair(x, y)); }
                    fail("differs-from-new-planner", "search %d: %s; a new planner: %s", ph, a.text().c_str(), r.text().c_str());
                }
            }
            if (n && a.outcome == 1) note_nontrivial();
            ++n;
        }
    }
    { Lib l; delete p; }
    if (live_blocks() != base) fail("leak", "%lld blocks are not released with the planner", (i64)(live_blocks() - base));
}
static void gen_p08(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(25) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    int nm = (int)r.range(1, 3), cur = 0;
    int maxdim = r.chance(70) ? 12 : 40;
    std::vector<std::pair<int, int> > dims;
    for (int i = 0; i < nm; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_map(r, o, maxdim);
        dims.push_back(std::make_pair((int)o.num("w"), (int)o.num("h")));
    }
    int nq = (int)r.range(1, tier ? 12 : 6);
    for (int s = 1; s <= nq; ++s) {
        if (s > 1) switch (r.range(0, 9)) {
        case 0: case 1: cur = (int)r.range(0, nm - 1); p.add("use").set("id", cur); break;
        case 2: case 3: {
            Op& o = p.add("load");
            gen_map(r, o, maxdim);
            if (r.chance(30)) { o.set("w", dims[(size_t)cur].second); o.set("h", dims[(size_t)cur].first); }
            dims[(size_t)cur] = std::make_pair((int)o.num("w"), (int)o.num("h"));
            break;
        }
        case 4: case 5: for (int k = 0; k < 4; ++k)
            p.add("edit").set("x", r.range(0, dims[(size_t)cur].first - 1)).set("y", r.range(0, dims[(size_t)cur].second - 1)).set("v", r.chance(50) ? 0 : 255);
            break;
        case 6: p.add("again"); break;
        case 7: if (r.chance(30)) p.add("drop"); break;
        }
        int w = dims[(size_t)cur].first, h = dims[(size_t)cur].second;
        if (s > 1 && r.chance(3))             // as many searches as counters of 7, 8, 9 and (rarely) 16 bits can hold
            p.add("rep").set("n", r.chance(2) && w * h < 100 ? 65535 - r.range(0, 2) : r.pick({255, 255, 127, 511}) - r.range(0, 2))
                .set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("d", r.range(0, 1)).set("map", r.range(0, 1));
        auto c = [&](int n) -> i64 { return r.chance(3) ? (r.chance(50) ? -1 : n) : r.range(0, n - 1); };
        p.add("q").set("s", s).set("sx", c(w)).set("sy", c(h)).set("gx", c(w)).set("gy", c(h));
        if (r.chance(25)) p.add("at").set("s", s).set("k", "read").set("n", r.scale(w * h * 4)).set("do", "throw").set("id", r.range(1, 99));
        if (r.chance(20)) p.add("at").set("s", s).set("k", "alloc").set("n", r.scale(w * h + 4)).set("do", "fail");
        if (r.chance(20)) p.add("at").set("s", 1000 + s).set("k", "alloc").set("n", r.range(1, 3)).set("m", r.range(1, 2)).set("do", "fail");
    }
}
int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P08", gen_p08, run_p08}};
    return main_loop(argc, argv, s);
}
