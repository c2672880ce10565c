// Scenarios of the car-like planners: P15 (search), P16 (with analytic expansion)
#include "steer.hpp"
using namespace sim;

static std::string fmt(const char* f, ...)
{
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static double adiff(double a, double b) { return std::abs(std::atan2(std::sin(a - b), std::cos(a - b))); }
static const double SLOT = 2 * M_PI / 31;           // width of a heading slot of the node map

// cells of a line, ends included
static void line_cells(int x0, int y0, int x1, int y1, std::vector<std::pair<int, int> >& out)
{
    int dx = std::abs(x1 - x0), sx = x0 < x1 ? 1 : -1, dy = -std::abs(y1 - y0), sy = y0 < y1 ? 1 : -1, err = dx + dy;
    for (;;) {
        out.push_back(std::make_pair(x0, y0));
        if (x0 == x1 && y0 == y1) break;
        int e2 = 2 * err;
        if (e2 > dy) { err += dy; x0 += sx; }
        if (e2 < dx) { err += dx; y0 += sy; }
    }
}

// Nodes are kept per cell and heading slot and are moved within these when a better way there
// is found, so each node is where its predecessor leads to up to one cell and one slot.
// candidates are given in the order of the search, also if it runs from the goal to the start
static std::string check_car(const Query& q, const SimMap& m, PathV path, const AlgoInfo& ai, bool goal_end, bool last_theta, bool search_order)
{
    if (path.empty()) return "";
    Car c = car_of(ai);
    const MapData& d = m.d;
    double res = d.res;
    double sx = q.sx, sy = q.sy, sth = q.sth, gx = q.gx, gy = q.gy, gth = q.gth;
    bool pose = q.kind <= 1;
    if (ai.reversed || c.reversed) {
        if (!search_order) std::reverse(path.begin(), path.end());
        if (pose) { std::swap(sx, gx); std::swap(sy, gy); std::swap(sth, gth); }
    }
    auto blocked = [&](int x, int y) { return d.in(x, y) && !m.notocc_seen[(size_t)y * d.w + x]; };
    int csx = (int)std::floor(sx), csy = (int)std::floor(sy);
    if (std::floor(path[0].x) != csx || std::floor(path[0].y) != csy)
        return fmt("path begins at (%g,%g), start is (%g,%g)", path[0].x, path[0].y, sx, sy);
    if (blocked(csx, csy)) return "path although the start cell is occupied";
    if (path.size() > 1 || last_theta)
        if (adiff(path[0].theta, sth) > 1e-9) return fmt("path begins with heading %g, start has %g", path[0].theta, sth);
    if (path[0].dist != 0) return fmt("distance of the start node is %g", path[0].dist);
    int skips = (int)(0.5 / res);
    double px = c.step / res;
    for (size_t i = 1; i < path.size(); ++i) {
        const PathPt &a = path[i - 1], &b = path[i];
        int ax = (int)std::floor(a.x), ay = (int)std::floor(a.y), bx = (int)std::floor(b.x), by = (int)std::floor(b.y);
        if (bx < -32 || by < -32 || bx >= (int)d.w + 32 || by >= (int)d.h + 32) return fmt("node %zu (%g,%g) is outside of the padded map", i, b.x, b.y);
        if (blocked(bx, by)) return fmt("node %zu (%g,%g) is in an occupied cell", i, b.x, b.y);
        std::vector<std::pair<int, int> > cells;
        line_cells(ax, ay, bx, by, cells);
        int run = 0;
        for (auto& cell : cells) {
            run = blocked(cell.first, cell.second) ? run + 1 : 0;
            if (run > skips)
                return fmt("%d occupied cells in a row up to (%d,%d) between nodes %zu (%g,%g) and %zu (%g,%g)", run, cell.first, cell.second,
                           i - 1, a.x, a.y, i, b.x, b.y);
        }
        if (b.forward ? !c.fw : !c.bw) return fmt("node %zu is reached driving %s, which is not allowed", i, b.forward ? "forwards" : "backwards");
        if (std::abs(b.steer) > c.max_steer) return fmt("steering angle of node %zu is %d", i, b.steer);
        double cost = c.step;
        if (c.start_back && i == 1 && !b.forward) cost = c.la * q.back;
        else {
            if (i > 1 && a.forward != b.forward) cost *= q.turn;
            if (!b.forward) cost *= q.back;
        }
        double more = b.dist - a.dist - cost, eps = 1e-9 * (1 + b.dist);
        // a node put back into the open list may have become nearer since
        if (more < -eps || (more > eps && !g_obs.reopened))
            return fmt("distance of node %zu is %.9g after %.9g, the step costs %.9g", i, b.dist, a.dist, cost);
        // where the car gets to
        double dir = b.forward ? 1 : -1, ex, ey, eth;
        if (c.reversed) dir = -dir;
        if (c.start_back && i == 1 && !b.forward) {
            ex = a.x - c.la / res * std::cos(a.theta); ey = a.y - c.la / res * std::sin(a.theta); eth = a.theta;
        } else if (b.steer == 0) {
            ex = a.x + dir * px * std::cos(a.theta); ey = a.y + dir * px * std::sin(a.theta); eth = a.theta;
        } else {
            double r = c.la / std::tan(b.steer / 180.0 * M_PI);
            eth = a.theta + dir * c.step / r;
            ex = a.x + r / res * (std::sin(eth) - std::sin(a.theta));
            ey = a.y + r / res * (-std::cos(eth) + std::cos(a.theta));
        }
        double len = std::hypot(ex - a.x, ey - a.y);
        double off = std::hypot(b.x - ex, b.y - ey);
        if (off > 1.5 + (SLOT + 0.01) * len)
            return fmt("node %zu (%g,%g) is %.2f cells from where one step from node %zu (%g,%g, heading %g) leads, steering %d %s", i, b.x, b.y, off,
                       i - 1, a.x, a.y, a.theta, b.steer, b.forward ? "forwards" : "backwards");
        if ((i + 1 < path.size() || last_theta) && adiff(b.theta, eth) > SLOT + 0.01)
            return fmt("heading of node %zu is %g, one step from node %zu gives %g", i, b.theta, i - 1, eth);
    }
    if (!goal_end) return "";
    const PathPt& e = path.back();
    double slack = q.over != 0 || !pose ? 1.5 : 0;   // moved within its cell after it was found
    if (pose) {
        double cgx = std::floor(gx), cgy = std::floor(gy);
        if (adiff(e.theta, gth) > c.goal_angle + (slack ? SLOT : 0) + 1e-6)
            return fmt("path ends with heading %g, the goal has %g", e.theta, gth);
        double dist = std::hypot(e.x - cgx, e.y - cgy);
        if (ai.n == FIX) {
            // near the last stretch; for the reversed one, LA before the goal
            double tx = cgx, ty = cgy;
            if (c.reversed && !e.forward) { tx -= c.la / res * std::cos(gth); ty -= c.la / res * std::sin(gth); }
            dist = std::hypot(e.x - tx, e.y - ty);
            if (path.size() > 1) {
                const PathPt& a = path[path.size() - 2];
                double vx = e.x - a.x, vy = e.y - a.y, l2 = vx * vx + vy * vy;
                double t = l2 <= 0 ? 0 : std::max(0.0, std::min(1.0, ((tx - a.x) * vx + (ty - a.y) * vy) / l2));
                dist = std::min(dist, std::hypot(a.x + t * vx - tx, a.y + t * vy - ty));
                slack = 1.5;
            }
        }
        if (dist * res > c.goal_dist + slack * res + 1e-9)
            return fmt("path ends at (%g,%g), %.3f m from the goal (%g,%g), tolerance %.3f m", e.x, e.y, dist * res, gx, gy, c.goal_dist);
    } else if (q.gtr < 0 || std::abs(e.x - q.gx) > q.gtr + 1 || std::abs(e.y - q.gy) > q.gtr + 1)
        return fmt("path ends at (%g,%g), which the goal test does not accept", e.x, e.y);
    return "";
}

static void gen_car(Rng& r, Plan& p, const AlgoInfo& ai, bool later = false, bool may_rev = true)
{
    if (!later) p.add("planner").set("algo", ai.id);
    if (ai.n == DYN && (later || r.chance(80))) {
        Op& o = p.add(later ? "settings" : "car");
        static const int ST[] = {40, 40, 20, 100, 50, 60}, LA[] = {120, 120, 60, 200}, MSA[] = {60, 60, 45, 30}, SD[] = {15, 15, 20, 30};
        o.set("step", r.pick(ST)).set("la", r.pick(LA)).set("msa", r.pick(MSA)).set("sd", r.pick(SD)).set("steps", r.range(1, 2));
        if (may_rev && r.chance(20)) o.set("rev", 1);
        if (r.chance(50)) o.set("bw", 1);
        if (o.num("bw") && r.chance(15)) o.set("fw", 0);
        if (r.chance(60)) o.set("gdt", r.range(1, 80));
        if (r.chance(40)) o.set("gat", r.range(5, 180));
    }
}
static void gen_car_map(Rng& r, Op& o, int maxdim, int res)
{
    gen_map(r, o, maxdim, r.chance(15));
    o.set("w", std::min<i64>(o.num("w"), 520)).set("h", std::min<i64>(o.num("h"), 520));
    o.set("res", res);
    if (r.chance(35)) o.set("fill", 7);
    if (r.chance(25)) o.set("fill", 0);
    if (o.num("fill") == 1 || o.num("fill") == 4) o.set("dens", r.range(2, 20));
}
static Op& gen_car_query(Rng& r, Plan& p, const AlgoInfo& ai, int w, int h, int phase, int cap)
{
    gen_query(r, p, ai, w, h, phase);
    Op& q = p.ops.back();
    if (q.num("kind") >= 2 && r.chance(30)) q.set("kind", 4).set("ss", 0).set("sf", r.range(0, 1));
    static const int TH[] = {0, 0, 0, 1571, -1571, 3141, 785};
    q.set("sth", r.chance(60) ? r.pick(TH) : r.range(-3141, 3141));
    q.set("gth", r.chance(60) ? (r.chance(50) ? q.num("sth") : r.pick(TH)) : r.range(-3141, 3141));
    if (r.chance(4)) q.set(r.chance(50) ? "sth" : "gth", r.range(-60, 60) * 1000);      // some turns more
    if (r.chance(40)) {                      // near the start
        q.set("gx", q.num("sx") + 10 * r.range(-9, 9)).set("gy", q.num("sy") + 10 * r.range(-9, 9));
    }
    if (r.chance(30)) q.set("turn", r.range(1000, 6000)).set("back", r.range(1000, 4000));
    if (q.num("over")) q.set("over", r.range(1, 3000));
    q.set("tl", (i64)cap * 1000 + r.range(0, 1) * 500);
    return q;
}

// ------------------------------------------------------------------ P15
static void gen_p15(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    const AlgoInfo& ai = algo((int)r.range(0, 4));
    gen_car(r, p, ai);
    static const int RES[] = {400, 400, 200, 100, 500, 1000, 250};
    int res = r.pick(RES);
    int maxdim = r.chance(60) ? 14 : r.chance(70) ? 26 : 44;
    GenMaps g;
    g.cur = 0;
    int nm = (int)r.range(1, 2);
    for (int i = 0; i < nm; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_car_map(r, o, maxdim, res);
        if (maxdim == 44 && r.chance(50)) o.set("w", r.range(33, 44)).set("h", r.range(33, 44));     // more chunks of nodes
        g.dims.push_back(std::make_pair((int)o.num("w"), (int)o.num("h")));
    }
    int nq = (int)r.range(1, tier ? 5 : 3);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(45)) {
            if (r.chance(40)) {
                Op& o = p.add("load");
                static const int RES2[] = {400, 200, 100, 500};
                gen_car_map(r, o, maxdim, r.chance(50) ? res : r.pick(RES2));
                g.dims[g.cur] = std::make_pair((int)o.num("w"), (int)o.num("h"));
            } else gen_map_op(r, p, g, maxdim);
        }
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        if (i > 1 && ai.n == DYN && r.chance(20)) gen_car(r, p, ai, true, true);
        int cap = (int)r.scale(tier ? 1500 : 500) + 20;
        gen_car_query(r, p, ai, w, h, i, cap);
        Op copy = p.ops.back();
        if (r.chance(45)) gen_fault(r, p, copy, i, 150, ai.interval == 1, w, h);
        else if (r.chance(35)) p.add("at").set("s", i).set("k", "alloc").set("n", r.scale(r.chance(50) ? 40 : 800)).set("do", "fail");
    }
}
static bool has_alloc_fault(const Plan& plan, int s)
{
    for (auto& o : plan.ops)
        if (o.kind == "at" && o.str("k") == "alloc" && (!o.has("s") || o.num("s") == s)) return true;
    return false;
}
static void run_p15(const Plan& plan)
{
    set_car(plan.find("car"));
    g_other_op = [](const Op& o) { set_car(&o); };
    set_cost(POP, 1000000);
    set_cost(READ, 0); set_cost(CB, 0);
    zygote_grid();
    u64 base = live_blocks();
    Hist* h = new Hist(plan);
    const AlgoInfo& ai = *h->ai;
    int n = 0;
    h->run([&](const Query& q0, const Op&, IPlanner& p) {
        Query q = q0;
        if (!(q.tlimit > 0 && q.tlimit < 3)) q.tlimit = 1;
        if (h->cur->d.res < 0.02) return;
        MapData before = h->cur->d;
        u64 f0 = failed_allocs();
        QResult r = observed_query(p, h->cur, q);
        bool nomem = failed_allocs() != f0;
        if (nomem) {
            note_nontrivial();
            if (r.outcome != O_NOMEM) fail("not-reported", "a memory request failed, but the search ended with %s", r.text().c_str());
        } else if (r.outcome == O_NOMEM || r.outcome == O_OTHER || r.outcome == O_LOGIC)
            fail("error-invented", "nothing failed, but the search ended with %s", r.text().c_str());
        if (r.outcome == O_OUTSIDE) {
            // only the given poses can be outside of the (padded) map
            auto out = [&](double x, double y) { return x < -32 || y < -32 || x >= before.w + 32.0 || y >= before.h + 32.0; };
            if (!out(q.sx, q.sy) && !(q.kind <= 1 && out(q.gx, q.gy)))
                fail("error-invented", "start and goal are inside, but the search ended with %s", r.text().c_str());
        }
        auto verify = [&](const PathV& v, const char* what) {
            std::string e = check_car(q, *h->cur, v, ai, true, true, what[0] == 'c');
            if (!e.empty()) fail("bad-path", "%s (%s): %s", what, ai.name, e.c_str());
        };
        verify(r.path, "path");
        for (auto& c : r.cands) verify(c, "candidate");
        if (!nomem && !has_alloc_fault(plan, q.phase)) {
            Ref ref = reference(ai, q, before);
            std::string mine = r.pack();
            if (ref.result != mine)
                fail("differs-from-new-planner", "search %d (%s): this planner versus a new one: %s", q.phase, ai.name, diff_results(mine, ref.result).c_str());
            if (n) note_nontrivial();
        }
        if (r.path.size() > 1) note_nontrivial();
        ++n;
    });
    delete h;
    if (live_blocks() != base) fail("leak", "%lld blocks are not released with the planner", (i64)(live_blocks() - base));
}

// ------------------------------------------------------------------ P16
static void gen_p16(Rng& r, Plan& p, int tier)
{
    gen_common(r, p);
    const AlgoInfo& ai = algo((int)r.range(5, 7));
    gen_car(r, p, ai);
    for (auto& o : p.ops) if (o.kind == "car") o.set("rev", 0);
    static const int RES[] = {200, 200, 100, 250, 400, 130};
    int res = r.pick(RES);
    int maxdim = r.chance(50) ? 30 : 60;
    int nm = (int)r.range(1, 2);
    GenMaps g;
    g.cur = 0;
    for (int i = 0; i < nm; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_car_map(r, o, maxdim, res);
        o.set("w", std::max<i64>(o.num("w"), r.range(8, maxdim))).set("h", std::max<i64>(o.num("h"), r.range(8, maxdim)));
        if (o.num("fill") != 7 && r.chance(60)) o.set("fill", r.chance(60) ? 7 : 0);
        g.dims.push_back(std::make_pair((int)o.num("w"), (int)o.num("h")));
    }
    int nq = (int)r.range(1, 4);
    for (int i = 1; i <= nq; ++i) {
        if (i > 1 && r.chance(35)) {
            if (r.chance(50)) {
                Op& o = p.add("load");
                gen_car_map(r, o, maxdim, r.chance(50) ? res : r.pick(RES));
                g.dims[g.cur] = std::make_pair((int)o.num("w"), (int)o.num("h"));
            } else gen_map_op(r, p, g, maxdim);
        }
        int w = g.dims[g.cur].first, h = g.dims[g.cur].second;
        if (i > 1 && ai.n == DYN && r.chance(20)) gen_car(r, p, ai, true, false);
        gen_car_query(r, p, ai, w, h, i, (int)r.scale(300) + 10);
        Op& q = p.ops.back();
        if (q.num("kind") >= 2 && r.chance(85)) q.set("kind", r.range(0, 1));
        if (r.chance(70)) q.set("gx", 10 * r.range(0, w - 1)).set("gy", 10 * r.range(0, h - 1));
        Op copy = q;
        if (r.chance(40)) gen_fault(r, p, copy, i, 300, ai.interval == 1, w, h);
        else if (r.chance(35)) p.add("at").set("s", i).set("k", "alloc").set("n", r.scale(r.chance(50) ? 60 : 600)).set("do", "fail");
    }
}
static void run_p16(const Plan& plan)
{
    set_car(plan.find("car"));
    g_other_op = [](const Op& o) { set_car(&o); };
    set_cost(POP, 1000000);
    set_cost(READ, 0); set_cost(CB, 0);
    zygote_grid();
    u64 base = live_blocks();
    int n = 0;
    {
        Hist* h = new Hist(plan);
        const AlgoInfo& ai = *h->ai;
        h->run([&](const Query& q0, const Op&, IPlanner& p) {
            Query q = q0;
            if (!(q.tlimit > 0 && q.tlimit < 3)) q.tlimit = 1;
            if (h->cur->d.res < 0.02) return;
            const MapData before = h->cur->d;
            u64 f0 = failed_allocs();
            QResult r = observed_query(p, h->cur, q);
            bool nomem = failed_allocs() != f0;
            if (nomem) {
                note_nontrivial();
                if (r.outcome != O_NOMEM) fail("not-reported", "a memory request failed, but the search ended with %s", r.text().c_str());
            } else if (r.outcome == O_NOMEM || r.outcome == O_OTHER || r.outcome == O_LOGIC)
                fail("error-invented", "nothing failed, but the search ended with %s", r.text().c_str());
            if (r.outcome == O_OUTSIDE) {
                auto out = [&](double x, double y) { return x < -32 || y < -32 || x >= before.w + 32.0 || y >= before.h + 32.0; };
                if (!out(q.sx, q.sy) && !(q.kind <= 1 && out(q.gx, q.gy)))
                    fail("error-invented", "start and goal are inside, but the search ended with %s", r.text().c_str());
            }
            auto verify = [&](const PathV& v, const char* what) {
                size_t k = 0;
                while (k < v.size() && v[k].dist < 1e18) ++k;
                PathV head(v.begin(), v.begin() + (long)k), tail(v.begin() + (long)k, v.end());
                std::string e = check_car(q, *h->cur, head, ai, tail.empty(), tail.empty(), what[0] == 'c');
                if (!e.empty()) fail("bad-path", "%s (%s): %s", what, ai.name, e.c_str());
                if (tail.empty()) return;
                note_nontrivial();
                state(mix(k, tail.size()));
                if (head.empty()) fail("bad-path", "%s consists of a curve only, nothing leads there from the start", what);
                if (q.kind > 1) fail("bad-path", "%s ends with a curve, but no goal pose was given", what);
                double res = before.res, step = 0.15 / res, radius = 1.3 / res;
                PathPt prev = head.back();
                if (std::hypot(tail[0].x - prev.x, tail[0].y - prev.y) > 1.0)
                    fail("bad-curve", "%s: the curve begins at (%g,%g), the search part ends at (%g,%g)", what, tail[0].x, tail[0].y, prev.x, prev.y);
                if (adiff(prev.theta, tail[0].theta) > 1e-3)
                    fail("bad-curve", "%s: the curve begins with heading %g, the search part ends with %g", what, tail[0].theta, prev.theta);
                double cgx = std::floor(q.gx), cgy = std::floor(q.gy);
                const PathPt& last = tail.back();
                if (std::hypot(last.x - cgx, last.y - cgy) > step * 1.05 + 0.05)
                    fail("bad-curve", "%s: the curve ends at (%g,%g), the goal is (%g,%g)", what, last.x, last.y, q.gx, q.gy);
                if (adiff(last.theta, q.gth) > step / radius * 1.05 + 0.01)
                    fail("bad-curve", "%s: the curve ends with heading %g, the goal has %g", what, last.theta, q.gth);
                double arc = 0;
                for (size_t i = 0; i < tail.size(); ++i) {
                    const PathPt& b = tail[i];
                    if (!b.forward) fail("bad-curve", "%s: node %zu of the curve is driven backwards", what, i);
                    if (i) {
                        double gap = std::hypot(b.x - prev.x, b.y - prev.y);
                        if (gap > 2.2 * step + 0.02) fail("bad-curve", "%s: gap of %.3f m in the curve before (%g,%g)", what, gap * res, b.x, b.y);
                        double turn = adiff(b.theta, prev.theta);
                        if (turn > 2.2 * step / radius + 0.01) fail("bad-curve", "%s: heading jumps by %.3f in the curve at (%g,%g)", what, turn, b.x, b.y);
                        arc += turn;
                    }
                    // on free cells, up to the rasterisation of arcs
                    int bx = (int)std::floor(b.x), by = (int)std::floor(b.y);
                    bool any = false, inside = false;
                    for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) {
                        if (!before.in(bx + dx, by + dy)) continue;
                        inside = true;
                        if (h->cur->free_seen[(size_t)(by + dy) * before.w + bx + dx]) any = true;
                    }
                    if (!inside || !any) fail("bad-curve", "%s: the curve passes (%g,%g), where no cell is free", what, b.x, b.y);
                    prev = b;
                }
            };
            verify(r.path, "path");
            for (auto& c : r.cands) verify(c, "candidate");
            if (!nomem && !has_alloc_fault(plan, q.phase)) {
                Ref ref = reference(ai, q, before);
                std::string mine = r.pack();
                if (ref.result != mine)
                    fail("differs-from-new-planner", "search %d (%s): this planner versus a new one: %s", q.phase, ai.name, diff_results(mine, ref.result).c_str());
                if (n) note_nontrivial();
            }
            ++n;
        });
        delete h;
    }
    if (live_blocks() != base) fail("leak", "%lld blocks are not released with the planner", (i64)(live_blocks() - base));
}

int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P15", gen_p15, run_p15}, {"P16", gen_p16, run_p16}};
    return main_loop(argc, argv, s);
}
