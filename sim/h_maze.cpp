// Maze generator (P17)
#include <stack>
#include "sim.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <cslibs_path_planning/evaluation/MapGenerators.hpp>
using namespace sim;

struct Pos { double x, y; };
typedef map_generator::Maze<Pos> Gen;

// a stream of random numbers: fair ones, most of them replaced by one value, or constant for a while
struct Source {
    Rng rng;
    int pct, val;
    i64 hold;                          // so many constant numbers after `fair_at` fair ones
    i64 fair, fair_at;
    Source() : rng(1), pct(0), val(0), hold(0), fair(0), fair_at(0) {}
    int next()
    {
        if (fair >= fair_at && hold > 0) { --hold; fired(F_RAND_BIAS); return val; }
        if (pct && rng.chance(pct)) { fired(F_RAND_BIAS); return val; }
        ++fair;
        return (int)(rng.next() & 0x7fffffff);
    }
};
struct Worker {
    int id, W, H, width, room, rows, cols, border;
    cv::Mat img;                       // the map with a margin that nobody may touch
    cv::Mat view;
    std::unique_ptr<Gen> gen;
    Source src;
    std::vector<const Op*> ops;
    bool dirty, aborted;
    int runs;
    Worker() : id(0), dirty(false), aborted(false), runs(0) {}
};
static const int MARGIN = 40;
static std::vector<std::unique_ptr<Worker> > g_ws;
static Worker* worker_of(int task) { for (auto& w : g_ws) if (w->id == task) return w.get(); return g_ws.empty() ? nullptr : g_ws[0].get(); }

static void clear(Worker& w, int wall)
{
    w.img.setTo(cv::Scalar::all(7));
    w.view.setTo(cv::Scalar::all(wall));
    w.dirty = false;
}
static void check(Worker& w, int s)
{
    int W = w.W, H = w.H, R = w.room, n = w.rows * w.cols;
    auto at = [&](int x, int y) { return w.view.at<uint8_t>(y, x); };
    for (int y = 0; y < w.img.rows; ++y) for (int x = 0; x < w.img.cols; ++x) {
        bool in = x >= MARGIN && x < MARGIN + W && y >= MARGIN && y < MARGIN + H;
        if (!in && w.img.at<uint8_t>(y, x) != 7) fail("outside", "run %d: (%d,%d) outside of the map of %dx%d is overwritten", s, x - MARGIN, y - MARGIN, W, H);
    }
    // the open cells between rooms next to each other
    auto open = [&](int x, int y) { return x >= 0 && y >= 0 && x < W && y < H && at(x, y) == 255; };
    std::vector<int> seen((size_t)W * H, -1);
    int parts = 0;
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
        if (!open(x, y) || seen[(size_t)y * W + x] >= 0) continue;
        std::vector<std::pair<int, int> > st(1, std::make_pair(x, y));
        seen[(size_t)y * W + x] = parts;
        while (!st.empty()) {
            auto p = st.back(); st.pop_back();
            static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
            for (auto& d : D) {
                int a = p.first + d[0], b = p.second + d[1];
                if (open(a, b) && seen[(size_t)b * W + a] < 0) { seen[(size_t)b * W + a] = parts; st.push_back(std::make_pair(a, b)); }
            }
        }
        ++parts;
    }
    if (n < 2) {           // there is no wall to open
        if (parts > 1) fail("not-connected", "run %d: %d separate open areas in a map of %d rooms", s, parts, n);
        return;
    }
    if (parts != 1) fail("not-connected", "run %d: %d separate open areas, %dx%d rooms of %d cells", s, parts, w.cols, w.rows, R);
    // the cells of a room and of the gaps: which walls are open
    int b = w.border, size = R - b;
    auto x0 = [&](int i) { return i * R + b / 2; };
    int edges = 0, room_cells = 0;
    auto all = [&](int x, int y, int dx, int dy, bool& any) {
        bool al = true;
        any = false;
        for (int j = y; j < y + dy; ++j) for (int i = x; i < x + dx; ++i) { bool o = open(i, j); al &= o; any |= o; }
        return al;
    };
    for (int j = 0; j < w.rows; ++j) for (int i = 0; i < w.cols; ++i) {
        bool any;
        if (!all(x0(i), x0(j), size, size, any)) fail("closed-room", "run %d: room (%d,%d) of %dx%d is not open", s, i, j, w.cols, w.rows);
        room_cells += size * size;
        if (i + 1 < w.cols) {
            bool al = all(x0(i) + size, x0(j), b, size, any);
            if (al != any) fail("half-open", "run %d: the wall right of room (%d,%d) is half open", s, i, j);
            edges += al;
            if (al) room_cells += b * size;
        }
        if (j + 1 < w.rows) {
            bool al = all(x0(i), x0(j) + size, size, b, any);
            if (al != any) fail("half-open", "run %d: the wall below room (%d,%d) is half open", s, i, j);
            edges += al;
            if (al) room_cells += b * size;
        }
    }
    if (edges != n - 1) fail("not-perfect", "run %d: %d walls between %d rooms are open", s, edges, n);
    int cells = 0;
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) cells += open(x, y);
    if (cells != room_cells) fail("wrong-cells", "run %d: %d cells are open, the rooms and the openings between them have %d", s, cells, room_cells);
}
template <class F> static int guarded(F f)
{
    try { Lib l; f(); return 0; }
    catch (std::bad_alloc&) { return 3; }
    catch (...) { return 4; }
}
static void step(Worker& w, const Op& o)
{
    int s = (int)o.num("s");
    phase(s);
    yield(STEP);
    u64 f0 = failed_allocs();
    if (o.kind == "clear") { clear(w, (int)std::min<i64>(200, std::max<i64>(0, o.num("v")))); return; }
    if (o.kind == "copy" && w.gen) {
        std::unique_ptr<Gen> c;
        int e = guarded([&] { c.reset(new Gen(*w.gen)); });
        if (e && (e != 3 || failed_allocs() == f0)) fail("error-invented", "copying a generator ended with error %d", e);
        if (!e) { Lib l; w.gen = std::move(c); }
        return;
    }
    if (o.kind != "run") return;
    for (int i = 0; !w.gen && i < 10; ++i) {
        u64 live = live_blocks();
        int e = guarded([&] { w.gen.reset(new Gen(w.width, w.view)); });
        if (e && (e != 3 || failed_allocs() == f0)) fail("error-invented", "making a generator ended with error %d", e);
        if (e && live_blocks() != live) fail("leak", "a generator that could not be made left %lld blocks", (i64)(live_blocks() - live));
    }
    if (!w.gen) return;
    if (w.dirty) clear(w, 0);
    Pos a = {o.num("sx") / 10.0, o.num("sy") / 10.0}, b = {o.num("gx") / 10.0, o.num("gy") / 10.0};
    w.dirty = true;
    i64 n = w.rows * w.cols;
    w.src.fair = 0;
    w.src.pct = (int)std::max<i64>(0, std::min<i64>(97, o.num("pct")));
    w.src.val = (int)std::max<i64>(0, o.num("val"));
    w.src.hold = std::max<i64>(0, std::min<i64>(3000, o.num("hold")));
    w.src.fair_at = o.num("hold_at");
    w.src.rng = Rng((u64)o.num("seed", 1));
    f0 = failed_allocs();
    u64 r0 = total(RAND);
    (void)n;
    int e = guarded([&] { w.gen->run(a, b); });
    if (e && (e != 3 || failed_allocs() == f0)) fail("error-invented", "run %d ended with error %d", s, e);
    trace("task %d, run %d: %s after %lld fair random numbers", w.id, s, e ? "out of memory" : "done", w.src.fair);
    if (e) { w.aborted = true; return; }
    if (g_ws.size() == 1 && failed_allocs() != f0) fail("not-reported", "run %d: a memory request failed and was not reported", s);
    check(w, s);
    u64 h = 0;
    for (int y = 0; y < w.H; ++y) for (int x = 0; x < w.W; ++x) h = mix(h, w.view.at<uint8_t>(y, x));
    ev("maze", (u64)s, h, total(RAND) - r0);
    state(h);
    if (++w.runs > 1 || w.aborted || w.src.pct || fired_count(F_RAND_BIAS)) note_nontrivial();
}
static void steps(Worker& w, const Op& o)
{
    i64 n = o.kind == "run" && w.W * w.H <= 400 ? std::max<i64>(1, repetitions(o.num("rep", 1), (u64)(w.W * w.H))) : 1;
    for (i64 i = 0; i < n; ++i) { if (n > 1) allow_steps(310 * (u64)(w.rows * w.cols) + 2000); step(w, o); }
}
static void run_p17(const Plan& plan)
{
    g_ws.clear();
    for (auto* o : plan.all("maze")) {
        if (g_ws.size() >= 3) break;
        std::unique_ptr<Worker> w(new Worker());
        w->id = (int)g_ws.size();
        w->W = (int)std::max<i64>(1, std::min<i64>(300, o->num("w", 20)));
        w->H = (int)std::max<i64>(1, std::min<i64>(w->W > 90 ? 90 : 300, o->num("h", 20)));
        w->width = (int)std::max<i64>(-5, std::min<i64>(60, o->num("width", 4)));
        w->room = std::max(2, w->width);
        w->rows = w->H / w->room; w->cols = w->W / w->room;
        w->border = std::max(1, w->room / 4);
        w->img = cv::Mat(w->H + 2 * MARGIN, w->W + 2 * MARGIN, CV_8UC1);
        w->view = w->img(cv::Rect(MARGIN, MARGIN, w->W, w->H));
        clear(*w, 0);
        for (auto& p : plan.ops) if ((p.kind == "run" || p.kind == "clear" || p.kind == "copy") && p.num("t") == w->id) w->ops.push_back(&p);
        g_ws.push_back(std::move(w));
    }
    set_rand_source([]() -> int {
        Worker* w = worker_of(std::max(0, current_task()));
        if (!w) return 0;
        int v = w->src.next();
        i64 n = (i64)w->rows * w->cols;
        if (w->src.fair > 300 * n + 1000) fail("endless", "no maze of %lld rooms after %lld fair random numbers", n, w->src.fair);
        return v;
    });
    u64 base = live_blocks();
    if (g_ws.size() == 1) for (auto* o : g_ws[0]->ops) steps(*g_ws[0], *o);
    else {
        for (auto& p : g_ws) { Worker* w = p.get(); spawn([w] { for (auto* o : w->ops) steps(*w, *o); }); }
        run_tasks();
        if (fired_count(F_PREEMPT)) note_nontrivial();
    }
    for (auto& w : g_ws) { Lib l; w->gen.reset(); }
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p17(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    int nt = r.chance(65) ? 1 : (int)r.range(2, 3), s = 0;
    for (int t = 0; t < nt; ++t) {
        int big = tier ? 80 : 50, w = (int)r.range(1, r.chance(50) ? 16 : big), h = (int)r.range(1, r.chance(50) ? 16 : big);
        if (r.chance(2)) { w = (int)r.range(250, 300); h = (int)r.range(1, 8); if (r.chance(50)) std::swap(w, h); }
        int width = (int)(r.chance(12) ? r.range(-2, 1) : r.chance(60) ? r.range(2, 6) : r.range(2, 24));
        p.add("maze").set("w", w).set("h", h).set("width", width);
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            ++s;
            if (r.chance(12)) p.add("copy").set("t", t).set("s", 1000 + s);
            if (r.chance(20)) p.add("clear").set("t", t).set("s", 2000 + s).set("v", r.range(0, 200));
            Op& o = p.add("run");
            auto c = [&](int d) -> i64 { return r.chance(6) ? r.range(-20, 10 * d + 20) : r.range(0, 10 * d - 1); };
            o.set("t", t).set("s", s).set("sx", c(w)).set("sy", c(h)).set("gx", c(w)).set("gy", c(h)).set("seed", r.range(1, 999999));
            if (r.chance(3) && w * h <= 400) o.set("rep", r.chance(2) && w * h <= 30 ? 65535 : r.pick({255, 127, 511}) + r.range(0, 2));
            if (r.chance(40)) o.set("pct", r.range(20, 97)).set("val", r.chance(50) ? r.range(0, 7) : r.range(0, 2147483647));
            if (r.chance(30)) { o.set("hold", r.scale(3000)).set("hold_at", r.scale(300)); if (!o.has("val")) o.set("val", r.range(0, 7)); }
            if (r.chance(18)) p.add("at").set("t", nt > 1 ? t : -1).set("s", s).set("k", "alloc").set("n", r.scale(8)).set("do", "fail");
            if (nt > 1) for (int k = 0; k < 3; ++k) if (r.chance(60)) p.add("at").set("t", t).set("s", s).set("k", "rand").set("n", r.scale(300)).set("do", "sw");
        }
    }
}
int main(int argc, char** argv)
{
    cv::setNumThreads(0);
    std::vector<Scenario> s = {{"P17", gen_p17, run_p17}};
    return main_loop(argc, argv, s);
}
