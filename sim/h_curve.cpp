// Curve generator (P12) and sampling planner with goal regions (P11)
#include "maps.hpp"
#include <set>
#include <sstream>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
using namespace sim;
using lib_path::Pose2d;

struct Injected : public std::runtime_error { int id; explicit Injected(int i) : std::runtime_error("injected error"), id(i) {} };
static std::string fmt(const char* f, ...)
{
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static double adiff(double a, double b) { return std::abs(std::atan2(std::sin(a - b), std::cos(a - b))); }

static const char* SEQ[] = {"LSL", "LSR", "RSL", "RSR", "LRL", "RLR", "|LSL", "|RSR", "|LSR", "|RSL", "L|R|L", "R|L|R", "LR|LR", "RL|RL", "L|SR", "RS|L", "|LR|LR", "L|RL|R",
                            "LR", "L", "LSLSL", "LRSL", "LSRL"};      // the last ones are well formed, but no shape that can be solved
static const int NSEQ = 23, NSOLV = 18;
// a pattern with subsequences in it, which change nothing
static std::string text_of(int k, sim::i64 deco)
{
    static const char* SUB[] = {"", "(b)", "(p)", "(bp)", "()", "(pb)", "(bb)", ""};
    std::string t;
    for (const char* c = SEQ[k]; *c; ++c) {
        t += *c;
        if (!deco || *c == '|') continue;
        t += *c == 'S' ? (deco & 1 ? "(p)" : "") : SUB[deco & 7];
        deco = deco / 2 + (deco & 1 ? 64 : 0);
    }
    return t;
}

struct GenConf {
    i64 seqs;
    double rad, wp, cf, cb, cc, cs, arc;
    bool has_arc, use_cost;
    int min_cell;
    i64 deco;
    static GenConf parse(const Op& o)
    {
        GenConf c;
        c.seqs = o.num("seqs", 15) & ((1ll << NSEQ) - 1);
        if (!c.seqs) c.seqs = 1;
        c.rad = std::max<i64>(20, o.num("rad", 130)) / 100.0;
        c.wp = std::max<i64>(2, o.num("wp", 15)) / 100.0;
        c.cf = std::max<i64>(10, o.num("cf", 100)) / 100.0; c.cb = std::max<i64>(10, o.num("cb", 100)) / 100.0;
        c.cc = std::max<i64>(10, o.num("cc", 100)) / 100.0; c.cs = std::max<i64>(10, o.num("cs", 100)) / 100.0;
        c.has_arc = o.has("arc");
        c.arc = o.num("arc") / 100.0;
        c.use_cost = o.num("uc") != 0;
        c.min_cell = (int)o.num("mc", 10);
        c.deco = o.num("deco") & 127;
        return c;
    }
    void change(const Op& o)
    {
        if (o.has("rad")) rad = std::max<i64>(20, o.num("rad")) / 100.0;
        if (o.has("wp")) wp = std::max<i64>(2, o.num("wp")) / 100.0;
        if (o.has("cf")) cf = std::max<i64>(10, o.num("cf")) / 100.0;
        if (o.has("cb")) cb = std::max<i64>(10, o.num("cb")) / 100.0;
        if (o.has("cc")) cc = std::max<i64>(10, o.num("cc")) / 100.0;
        if (o.has("cs")) cs = std::max<i64>(10, o.num("cs")) / 100.0;
        if (o.has("arc")) { has_arc = true; arc = o.num("arc") / 100.0; }
        if (o.has("uc")) use_cost = o.num("uc") != 0;
        if (o.has("mc")) min_cell = (int)o.num("mc");
    }
    void pack(Pack& p) const { p.i(seqs).d(rad).d(wp).d(cf).d(cb).d(cc).d(cs).d(arc).i(has_arc).i(use_cost).i(min_cell).i(deco); }
    void unpack(Unpack& u)
    {
        seqs = u.i(); rad = u.d(); wp = u.d(); cf = u.d(); cb = u.d(); cc = u.d(); cs = u.d(); arc = u.d();
        has_arc = u.i() != 0; use_cost = u.i() != 0; min_cell = (int)u.i(); deco = u.i();
    }
};
// what the header says about sequences, and subsequences (b, p) in parentheses after a segment
static bool well_formed(const std::string& s)
{
    bool sub = false;
    char last = 0;
    for (char c : s) {
        if (sub) {
            if (c == ')') sub = false;
            else if (c == 'b') { if (last != 'L' && last != 'R') return false; }
            else if (c != 'p') return false;
        } else if (c == '(') sub = true;
        else if (c == 'S' || c == 'L' || c == 'R') last = c;
        else if (c != '|') return false;
    }
    return !sub;
}
// a new generator is set only what differs from what it comes with
static void settings(lib_path::CurveGenerator& g, const GenConf& c, bool fresh = false)
{
    if (!fresh || c.rad != 2) g.set_circle_radius(c.rad);
    if (!fresh || c.wp != 1) g.set_max_waypoint_distance(c.wp);
    if (!fresh || c.cf != 1) g.set_cost_forwards(c.cf);
    if (!fresh || c.cb != 1) g.set_cost_backwards(c.cb);
    if (!fresh || c.cc != 1) g.set_cost_curve(c.cc);
    if (!fresh || c.cs != 1) g.set_cost_straight(c.cs);
    if (c.has_arc) g.set_max_curve_arc(c.arc);
    if (!fresh || c.use_cost) g.set_use_map_cost(c.use_cost);
    if (!fresh || c.min_cell != 10) g.set_min_cell_cost((uint8_t)c.min_cell);
}
static lib_path::CurveGenerator* new_gen(const GenConf& c, i64 mask)
{
    std::unique_ptr<lib_path::CurveGenerator> g(new lib_path::CurveGenerator());
    std::stringstream err;
    for (int i = 0; i < NSEQ; ++i) if ((mask >> i) & 1)
        if (!g->parse(text_of(i, c.deco), err)) { Env e; fail("bad-parse", "the sequence %s is refused", text_of(i, c.deco).c_str()); }
    settings(*g, c, true);
    return g.release();
}
// between two searches: other settings, or one more sequence
static bool change(const Op& o, GenConf& c, lib_path::CurveGenerator* g)
{
    if (o.kind == "set") {
        c.change(o);
        if (g) { Lib l; settings(*g, c); }
    } else if (o.kind == "more") {
        int k = (int)o.num("k");
        if (k >= 0 && k < NSEQ && !(c.seqs >> k)) {
            c.seqs |= 1ll << k;
            std::stringstream err;
            bool ok = true;
            if (g) try { Lib l; ok = g->parse(text_of(k, c.deco), err); } catch (std::bad_alloc&) { c.seqs &= ~(1ll << k); }
            if (!ok) fail("bad-parse", "the sequence %s is refused", SEQ[k]);
        }
    } else return false;
    return true;
}
struct Answer {
    int outcome;                       // 0 none, 1 curve, 2 injected error, 3 out of memory, 4 other
    std::string what;
    double weight, arc;
    bool valid;
    std::vector<Pose2d> pts;
    Answer() : outcome(0), weight(0), arc(0), valid(false) {}
    std::string pack() const
    {
        Pack p;
        p.i(outcome).b(what).d(weight).d(arc).i(valid).i((i64)pts.size());
        for (auto& q : pts) p.d(q.x).d(q.y).d(q.theta);
        return p.s;
    }
    void unpack(Unpack& u)
    {
        outcome = (int)u.i(); what = u.b(); weight = u.d(); arc = u.d(); valid = u.i() != 0;
        i64 n = u.i();
        for (i64 i = 0; i < n && i < 100000; ++i) { double x = u.d(), y = u.d(), t = u.d(); pts.push_back(Pose2d(x, y, t)); }
    }
    std::string text() const
    {
        static const char* N[] = {"no curve", "curve", "injected error", "out of memory", "other error"};
        return fmt("%s%s%s, weight %.9g, arc %.6g, %zu points", N[outcome], what.empty() ? "" : " ", what.c_str(), weight, arc, pts.size());
    }
};
template <class F> static Answer guarded(F f)
{
    Answer a;
    try { Lib l; f(a); }
    catch (Injected& e) { a = Answer(); a.outcome = 2; a.what = std::to_string(e.id); }
    catch (std::bad_alloc&) { a = Answer(); a.outcome = 3; }
    catch (std::exception& e) { a = Answer(); a.outcome = 4; a.what = e.what(); }
    catch (...) { a = Answer(); a.outcome = 4; }
    return a;
}
static void describe(Answer& a, lib_path::Curve* c)
{
    if (!c) { a.outcome = 0; return; }
    a.outcome = 1;
    a.weight = c->weight();
    a.arc = c->curve_arc();
    a.valid = c->is_valid();
    auto points = [](lib_path::Curve& v, std::vector<Pose2d>& to, size_t most) {
        v.reset_iteration();
        while (to.size() < most && v.has_next()) {
            Pose2d q = v.next();
            Env e;
            to.push_back(q);
        }
    };
    points(*c, a.pts, 50000);
    if (a.pts.size() > 3000) return;
    // again after a part of it, and the same from a copy
    std::vector<Pose2d> part, again, copied;
    points(*c, part, a.pts.size() / 2);
    points(*c, again, 50000);
    std::unique_ptr<lib_path::Curve> d(new lib_path::Curve(*c));
    points(*d, copied, 50000);
    auto same = [](const std::vector<Pose2d>& p, const std::vector<Pose2d>& q) {
        bool r = p.size() == q.size();
        for (size_t i = 0; r && i < p.size(); ++i) r = p[i].x == q[i].x && p[i].y == q[i].y && p[i].theta == q[i].theta;
        return r;
    };
    Env e;
    if (!same(a.pts, again)) fail("other-points", "read a second time, the curve has %zu points instead of %zu, or others", again.size(), a.pts.size());
    if (!same(a.pts, copied) || d->weight() != a.weight || d->curve_arc() != a.arc || d->is_valid() != a.valid)
        fail("other-points", "the copy of a curve of weight %g with %zu points has weight %g and %zu points, or others", a.weight, a.pts.size(), d->weight(), copied.size());
}
struct Quiet0 {            // an oracle asks the code under test: no faults, no yields
    Quiet0() { enable_triggers(false); }
    ~Quiet0() { enable_triggers(true); }
};
static Answer find(lib_path::CurveGenerator& g, const Pose2d& s, const Pose2d& t, SimMap* m, bool ign)
{
    return guarded([&](Answer& a) {
        std::unique_ptr<lib_path::Curve> c(g.find_path(s, t, m, ign));
        describe(a, c.get());
    });
}
static Answer find_new(const GenConf& c, i64 mask, const Pose2d& s, const Pose2d& t, SimMap* m, bool ign)
{
    lib_path::CurveGenerator* g = new_gen(c, mask);
    Answer a = find(*g, s, t, m, ign);
    delete g;
    return a;
}

// is this what a curve from s to t may look like
static std::string check_curve(const GenConf& c, const Answer& a, const Pose2d& s, const Pose2d& t, const SimMap& m, bool ign)
{
    if (a.outcome != 1) return "";
    double res = m.d.res, step = c.wp / res, r = c.rad / res;
    if (a.pts.empty()) return "the curve has no points";
    const Pose2d &f = a.pts.front(), &l = a.pts.back();
    if (std::hypot(f.x - s.x, f.y - s.y) > 0.02 + 1e-4 * r) return fmt("the curve begins at (%g,%g), the start is (%g,%g)", f.x, f.y, s.x, s.y);
    if (adiff(f.theta, s.theta) > 1e-3) return fmt("the curve begins with heading %g, the start has %g", f.theta, s.theta);
    if (std::hypot(l.x - t.x, l.y - t.y) > step * 1.05 + 0.05) return fmt("the curve ends at (%g,%g), the goal is (%g,%g), waypoint distance %g", l.x, l.y, t.x, t.y, step);
    if (adiff(l.theta, t.theta) > step / r * 1.05 + 0.01) return fmt("the curve ends with heading %g, the goal has %g", l.theta, t.theta);
    if (c.has_arc && a.arc >= c.arc) return fmt("the curve turns by %g, allowed are less than %g", a.arc, c.arc);
    double len = 0, whole = 0;
    for (size_t i = 1; i < a.pts.size(); ++i) whole += std::hypot(a.pts[i].x - a.pts[i - 1].x, a.pts[i].y - a.pts[i - 1].y);
    for (size_t i = 0; i < a.pts.size(); ++i) {
        const Pose2d& b = a.pts[i];
        if (i) {
            double gap = std::hypot(b.x - a.pts[i - 1].x, b.y - a.pts[i - 1].y), turn = adiff(b.theta, a.pts[i - 1].theta);
            if (gap > 2.2 * step + 0.02) return fmt("gap of %.3f cells in the curve before (%g,%g), waypoint distance %g", gap, b.x, b.y, step);
            if (turn > 2.2 * step / r + 0.01) return fmt("the heading jumps by %.3f in the curve at (%g,%g)", turn, b.x, b.y);
            len += gap;
        }
        if (ign) continue;
        // the code tests the cells of a circle with whole numbers as centre and radius: an arc may pass between two
        int bx = (int)std::floor(b.x), by = (int)std::floor(b.y), n = 4;
        bool any = false;
        for (int dy = -n; dy <= n; ++dy) for (int dx = -n; dx <= n; ++dx)
            if (m.d.in(bx + dx, by + dy) && m.d.free(bx + dx, by + dy)) any = true;
        if (!any && r >= 3 && whole > 7) return fmt("the curve passes (%g,%g), where no cell is free", b.x, b.y);
    }
    if (c.cf == 1 && c.cb == 1 && c.cc == 1 && c.cs == 1 && !c.use_cost)
        if (std::abs(len - a.weight) > 5 * step + 0.05 * a.weight + 1) return fmt("the curve weighs %g, but it is %g long", a.weight, len);
    return "";
}
// ---- what each pattern can give, from geometry alone
struct RefSeg { char k; double turn, len, x, y, th; int dir; };      // arc: signed turn; line: signed length; where it begins
struct RefCurve {
    double weight, arc, hi;
    std::vector<double> may;             // the weights if arcs of nearly nothing or nearly a full turn are taken as the other; hi: the greatest
    bool plainly() const { return may.size() == 1; }
    std::vector<RefSeg> seg;
};
struct Pattern {
    std::vector<char> k;
    std::vector<int> dir;
    explicit Pattern(const char* s)
    {
        int d = 1;
        for (; *s; ++s) { if (*s == '|') d = -d; else { k.push_back(*s); dir.push_back(d); } }
    }
};
static double turn_of(double from, double to, int sign)      // by how much to turn in this direction
{
    double t = std::fmod((to - from) * sign, 2 * M_PI);
    if (t < 0) t += 2 * M_PI;
    return t;
}
static std::vector<RefCurve> ref_curves(const GenConf& c, const char* seq, const Pose2d& s, const Pose2d& t, double res, bool& sure)
{
    Pattern p(seq);
    std::vector<RefCurve> out;
    double r = c.rad / res;
    auto sig = [](char k) { return k == 'L' ? 1.0 : -1.0; };
    size_t n = p.k.size();
    sure = false;
    if (n < 3 || n > 4 || (n == 4 && (p.k[1] == 'S' || p.k[2] == 'S'))) return out;
    double q0 = sig(p.k[0]), q1 = sig(p.k[n - 1]);
    double ax = s.x - q0 * r * std::sin(s.theta), ay = s.y + q0 * r * std::cos(s.theta);
    double bx = t.x - q1 * r * std::sin(t.theta), by = t.y + q1 * r * std::cos(t.theta);
    double D = std::hypot(bx - ax, by - ay), al = std::atan2(by - ay, bx - ax), st = std::hypot(t.x - s.x, t.y - s.y);
    double eps = 1e-3;
    sure = st > 2 + eps;
    std::vector<std::vector<double> > heads;      // headings where one segment ends and the next begins
    double line = 0;
    bool csc = n == 3 && p.k[1] == 'S';
    if (csc) {
        if (D < 2 * r - eps) { sure = false; return out; }
        if (D < 2 * r + eps) sure = false;
        double off = q0 == q1 ? 0 : std::asin(std::min(1.0, 2 * r / D)) * q0;
        double phi = p.dir[1] > 0 ? al + off : al + M_PI - off;
        line = D * std::cos(al - phi);
        heads.push_back({s.theta, phi, phi, t.theta});
    } else {
        double most = n == 3 ? 4 * r : 6 * r;
        if (D > most + eps || D < 2 - eps) { sure = false; return out; }
        if (D > most - eps || D < 2 + eps) sure = false;
        for (int sgn = -1; sgn <= 1; sgn += 2) {
            std::vector<double> cx{ax}, cy{ay}, h{s.theta};
            double x = n == 3 ? D / 2 : D / 2 - r;
            double g = al + sgn * std::acos(std::max(-1.0, std::min(1.0, x / (2 * r))));
            cx.push_back(ax + 2 * r * std::cos(g)); cy.push_back(ay + 2 * r * std::sin(g));
            if (n == 4) { cx.push_back(cx[1] + 2 * r * std::cos(al)); cy.push_back(cy[1] + 2 * r * std::sin(al)); }
            cx.push_back(bx); cy.push_back(by);
            for (size_t i = 0; i + 1 < n; ++i) {
                double q = sig(p.k[i]);
                h.push_back(std::atan2(q * (cx[i + 1] - cx[i]), -q * (cy[i + 1] - cy[i])));
            }
            h.push_back(t.theta);
            heads.push_back(h);
        }
    }
    for (auto& h : heads) {
        RefCurve rc;
        rc.weight = rc.arc = 0;
        rc.may.push_back(0);
        double x = s.x, y = s.y;
        for (size_t i = 0; i < n; ++i) {
            double cost = p.dir[i] > 0 ? c.cf : c.cb;
            RefSeg g;
            g.k = p.k[i]; g.dir = p.dir[i]; g.x = x; g.y = y; g.turn = g.len = 0;
            g.th = h[i];
            if (g.k == 'S') {
                g.len = line;
                rc.weight += std::abs(line) * cost * c.cs;
                x += line * std::cos(g.th); y += line * std::sin(g.th);
            } else {
                double q = sig(g.k);
                double a = turn_of(h[i], h[i + 1], (int)q * g.dir), w = a * r * cost * c.cc, full = 2 * M_PI * r * cost * c.cc;
                g.turn = a * q * g.dir;
                rc.weight += w;
                rc.arc += a;
                double d = a < 2e-3 ? full : a > 2 * M_PI - 2e-3 ? -full : 0;
                if (d != 0) for (size_t z = rc.may.size(); z-- > 0;) rc.may.push_back(rc.may[z] + d);
                double cx = x - q * r * std::sin(h[i]), cy = y + q * r * std::cos(h[i]);
                x = cx + q * r * std::sin(h[i + 1]); y = cy - q * r * std::cos(h[i + 1]);
            }
            rc.seg.push_back(g);
        }
        for (double& z : rc.may) z += rc.weight;
        rc.hi = *std::max_element(rc.may.begin(), rc.may.end());
        out.push_back(rc);
    }
    return out;
}
static Pose2d on_seg(const RefSeg& g, double r, double f)      // f in [0,1]
{
    if (g.k == 'S') return Pose2d(g.x + f * g.len * std::cos(g.th), g.y + f * g.len * std::sin(g.th), g.th);
    double q = g.k == 'L' ? 1 : -1, th = g.th + f * g.turn;
    double cx = g.x - q * r * std::sin(g.th), cy = g.y + q * r * std::cos(g.th);
    return Pose2d(cx + q * r * std::sin(th), cy - q * r * std::cos(th), th);
}
static int samples(const RefSeg& g, double r) { return 2 + (int)((std::abs(g.len) + std::abs(g.turn) * r) * 2); }
// do the free cells along each stretch of the curve hold together
static bool passable(const RefCurve& c, double r, const MapData& m)
{
    if (r < 3) return true;              // the rasterised circle has a handful of cells, arcs pass between them
    for (auto& g : c.seg) {
        if (g.k != 'S' && std::abs(g.turn) * r < 2) continue;      // between two cells of the circle
        int n = samples(g, r);
        std::set<std::pair<int, int> > band, first, last;
        for (int i = 0; i <= n; ++i) {
            Pose2d p = on_seg(g, r, (double)i / n);
            int px = (int)std::floor(p.x), py = (int)std::floor(p.y);
            for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) {
                int x = px + dx, y = py + dy;
                if (!m.in(x, y) || !m.free(x, y)) continue;
                band.insert(std::make_pair(x, y));
                if (i == 0) first.insert(std::make_pair(x, y));
                if (i == n) last.insert(std::make_pair(x, y));
            }
        }
        std::vector<std::pair<int, int> > todo(first.begin(), first.end());
        bool reached = false;
        for (auto& q : todo) band.erase(q);
        while (!todo.empty() && !reached) {
            std::pair<int, int> q = todo.back();
            todo.pop_back();
            if (last.count(q)) { reached = true; break; }
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                std::pair<int, int> o(q.first + dx, q.second + dy);
                if (band.erase(o)) todo.push_back(o);
            }
        }
        if (!reached) return false;
    }
    return true;
}
// free cells all along, and the full circles of all arcs on the map (others are not even considered)
static bool wide_open(const RefCurve& c, double r, const MapData& m)
{
    for (auto& g : c.seg) if (g.k != 'S') {
        double q = g.k == 'L' ? 1 : -1, cx = g.x - q * r * std::sin(g.th), cy = g.y + q * r * std::cos(g.th), far = r + 2;
        if (cx < far || cy < far || cx > m.w - far || cy > m.h - far) return false;
    }
    for (auto& g : c.seg) for (int n = samples(g, r), i = 0; i <= n; ++i) {
        Pose2d p = on_seg(g, r, (double)i / n);
        for (int dy = -4; dy <= 4; ++dy) for (int dx = -4; dx <= 4; ++dx) {
            int x = (int)std::floor(p.x) + dx, y = (int)std::floor(p.y) + dy;
            if (!m.in(x, y) || !m.free(x, y)) return false;
        }
    }
    return true;
}
// the map around one solution of a pattern: a tunnel through a solid map, or an obstacle on it
// goals for which arcs or lines of the curves are nothing at all, or full circles
static Pose2d related(const Op& o, const Pose2d& s, const Pose2d& t, double r)
{
    double d = o.num("rd", 100) / 10.0, q = o.num("rq") ? -1 : 1;
    switch (o.num("rel")) {
    case 1: return Pose2d(s.x + d * std::cos(s.theta), s.y + d * std::sin(s.theta), s.theta);                            // straight on, or back
    case 2: return Pose2d(s.x - q * d * std::sin(s.theta), s.y + q * d * std::cos(s.theta), s.theta + (o.num("rt") ? M_PI : 0));       // beside it
    case 3: {                                                                                                             // on a circle of the start
        double a = s.theta - q * M_PI / 2, b = d / 5;
        return Pose2d(s.x + r * (std::cos(a + b) - std::cos(a)), s.y + r * (std::sin(a + b) - std::sin(a)), s.theta + b);
    }
    case 4: return Pose2d(t.x, t.y, std::atan2(t.y - s.y, t.x - s.x));                                                    // towards the goal
    case 5: return Pose2d(s.x - q * 2 * r * std::sin(s.theta), s.y + q * 2 * r * std::cos(s.theta), s.theta + (o.num("rt") ? M_PI : 0));
    default: return t;
    }
}
static void lay(const Op& o, const GenConf& c, const Pose2d& s, const Pose2d& t, SimMap& map)
{
    bool tunnel = o.has("tun"), sure;
    if (o.has("ring")) {              // an obstacle on a circle that touches the start or the goal
        MapData d = map.d;
        if (o.num("clr")) for (auto& v : d.v) v = 0;
        const Pose2d& b = o.num("ring") & 2 ? t : s;
        double q = o.num("ring") & 1 ? -1 : 1, r = c.rad / d.res, a = b.theta - q * M_PI / 2 + o.num("bf", 500) / 1000.0 * 2 * M_PI;
        int cx = (int)std::floor(b.x - q * r * std::sin(b.theta) + r * std::cos(a)), cy = (int)std::floor(b.y + q * r * std::cos(b.theta) + r * std::sin(a));
        int n = (int)std::max<i64>(0, std::min<i64>(8, o.num("bn", 4)));
        for (int y = cy - n; y <= cy + n; ++y) for (int x = cx - n; x <= cx + n; ++x) if (d.in(x, y)) d.v[(size_t)y * d.w + x] = 255;
        map.load(d);
        return;
    }
    int k = (int)(o.num(tunnel ? "tun" : "blk") % NSOLV);
    double r = c.rad / map.d.res;
    std::vector<RefCurve> refs = ref_curves(c, SEQ[k < 0 ? 0 : k], s, t, map.d.res, sure);
    if (refs.empty()) return;
    RefCurve f = refs[(size_t)(o.num("sol") & 1) % refs.size()];
    MapData d = map.d;
    uint8_t fv = 0, ov = 255;
    if (tunnel || o.num("clr")) for (auto& v : d.v) v = tunnel ? ov : fv;
    std::vector<Pose2d> pts;
    for (auto& g : f.seg) for (int n = samples(g, r), i = 0; i <= n; ++i) pts.push_back(on_seg(g, r, (double)i / n));
    auto fill = [&](const Pose2d& p, int n, uint8_t v) {
        for (int dy = -n; dy <= n; ++dy) for (int dx = -n; dx <= n; ++dx) {
            int x = (int)std::floor(p.x) + dx, y = (int)std::floor(p.y) + dy;
            if (d.in(x, y)) d.v[(size_t)y * d.w + x] = v;
        }
    };
    if (tunnel) for (auto& p : pts) fill(p, 4, fv);
    else fill(pts[(size_t)(std::max<i64>(0, std::min<i64>(999, o.num("bf", 500))) * (i64)pts.size() / 1000)], (int)std::max<i64>(0, std::min<i64>(8, o.num("bn", 4))), ov);
    map.load(d);
}
// is this a weight the curve can have if cells cost what they contain, but at least so much
static bool map_cost(const RefCurve& c, const GenConf& conf, double w, double r, const MapData& m)
{
    double lo = 0, hi = 0;
    for (auto& g : c.seg) {
        int n = samples(g, r), least = 255, most = 0;
        double cells = 0;
        bool out = false;
        Pose2d b = on_seg(g, r, 0);
        for (int i = 0; i <= n; ++i) {
            Pose2d p = on_seg(g, r, (double)i / n);
            if (g.k != 'S') cells += std::max(std::abs(p.x - b.x), std::abs(p.y - b.y));
            b = p;
            int px = (int)std::floor(p.x), py = (int)std::floor(p.y);
            for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) {
                int x = px + dx, y = py + dy;
                if (!m.in(x, y)) { out = true; continue; }
                int v = m.at(x, y);
                least = std::min(least, v); most = std::max(most, v);
            }
        }
        if (g.k == 'S') cells = std::max(std::abs(g.len * std::cos(g.th)), std::abs(g.len * std::sin(g.th)));
        double f = (g.dir > 0 ? conf.cf : conf.cb) * (g.k == 'S' ? conf.cs : conf.cc) / m.res;
        lo += out ? 0 : f * std::max(0.0, cells * 0.85 - 4) * std::max(conf.min_cell & 255, least);
        hi += f * (cells * 1.15 + 6) * std::max(conf.min_cell & 255, most);
    }
    return w >= lo * 0.999 && w <= hi * 1.001 + 1e-6;
}
static double slack(double w) { return 0.02 + 1e-3 * w; }
// the points of the answer follow the reference curve
static std::string follows(const Answer& a, const RefCurve& c, double r)
{
    std::vector<Pose2d> d;
    for (auto& g : c.seg) for (int n = 2 * samples(g, r), i = 0; i <= n; ++i) d.push_back(on_seg(g, r, (double)i / n));
    for (auto& p : a.pts) {
        bool near = false;
        for (size_t i = 0; i < d.size() && !near; ++i)
            if (std::hypot(p.x - d[i].x, p.y - d[i].y) < 0.3 && adiff(p.theta, d[i].theta) < 0.01 + 0.3 / r) near = true;
        if (!near) return fmt("(%g,%g) with heading %g is not on it", p.x, p.y, p.theta);
    }
    return "";
}
// one pattern alone, obstacles ignored: the best curve of its shape, and no other one
static std::string check_pattern(const GenConf& c, int k, const Answer& b, const Pose2d& s, const Pose2d& t, double res)
{
    bool sure;
    std::vector<RefCurve> refs = ref_curves(c, SEQ[k], s, t, res, sure);
    if (b.outcome != 1) return sure ? fmt("gives none, a curve of weight %g exists", refs[0].weight) : "";
    if (refs.empty()) return fmt("gives %s, but there is none", b.text().c_str());
    std::string why;
    double most = 1e300;
    bool found = false;
    for (auto& f : refs) {
        most = std::min(most, f.hi);
        bool same = false;
        for (double z : f.may) same |= std::abs(b.weight - z) <= slack(z);
        if (!same) continue;
        found = true;
        if (!f.plainly()) { why = ""; break; }
        if (std::abs(b.arc - f.arc) > 0.01) { why = fmt("gives %s, but turns by %g", b.text().c_str(), f.arc); continue; }
        why = follows(b, f, c.rad / res);
        if (why.empty()) break;
    }
    if (!found) return fmt("gives %s, but weighs %g", b.text().c_str(), refs[0].weight) + (refs.size() > 1 ? fmt(" or %g", refs[1].weight) : "");
    if (b.weight > most + slack(most)) return fmt("gives %s, but %g is possible", b.text().c_str(), most);
    return why;
}
static void actions()
{
    set_action_handler([](const Op& o, int kind) {
        if (o.str("do") == "throw" && (kind == READ || kind == GT)) {
            fired(kind == READ ? F_READ_ERR : F_GT_ERR);
            ev("throw", (u64)o.num("id"));
            trace("%s fails", kind == READ ? "reading the map" : "the goal region");
            throw Injected((int)o.num("id", 1));
        }
    });
}
static Pose2d pose(const Op& o, const char* x, const char* y, const char* t) { return Pose2d(o.num(x) / 10.0, o.num(y) / 10.0, o.num(t) / 1000.0); }
static u64 hash_of(const std::string& s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
struct Maps {
    std::map<int, SimMap*> maps;
    SimMap* cur;
    Maps(const Plan& plan) : cur(nullptr)
    {
        for (auto* o : plan.all("map")) {
            int id = (int)o->num("id");
            if (maps.count(id)) continue;
            maps[id] = new SimMap(make_map(*o));
            if (!cur) cur = maps[id];
        }
        if (!cur) { Op o("map"); maps[0] = cur = new SimMap(make_map(o)); }
    }
    bool op(const Op& o)
    {
        if (o.kind == "use") { auto it = maps.find((int)o.num("id")); if (it != maps.end()) cur = it->second; }
        else if (o.kind == "edit") cur->edit((int)o.num("x"), (int)o.num("y"), (uint8_t)o.num("v"));
        else if (o.kind == "load") { MapData m = make_map(o); if (m.w != cur->d.w || m.h != cur->d.h) fired(F_RESIZE); cur->load(m); }
        else return false;
        return true;
    }
};
static bool alloc_fault(const Plan& plan, int s)
{
    for (auto* t : plan.all("at")) if (t->str("k") == "alloc" && (!t->has("s") || t->num("s") == s)) return true;
    return false;
}

// ------------------------------------------------------------------ P12
// many short searches without faults; they all must end alike
template <class F> static void repeat(const Op& o, F f)
{
    phase(-5);
    enable_triggers(false);
    std::string first;
    for (i64 i = 0, n = repetitions(o.num("rep"), 2000); i < n; ++i) {
        allow_steps(200000);
        std::string s = f();
        if (i == 0) first = s;
        else if (s != first) fail("differs-from-new-generator", "repetition %lld of a search ends otherwise than the first one", i);
    }
    enable_triggers(true);
}
static void run_p12(const Plan& plan)
{
    set_cost(READ, 0);
    static const Op none("gen");
    const Op* go = plan.find("gen");
    GenConf conf = GenConf::parse(go ? *go : none);
    Maps maps(plan);
    actions();
    start_zygote([](const std::string& req) {
        Unpack u(req);
        GenConf c; c.unpack(u);
        int s = (int)u.i(); bool ign = u.i() != 0;
        double v[6];
        for (double& x : v) x = u.d();
        MapData m; m.unpack(u);
        SimMap map(m);
        other_poison();
        rearm_triggers();
        phase(-1);
        lib_path::CurveGenerator* g;
        { Lib l; g = new_gen(c, c.seqs); }
        phase(s);
        Answer a = find(*g, Pose2d(v[0], v[1], v[2]), Pose2d(v[3], v[4], v[5]), &map, ign);
        return a.pack();
    });
    u64 base = live_blocks();
    lib_path::CurveGenerator* g = nullptr;
    int n = 0;
    for (auto& o : plan.ops) {
        if (maps.op(o)) continue;
        if (o.kind == "drop") { Lib l; delete g; g = nullptr; continue; }
        if (o.kind == "parse" && g && !well_formed(o.str("seq"))) {
            // refused, and without any effect on later searches
            phase((int)o.num("s"));
            bool r = false;
            u64 f0 = failed_allocs();
            Answer a = guarded([&](Answer&) { std::stringstream err; r = g->parse(o.str("seq"), err); });
            trace("parse %s: %s", o.str("seq").c_str(), a.outcome ? a.text().c_str() : r ? "accepted" : "refused");
            if (failed_allocs() != f0) note_nontrivial();
            if (a.outcome && failed_allocs() == f0) fail("error-invented", "nothing failed, but parsing %s ended with %s", o.str("seq").c_str(), a.text().c_str());
            if (r) fail("bad-parse", "the malformed sequence %s is accepted", o.str("seq").c_str());
            continue;
        }
        phase(-3);
        if (change(o, conf, g)) continue;
        if (o.kind != "q") continue;
        SimMap* m = maps.cur;
        if (m->d.res < 0.02) continue;
        int s = (int)o.num("s");
        phase(1000 + s);
        for (int i = 0; !g && i < 20; ++i) try { Lib l; g = new_gen(conf, conf.seqs); } catch (std::bad_alloc&) {}
        if (!g) continue;
        Pose2d from = pose(o, "sx", "sy", "sth"), to = pose(o, "gx", "gy", "gth");
        bool ign = o.num("ign") != 0;
        to = related(o, from, to, conf.rad / m->d.res);
        if (o.num("rel") == 4) from.theta = to.theta;
        if (o.has("tun") || o.has("blk") || o.has("ring")) lay(o, conf, from, to, *m);
        allow_steps(60000 + 120 * NSEQ * (u64)(m->d.w + m->d.h + 8 * conf.rad / m->d.res));     // the oracles search with every pattern
        if (o.num("rep") > 0) repeat(o, [&] { return find(*g, from, Pose2d(from.x + 2, from.y, from.theta), m, true).pack(); });
        phase(s);
        u64 f0 = failed_allocs();
        Answer a = find(*g, from, to, m, ign);
        bool nomem = failed_allocs() != f0;
        trace("search %d: %s", s, a.text().c_str());
        u64 h = hash_of(a.pack());
        ev("answer", h);
        state(mix(h, m->d.hash()));
        if (nomem) {
            note_nontrivial();
            if (a.outcome != 3) fail("not-reported", "a memory request failed, but the search ended with %s", a.text().c_str());
            continue;
        }
        if (a.outcome >= 3) fail("error-invented", "nothing failed, but the search ended with %s", a.text().c_str());
        std::string e = check_curve(conf, a, from, to, *m, ign);
        if (!e.empty()) fail("bad-curve", "search %d: %s", s, e.c_str());
        if (!alloc_fault(plan, s)) {
            Pack q;
            conf.pack(q);
            q.i(s).i(ign).d(from.x).d(from.y).d(from.theta).d(to.x).d(to.y).d(to.theta);
            m->d.pack(q);
            std::string ref = in_pristine(q.s);
            if (ref != a.pack()) {
                Answer r;
                Unpack u(ref);
                r.unpack(u);
                fail("differs-from-new-generator", "search %d: %s; a new generator: %s", s, a.text().c_str(), r.text().c_str());
            }
            if (n) note_nontrivial();
        }
        ++n;
        if (a.outcome >= 2) continue;
        // every pattern alone, without faults
        Quiet0 quiet;
        phase(-2);
        double best = -1;
        int which = -1;
        for (int i = 0; i < NSEQ; ++i) {
            if (!((conf.seqs >> i) & 1)) continue;
            Answer b = find_new(conf, 1ll << i, from, to, m, ign);
            if (b.outcome == 1 && (best < 0 || b.weight < best)) { best = b.weight; which = i; }
        }
        if ((best >= 0) != (a.outcome == 1) || (best >= 0 && best != a.weight))
            fail("not-the-best", "search %d: %s; pattern %s alone gives %.9g", s, a.text().c_str(), which < 0 ? "none" : SEQ[which], best);
        // the geometry of the patterns
        GenConf plain = conf;
        plain.has_arc = plain.use_cost = false;
        double res = m->d.res, r = conf.rad / res, lowest = -1;
        bool fits = false;
        for (int i = 0; i < NSEQ; ++i) {
            if (!((conf.seqs >> i) & 1)) continue;
            Answer b = find_new(plain, 1ll << i, from, to, m, true);
            std::string e = check_pattern(plain, i, b, from, to, res);
            if (!e.empty()) fail("not-its-shape", "search %d: ignoring obstacles, pattern %s alone %s", s, SEQ[i], e.c_str());
            bool sure;
            std::vector<RefCurve> refs = ref_curves(plain, SEQ[i], from, to, res, sure);
            size_t lightest = 0;
            for (size_t z = 1; z < refs.size(); ++z) if (refs[z].weight < refs[lightest].weight) lightest = z;
            for (auto& f : refs) {
                bool plainly = f.plainly();
                if (a.outcome == 1 && !fits) {
                    if (!plainly) fits = true;
                    else if (conf.use_cost) fits = map_cost(f, conf, a.weight, r, m->d) && (ign || passable(f, r, m->d));
                    else fits = std::abs(a.weight - f.weight) <= slack(f.weight) && (ign || passable(f, r, m->d));
                    if (plainly && conf.has_arc && f.arc > conf.arc + 0.01) fits = false;
                }
                // where turns are limited, a pattern is judged by the lighter one of its curves
                if (conf.has_arc && (f.arc > conf.arc - 0.01 || &f != &refs[lightest])) continue;
                if (plainly && sure && !conf.use_cost && (lowest < 0 || f.weight < lowest) && (ign || wide_open(f, r, m->d))) lowest = f.weight;
            }
        }
        if (a.outcome == 1 && !fits) fail("not-free", "search %d: %s; no curve of that weight keeps to the free cells", s, a.text().c_str());
        if (lowest >= 0 && (a.outcome != 1 || a.weight > lowest + slack(lowest)))
            fail("not-found", "search %d: %s; there is one over free cells with weight %g", s, a.text().c_str(), lowest);
        if (!ign && !conf.has_arc) {
            Answer b = find_new(conf, conf.seqs, from, to, m, true);
            if (a.outcome == 1 && (b.outcome != 1 || b.weight > a.weight))
                fail("not-the-best", "search %d: %s; ignoring obstacles: %s", s, a.text().c_str(), b.text().c_str());
            // nothing but free cells as far as any circle of the curve can reach
            double far = 4 * conf.rad / m->d.res + 4;
            auto deep = [&](const Pose2d& p) { return p.x > far && p.y > far && p.x < m->d.w - far && p.y < m->d.h - far; };
            if (deep(from) && deep(to)) {
                bool open = true;
                for (unsigned y = 0; y < m->d.h && open; ++y) for (unsigned x = 0; x < m->d.w; ++x) if (!m->d.free((int)x, (int)y)) open = false;
                if (open) {
                    note_nontrivial();
                    if (a.outcome != b.outcome || a.weight != b.weight)
                        fail("not-found", "search %d on a free map: %s; ignoring obstacles: %s", s, a.text().c_str(), b.text().c_str());
                }
            }
        }
    }
    { Lib l; delete g; }
    if (live_blocks() != base) fail("leak", "%lld blocks are not released with the generator", (i64)(live_blocks() - base));
}
static void gen_conf(Rng& r, Plan& p)
{
    Op& o = p.add("gen");
    o.set("seqs", r.chance(25) ? 15 : r.chance(50) ? (i64)(r.next() & ((1 << NSEQ) - 1)) : (i64)(1ll << r.range(0, r.chance(90) ? NSOLV - 1 : NSEQ - 1) | 1ll << r.range(0, NSOLV - 1)));
    o.set("rad", r.pick({130, 130, 60, 100, 200, 200, 40})).set("wp", r.pick({15, 15, 30, 50, 8, 100}));
    if (r.chance(35)) o.set("cb", r.range(50, 300)).set("cf", r.range(50, 200));
    if (r.chance(35)) o.set("cc", r.range(50, 300)).set("cs", r.range(50, 200));
    if (r.chance(40)) o.set("arc", r.chance(50) ? 314 : r.range(50, 900));
    if (r.chance(25)) { o.set("uc", 1); if (r.chance(80)) o.set("mc", r.chance(20) ? r.range(0, 255) : r.range(0, 40)); }
    if (r.chance(20)) o.set("deco", r.range(1, 127));
}
static void gen_change(Rng& r, Plan& p)
{
    if (r.chance(25)) { p.add("more").set("k", r.range(1, NSEQ - 1)); return; }
    Op& o = p.add("set");
    if (r.chance(30)) o.set("rad", r.pick({130, 60, 100, 200, 40}));
    if (r.chance(30)) o.set("wp", r.pick({15, 30, 50, 8}));
    if (r.chance(30)) o.set("cb", r.range(50, 300));
    if (r.chance(30)) o.set("cf", r.range(50, 300));
    if (r.chance(30)) o.set("cc", r.range(50, 300));
    if (r.chance(30)) o.set("cs", r.range(50, 300));
    if (r.chance(30)) o.set("arc", r.chance(50) ? 314 : r.range(50, 900));
    if (r.chance(20)) o.set("uc", r.range(0, 1)).set("mc", r.range(0, 40));
}
static void gen_cmap(Rng& r, Op& o, int maxdim)
{
    static const int RES[] = {200, 200, 100, 250, 400, 130};
    gen_map(r, o, maxdim);
    o.set("res", r.pick(RES));
    o.set("w", std::max<i64>(o.num("w"), r.range(10, maxdim))).set("h", std::max<i64>(o.num("h"), r.range(10, maxdim)));
    if (o.num("w") > 1100) o.set("w", 1100);
    if (o.num("h") > 1100) o.set("h", 1100);
    if (r.chance(65)) o.set("fill", r.chance(55) ? 7 : 0);
    if (o.num("fill") == 1 || o.num("fill") == 4) o.set("dens", r.range(1, 10));
}
static void gen_rep(Rng& r, Op& q) { if (r.chance(2)) q.set("rep", r.pick({255, 127, 511}) - r.range(0, 2)); }
static void gen_faults(Rng& r, Plan& p, int s)
{
    if (r.chance(25)) p.add("at").set("s", s).set("k", "read").set("n", r.scale(600)).set("do", "throw").set("id", r.range(1, 99));
    else if (r.chance(30)) p.add("at").set("s", s).set("k", "alloc").set("n", r.scale(60)).set("do", "fail");
}
static void gen_p12(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    gen_conf(r, p);
    int nm = (int)r.range(1, 2), cur = 0, maxdim = r.chance(50) ? 40 : 90;
    std::vector<std::pair<int, int> > dims;
    bool big = r.chance(16);           // circles of many cells
    if (big) p.ops.back().set("rad", 200);
    auto vary = [&](Op& o) {
        if (big) o.set("res", r.pick({100, 70, 60})).set("w", r.range(100, 240)).set("h", r.range(100, 240));
        else if (r.chance(8)) o.set("res", r.pick({1000, 1600}));
    };
    for (int i = 0; i < nm; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_cmap(r, o, maxdim);
        vary(o);
        dims.push_back(std::make_pair((int)o.num("w"), (int)o.num("h")));
    }
    bool edge = r.chance(12);          // one pattern, and goals for which its arcs are nothing or full circles
    if (edge) {
        static const int EDGE[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 14, 15, 17};
        for (auto& o : p.ops) if (o.kind == "gen") o.set("seqs", 1ll << r.pick(EDGE));
    }
    i64 seqs = p.find("gen")->num("seqs");
    auto pattern = [&] { i64 k = 0; for (int i = 0; i < 12; ++i) { k = r.range(0, NSOLV - 1); if ((seqs >> k) & 1) break; } return k; };
    int nq = (int)r.range(1, tier ? 8 : 4);
    for (int s = 1; s <= nq; ++s) {
        if (s > 1 && r.chance(50)) switch (r.range(0, 4)) {
        case 0: cur = (int)r.range(0, nm - 1); p.add("use").set("id", cur); break;
        case 1: { Op& o = p.add("load"); gen_cmap(r, o, maxdim); vary(o); dims[(size_t)cur] = std::make_pair((int)o.num("w"), (int)o.num("h")); break; }
        case 4: p.add("drop"); break;
        default: for (int k = 0; k < 4; ++k)
            p.add("edit").set("x", r.range(0, dims[(size_t)cur].first - 1)).set("y", r.range(0, dims[(size_t)cur].second - 1)).set("v", r.chance(50) ? 0 : 255);
        }
        if (s > 1 && r.chance(35)) gen_change(r, p);
        if (s > 1 && r.chance(22)) {
            static const char* BAD[] = {"LRX", "R(LR", "R((L))R", "R)LR", "(b)LSL", "LS(b)L", "LSL(", "L(|)SR", "RPLR", "lsl", "LSL)", "L((p)SR", "L((b)SL", "RSR(bp(b)", "LSR)b"};
            std::string q = r.pick(BAD);
            if (r.chance(60)) {
                static const char AB[] = "LLRRSS|()bpX";
                do { q.clear(); int n = (int)r.range(1, 7); for (int k = 0; k < n; ++k) q += AB[r.next() % 12]; } while (well_formed(q));
            }
            p.add("parse").set("s", 2000 + s).set("seq", q);
            if (r.chance(30)) p.add("at").set("s", 2000 + s).set("k", "alloc").set("n", r.range(1, 20)).set("do", "fail");
        }
        int w = dims[(size_t)cur].first, h = dims[(size_t)cur].second;
        static const int TH[] = {0, 1571, -1571, 3141, 785};
        Op& q = p.add("q");
        auto c = [&](int n) { return r.chance(4) ? r.range(-30, 10 * n + 30) : r.chance(50) ? r.range(0, 10 * n - 1) : r.range(2 * n, 8 * n); };
        q.set("s", s).set("sx", c(w)).set("sy", c(h)).set("gx", c(w)).set("gy", c(h));
        q.set("sth", r.chance(30) ? r.pick(TH) : r.range(-3141, 3141)).set("gth", r.chance(30) ? r.pick(TH) : r.range(-3141, 3141));
        if (r.chance(20)) q.set("ign", 1);
        if (r.chance(big ? 45 : 18)) q.set("tun", pattern()).set("sol", r.range(0, 1));
        else if (r.chance(22)) q.set("blk", pattern()).set("sol", r.range(0, 1)).set("clr", r.range(0, 1)).set("bf", r.range(0, 999)).set("bn", r.range(1, 8));
        if (r.chance(edge ? 85 : 20)) q.set("rel", r.range(1, 5)).set("rd", r.range(20, 300) * (r.chance(25) ? -1 : 1)).set("rq", r.range(0, 1)).set("rt", r.range(0, 1));
        if (!q.has("tun") && !q.has("blk") && r.chance(q.has("rel") ? 50 : 5))
            q.set("ring", r.range(0, 3)).set("clr", r.chance(70)).set("bf", r.range(0, 999)).set("bn", r.range(3, 8));
        if (s > 1) gen_rep(r, q);
        gen_faults(r, p, s);
    }
}

// ------------------------------------------------------------------ P11
struct Goal { Pose2d p; double gain; };
// hands out what the region of the library hands out, and remembers it
struct Region : public lib_path::GoalRegion {
    lib_path::GoalRegion* r;
    std::vector<Goal> given;
    int inits;
    Region(lib_path::GoalRegion* r_) : r(r_), inits(0) {}
    void init(unsigned n) { { Env e; given.clear(); } ++inits; r->init(n); }
    bool getNextGoal(Pose2d& g, double& gain)
    {
        yield(GT);
        bool b = r->getNextGoal(g, gain);
        if (b) { Env e; given.push_back(Goal{g, gain}); }
        return b;
    }
};
static std::string check_region(const Op& o, const std::vector<Goal>& v, unsigned n, bool complete)
{
    double cx = o.num("cx") / 10.0, cy = o.num("cy") / 10.0;
    if (o.num("cent")) {
        double r = std::max<i64>(0, o.num("r")) / 10.0, ang = std::abs(o.num("ang") / 1000.0);
        double dir = std::atan2(cy - o.num("ry") / 10.0, cx - o.num("rx") / 10.0);
        unsigned k = ang < 1e-6 || n <= 1 ? 1 : n;
        if (v.size() > k || (complete && v.size() != k)) return fmt("the region offers %zu poses, expected are %u", v.size(), k);
        for (size_t i = 0; i < v.size(); ++i) {
            double th = k == 1 ? dir : dir - 0.5 * ang + ang * (double)i / (k - 1);
            const Pose2d& p = v[i].p;
            if (std::hypot(p.x - (cx - r * std::cos(th)), p.y - (cy - r * std::sin(th))) > 1e-6 * (1 + r))
                return fmt("pose %zu of the region is (%g,%g), expected is (%g,%g)", i, p.x, p.y, cx - r * std::cos(th), cy - r * std::sin(th));
            if (adiff(p.theta, th) > 1e-6) return fmt("pose %zu of the region has heading %g, towards the centre is %g", i, p.theta, th);
            double dev = k == 1 ? 0 : std::abs((double)i / (k - 1) * 2 - 1);        // 0 direct, 1 widest
            if (v[i].gain < 1 - 1e-9 || v[i].gain > 2 + 1e-9) return fmt("pose %zu of the region has weight factor %g", i, v[i].gain);
            if (dev > 1 - 1e-9 && std::abs(v[i].gain - 2) > 1e-9) return fmt("the widest approach has weight factor %g", v[i].gain);
            if (dev < 1e-9 && std::abs(v[i].gain - 1) > 1e-9) return fmt("the direct approach has weight factor %g", v[i].gain);
            for (size_t j = 0; j < i; ++j) {
                double dj = std::abs((double)j / (k - 1) * 2 - 1);
                if ((dj > dev - 1e-9 && v[j].gain < v[i].gain - 1e-9) || (dev > dj - 1e-9 && v[i].gain < v[j].gain - 1e-9))
                    return fmt("poses %zu and %zu are %g and %g of the widest angle off the direct approach, but have the weight factors %g and %g", j, i, dj, dev, v[j].gain, v[i].gain);
            }
        }
    } else {
        double r0 = o.num("r") / 10.0, w = o.num("w") / 10.0, r = std::abs(r0), half = std::abs(w) / 2;
        if (v.size() > n || (complete && v.size() != n)) return fmt("the region offers %zu poses, expected are %u", v.size(), n);
        for (size_t i = 0; i < v.size(); ++i) {
            const Pose2d& p = v[i].p;
            double al = 2 * M_PI * (double)i / n, ex = std::cos(al), ey = std::sin(al);
            double along = (p.x - cx) * ex + (p.y - cy) * ey, across = (p.x - cx) * -ey + (p.y - cy) * ex;
            if (std::abs(across) > 1e-6 * (1 + r)) return fmt("pose %zu of the ring is (%g,%g), not in direction %g of its centre", i, p.x, p.y, al);
            if (along < r - half - 1e-6 || along > r + half + 1e-6) return fmt("pose %zu of the ring is %g from its centre, the ring reaches from %g to %g", i, along, r - half, r + half);
            if (adiff(p.theta, al + (r0 < 0 ? -M_PI / 2 : M_PI / 2)) > 1e-6) return fmt("pose %zu of the ring has heading %g, along the ring is %g", i, p.theta, al + (r0 < 0 ? -M_PI / 2 : M_PI / 2));
            if (v[i].gain != 1.0) return fmt("pose %zu of the ring has weight factor %g", i, v[i].gain);
        }
    }
    return "";
}
static void run_p11(const Plan& plan)
{
    set_cost(READ, 0);
    static const Op none("gen");
    const Op* go = plan.find("gen");
    GenConf conf = GenConf::parse(go ? *go : none);
    if (!conf.has_arc) { conf.has_arc = true; conf.arc = 1000; }
    Maps maps(plan);
    actions();
    u64 base = live_blocks();
    lib_path::CurveGenerator* g = nullptr;
    std::map<int, std::pair<Region*, const Op*> > regions;
    int bad = 0;
    for (auto* o : plan.all("region")) {
        int id = (int)o->num("id");
        if (regions.count(id)) continue;
        lib_path::Point2d c(o->num("cx") / 10.0, o->num("cy") / 10.0), src(o->num("rx") / 10.0, o->num("ry") / 10.0);
        lib_path::GoalRegion* r;
        if (o->num("cent")) r = new lib_path::CentroidRadiusGoalRegion(src, c, std::max<i64>(0, o->num("r")) / 10.0, o->num("ang") / 1000.0);
        else r = new lib_path::RingGoalRegion(c, o->num("r") / 10.0, o->num("w") / 10.0);
        regions[id] = std::make_pair(new Region(r), o);
    }
    for (auto& o : plan.ops) {
        if (maps.op(o)) continue;
        phase(-3);
        if (change(o, conf, g)) continue;
        if (o.kind != "q") continue;
        SimMap* m = maps.cur;
        auto it = regions.find((int)o.num("r"));
        if (m->d.res < 0.02 || it == regions.end()) continue;
        Region* reg = it->second.first;
        int s = (int)o.num("s");
        unsigned n = (unsigned)std::max<i64>(0, std::min<i64>(600, o.num("n", 5)));
        phase(1000 + s);
        for (int i = 0; !g && i < 20; ++i) try { Lib l; g = new_gen(conf, conf.seqs); } catch (std::bad_alloc&) {}
        if (!g) continue;
        Pose2d from = pose(o, "sx", "sy", "sth");
        const MapData before = m->d;
        const u64 room = 4000 + 8 * NSEQ * (u64)(before.w + before.h + 8 * conf.rad / before.res);      // cells a search for one pose may read
        allow_steps((n + 1) * room);
        phase(s);
        u64 f0 = failed_allocs();
        if (o.num("rep") > 0) repeat(o, [&] {
            return guarded([&](Answer& r) {
                lib_path::CentroidRadiusGoalRegion one(lib_path::Point2d(from.x, from.y), lib_path::Point2d(from.x + 1, from.y), 0.5, 0);
                lib_path::SamplingPlanner sp(g, m);
                std::unique_ptr<lib_path::Curve> c(sp.createPath(from, &one, 1));
                describe(r, c.get());
            }).pack();
        });
        phase(s);
        int inits = reg->inits;
        Answer a = guarded([&](Answer& r) {
            lib_path::SamplingPlanner sp(g, m);
            std::unique_ptr<lib_path::Curve> c(sp.createPath(from, reg, (int)n));
            describe(r, c.get());
        });
        bool nomem = failed_allocs() != f0;
        trace("sampling %d: %s", s, a.text().c_str());
        u64 h = hash_of(a.pack());
        ev("answer", h);
        state(mix(h, m->d.hash()));
        std::vector<Goal> given;
        if (reg->inits != inits) given = reg->given;
        std::string e = check_region(*it->second.second, given, n, a.outcome < 2 && reg->inits != inits);
        if (!e.empty()) fail("bad-region", "sampling %d: %s", s, e.c_str());
        if (nomem) {
            note_nontrivial();
            if (a.outcome != 3) fail("not-reported", "a memory request failed, but the search ended with %s", a.text().c_str());
            ++bad;
            continue;
        }
        if (a.outcome >= 3) fail("error-invented", "nothing failed, but the search ended with %s", a.text().c_str());
        if (a.outcome == 2) { ++bad; continue; }
        // the best over all poses, with new generators and without faults
        Quiet0 quiet;
        phase(-2);
        auto cell = [&](const Pose2d& p) { return Pose2d((p.x - before.ox) / before.res, (p.y - before.oy) / before.res, p.theta); };
        auto inside = [&](const Pose2d& c) { return c.x >= 0 && c.y >= 0 && c.x < before.w && c.y < before.h; };
        Pose2d fc = cell(from);
        if (!inside(fc)) {
            if (a.outcome) fail("bad-curve", "sampling %d: %s although the start (%g,%g) is outside of the map", s, a.text().c_str(), from.x, from.y);
            continue;
        }
        double best = -1;
        std::vector<Answer> bests;
        for (auto& q : given) {
            Pose2d t = cell(q.p);
            if (!inside(t)) continue;
            allow_steps(room);
            Answer b = find_new(conf, conf.seqs, fc, t, m, false);
            if (b.outcome != 1 || !b.valid) continue;
            double w = q.gain * b.weight;
            if (best < 0 || w < best) { best = w; bests.clear(); }
            if (w == best) bests.push_back(b);
        }
        if (best >= 0 && given.size() > 1) note_nontrivial();
        if ((best >= 0) != (a.outcome == 1)) fail("not-the-best", "sampling %d: %s; the best of the poses weighs %g", s, a.text().c_str(), best);
        if (best >= 0) {
            bool ok = false;
            for (auto& b : bests) if (b.pack() == a.pack()) ok = true;
            if (!ok) fail("not-the-best", "sampling %d: %s; the best of the poses weighs %g (%s)", s, a.text().c_str(), best, bests[0].text().c_str());
        }
        if (bad) note_nontrivial();
    }
    { Lib l; delete g; }
    if (live_blocks() != base) fail("leak", "%lld blocks are not released", (i64)(live_blocks() - base));
}
static void gen_p11(Rng& r, Plan& p, int tier)
{
    { Op& o = p.add("poison"); o.set("mode", r.chance(20) ? 0 : r.range(1, 5)).set("seed", r.range(1, 999)); }
    p.add("rand").set("seed", r.range(1, 99999));
    gen_conf(r, p);
    int nm = (int)r.range(1, 2), cur = 0, maxdim = r.chance(50) ? 40 : 80;
    std::vector<Op*> cm;
    for (int i = 0; i < nm; ++i) {
        Op& o = p.add("map");
        o.set("id", i);
        gen_cmap(r, o, maxdim);
        cm.push_back(&o);
    }
    int nr = (int)r.range(1, 3);
    auto world = [&](const Op& o, bool x) -> i64 {     // a coordinate in the map, in tenths of a metre
        double len = (double)o.num(x ? "w" : "h") * (double)o.num("res", 1000) / 1000.0;
        double f = r.chance(10) ? r.unit() * 1.4 - 0.2 : r.unit();
        return (i64)std::llround((o.num(x ? "ox" : "oy") + f * len) * 10);
    };
    for (int i = 0; i < nr; ++i) {
        Op& m = *cm[r.next() % cm.size()];
        Op& o = p.add("region");
        o.set("id", i).set("cx", world(m, true)).set("cy", world(m, false)).set("r", r.range(0, 40));
        if (r.chance(50)) {
            o.set("cent", 1).set("rx", world(m, true)).set("ry", world(m, false)).set("ang", r.chance(15) ? 0 : r.range(-6000, 6000));
        } else {
            o.set("w", r.range(0, 20));
            if (r.chance(40)) o.set("r", -r.range(1, 40));
        }
    }
    int nq = (int)r.range(1, tier ? 6 : 4);
    for (int s = 1; s <= nq; ++s) {
        if (s > 1 && r.chance(35)) switch (r.range(0, 2)) {
        case 0: cur = (int)r.range(0, nm - 1); p.add("use").set("id", cur); break;
        default: {
            int w = (int)cm[(size_t)cur]->num("w"), h = (int)cm[(size_t)cur]->num("h");
            for (int k = 0; k < 4; ++k) p.add("edit").set("x", r.range(0, w - 1)).set("y", r.range(0, h - 1)).set("v", r.chance(50) ? 0 : 255);
        }
        }
        if (s > 1 && r.chance(20)) gen_change(r, p);
        p.add("q").set("s", s).set("r", r.range(0, nr - 1)).set("n", r.chance(15) ? r.range(0, 1) : r.chance(2) ? r.pick({126, 254, 300, 511}) + r.range(0, 4) : r.range(2, 9))
            .set("sx", world(*cm[(size_t)cur], true)).set("sy", world(*cm[(size_t)cur], false)).set("sth", r.range(-3141, 3141));
        if (s > 1) gen_rep(r, p.ops.back());
        if (r.chance(12)) p.add("at").set("s", s).set("k", "gt").set("n", r.range(1, 8)).set("do", "throw").set("id", r.range(1, 99));
        else if (r.chance(25)) p.add("at").set("s", s).set("k", "read").set("n", r.scale(3000)).set("do", "throw").set("id", r.range(1, 99));
        else if (r.chance(25)) p.add("at").set("s", s).set("k", "alloc").set("n", r.scale(120)).set("do", "fail");
    }
}
int main(int argc, char** argv)
{
    std::vector<Scenario> s = {{"P11", gen_p11, run_p11}, {"P12", gen_p12, run_p12}};
    return main_loop(argc, argv, s);
}
