// Simulated maps: every access is a yield point of the simulation, is checked against the
// map's bounds and may fail; the harness keeps its own copy of the contents as ground truth.
#ifndef VERIF_MAPS_HPP
#define VERIF_MAPS_HPP
#include "sim.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <queue>
#include <set>
#include <vector>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>

// what a map is made of; value semantics
struct MapData {
    unsigned w, h;
    double res, ox, oy;
    int lower, upper, noinfo;
    std::vector<uint8_t> v;
    MapData() : w(0), h(0), res(1), ox(0), oy(0), lower(50), upper(200), noinfo(-1) {}
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < (int)w && y < (int)h; }
    uint8_t at(int x, int y) const { return v[(size_t)y * w + x]; }
    bool unknown_value(uint8_t c) const { return noinfo != -1 && c == noinfo; }
    bool free(int x, int y) const { return in(x, y) && !unknown_value(at(x, y)) && at(x, y) <= lower; }
    bool occ(int x, int y) const { return in(x, y) && !unknown_value(at(x, y)) && at(x, y) >= upper; }
    bool noinf(int x, int y) const { return in(x, y) && (unknown_value(at(x, y)) || (at(x, y) > lower && at(x, y) < upper)); }
    sim::u64 hash() const
    {
        sim::u64 h = sim::mix(w, this->h);
        for (uint8_t c : v) h = (h ^ c) * 1099511628211ull;
        return sim::mix(h, sim::mix(sim::bits(res), sim::mix(sim::bits(ox), sim::bits(oy))));
    }
    void pack(sim::Pack& p) const
    {
        p.i(w).i(h).d(res).d(ox).d(oy).i(lower).i(upper).i(noinfo).b(std::string(v.begin(), v.end()));
    }
    void unpack(sim::Unpack& u)
    {
        w = (unsigned)u.i(); h = (unsigned)u.i(); res = u.d(); ox = u.d(); oy = u.d();
        lower = (int)u.i(); upper = (int)u.i(); noinfo = (int)u.i();
        std::string s = u.b();
        v.assign(s.begin(), s.end());
    }
};

// map contents from a plan line: w h fill seed dens res(permille) ox oy
//   fill 0 open, 1 random obstacles, 2 rooms with doors, 3 vertical/horizontal comb, 4 mixed values, 5 one wall with one gap
inline MapData make_map(const sim::Op& o)
{
    MapData m;
    sim::i64 w = o.num("w", 8), h = o.num("h", 8);
    m.w = (unsigned)std::max<sim::i64>(1, std::min<sim::i64>(w, 70000));
    m.h = (unsigned)std::max<sim::i64>(1, std::min<sim::i64>(h, std::max(1ll, 100000ll / (long long)m.w)));
    m.res = std::max<sim::i64>(1, o.num("res", 1000)) / 1000.0;
    m.ox = (double)o.num("ox"); m.oy = (double)o.num("oy");
    m.lower = (int)o.num("lower", 50); m.upper = (int)o.num("upper", 200); m.noinfo = (int)o.num("noinfo", -1);
    m.v.assign((size_t)m.w * m.h, 0);
    sim::Rng r((sim::u64)o.num("seed", 1));
    int dens = (int)o.num("dens", 25);
    auto occ = [&] { static const uint8_t a[] = {255, 254, 200, 201}; return a[r.next() & 3]; };
    switch (o.num("fill", 1)) {
    case 0: break;
    default:
    case 1:
        for (auto& c : m.v) if (r.chance(dens)) c = occ(); else if (r.chance(10)) c = (uint8_t)r.range(0, 50);
        break;
    case 2: {
        unsigned s = (unsigned)r.range(3, 7);
        for (unsigned y = 0; y < m.h; ++y) for (unsigned x = 0; x < m.w; ++x)
            if (x % s == s - 1 || y % s == s - 1) m.v[y * m.w + x] = r.chance(25) ? 0 : occ();
        break;
    }
    case 3: {
        bool vert = r.chance(50);
        for (unsigned y = 0; y < m.h; ++y) for (unsigned x = 0; x < m.w; ++x) {
            unsigned a = vert ? x : y, b = vert ? y : x, n = vert ? m.h : m.w;
            if (a % 2 == 1) { bool gap = (a / 2) % 2 ? b == 0 : b == n - 1; if (!gap) m.v[y * m.w + x] = occ(); }
        }
        break;
    }
    case 4:
        for (auto& c : m.v) c = r.chance(dens) ? (uint8_t)r.range(0, 255) : (uint8_t)r.range(0, 50);
        break;
    case 5: {
        unsigned x = m.w / 2, g = (unsigned)r.range(0, m.h - 1);
        for (unsigned y = 0; y < m.h; ++y) if (y != g) m.v[y * m.w + x] = occ();
        break;
    }
    case 6: for (auto& c : m.v) c = 255; break;
    case 7: {                              // big blocks
        int n = 1 + (int)(m.w * m.h / 300);
        for (int k = 0; k < n; ++k) {
            int bw = (int)r.range(5, 14), bh = (int)r.range(5, 14), bx = (int)r.range(-4, m.w - 1), by = (int)r.range(-4, m.h - 1);
            for (int y = by; y < by + bh; ++y) for (int x = bx; x < bx + bw; ++x) if (m.in(x, y)) m.v[(size_t)y * m.w + x] = occ();
        }
        break;
    }
    }
    return m;
}
inline void gen_map(sim::Rng& r, sim::Op& o, int maxdim, bool extreme = true)
{
    static const int RES[] = {1000, 1000, 50, 100, 250, 2000, 500};
    o.set("w", r.chance(15) ? r.range(1, 3) : r.range(2, maxdim));
    o.set("h", r.chance(15) ? r.range(1, 3) : r.range(2, maxdim));
    static const int F[] = {0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 5};
    o.set("fill", r.pick(F));
    o.set("dens", r.range(5, 45));
    o.set("seed", (sim::i64)(r.next() % 100000));
    o.set("res", r.pick(RES));
    if (r.chance(30)) { o.set("ox", r.range(-20, 20)); o.set("oy", r.range(-20, 20)); }
    if (r.chance(10)) o.set("noinfo", r.pick({0, 0, 255, 100}));
    if (extreme && maxdim >= 9 && r.chance(2)) {      // indices beyond 7, 8 and (rarely) 15, 16 bits
        bool vert = r.chance(50), huge = r.chance(4);
        static const int L[] = {125, 254, 254, 255, 256, 300, 510, 1022};
        sim::i64 l = huge ? r.pick({32760, 65530}) + r.range(0, 20) : r.pick(L) + r.range(0, 6), s = huge ? 1 : r.range(1, 3);
        o.set(vert ? "h" : "w", l).set(vert ? "w" : "h", s).set("fill", r.chance(50) ? 0 : 1).set("dens", s == 1 || r.chance(50) ? 0 : r.range(0, 3));
    } else if (extreme && maxdim >= 9 && r.chance(1) && r.chance(10)) {
        o.set("w", r.range(180, 280)).set("h", r.range(182, 280)).set("fill", r.pick({0, 1, 2, 3, 5})).set("dens", r.range(1, 25));
    }
}

// per-search access statistics and faults are driven by the yield points
struct SimMap : public lib_path::SimpleGridMap2d {
    typedef lib_path::SimpleGridMap2d B;
    MapData d;                         // ground truth
    mutable int depth;                 // nested virtual calls count as one access
    mutable sim::u64 reads, writes;
    bool strict;                       // out-of-range access is a violation
    std::vector<char> free_seen, notocc_seen;  // during the current watch: was ever free / not occupied

    explicit SimMap(const MapData& m) : B(m.w, m.h, m.res), depth(0), reads(0), writes(0), strict(true) { load(m); }
    void load(const MapData& m)
    {
        d = m;
        sim::Env e;
        B::set(m.v, m.w, m.h);
        B::setResolution(m.res);
        B::setOrigin(lib_path::Point2d(m.ox, m.oy));
        B::setLowerThreshold((uint8_t)m.lower);
        B::setUpperThreshold((uint8_t)m.upper);
        B::setNoInformationValue(m.noinfo);
        watch();
    }
    void watch()
    {
        sim::allow_steps(60 * d.v.size());
        free_seen.assign(d.v.size(), 0);
        notocc_seen.assign(d.v.size(), 0);
        for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) note(x, y);
    }
    void note(unsigned x, unsigned y)
    {
        size_t i = (size_t)y * d.w + x;
        if (d.free(x, y)) free_seen[i] = 1;
        if (!d.occ(x, y)) notocc_seen[i] = 1;
    }
    void edit(int x, int y, uint8_t val)      // by the environment
    {
        if (!d.in(x, y)) return;
        sim::Env e;
        d.v[(size_t)y * d.w + x] = val;
        B::setValue(x, y, val);
        note(x, y);
    }
    struct Access {
        const SimMap& m;
        Access(const SimMap& m_, unsigned x, unsigned y, int kind) : m(m_)
        {
            if (m.depth == 0) {            // the simulation may switch tasks in here
                sim::Env e;
                if (kind == sim::READ) ++m.reads; else ++m.writes;
                if (m.strict && !m.d.in((int)x, (int)y))
                    sim::fail("map-out-of-bounds", "map of %ux%u accessed (%s) at (%d,%d)", m.d.w, m.d.h,
                              sim::kind_name(kind), (int)x, (int)y);
                sim::yield(kind);
            }
            m.depth++;
        }
        ~Access() { m.depth--; }
    };
    bool outside(unsigned x, unsigned y) const { return !d.in((int)x, (int)y); }
    uint8_t getValue(const unsigned int x, const unsigned int y) const
    {
        if (depth > 0 && !outside(x, y)) return B::getValue(x, y);
        Access a(*this, x, y, sim::READ);
        return outside(x, y) ? 255 : B::getValue(x, y);
    }
    void setValue(const unsigned int x, const unsigned int y, const uint8_t val)
    {
        Access a(*this, x, y, sim::WRITE);
        if (outside(x, y)) return;
        B::setValue(x, y, val);
        d.v[(size_t)y * d.w + x] = val;
        note(x, y);
    }



    bool isFree(const unsigned int x, const unsigned int y) const { Access a(*this, x, y, sim::READ); return B::isFree(x, y); }
    bool isOccupied(const unsigned int x, const unsigned int y) const { Access a(*this, x, y, sim::READ); return B::isOccupied(x, y); }
    bool isNoInformation(const unsigned int x, const unsigned int y) const { Access a(*this, x, y, sim::READ); return B::isNoInformation(x, y); }
    bool isFree(const unsigned int x, const unsigned int y, double t) const { Access a(*this, x, y, sim::READ); return lib_path::GridMap2d::isFree(x, y, t); }
    bool isOccupied(const unsigned int x, const unsigned int y, double t) const { Access a(*this, x, y, sim::READ); return lib_path::GridMap2d::isOccupied(x, y, t); }
    bool isNoInformation(const unsigned int x, const unsigned int y, double t) const { Access a(*this, x, y, sim::READ); return lib_path::GridMap2d::isNoInformation(x, y, t); }
};

// ------------------------------------------------------------------ reference search
// distances (in cells) from the start by the neighbourhood's steps over free cells;
// the start cell itself needs only not to be occupied
struct RefDist {
    std::vector<double> g;
    unsigned w;
    double at(int x, int y) const { return g[(size_t)y * w + x]; }
    bool reach(int x, int y) const { return at(x, y) < std::numeric_limits<double>::infinity(); }
};
inline RefDist ref_dijkstra(const MapData& m, int sx, int sy, int n, int dist)
{
    RefDist r;
    r.w = m.w;
    r.g.assign(m.v.size(), std::numeric_limits<double>::infinity());
    if (!m.in(sx, sy) || m.occ(sx, sy)) return r;
    typedef std::pair<double, std::pair<int, int> > E;
    std::priority_queue<E, std::vector<E>, std::greater<E> > q;
    r.g[(size_t)sy * m.w + sx] = 0;
    q.push(E(0, std::make_pair(sx, sy)));
    while (!q.empty()) {
        E e = q.top(); q.pop();
        int x = e.second.first, y = e.second.second;
        if (e.first > r.at(x, y)) continue;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
            if (!dx && !dy) continue;
            if (n == 4 && dx && dy) continue;
            int nx = x + dx * dist, ny = y + dy * dist;
            if (!m.free(nx, ny)) continue;
            double c = e.first + (dx && dy ? std::sqrt(2.0) : 1.0) * dist;
            if (c + 1e-12 < r.at(nx, ny)) { r.g[(size_t)ny * m.w + nx] = c; q.push(E(c, std::make_pair(nx, ny))); }
        }
    }
    return r;
}
#endif
