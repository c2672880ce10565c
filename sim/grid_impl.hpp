// Templates behind grid.hpp; include once per translation unit that instantiates planners.
#ifndef VERIF_GRID_IMPL_HPP
#define VERIF_GRID_IMPL_HPP
#include "grid.hpp"
#include <set>
#include <cslibs_navigation_utilities/MathHelper.h>
#include <cslibs_path_planning/generic/Algorithms.hpp>

template <class NodeT> inline auto fwd_of(const NodeT& n, int) -> decltype((int)n.forward) { return (int)n.forward; }
template <class NodeT> inline int fwd_of(const NodeT&, long) { return 1; }
template <class NodeT> inline auto steer_of(const NodeT& n, int) -> decltype((int)n.steering_angle) { return (int)n.steering_angle; }
template <class NodeT> inline int steer_of(const NodeT&, long) { return 0; }

template <class PathT> inline PathV convert(const PathT& p)
{
    sim::Env e;
    PathV r;
    for (auto& n : p) {
        PathPt q; q.x = n.x; q.y = n.y; q.theta = n.theta; q.dist = n.distance;
        q.forward = fwd_of(n, 0); q.steer = steer_of(n, 0);
        r.push_back(q);
    }
    return r;
}

// Accepting means offering the node as a candidate, as goal tests of this library do.
template <class S> struct SimGoalTest {
    typedef typename S::NodeT NodeT;
    S* s;
    const Query* q;
    lib_path::Pose2d pose;
    SimGoalTest(S& s_, const Query& q_) : s(&s_), q(&q_), pose(q_.gx, q_.gy, q_.gth) {}
    bool terminate(const NodeT* n) const
    {
        bool ok;
        {
            sim::Env e;
            sim::yield(sim::GT);
            ok = q->accepts(n->x, n->y);
        }
        if (ok) s->addGoalCandidate(n, std::hypot(n->x - q->gx, n->y - q->gy));
        return ok && q->gtm == 0;
    }
    const lib_path::Pose2d* getHeuristicGoal() const { return q->hgoal ? &pose : NULL; }
};

template <class S> inline auto start_config(S& s, const Query& q, const lib_path::SearchOptions& so, int)
    -> decltype(std::declval<typename S::NodeT>().depth, typename S::PathT())
{
    typename S::NodeT n;
    S::NodeT::init(n, q.sx, q.sy, q.sth, q.sforward != 0);
    n.theta = q.sth;
    n.forward = q.sforward != 0;
    n.steering_angle = q.ssteer;
    SimGoalTest<S> gt(s, q);
    return s.findPathWithStartConfiguration(n, gt, so);
}
template <class S> inline typename S::PathT start_config(S& s, const Query& q, const lib_path::SearchOptions& so, long)
{
    lib_path::Pose2d from(q.sx, q.sy, q.sth);
    SimGoalTest<S> gt(s, q);
    return s.findPath(from, gt, so);
}

template <class S> struct PlannerT : public IPlanner {
    S s;
    void set_map(SimMap* m) { s.setMap(m); }
    void set_time_limit(double t) { s.setTimeLimit(t); }
    void set_cand(bool on)
    {
        typedef std::function<bool(const typename S::PathT&)> F;
        if (!on) { s.setPathCandidateCallback(F()); return; }
        s.setPathCandidateCallback(F([](const typename S::PathT& p) -> bool {
            sim::Env e;
            PathV v = convert(p);
            sim::yield(sim::CAND);
            if (g_hooks && g_hooks->stop) { g_hooks->stop = false; g_hooks->accepted = v; return true; }
            return false;
        }));
    }
    static void progress()
    {
        sim::Env e;
        sim::yield(sim::CB);
        if (g_hooks && g_hooks->on_cb) g_hooks->on_cb();
    }
    void run(const Query& q, QResult& r)
    {
        lib_path::SearchOptions so;
        so.oversearch_distance = q.over;
        so.penalty_turn = q.turn; so.penalty_backward = q.back;
        lib_path::Pose2d from(q.sx, q.sy, q.sth), to(q.gx, q.gy, q.gth);
        typename S::PathT p;
        switch (q.kind) {
        default:
        case 0: p = s.findPath(from, to, so); break;
        case 1: p = s.findPath(from, to, boost::function<void()>(&PlannerT::progress), so); break;
        case 2: { SimGoalTest<S> gt(s, q); p = s.findPath(from, gt, so); break; }
        case 3: { SimGoalTest<S> gt(s, q); p = s.findPath(from, gt, boost::function<void()>(&PlannerT::progress), so); break; }
        case 4: p = start_config(s, q, so, 0); break;
        }
        r.path = convert(p);
    }
    int expansions() { return s.getExpansions(); }
    int multi() { return s.getMultiExpansions(); }
    void candidates(std::vector<PathV>& out)
    {
        auto c = s.getPathCandidates();
        sim::Env e;
        for (auto& p : c) out.push_back(convert(p));
    }
};
template <class S> IPlanner* make_planner() { return new PlannerT<S>(); }
#endif
