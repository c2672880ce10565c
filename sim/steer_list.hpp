#ifndef VERIF_STEER_LIST_HPP
#define VERIF_STEER_LIST_HPP
// Car-like planners for h_steer (AlgoInfo::n is the kind of neighbourhood, dist 1: with analytic expansion)
#include "grid_impl.hpp"
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include "steer.hpp"
using namespace lib_path;
typedef DynamicSteeringNeighborhood D;
typedef SteeringNeighborhood<40, 2, 15, 60, 120> S;
typedef SteeringNeighborhood<40, 2, 15, 60, 120, SteeringMoves::FORWARD_BACKWARD, true> SR;
typedef SteeringNeighborhood<30, 1, 20, 40, 100, SteeringMoves::FORWARD> SF;
typedef ReedsSheppExpansion<10, true, false> RS;
typedef ReedsSheppExpansion<3, true, true> RS3;
#define MK(...) &make_planner<__VA_ARGS__ >
const std::vector<AlgoInfo>& steer_list()
{
    static const std::vector<AlgoInfo> A = {
        {0, "car, settings at run time", DYN, 0, L2, 0, 0, false, MK(AStarDynamicSearch<D>)},
        {1, "car, settings at run time, hybrid heuristic, callback 3", DYN, 0, L2, 3, 1, false, MK(AStarDynamicHybridHeuristicsSearch_Debug<3, 1, D>)},
        {2, "car", FIX, 0, L2, 0, 0, false, MK(AStarDynamicSearch<S>)},
        {3, "car, from goal to start", FIX, 0, L2, 0, 0, true, MK(AStarDynamicSearch<SR>)},
        {4, "car, forward only, hybrid heuristic", FIX, 0, L2, 0, 0, false, MK(AStarDynamicHybridHeuristicsSearch<SF>)},
        {5, "car with curves, settings at run time", DYN, 1, L2, 0, 0, false, MK(AStarDynamicSearch<D, RS>)},
        {6, "car with curves", FIX, 1, L2, 0, 0, false, MK(AStarDynamicSearch<S, RS3>)},
        {7, "car with curves, hybrid heuristic, callback 2", FIX, 1, L2, 2, 0, false, MK(AStarDynamicHybridHeuristicsSearch_Debug<2, 0, S, RS>)},
    };
    return A;
}
Car car_of(const AlgoInfo& ai)
{
    Car c;
    if (ai.n == DYN) {
        c.step = D::distance_step; c.la = D::LA; c.max_steer = D::MAX_STEER_ANGLE; c.fw = D::allow_forward; c.bw = D::allow_backward;
        c.reversed = D::reversed; c.goal_dist = D::goal_dist_threshold; c.goal_angle = D::goal_angle_threshold; c.start_back = !D::reversed;
    } else if (ai.id == 4) {
        c.step = 0.3; c.la = 1.0; c.max_steer = 40; c.fw = true; c.bw = false; c.reversed = false; c.goal_dist = 0.1; c.goal_angle = M_PI / 8; c.start_back = false;
    } else {
        c.step = 0.4; c.la = 1.2; c.max_steer = 60; c.fw = c.bw = true; c.reversed = ai.reversed; c.goal_dist = 0.1; c.goal_angle = M_PI / 8; c.start_back = false;
    }
    return c;
}
void set_car(const sim::Op* o)
{
    if (!o) return;
    D::distance_step = std::max<sim::i64>(5, o->num("step", 40)) / 100.0;
    D::reversed = o->num("rev") != 0;
    D::MAX_STEER_ANGLE = (int)o->num("msa", 60);
    D::STEER_DELTA = (double)o->num("sd", 15);
    D::steer_steps = (unsigned)std::max<sim::i64>(0, std::min<sim::i64>(4, o->num("steps", 2)));
    D::LA = std::max<sim::i64>(10, o->num("la", 120)) / 100.0;
    D::allow_forward = o->num("fw", 1) != 0;
    D::allow_backward = o->num("bw", 0) != 0;
    D::goal_dist_threshold = o->num("gdt", 5) / 100.0;
    D::goal_angle_threshold = o->num("gat", 22) / 180.0 * M_PI;
}
#endif
