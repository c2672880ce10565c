#ifndef VERIF_GRID_LIST_HPP
#define VERIF_GRID_LIST_HPP
#include "grid_impl.hpp"
using namespace lib_path;
typedef DirectNeighborhood<8, 1> N8;
typedef DirectNeighborhood<4, 1> N4;
typedef DirectNeighborhood<8, 2> N82;
struct R8 : public DirectNeighborhood<8, 1> { static constexpr bool reversed = true; };
#define MK(...) &make_planner<__VA_ARGS__ >
const std::vector<AlgoInfo>& grid_list()
{
    static const std::vector<AlgoInfo> A = {
        {0, "A* L2 8", 8, 1, L2, 0, 0, false, MK(AStar2dSearch<N8>)},
        {1, "A* L2 4", 4, 1, L2, 0, 0, false, MK(AStar2dSearch<N4>)},
        {2, "A* L1 4", 4, 1, L1, 0, 0, false, MK(AStar2dTaxiSearch<N4>)},
        {3, "A* Linf 8", 8, 1, LINF, 0, 0, false, MK(AStar2dInfSearch<N8>)},
        {4, "A* Linf 4", 4, 1, LINF, 0, 0, false, MK(AStar2dInfSearch<N4>)},
        {5, "A* L2 8 step 2", 8, 2, L2, 0, 0, false, MK(AStar2dSearch<N82>)},
        {6, "A* L1 8 (overestimates)", 8, 1, L1, 0, 0, false, MK(AStar2dTaxiSearch<N8>)},
        {7, "A* L2 8 callback 1", 8, 1, L2, 1, 0, false, MK(AStar2dSearch_Debug<1, 0, N8>)},
        {8, "A* L2 8 callback 3", 8, 1, L2, 3, 0, false, MK(AStar2dSearch_Debug<3, 0, N8>)},
        {9, "A* L2 4 callback 5 start 3", 4, 1, L2, 5, 3, false, MK(AStar2dSearch_Debug<5, 3, N4>)},
        {10, "A* L1 4 callback 7 start 12", 4, 1, L1, 7, 12, false, MK(AStar2dTaxiSearch_Debug<7, 12, N4>)},
        {11, "A* L2 8 callback 2 start 1", 8, 1, L2, 2, 1, false, MK(AStar2dSearch_Debug<2, 1, N8>)},
        {12, "A* Linf 8 callback 40 start 5", 8, 1, LINF, 40, 5, false, MK(AStar2dInfSearch_Debug<40, 5, N8>)},
        {13, "A* L2 8 callback 0 start 4", 8, 1, L2, 0, 4, false, MK(AStar2dSearch_Debug<0, 4, N8>)},
        {14, "A* L2 8 reversed", 8, 1, L2, 1, 0, true, MK(AStar2dSearch_Debug<1, 0, R8>)},
        {15, "Dijkstra 8", 8, 1, NONE, 0, 0, false, MK(DijkstraSearch<N8>)},
        {16, "Dijkstra 4", 4, 1, NONE, 0, 0, false, MK(DijkstraSearch<N4>)},
        {17, "Dijkstra 8 callback 4 start 2", 8, 1, NONE, 4, 2, false, MK(DijkstraSearch_Debug<4, 2, N8>)},
    };
    return A;
}
#endif
