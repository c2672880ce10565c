#include "grid_list.hpp"
#include "steer_list.hpp"
// the grid planners, then the car-like ones
const std::vector<AlgoInfo>& algos()
{
    static const std::vector<AlgoInfo> A = [] {
        std::vector<AlgoInfo> r = grid_list();
        for (AlgoInfo a : steer_list()) { a.id = (int)r.size(); r.push_back(a); }
        return r;
    }();
    return A;
}
