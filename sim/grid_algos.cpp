#include "grid_list.hpp"
const std::vector<AlgoInfo>& algos() { return grid_list(); }
