#include "steer_list.hpp"
const std::vector<AlgoInfo>& algos() { return steer_list(); }
