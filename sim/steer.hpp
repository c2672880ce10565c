#ifndef VERIF_STEER_HPP
#define VERIF_STEER_HPP
#include "hist.hpp"
enum { DYN = 100, FIX = 101 };
struct Car {
    double step, la;           // metres
    int max_steer;             // degrees
    bool fw, bw, reversed, start_back;
    double goal_dist, goal_angle;
};
Car car_of(const AlgoInfo& ai);
void set_car(const sim::Op* o);
#endif
