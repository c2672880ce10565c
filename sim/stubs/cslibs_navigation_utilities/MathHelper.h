// Stand-in for the header of the (absent) package cslibs_navigation_utilities.
// Only what cslibs_path_planning uses is provided.
#ifndef VERIF_STUB_MATHHELPER_H
#define VERIF_STUB_MATHHELPER_H
#include <cmath>
#include <cstring>
#include <cstdint>
#include <set>
#include <utility>
#include <Eigen/Core>

struct MathHelper {
    static double AngleClamp(double angle)
    {
        double r = std::fmod(angle + M_PI, 2 * M_PI);
        if (r < 0) r += 2 * M_PI;
        return r - M_PI;
    }
    static double AngleDelta(double a, double b) { return AngleClamp(b - a); }
    static double Angle(const Eigen::Vector2d& v) { return std::atan2(v(1), v(0)); }
};
#endif
