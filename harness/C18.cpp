// C18: Euler extraction is defined for every normalised quaternion (IEEE doubles)
#include "vp.h"
#include "MathUtils/Geometry.h"
using namespace mathutils;
static void check(const Eigen::Quaterniond& q) { auto e = quaternionToEulerAnglesZYX(q); vp_assert(e(1) == e(1), "pitch-defined"); vp_assert(e(1) <= M_PI / 2, "pitch-upper"); vp_assert(e(1) >= -M_PI / 2, "pitch-lower"); vp_assert(e(0) >= -M_PI, "roll-defined"); vp_assert(e(0) <= M_PI, "roll-defined"); vp_assert(e(2) >= -M_PI, "yaw-defined"); vp_assert(e(2) <= M_PI, "yaw-defined"); }
static void unit(double n) { vp_assume(n <= 1 + 1e-12); vp_assume(n >= 1 - 1e-12); }
// exact gimbal lock with no roll or yaw: (a,0,+-a,0) and the dual family (0,a,0,+-a), both signs
VP_IEEE_CASES(gimbal, 4) { double a = vp_sym("a", -0.8, 0.8), b = vp_k % 2 ? -a : a; unit(2 * (a * a)); check(vp_k / 2 ? Eigen::Quaterniond(0, a, 0, b) : Eigen::Quaterniond(a, 0, b, 0)); }
// near gimbal lock, two free components
VP_IEEE_CASES(near, 2) { double a = vp_sym("a", -0.8, 0.8), b = vp_sym("b", -0.8, 0.8); unit(a * a + b * b); check(vp_k ? Eigen::Quaterniond(0, a, 0, b) : Eigen::Quaterniond(a, 0, b, 0)); }
