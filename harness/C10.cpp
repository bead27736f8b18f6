// C10: angle normalisation lands in its documented half-open range (IEEE-754 double precision, every finite input)
#include "vp.h"
#include <cmath>
#include "MathUtils/Angles.h"
using namespace mathutils;
static const double MAXD = 1.7976931348623157e308;
static double angle() { return vp_sym("angle", -MAXD, MAXD); }
VP_IEEE_CASE(deg_0_360) { double r = Normalize_0_360(angle()); vp_assert(r >= 0, "0_360-low"); vp_assert(r < 360, "0_360-high"); }
VP_IEEE_CASE(deg_180_180) { double r = Normalize__180_180(angle()); vp_assert(r > -180, "180_180-low"); vp_assert(r <= 180, "180_180-high"); }
VP_IEEE_CASE(rad_0_2pi) { double r = Normalize_0_2PI(angle()); vp_assert(r >= 0, "0_2pi-low"); vp_assert(r < MU_2PI, "0_2pi-high"); }
VP_IEEE_CASE(rad_pi_pi) { double r = Normalize__PI_PI(angle()); vp_assert(r > -M_PI, "pi_pi-low"); vp_assert(r <= M_PI, "pi_pi-high"); }
// the boundaries themselves
VP_IEEE_CASE(boundaries) {
  int k = (int)vp_pick("turns", -4, 4);
  vp_assert(Normalize_0_360(360. * k) == 0, "0_360-boundary"); vp_assert(Normalize__180_180(360. * k + 180) == 180, "180_180-boundary"); vp_assert(Normalize__180_180(360. * k - 180) == 180, "180_180-boundary"); vp_assert(Normalize_0_2PI(MU_2PI * k) == 0, "0_2pi-boundary");
}
