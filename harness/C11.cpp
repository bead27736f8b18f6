// C11: angle normalisation preserves the direction and fixes normalised angles
#include "vp.h"
#include <cmath>
#include "MathUtils/Angles.h"
using namespace mathutils;
static const int TURNS = VP_THOROUGH ? 12 : 4;
// a = k turns + rest; the difference must be a whole number of turns: decided for each number of turns the path admits
static void congruent(double a, double r, double turn, double tol, const char* id) {
  double q = (a - r) / turn; double k = std::floor(q + 0.5); vp_near(k * turn, a - r, tol, id);
}
VP_CASE(deg_0_360) { double a = vp_sym("a", -360. * TURNS, 360. * TURNS), r = Normalize_0_360(a); congruent(a, r, 360, 1e-9, "0_360-turns"); vp_assert(r >= -1e-9, "0_360-range"); vp_assert(r <= 360 + 1e-9, "0_360-range"); if (a >= 0 && a < 360) vp_near(r, a, 1e-9, "0_360-fixed"); }
VP_CASE(deg_180_180) { double a = vp_sym("a", -360. * TURNS, 360. * TURNS), r = Normalize__180_180(a); congruent(a, r, 360, 1e-9, "180_180-turns"); vp_assert(r >= -180 - 1e-9, "180_180-range"); vp_assert(r <= 180 + 1e-9, "180_180-range"); if (a > -180 && a <= 180) vp_near(r, a, 1e-9, "180_180-fixed"); }
VP_CASE(rad_0_2pi) { double a = vp_sym("a", -MU_2PI * TURNS, MU_2PI * TURNS), r = Normalize_0_2PI(a); congruent(a, r, MU_2PI, 1e-9, "0_2pi-turns"); vp_assert(r >= -1e-9, "0_2pi-range"); vp_assert(r <= MU_2PI + 1e-9, "0_2pi-range"); if (a >= 0 && a < MU_2PI) vp_near(r, a, 1e-9, "0_2pi-fixed"); }
VP_CASE(rad_pi_pi) { double a = vp_sym("a", -MU_2PI * TURNS, MU_2PI * TURNS), r = Normalize__PI_PI(a); congruent(a, r, MU_2PI, 1e-9, "pi_pi-turns"); vp_assert(r >= -M_PI - 1e-9, "pi_pi-range"); vp_assert(r <= M_PI + 1e-9, "pi_pi-range"); if (a > -M_PI && a <= M_PI) vp_near(r, a, 1e-9, "pi_pi-fixed"); }
VP_CASE(modulo_deg) { double a = vp_sym("a", -360. * TURNS, 360. * TURNS), r = modulo360(a); congruent(a, r, 360, 1e-9, "modulo360-turns"); vp_assert(std::fabs(r) <= 360 + 1e-9, "modulo360-size"); if (a >= 0) vp_assert(r >= -1e-9, "modulo360-sign"); else vp_assert(r <= 1e-9, "modulo360-sign"); if (std::fabs(a) < 360) vp_near(r, a, 1e-9, "modulo360-fixed"); }
VP_CASE(modulo_rad) { double a = vp_sym("a", -MU_2PI * TURNS, MU_2PI * TURNS), r = modulo2pi(a); congruent(a, r, MU_2PI, 1e-9, "modulo2pi-turns"); vp_assert(std::fabs(r) <= MU_2PI + 1e-9, "modulo2pi-size"); if (a >= 0) vp_assert(r >= -1e-9, "modulo2pi-sign"); else vp_assert(r <= 1e-9, "modulo2pi-sign"); if (std::fabs(a) < MU_2PI) vp_near(r, a, 1e-9, "modulo2pi-fixed"); }
// far from zero: a base of up to 2^34 turns plus an offset of up to two turns; the tolerance allows for the rounding of the angle itself
static const double FARB[5] = {1000, 1048576, 16777216, 5e8, 17179869184.};
#define FAR(name, f, turn) VP_CASES(far_##name, 10) { double B = FARB[vp_k / 2] * (vp_k % 2 ? -turn : turn), t = vp_sym("t", -2 * turn, 2 * turn), a = B + t, r = f(a), tol = 1e-9 + 2e-15 * FARB[vp_k / 2] * turn; double q = (t - r) / turn, k = std::floor(q + 0.5); vp_near(k * turn, t - r, tol, "far-turns"); far_range(r, #name, tol); }
static void far_range(double r, const char* n, double tol) { double lo = n[0] == 'm' ? (n[1] == 'd' ? -360 : -MU_2PI) : n[1] == 'd' ? (n[0] == 'z' ? 0 : -180) : n[0] == 'z' ? 0 : -M_PI; double hi = n[0] == 'c' ? -lo : n[1] == 'd' ? 360 : MU_2PI; vp_assert(r >= lo - tol, "far-low"); vp_assert(r <= hi + tol, "far-high"); }
FAR(zd, Normalize_0_360, 360) FAR(cd, Normalize__180_180, 360) FAR(zr, Normalize_0_2PI, MU_2PI) FAR(cr, Normalize__PI_PI, MU_2PI) FAR(md, modulo360, 360) FAR(mr, modulo2pi, MU_2PI)
// degree and radian versions agree (away from the jump of the normalisation, where rounding may pick either end)
static bool away(double x, double jump, double turn) { double q = (x - jump) / turn; double f = q - std::floor(q); return f > 1e-9 && f < 1 - 1e-9; }
VP_CASE(agree_0) { double d = vp_sym("a", -720, 720); vp_assume(away(d, 0, 360)); vp_near(Normalize_0_360(d) * MU_PI_180, Normalize_0_2PI(d * MU_PI_180), 1e-6, "agree-0"); }
VP_CASE(agree_pi) { double d = vp_sym("a", -720, 720); vp_assume(away(d, 180, 360)); vp_near(Normalize__180_180(d) * MU_PI_180, Normalize__PI_PI(d * MU_PI_180), 1e-6, "agree-pi"); }
// trigonometric values with units
VP_CASE(trigo) { double a = vp_sym("a", -7, 7), c, s, c2, s2; _GetTrigo(a, c, s, RAD); vp_near(c, std::cos(a), 1e-9, "trigo-cos"); vp_near(s, std::sin(a), 1e-9, "trigo-sin"); double d = vp_sym("d", -400, 400); _GetTrigo(d, c2, s2, DEG); vp_near(c2, std::cos(d * M_PI / 180), 1e-9, "trigo-cos-deg"); vp_near(s2, std::sin(d * M_PI / 180), 1e-9, "trigo-sin-deg"); }
// exact idempotence in double precision: an angle already in range is returned bit for bit
VP_IEEE_CASE(fixed_0_360) { double a = vp_sym("a", 0, 360); vp_assume(a < 360); vp_assert(Normalize_0_360(a) == a, "0_360-exact"); }
VP_IEEE_CASE(fixed_0_2pi) { double a = vp_sym("a", 0, 7); vp_assume(a < MU_2PI); vp_assert(Normalize_0_2PI(a) == a, "0_2pi-exact"); }
// normalising twice changes nothing more, any angle of the range
#define TWICE(name, f, turn) VP_CASE(twice_##name) { double a = vp_sym("a", -2 * turn, 2 * turn), r = f(a), q = f(r); double d = q - r; if (d < 0) d = -d; vp_assert(d <= 1e-9 || (d >= turn - 1e-9 && d <= turn + 1e-9), "twice"); }
TWICE(zd, Normalize_0_360, 360.) TWICE(cd, Normalize__180_180, 360.) TWICE(zr, Normalize_0_2PI, MU_2PI) TWICE(cr, Normalize__PI_PI, MU_2PI)
VP_CASES(float_version, 4) { double t = vp_k < 2 ? 360. : MU_2PI; float a = (float)vp_sym("a", -3 * t, 3 * t); double r = vp_k == 0 ? Normalize_0_360(a) : vp_k == 1 ? Normalize__180_180(a) : vp_k == 2 ? Normalize_0_2PI(a) : Normalize__PI_PI(a); double q = (a - r) / t, k = std::floor(q + 0.5); vp_near(k * t, a - r, 1e-2, "float-turns"); double lo = vp_k % 2 ? -t / 2 : 0; vp_assert(r >= lo - 1e-2, "float-range"); vp_assert(r <= lo + t + 1e-2, "float-range"); }
VP_CASE(trigo_float) { float c, s; _GetTrigo(60.f, c, s, DEG); vp_near(c, 0.5, 1e-6, "trigo-float"); vp_near(s, std::sqrt(0.75), 1e-6, "trigo-float"); }
VP_CASE(trigo_default) { double a = vp_sym("a", -7, 7), c, s; _GetTrigo(a, c, s); vp_near(c, std::cos(a), 1e-9, "trigo-default"); vp_near(s, std::sin(a), 1e-9, "trigo-default"); }
// quadrant angles: the values are exact up to rounding
VP_CASE(trigo_quadrants) { int k = (int)vp_pick("k", -8, 8); double c, s; static const double C[4] = {1, 0, -1, 0}, S[4] = {0, 1, 0, -1}; int m = ((k % 4) + 4) % 4; _GetTrigo(90. * k, c, s, DEG); vp_near(c, C[m], 1e-9, "quadrant-deg"); vp_near(s, S[m], 1e-9, "quadrant-deg"); _GetTrigo(k * M_PI / 2, c, s, RAD); vp_near(c, C[m], 1e-9, "quadrant-rad"); vp_near(s, S[m], 1e-9, "quadrant-rad"); }
