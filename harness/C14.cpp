// C14: 2D frame projections are mutually inverse rotations
#include "vp.h"
#include <string>
#include <iostream>
#include "MathUtils/Vector2d.h"
using namespace mathutils;
typedef Vector2d<double> V;
static const double T = 1e-8;
static V vec() { return V(vp_sym("x", -100, 100), vp_sym("y", -100, 100)); }
static double ang(int deg) { return deg ? vp_sym("deg", -400, 400) : vp_sym("rad", -7, 7); }
static ANGLE_UNIT unit(int deg) { return deg ? DEG : RAD; }
static void cs(int deg, double a, double& c, double& s) { double r = deg ? a * M_PI / 180. : a; c = std::cos(r); s = std::sin(r); }
VP_CASES(to_ned, 2) { V v = vec(); const V v0 = v; double a = ang(vp_k), c, s; cs(vp_k, a, c, s); double n = c * v0[0] - s * v0[1], e = s * v0[0] + c * v0[1];
  V o(3, 4); v.ProjectLocalOnNED(o, a, unit(vp_k)); vp_near(o[0], n, T, "ned-out"); vp_near(o[1], e, T, "ned-out"); vp_near(v[0], v0[0], 0, "ned-source"); vp_near(v[1], v0[1], 0, "ned-source");
  V f = ProjectLocalOnNED(v, a, unit(vp_k)); vp_near(f[0], n, T, "ned-free"); vp_near(f[1], e, T, "ned-free"); vp_near(v[0], v0[0], 0, "ned-source"); vp_near(v[1], v0[1], 0, "ned-source");
  vp_near(v.ProjectOnNorthAxis(a, unit(vp_k)), n, T, "north"); vp_near(v.ProjectOnEastAxis(a, unit(vp_k)), e, T, "east"); vp_near(ProjectOnNorthAxis(v, a, unit(vp_k)), n, T, "north-free"); vp_near(ProjectOnEastAxis(v, a, unit(vp_k)), e, T, "east-free");
  vp_near(f[0] * f[0] + f[1] * f[1], v0[0] * v0[0] + v0[1] * v0[1], 1e-6, "ned-norm");
  V i = v; i.ProjectLocalOnNED(a, unit(vp_k)); vp_near(i[0], n, T, "ned-inplace"); vp_near(i[1], e, T, "ned-inplace");
  V t; t.SetNEDFromLocal(v0[0], v0[1], a, unit(vp_k)); vp_near(t[0], n, T, "ned-setter"); vp_near(t[1], e, T, "ned-setter");
  v.ProjectLocalOnNED(v, a, unit(vp_k)); vp_near(v[0], n, T, "ned-alias"); vp_near(v[1], e, T, "ned-alias"); }
VP_CASES(to_local, 2) { V v = vec(); const V v0 = v; double a = ang(vp_k), c, s; cs(vp_k, a, c, s); double x = c * v0[0] + s * v0[1], y = -s * v0[0] + c * v0[1];
  V o(3, 4); v.ProjectNEDOnLocal(o, a, unit(vp_k)); vp_near(o[0], x, T, "local-out"); vp_near(o[1], y, T, "local-out"); vp_near(v[0], v0[0], 0, "local-source"); vp_near(v[1], v0[1], 0, "local-source");
  V f = ProjectNEDOnLocal(v, a, unit(vp_k)); vp_near(f[0], x, T, "local-free"); vp_near(f[1], y, T, "local-free");
  vp_near(v.ProjectOnLocalXAxis(a, unit(vp_k)), x, T, "local-x"); vp_near(v.ProjectOnLocalYAxis(a, unit(vp_k)), y, T, "local-y"); vp_near(ProjectOnLocalXAxis(v, a, unit(vp_k)), x, T, "local-x-free"); vp_near(ProjectOnLocalYAxis(v, a, unit(vp_k)), y, T, "local-y-free");
  vp_near(f[0] * f[0] + f[1] * f[1], v0[0] * v0[0] + v0[1] * v0[1], 1e-6, "local-norm");
  V i = v; i.ProjectNEDOnLocal(a, unit(vp_k)); vp_near(i[0], x, T, "local-inplace"); vp_near(i[1], y, T, "local-inplace"); }
VP_CASES(inverse, 2) { V v = vec(); double a = ang(vp_k); V p = ProjectNEDOnLocal(ProjectLocalOnNED(v, a, unit(vp_k)), a, unit(vp_k)), q = ProjectLocalOnNED(ProjectNEDOnLocal(v, a, unit(vp_k)), a, unit(vp_k));
  for (int i = 0; i < 2; i++) { vp_near(p[i], v[i], 1e-7, "there-and-back"); vp_near(q[i], v[i], 1e-7, "back-and-there"); } V w = v; w.ProjectLocalOnNED(a, unit(vp_k)); w.ProjectNEDOnLocal(a, unit(vp_k)); for (int i = 0; i < 2; i++) vp_near(w[i], v[i], 1e-7, "inplace-and-back"); }
VP_CASE(default_unit) { V v = vec(); double a = vp_sym("rad", -7, 7), c = std::cos(a), s = std::sin(a); V f = ProjectLocalOnNED(v, a), g = ProjectNEDOnLocal(v, a); vp_near(f[0], c * v[0] - s * v[1], T, "default-ned"); vp_near(g[0], c * v[0] + s * v[1], T, "default-local"); vp_near(v.ProjectOnNorthAxis(a), f[0], T, "default-north"); vp_near(v.ProjectOnEastAxis(a), f[1], T, "default-east"); vp_near(v.ProjectOnLocalXAxis(a), g[0], T, "default-x"); vp_near(v.ProjectOnLocalYAxis(a), g[1], T, "default-y"); V t; t.SetNEDFromLocal(v[0], v[1], a); vp_near(t[1], f[1], T, "default-setter"); }
static double ms(int u) { return u == MS ? 1. : u == KNOT ? 1852. / 3600. : 1000. / 3600.; }
VP_CASES(velocity, 18) { int deg = vp_k / 9, a = vp_k / 3 % 3, b = vp_k % 3; V v = vec(); double an = ang(deg), c, s; cs(deg, an, c, s); double k = ms(a) / ms(b); V r = GetNEDVelocityVector(v[0], v[1], an, unit(deg), (SPEED_UNIT)a, (SPEED_UNIT)b); vp_near(r[0], k * (c * v[0] - s * v[1]), T, "velocity-north"); vp_near(r[1], k * (s * v[0] + c * v[1]), T, "velocity-east"); }
VP_CASE(velocity_default) { V v = vec(); double a = vp_sym("rad", -7, 7); V r = GetNEDVelocityVector(v[0], v[1], a); vp_near(r[0], ms(KNOT) * (std::cos(a) * v[0] - std::sin(a) * v[1]), T, "velocity-default"); vp_near(r[1], ms(KNOT) * (std::sin(a) * v[0] + std::cos(a) * v[1]), T, "velocity-default"); }
static const double SC[4] = {1e-9, 1e-3, 1e5, 1e10};
VP_CASES(scales, 8) { double k = SC[vp_k % 4]; int deg = vp_k / 4; double x = vp_sym("x", -1, 1), y = vp_sym("y", -1, 1), a = ang(deg), c, s; cs(deg, a, c, s); V v(k * x, k * y), f = ProjectLocalOnNED(v, a, unit(deg)), g = ProjectNEDOnLocal(v, a, unit(deg)); vp_near(f[0] / k, c * x - s * y, T, "scaled-north"); vp_near(f[1] / k, s * x + c * y, T, "scaled-east"); vp_near(g[0] / k, c * x + s * y, T, "scaled-x"); vp_near(g[1] / k, -s * x + c * y, T, "scaled-y"); vp_near(v.ProjectOnNorthAxis(a, unit(deg)) / k, c * x - s * y, T, "scaled-north-axis"); vp_near(v.ProjectOnEastAxis(a, unit(deg)) / k, s * x + c * y, T, "scaled-east-axis"); vp_near(v.ProjectOnLocalXAxis(a, unit(deg)) / k, c * x + s * y, T, "scaled-x-axis"); vp_near(v.ProjectOnLocalYAxis(a, unit(deg)) / k, -s * x + c * y, T, "scaled-y-axis"); }
VP_CASES(alias, 2) { V v = vec(); const V v0 = v; double a = ang(vp_k), c, s; cs(vp_k, a, c, s); v.ProjectNEDOnLocal(v, a, unit(vp_k)); vp_near(v[0], c * v0[0] + s * v0[1], T, "local-alias"); vp_near(v[1], -s * v0[0] + c * v0[1], T, "local-alias"); v.SetNEDFromLocal(v[0], v[1], a, unit(vp_k)); vp_near(v[0], v0[0], 1e-7, "setter-alias"); vp_near(v[1], v0[1], 1e-7, "setter-alias"); }
// exact quadrants of a large number of turns, angles given in degrees
VP_CASE(quadrants) { V v = vec(); int k = (int)vp_pick("k", -6, 6), t = (int)vp_pick("t", -1, 1); double a = 90. * k + 3600. * t; static const int C[4] = {1, 0, -1, 0}, S[4] = {0, 1, 0, -1}; int m = ((k % 4) + 4) % 4; V f = ProjectLocalOnNED(v, a, DEG); vp_near(f[0], C[m] * v[0] - S[m] * v[1], 1e-7, "quadrant"); vp_near(f[1], S[m] * v[0] + C[m] * v[1], 1e-7, "quadrant"); V g = ProjectNEDOnLocal(v, a, DEG); vp_near(g[0], C[m] * v[0] + S[m] * v[1], 1e-7, "quadrant-back"); vp_near(g[1], -S[m] * v[0] + C[m] * v[1], 1e-7, "quadrant-back"); }
// null and axis vectors, repeated projections
VP_CASES(repeated, 2) { V v = vec(); double a = ang(vp_k), c, s; cs(vp_k, a, c, s); V w = v; double x = v[0], y = v[1]; for (int i = 0; i < 3; i++) { w.ProjectLocalOnNED(a, unit(vp_k)); double n = c * x - s * y; y = s * x + c * y; x = n; } vp_near(w[0], x, 1e-6, "repeated"); vp_near(w[1], y, 1e-6, "repeated"); }
VP_CASE(float_version) { typedef Vector2d<float> W; W v((float)vp_sym("x", -100, 100), (float)vp_sym("y", -100, 100)); W f = ProjectLocalOnNED(v, 90.f, DEG); vp_near(f[0], -v[1], 1e-3, "float-north"); vp_near(f[1], v[0], 1e-3, "float-east"); W g = ProjectNEDOnLocal(v, 90.f, DEG); vp_near(g[0], v[1], 1e-3, "float-x"); vp_near(g[1], -v[0], 1e-3, "float-y"); }
