// C15: velocity transport follows the rigid-body formula
#include "vp.h"
#include <string>
#include <iostream>
#include "MathUtils/Vector2d.h"
using namespace mathutils;
typedef Vector2d<double> V;
static const double T = 1e-6;
static const FREQUENCY_UNIT U[6] = {HERTZ, RADS, DEGS, DEGM, mathutils::S, RPM};
static double rads(double w, FREQUENCY_UNIT u) { return u == HERTZ ? w * 2 * M_PI : u == RADS ? w : u == DEGS ? w * M_PI / 180 : u == DEGM ? w * M_PI / 10800 : u == RPM ? w * M_PI / 30 : 2 * M_PI / w; }
VP_CASES(transport, 12) { FREQUENCY_UNIT u = U[vp_k % 6]; V v(vp_sym("vx", -100, 100), vp_sym("vy", -100, 100)), p(vp_sym("px", -100, 100), vp_sym("py", -100, 100)); const V v0 = v, p0 = p; double w = vp_sym("w", 0.05, 20); if (vp_k / 6) w = -w; double r = rads(w, u), ex = v0[0] - r * p0[1], ey = v0[1] + r * p0[0];
  V o(5, 6); v.TransportAtPoint(o, p, w, u); vp_near(o[0], ex, T, "out"); vp_near(o[1], ey, T, "out"); for (int i = 0; i < 2; i++) { vp_near(v[i], v0[i], 0, "source"); vp_near(p[i], p0[i], 0, "point"); }
  V f = TransportAtPoint(v, p, w, u); vp_near(f[0], ex, T, "free"); vp_near(f[1], ey, T, "free"); for (int i = 0; i < 2; i++) { vp_near(v[i], v0[i], 0, "source"); vp_near(p[i], p0[i], 0, "point"); }
  V q(-p[0], -p[1]); V b = TransportAtPoint(f, q, w, u); vp_near(b[0], v0[0], T, "back"); vp_near(b[1], v0[1], T, "back");
  v.TransportAtPoint(p, w, u); vp_near(v[0], ex, T, "inplace"); vp_near(v[1], ey, T, "inplace"); for (int i = 0; i < 2; i++) vp_near(p[i], p0[i], 0, "point"); }
VP_CASE(default_unit) { V v(vp_sym("vx", -100, 100), vp_sym("vy", -100, 100)), p(vp_sym("px", -100, 100), vp_sym("py", -100, 100)); double w = vp_sym("w", -20, 20); V f = TransportAtPoint(v, p, w), o; v.TransportAtPoint(o, p, w); vp_near(f[0], v[0] - w * p[1], T, "default"); vp_near(f[1], v[1] + w * p[0], T, "default"); vp_near(o[0], f[0], T, "default"); vp_near(o[1], f[1], T, "default"); }
static const double SC[4] = {1e-6, 1e-2, 1e4, 1e8};
VP_CASES(scales, 12) { double k = SC[vp_k % 4]; int kind = vp_k / 4; double sv = kind == 0 ? k : 1, sp = kind == 1 ? k : kind == 0 ? k : 1, sw = kind == 1 ? 1 / k : kind == 2 ? k : 1; double vx = vp_sym("vx", -1, 1), vy = vp_sym("vy", -1, 1), px = vp_sym("px", -1, 1), py = vp_sym("py", -1, 1), w = vp_sym("w", -1, 1); if (kind == 2) { sp = 1 / k; } V f = TransportAtPoint(V(sv * vx, sv * vy), V(sp * px, sp * py), sw * w, RADS); double u = kind == 0 ? k : 1; vp_near(f[0] / u, vx - w * py, T, "scaled-x"); vp_near(f[1] / u, vy + w * px, T, "scaled-y"); }
VP_CASES(null_rate, 5) { static const FREQUENCY_UNIT F[5] = {HERTZ, RADS, DEGS, DEGM, RPM}; V v(vp_sym("vx", -100, 100), vp_sym("vy", -100, 100)), p(vp_sym("px", -100, 100), vp_sym("py", -100, 100)); V f = TransportAtPoint(v, p, 0., F[vp_k]); for (int i = 0; i < 2; i++) vp_near(f[i], v[i], 0, "null-rate"); V z; V g = TransportAtPoint(v, z, 3., F[vp_k]); for (int i = 0; i < 2; i++) vp_near(g[i], v[i], 0, "null-offset"); }
// a chain of transports is the transport to the sum of the offsets; slow and fast rates
VP_CASES(chain, 12) { FREQUENCY_UNIT u = U[vp_k % 6]; V v(vp_sym("vx", -10, 10), vp_sym("vy", -10, 10)), p(vp_sym("px", -10, 10), vp_sym("py", -10, 10)), q(vp_sym("qx", -10, 10), vp_sym("qy", -10, 10)); double w = vp_k / 6 ? vp_sym("w", 1e-5, 1e-2) : vp_sym("w", 50, 5000); V a = v; a.TransportAtPoint(p, w, u); a.TransportAtPoint(q, w, u); V s(p[0] + q[0], p[1] + q[1]); V b = TransportAtPoint(v, s, w, u); double r = rads(w, u), m = r > 1 ? r : 1; for (int i = 0; i < 2; i++) vp_near(a[i] / m, b[i] / m, T, "chain"); vp_near(b[0] / m, (v[0] - r * s[1]) / m, T, "chain-x"); vp_near(b[1] / m, (v[1] + r * s[0]) / m, T, "chain-y"); }
VP_CASE(same_output) { V v(vp_sym("vx", -100, 100), vp_sym("vy", -100, 100)), p(vp_sym("px", -100, 100), vp_sym("py", -100, 100)); const V v0 = v; double w = vp_sym("w", -20, 20); v.TransportAtPoint(v, p, w); vp_near(v[0], v0[0] - w * p[1], T, "same-output"); vp_near(v[1], v0[1] + w * p[0], T, "same-output"); }
