// C21: step, door, ramp, impulse and sinc samplers
#include "vp.h"
#include <vector>
#include <cmath>
#include <cassert>
#include "MathUtils/Functions.h"
#include "interp_common.h"
using namespace mathutils;
typedef std::vector<double> V;
static const double T = 1e-7;
#define NN (VP_THOROUGH ? 4 : 3)
static double step(double x, double s) { return x < s ? 0 : x > s ? 1 : 0.5; }
VP_CASES(heaviside, NN + 1) { int n = vp_k; V x = vp_vec("x", n); double s = vp_sym("s", -100, 100); const V x0 = x; V r = Heaviside(x, s); vp_assert(r.size() == (size_t)n, "heaviside-size"); for (int i = 0; i < n; i++) { vp_near(r[i], step(x0[i], s), 0, "heaviside"); vp_near(x[i], x0[i], 0, "heaviside-untouched"); } }
VP_CASE(heaviside_on) { double s = vp_sym("s", -100, 100); V r = Heaviside(V{s, s + 1, s - 1}, s); vp_near(r[0], 0.5, 0, "heaviside-on"); vp_near(r[1], 1, 0, "heaviside-on"); vp_near(r[2], 0, 0, "heaviside-on"); }
VP_CASES(door, NN) { int n = vp_k + (VP_THOROUGH ? 0 : 0); V x = vp_vec("x", n); double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100), h = vp_sym("h", -10, 10); V r = Door(x, a, b, h); vp_assert(r.size() == (size_t)n, "door-size"); for (int i = 0; i < n; i++) vp_near(r[i], h * (step(x[i], a) - step(x[i], b)), T, "door"); }
VP_CASE(door_default) { V x = vp_vec("x", 1); double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100); V r = Door(x, a, b); vp_near(r[0], step(x[0], a) - step(x[0], b), T, "door-default"); }
VP_CASES(dirac, NN) { int n = vp_k + 2; V x = vp_axis("x0", "h", n); double c = vp_sym("c", -20, 60), h = vp_sym("ht", -10, 10), d2 = (x[1] - x[0]) / 2; for (int i = 0; i < n; i++) { double d = std::fabs(x[i] - c) - d2; vp_assume(d * d > 1e-12); } V r = Dirac(x, c, h); vp_assert(r.size() == (size_t)n, "dirac-size"); for (int i = 0; i < n; i++) { if (std::fabs(x[i] - c) < d2) vp_near(r[i], h, 0, "dirac-on"); else vp_near(r[i], 0, 0, "dirac-off"); } }
// exactly half a step away: not on the impulse (dyadic abscissae, no rounding)
VP_CASE(dirac_edge) { double x0 = vp_pick("x0", -2, 2); V x{x0, x0 + 1, x0 + 2}; V r = Dirac(x, x0 + 0.5, 3.); vp_near(r[0], 0, 0, "dirac-edge"); vp_near(r[1], 0, 0, "dirac-edge"); V q = Dirac(x, x0 + 1); vp_near(q[1], 1, 0, "dirac-default"); vp_near(q[0], 0, 0, "dirac-default"); }
VP_CASES(ramp, NN) { int n = vp_k + 2; V x = vp_axis("x0", "h", n); double a = vp_sym("a", -20, 60), w = vp_sym("w", 0.125, 20), b = a + w, l = vp_sym("l", -10, 10), r = vp_sym("r", -10, 10); vp_assume(a >= x[0]); vp_assume(b <= x[n - 1]); V o = Ramp(x, a, b, l, r); vp_assert(o.size() == (size_t)n, "ramp-size");
  for (int i = 0; i < n; i++) { if (x[i] <= a) vp_near(o[i], l, T, "ramp-left"); else if (x[i] >= b) vp_near(o[i], r, T, "ramp-right"); else vp_near((o[i] - l) * w, (r - l) * (x[i] - a), 1e-6, "ramp-inside"); } }
VP_CASE(ramp_step) { V x = vp_axis("x0", "h", 3); double a = vp_sym("a", -20, 60); vp_assume(a >= x[0]); vp_assume(a <= x[2]); V o = Ramp(x, a, a, 1., 2.); for (int i = 0; i < 3; i++) vp_near(o[i], x[i] <= a ? 1 : 2, 0, "ramp-step"); }
VP_CASE(ramp_refused) { V x = vp_axis("x0", "h", 2); double d = vp_sym("d", 0.01, 1); int k = vp_pick("kind", 0, 2); vp_exit_begin("ramp-refused", VP_ABORTS); if (k == 0) Ramp(x, x[0] - d, x[1], 0., 1.); else if (k == 1) Ramp(x, x[0], x[1] + d, 0., 1.); else Ramp(x, x[1], x[0], 0., 1.); vp_exit_end(); }
VP_CASES(sinc, NN + 1) { int n = vp_k; V x = vp_vec("x", n, -20, 20); for (int i = 0; i < n; i++) vp_assume(x[i] == 0 || x[i] * x[i] > 1e-6); V r = Sinc(x); vp_assert(r.size() == (size_t)n, "sinc-size"); for (int i = 0; i < n; i++) if (x[i] == 0) vp_near(r[i], 1, 0, "sinc-zero"); else vp_near(r[i] * x[i], std::sin(x[i]), 1e-9, "sinc"); }
VP_CASE(sinc_range) { double a = vp_sym("a", -20, -1), L = vp_sym("L", 0.1, 0.8); V r = Sinc(a, a + L, 3u); vp_assert(r.size() == 3, "sinc-range-size"); for (int i = 0; i < 3; i++) vp_near(r[i] * (a + L * i / 2), std::sin(a + L * i / 2), 1e-7, "sinc-range"); }
VP_CASE(sinc_through_zero) { V r = Sinc(-1., 1., 3u); vp_near(r[1], 1, 0, "sinc-middle"); vp_near(r[0], std::sin(1.), 1e-12, "sinc-ends"); }
// long abscissae (equally spaced, symbolic origin), any position of the step; other magnitudes; unsorted abscissae
static V eq(int n, double s, double h = 1) { V x; double o = vp_sym("o", -10, 10); for (int i = 0; i < n; i++) x.push_back((o + h * i) * s); return x; }
static const double SC[6] = {1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9}; static const int LL[3] = {9, 17, 24};
VP_CASES(long_step, 3) { int n = LL[vp_k]; V x = eq(n, 1); double s = vp_sym("s", -20, 40); V r = Heaviside(x, s); vp_assert(r.size() == (size_t)n, "long-step-size"); for (int i = 0; i < n; i++) vp_near(r[i], step(x[i], s), 0, "long-step"); }
VP_CASES(long_descending, 2) { int n = LL[vp_k]; V x = eq(n, 1, -1); double s = vp_sym("s", -40, 20); V r = Heaviside(x, s); for (int i = 0; i < n; i++) vp_near(r[i], step(x[i], s), 0, "descending-step"); }
VP_CASES(long_door, 2) { int n = vp_k ? 12 : 8; V x = eq(n, 1); double a = vp_sym("a", -20, 30), b = vp_k ? a + 2.5 : a - 3.25, h = vp_sym("h", -10, 10); V r = Door(x, a, b, h); vp_assert(r.size() == (size_t)n, "long-door-size"); for (int i = 0; i < n; i++) vp_near(r[i], h * (step(x[i], a) - step(x[i], b)), T, "long-door"); }
VP_CASES(long_dirac, 2) { int n = LL[vp_k]; V x = eq(n, 1, 0.5); double c = vp_sym("c", -20, 40), h = vp_sym("ht", -10, 10); for (int i = 0; i < n; i++) { double d = std::fabs(x[i] - c) - 0.25; vp_assume(d * d > 1e-12); } V r = Dirac(x, c, h); vp_assert(r.size() == (size_t)n, "long-dirac-size"); for (int i = 0; i < n; i++) { if (std::fabs(x[i] - c) < 0.25) vp_near(r[i], h, 0, "long-dirac-on"); else vp_near(r[i], 0, 0, "long-dirac-off"); } }
VP_CASES(long_ramp, 4) { int n = vp_k % 2 ? 14 : 9; V x = eq(n, 1, 0.5); double a = vp_sym("a", -10, 20), w = vp_k / 2 ? 0.125 : 3.125, b = a + w, l = vp_sym("l", -10, 10), r = vp_sym("r", -10, 10); vp_assume(a >= x[0]); vp_assume(b <= x[n - 1]); V o = Ramp(x, a, b, l, r); vp_assert(o.size() == (size_t)n, "long-ramp-size"); for (int i = 0; i < n; i++) { if (x[i] <= a) vp_near(o[i], l, T, "long-ramp-left"); else if (x[i] >= b) vp_near(o[i], r, T, "long-ramp-right"); else vp_near((o[i] - l) * w, (r - l) * (x[i] - a), 1e-6, "long-ramp-inside"); } }
VP_CASES(scaled_step, 6) { double q = SC[vp_k]; V u = vp_vec("u", 2, -10, 10), x = u; for (auto& e : x) e *= q; double s = vp_sym("s", -10, 10), h = vp_sym("h", -10, 10); V r = Heaviside(x, s * q), d = Door(x, s * q, (s + 1) * q, h), e = Door(x, s * q, (s + 1) * q, h * q); for (int i = 0; i < 2; i++) { vp_near(r[i], step(u[i], s), 0, "scaled-step"); vp_near(d[i], h * (step(u[i], s) - step(u[i], s + 1)), T, "scaled-door"); vp_near(e[i] / q, h * (step(u[i], s) - step(u[i], s + 1)), T, "scaled-door-height"); } }
VP_CASES(scaled_dirac, 6) { double q = SC[vp_k]; V x = eq(4, q); double o = vp_sym("o", -10, 10), c = vp_sym("c", -12, 16), h = vp_sym("ht", -10, 10); for (int i = 0; i < 4; i++) { double d = std::fabs(o + i - c) - 0.5; vp_assume(d * d > 1e-12); } V r = Dirac(x, c * q, h); for (int i = 0; i < 4; i++) vp_near(r[i], std::fabs(o + i - c) < 0.5 ? h : 0, 0, "scaled-dirac"); }
VP_CASES(scaled_ramp, 12) { double q = SC[vp_k % 6], p = vp_k < 6 ? 1 : SC[5 - vp_k % 6]; V x = eq(5, q); double o = vp_sym("o", -10, 10), a = o + vp_sym("ta", 0, 3), w = vp_sym("w", 0.125, 4), b = a + w, l = vp_sym("l", -10, 10), r = vp_sym("r", -10, 10); vp_assume(b <= o + 4); V y = Ramp(x, a * q, b * q, l * p, r * p); for (int i = 0; i < 5; i++) { double t = o + i; if (t <= a) vp_near(y[i] / p, l, T, "scaled-ramp-left"); else if (t >= b) vp_near(y[i] / p, r, T, "scaled-ramp-right"); else vp_near((y[i] / p - l) * w, (r - l) * (t - a), 1e-6, "scaled-ramp-inside"); } }
VP_CASE(ramp_whole) { V x = eq(4, 1); double l = vp_sym("l", -10, 10), r = vp_sym("r", -10, 10); V y = Ramp(x, x[0], x[3], l, r); for (int i = 0; i < 4; i++) vp_near(y[i], l + (r - l) * i / 3, T, "ramp-whole"); V z = Ramp(x, x[1], x[2], l, r); vp_near(z[0], l, T, "ramp-on-nodes"); vp_near(z[1], l, T, "ramp-on-nodes"); vp_near(z[2], r, T, "ramp-on-nodes"); vp_near(z[3], r, T, "ramp-on-nodes"); V c = Ramp(x, x[0], x[2], l, l); for (double e : c) vp_near(e, l, T, "ramp-flat"); }
// unequal spacing: the sampling step is that of the first two samples
VP_CASE(sinc_far) { V x = vp_vec("x", 2, 20, 1e6); V r = Sinc(x), m = Sinc(V{-x[0], -x[1]}); for (int i = 0; i < 2; i++) { vp_near(r[i] * x[i], std::sin(x[i]), 1e-9, "sinc-far"); vp_near(m[i] * x[i], std::sin(x[i]), 1e-9, "sinc-far-negative"); } }
VP_CASES(sinc_near, 3) { static const double Q[3] = {1e-3, 1e-2, 1e-1}; double q = Q[vp_k], u = vp_sym("u", 0.5, 8); V r = Sinc(V{u * q, -u * q, 0., u * q}); vp_near(r[0] * u, std::sin(u * q) / q, 1e-9, "sinc-near"); vp_near(r[1] * u, std::sin(u * q) / q, 1e-9, "sinc-near-negative"); vp_near(r[2], 1, 0, "sinc-near-zero"); vp_near(r[3], r[0], 0, "sinc-near-order"); }
VP_CASES(sinc_long, 2) { int n = LL[vp_k]; V x; double o = vp_sym("o", 1, 10); for (int i = 0; i < n; i++) x.push_back(o + 0.75 * i); V r = Sinc(x); vp_assert(r.size() == (size_t)n, "sinc-long-size"); for (int i = 0; i < n; i++) vp_near(r[i] * x[i], std::sin(x[i]), 1e-9, "sinc-long"); }
VP_CASE(sinc_tiny) { V r = Sinc(V{1e-8, -1e-8, 1e-300, 1e-160, -5e-5}); for (int i = 0; i < 4; i++) vp_near(r[i], 1, 1e-12, "sinc-tiny"); vp_near(r[4], 1 - 25e-10 / 6, 1e-13, "sinc-tiny"); }
VP_CASES(sinc_counts, 5) { static const unsigned Nn[5] = {2, 4, 5, 8, 11}; unsigned n = Nn[vp_k]; double a = vp_sym("a", 1, 20), L = vp_sym("L", 0.5, 8); V r = Sinc(a, a + L, n); vp_assert(r.size() == n, "sinc-count"); for (unsigned i = 0; i < n; i++) vp_near(r[i] * (a + L * i / (n - 1)), std::sin(a + L * i / (n - 1)), 1e-7, "sinc-counted"); }
// very long abscissae: concrete, the step/door/ramp/impulse anywhere around a picked sample
VP_CASES(huge, 4) { int n = VP_HUGE[vp_k]; V x; for (int i = 0; i < n; i++) x.push_back(-20 + 0.5 * i); auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; double u = vp_sym("u", 0.01, 0.99), c = x[k] + 0.5 * u, h = vp_sym("h", -10, 10), l = vp_sym("l", -10, 10); V s = Heaviside(x, c), d = Door(x, x[0] + 0.125, c, h), i = Dirac(x, c, h), r = Ramp(x, x[0], c, l, h), w = Sinc(x); vp_assert((int)s.size() == n && (int)d.size() == n && (int)i.size() == n && (int)r.size() == n && (int)w.size() == n, "huge-size"); vp_assume((u - 0.5) * (u - 0.5) > 1e-12);
  for (int j = 0; j < n; j++) { if (!(vp_spot(j, n) || j == 40 || (j >= k - 2 && j <= k + 3))) continue; vp_near(s[j], j > k ? 1 : 0, 0, "huge-step"); vp_near(d[j], h * ((j > 0 ? 1 : 0) - (j > k ? 1 : 0)), T, "huge-door"); vp_near(i[j], (j == k && u < 0.5) || (j == k + 1 && u > 0.5) ? h : 0, 0, "huge-impulse"); if (j > k) vp_near(r[j], h, T, "huge-ramp"); else vp_near((r[j] - l) * (c - x[0]), (h - l) * (x[j] - x[0]), 1e-5, "huge-ramp"); if (j == 40) vp_near(w[j], 1, 0, "huge-sinc-zero"); else vp_near(w[j] * x[j], std::sin(x[j]), 1e-12, "huge-sinc"); } }
