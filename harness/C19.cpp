// C19: sample-vector generators produce the documented grids
#include "vp.h"
#include <vector>
#include "MathUtils/VectorGeneration.h"
using namespace mathutils;
static const int NMAX = VP_THOROUGH ? 9 : 6;
VP_CASES(linspace, (VP_THOROUGH ? 8 : 5)) { int n = vp_k + 2; double a = vp_sym("a", -100, 100), L = vp_sym("L", 0, 100), b = a + L; auto v = mathutils::linspace(a, b, (unsigned)n);
  vp_assert(v.size() == (size_t)n, "linspace-size"); vp_near(v[0], a, 0, "linspace-first"); vp_near(v[n - 1], b, 0, "linspace-last");
  for (int i = 0; i < n; i++) vp_near(v[i], a + (b - a) * i / (n - 1), 1e-9, "linspace-sample"); for (int i = 1; i < n; i++) vp_assert(v[i - 1] <= v[i] + 1e-9, "linspace-order"); }
VP_CASE(linspace_float) { float a = (float)vp_sym("a", -100, 100), b = a + (float)vp_sym("L", 0, 100); auto v = mathutils::linspace<float>(a, b, 4); vp_assert(v.size() == 4, "linspace-float-size"); for (int i = 0; i < 4; i++) vp_near(v[i], a + (b - a) * i / 3, 1e-3, "linspace-float"); }
// equal bounds: all samples equal
VP_CASE(linspace_degenerate) { double a = vp_sym("a", -100, 100); auto v = mathutils::linspace(a, a, 3); vp_assert(v.size() == 3, "linspace-degenerate-size"); for (double x : v) vp_near(x, a, 1e-9, "linspace-degenerate"); }
// the step is positive and exact for integers: no rounding, so every sample is exact
VP_CASES(linspace_exact, 4) { int n = vp_k + 2; double a = vp_pick("a", -3, 3), s = vp_pick("s", 0, 4); auto v = mathutils::linspace(a, a + s * (n - 1), (unsigned)n); vp_assert(v.size() == (size_t)n, "linspace-exact-size"); for (int i = 0; i < n; i++) vp_near(v[i], a + s * i, 0, "linspace-exact"); }
VP_CASE(linspace_refused) { double a = vp_sym("a", -100, 100); int k = vp_pick("kind", 0, 2); vp_exit_begin("linspace-refused", VP_ABORTS); mathutils::linspace(a, k == 2 ? a - vp_sym("d", 0.01, 10) : a + 1, k == 2 ? 3u : (unsigned)k); vp_exit_end(); }
// base^x = exp(x*log(base)); base 10 by default
static void logcheck(int n, double a, double b, double base, bool def) { auto v = def ? mathutils::logspace(a, b, (unsigned)n) : mathutils::logspace(a, b, (unsigned)n, base); auto l = mathutils::linspace(a, b, (unsigned)n); vp_assert(v.size() == (size_t)n, "logspace-size"); for (int i = 0; i < n; i++) { vp_near(v[i], std::pow(base, a + (b - a) * i / (n - 1)), 1e-6 , "logspace-sample"); vp_assert(v[i] > 0, "logspace-positive"); } }
VP_CASES(logspace, 6) { int n = vp_k / 2 + 2; double a = vp_sym("a", -3, 3), b = a + vp_sym("L", 0, 2); if (vp_k % 2) logcheck(n, a, b, vp_sym("base", 1.5, 4), false); else logcheck(n, a, b, 10, true); }
VP_CASE(logspace_exact) { int a = vp_pick("a", -2, 2), s = vp_pick("s", 0, 2); auto v = mathutils::logspace((double)a, (double)(a + 2 * s), 3, 2.); vp_assert(v.size() == 3, "logspace-exact-size"); for (int i = 0; i < 3; i++) vp_near(v[i], std::ldexp(1., a + s * i), 1e-12, "logspace-exact"); }
// b - a = (k + f)*s with 0 < f < 1: k samples
VP_CASES(arange, (VP_THOROUGH ? 8 : 6)) { int k = vp_k; double a = vp_sym("a", -100, 100), s = vp_sym("s", 0.125, 8), f = vp_sym("f", 0.001, 0.999), b = a + s * (k + f); auto v = mathutils::arange(a, b, s);
  vp_assert(v.size() == (size_t)k, "arange-size"); for (int i = 0; i < k && i < (int)v.size(); i++) { vp_near(v[i], a + i * s, 1e-9, "arange-sample"); vp_assert(v[i] < b, "arange-below"); } }
VP_CASE(arange_exact) { double a = vp_pick("a", -3, 3), s = vp_pick("s", 1, 4) * 0.5; int k = vp_pick("k", 1, 5); auto v = mathutils::arange(a, a + s * k, s); vp_assert(v.size() == (size_t)k, "arange-exact-size"); for (int i = 0; i < k && i < (int)v.size(); i++) vp_near(v[i], a + i * s, 0, "arange-exact"); }
VP_CASE(arange_default) { double a = vp_pick("a", -3, 3); auto v = mathutils::arange(a, a + 4); vp_assert(v.size() == 4, "arange-default-size"); for (int i = 0; i < 4; i++) vp_near(v[i], a + i, 0, "arange-default"); }
VP_CASE(arange_refused) { double a = vp_sym("a", -100, 100), d = vp_sym("d", 0.01, 10); int k = vp_pick("kind", 0, 1); vp_exit_begin("arange-refused", VP_ABORTS); if (k) mathutils::arange(a, a - d, 1.); else mathutils::arange(a, a + 1, -d); vp_exit_end(); }
// many samples, any scale
VP_CASES(linspace_long, 4) { static const int N[4] = {17, 33, 65, 101}; int n = N[vp_k]; double a = vp_sym("a", -100, 100), L = vp_sym("L", 0, 100), b = a + L; auto v = mathutils::linspace(a, b, (unsigned)n); vp_assert(v.size() == (size_t)n, "linspace-long-size"); vp_near(v[0], a, 0, "linspace-long-first"); vp_near(v[n - 1], b, 0, "linspace-long-last"); for (int i = 0; i < n; i++) vp_near(v[i], a + (b - a) * i / (n - 1), 1e-9, "linspace-long"); }
static const double SC[4] = {1e-9, 1e-4, 1e5, 1e10};
VP_CASES(linspace_scales, 8) { double s = SC[vp_k % 4]; int n = vp_k / 4 ? 7 : 3; double a = vp_sym("a", -1, 1), L = vp_sym("L", 0, 2); auto v = mathutils::linspace(s * a, s * (a + L), (unsigned)n); vp_assert(v.size() == (size_t)n, "linspace-scaled-size"); for (int i = 0; i < n; i++) vp_near(v[i] / s, a + L * i / (n - 1), 1e-9, "linspace-scaled"); }
VP_CASES(arange_scales, 8) { double s = SC[vp_k % 4]; int k = vp_k / 4 ? 7 : 2; double a = vp_sym("a", -1, 1), h = vp_sym("s", 0.125, 1), f = vp_sym("f", 0.001, 0.999); auto v = mathutils::arange(s * a, s * (a + h * (k + f)), s * h); vp_assert(v.size() == (size_t)k, "arange-scaled-size"); for (int i = 0; i < k && i < (int)v.size(); i++) vp_near(v[i] / s, a + i * h, 1e-9, "arange-scaled"); }
VP_CASES(arange_long, 2) { int k = vp_k ? 64 : 20; double a = vp_sym("a", -100, 100), s = vp_sym("s", 0.125, 8), f = vp_sym("f", 0.001, 0.999); auto v = mathutils::arange(a, a + s * (k + f), s); vp_assert(v.size() == (size_t)k, "arange-long-size"); for (int i = 0; i < k && i < (int)v.size(); i++) vp_near(v[i], a + i * s, 1e-9, "arange-long"); }
// a range shorter than the step; a step far below one
VP_CASE(arange_short) { double a = vp_sym("a", -100, 100), L = vp_sym("L", 0.001, 0.999); auto v = mathutils::arange(a, a + L); vp_assert(v.size() == 0, "arange-short"); }
VP_CASE(logspace_long) { auto v = mathutils::logspace(-4., 4., 17); vp_assert(v.size() == 17, "logspace-long-size"); for (int i = 0; i < 17; i++) vp_near(v[i] / std::pow(10., -4 + 0.5 * i), 1, 1e-9, "logspace-long"); }
VP_CASE(logspace_small_base) { int a = vp_pick("a", -3, 3); auto v = mathutils::logspace((double)a, (double)(a + 2), 3, 0.5); for (int i = 0; i < 3; i++) vp_near(v[i], std::ldexp(1., -(a + i)), 1e-12, "logspace-half"); }
VP_CASE(logspace_refused) { int k = vp_pick("kind", 0, 2); vp_exit_begin("logspace-refused", VP_ABORTS); mathutils::logspace(1., k == 2 ? 0. : 2., k == 2 ? 3u : (unsigned)k); vp_exit_end(); }
// every sample count between 2 and 60 on one interval: size, ends and spacing
VP_CASE(linspace_counts) { int n = (int)vp_pick("n", 2, 60); double a = vp_sym("a", -10, 10); auto v = mathutils::linspace(a, a + 3, (unsigned)n); vp_assert(v.size() == (size_t)n, "counts-size"); vp_near(v[0], a, 0, "counts-first"); vp_near(v[n - 1], a + 3, 0, "counts-last"); for (int i = 1; i < n; i++) vp_near(v[i] - v[i - 1], 3. / (n - 1), 1e-9, "counts-spacing"); }
// very many samples
VP_CASES(linspace_huge, 4) { static const int N[4] = {128, 257, 1001, 2049}; int n = N[vp_k]; double a = vp_sym("a", -100, 100), L = vp_sym("L", 0, 100), b = a + L; auto v = mathutils::linspace(a, b, (unsigned)n); vp_assert(v.size() == (size_t)n, "linspace-huge-size"); vp_near(v[0], a, 0, "linspace-huge-first"); vp_near(v[n - 1], b, 0, "linspace-huge-last"); for (int i = 0; i < n; i++) if (i % 16 == 1 || i > n - 4) vp_near(v[i], a + (b - a) * i / (n - 1), 1e-9, "linspace-huge"); }
VP_CASES(arange_huge, 3) { static const int N[3] = {130, 300, 1030}; int k = N[vp_k]; double a = vp_sym("a", -100, 100), s = vp_sym("s", 0.125, 8), f = vp_sym("f", 0.01, 0.99); auto v = mathutils::arange(a, a + s * (k + f), s); vp_assert(v.size() == (size_t)k, "arange-huge-size"); for (int i = 0; i < k && i < (int)v.size(); i++) if (i % 16 == 1 || i > k - 4) vp_near(v[i], a + i * s, 1e-9, "arange-huge"); }
VP_CASES(logspace_huge, 2) { int n = vp_k ? 1001 : 129; auto v = mathutils::logspace(-4., 4., (unsigned)n); vp_assert(v.size() == (size_t)n, "logspace-huge-size"); for (int i = 0; i < n; i++) vp_near(v[i] / std::pow(10., -4 + 8. * i / (n - 1)), 1, 1e-9, "logspace-huge"); }
