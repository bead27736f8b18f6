// C24: Horner evaluation equals the polynomial and its derivative
#include "vp.h"
#include <vector>
#include <complex>
#include "MathUtils/Polynomial.h"
#include "interp_common.h"
using namespace mathutils;
typedef std::complex<double> C;
#define NN (VP_THOROUGH ? 10 : 7)
VP_CASES(real, NN) { int n = vp_k + 1; auto a = vp_vec("a", n, -10, 10); const auto a0 = a; double x = vp_sym("x", -2, 2), p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += a0[i] * w; if (i + 1 < n) d += (i + 1) * a0[i + 1] * w; w *= x; }
  vp_near(Horner<double>(a, x), p, 1e-6, "value"); vp_near(Horner_derivative<double>(a, x), d, 1e-6, "derivative"); vp_assert(a.size() == a0.size(), "size-untouched"); for (int i = 0; i < n; i++) vp_near(a[i], a0[i], 0, "coefficients-untouched"); }
VP_CASES(complex, NN - 1) { int n = vp_k + 1; auto a = vp_vec("a", n, -10, 10); double x = vp_sym("x", -2, 2), y = vp_sym("y", -2, 2), pr = 0, pi = 0, dr = 0, di = 0, wr = 1, wi = 0; for (int i = 0; i < n; i++) { pr += a[i] * wr; pi += a[i] * wi; if (i + 1 < n) { dr += (i + 1) * a[i + 1] * wr; di += (i + 1) * a[i + 1] * wi; } double t = wr * x - wi * y; wi = wr * y + wi * x; wr = t; }
  vp_nearc(Horner<C>(a, C(x, y)), C(pr, pi), 1e-6, "complex-value"); vp_nearc(Horner_derivative<C>(a, C(x, y)), C(dr, di), 1e-6, "complex-derivative"); }
// higher degrees, other magnitudes, zero leading and trailing coefficients, special points
VP_CASES(large, 8) { static const int N[8] = {9, 11, 13, 16, 17, 20, 25, 33}; int n = N[vp_k]; auto a = vp_vec("a", n, -10, 10); double x = vp_sym("x", -1.25, 1.25), p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += a[i] * w; if (i + 1 < n) d += (i + 1) * a[i + 1] * w; w *= x; } vp_near(Horner<double>(a, x), p, 1e-6, "large-value"); vp_near(Horner_derivative<double>(a, x), d, 1e-6, "large-derivative"); }
VP_CASES(large_complex, 3) { int n = 8 + 2 * vp_k; auto a = vp_vec("a", n, -10, 10); double x = vp_sym("x", -1, 1), y = vp_sym("y", -1, 1), pr = 0, pi = 0, dr = 0, di = 0, wr = 1, wi = 0; for (int i = 0; i < n; i++) { pr += a[i] * wr; pi += a[i] * wi; if (i + 1 < n) { dr += (i + 1) * a[i + 1] * wr; di += (i + 1) * a[i + 1] * wi; } double t = wr * x - wi * y; wi = wr * y + wi * x; wr = t; } vp_nearc(Horner<C>(a, C(x, y)), C(pr, pi), 1e-6, "large-complex-value"); vp_nearc(Horner_derivative<C>(a, C(x, y)), C(dr, di), 1e-6, "large-complex-derivative"); }
static const double SC[6] = {1e-9, 1e-4, 1e-2, 1e2, 1e4, 1e9};
VP_CASES(scaled_point, 24) { double s = SC[vp_k % 6]; int n = 2 + vp_k / 6; auto u = vp_vec("a", n, -10, 10), a = u; double q = 1; for (int i = 0; i < n; i++) { a[i] = u[i] / q; q *= s; } double t = vp_sym("t", -2, 2), p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += u[i] * w; if (i + 1 < n) d += (i + 1) * u[i + 1] * w; w *= t; } vp_near(Horner<double>(a, t * s), p, 1e-6, "scaled-point-value"); vp_near(Horner_derivative<double>(a, t * s) * s, d, 1e-6, "scaled-point-derivative"); }
VP_CASES(scaled_coefficients, 6) { double s = SC[vp_k]; int n = 5; auto u = vp_vec("a", n, -10, 10), a = u; for (auto& e : a) e *= s; double x = vp_sym("x", -2, 2), p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += u[i] * w; if (i + 1 < n) d += (i + 1) * u[i + 1] * w; w *= x; } vp_near(Horner<double>(a, x) / s, p, 1e-6, "scaled-value"); vp_near(Horner_derivative<double>(a, x) / s, d, 1e-6, "scaled-derivative"); }
// every pattern of vanishing coefficients
VP_CASES(sparse, 32) { std::vector<double> a; for (int i = 0; i < 5; i++) a.push_back(vp_k >> i & 1 ? vp_symi("a", i, -10, 10) : 0.); double x = vp_sym("x", -2, 2), p = 0, d = 0, w = 1; for (int i = 0; i < 5; i++) { p += a[i] * w; if (i < 4) d += (i + 1) * a[i + 1] * w; w *= x; } vp_near(Horner<double>(a, x), p, 1e-6, "sparse-value"); vp_near(Horner_derivative<double>(a, x), d, 1e-6, "sparse-derivative"); }
VP_CASES(special_points, 5) { static const double X[5] = {0, 1, -1, 0.5, -2}; double x = X[vp_k]; for (int n = 1; n < 7; n++) { auto a = vp_vec("a", n, -10, 10); double p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += a[i] * w; if (i + 1 < n) d += (i + 1) * a[i + 1] * w; w *= x; } vp_near(Horner<double>(a, x), p, 1e-6, "special-value"); vp_near(Horner_derivative<double>(a, x), d, 1e-6, "special-derivative"); vp_nearc(Horner<C>(a, C(x, 0)), C(p, 0), 1e-6, "special-complex"); vp_nearc(Horner_derivative<C>(a, C(x, 0)), C(d, 0), 1e-6, "special-complex-derivative"); } }
VP_CASE(imaginary) { auto a = vp_vec("a", 5, -10, 10); double y = vp_sym("y", -2, 2); vp_nearc(Horner<C>(a, C(0, y)), C(a[0] - a[2] * y * y + a[4] * y * y * y * y, a[1] * y - a[3] * y * y * y), 1e-6, "imaginary-value"); vp_nearc(Horner_derivative<C>(a, C(0, y)), C(a[1] - 3 * a[3] * y * y, 2 * a[2] * y - 4 * a[4] * y * y * y), 1e-6, "imaginary-derivative"); }
// very high degrees
VP_CASES(huge, 3) { static const int N[3] = {66, 101, 130}; int n = N[vp_k]; auto a = vp_spotvec("a", n, -10, 10); double x = vp_sym("x", -0.9, 0.9), p = 0, d = 0, w = 1; for (int i = 0; i < n; i++) { p += a[i] * w; if (i + 1 < n) d += (i + 1) * a[i + 1] * w; w *= x; } vp_near(Horner<double>(a, x), p, 1e-6, "huge-value"); vp_near(Horner_derivative<double>(a, x), d, 1e-6, "huge-derivative"); }
