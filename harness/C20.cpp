// C20: elementwise vector arithmetic
#include "vp.h"
#include <vector>
#include <cassert>
#include <cmath>
#include <complex>
#include "MathUtils/StdVector.h"
#include "interp_common.h"
using namespace mathutils;
typedef std::vector<double> V; typedef std::complex<double> C; typedef std::vector<C> VC;
static const double T = 1e-7;
static void same(const V& a, const V& b, const char* id) { vp_assert(a.size() == b.size(), id); for (size_t i = 0; i < a.size() && i < b.size(); i++) vp_near(a[i], b[i], 0, id); }
#define NN (VP_THOROUGH ? 7 : 5)
VP_CASES(binary, NN) { int n = vp_k; V a = vp_vec("a", n), b = vp_vec("b", n); const V a0 = a, b0 = b;
  V s = Add(a, b), d = Minus(a, b), m = Mult(a, b); vp_assert(s.size() == (size_t)n, "add-size"); vp_assert(d.size() == (size_t)n, "minus-size"); vp_assert(m.size() == (size_t)n, "mult-size");
  for (int i = 0; i < n; i++) { vp_near(s[i], a0[i] + b0[i], T, "add"); vp_near(d[i], a0[i] - b0[i], T, "minus"); vp_near(m[i], a0[i] * b0[i], T, "mult"); } same(a, a0, "first-untouched"); same(b, b0, "second-untouched"); }
VP_CASES(divide, NN) { int n = vp_k; V a = vp_vec("a", n), b = vp_vec("b", n); for (int i = 0; i < n; i++) vp_assume(b[i] * b[i] >= 0.01); const V a0 = a, b0 = b; V q = Divide(a, b); vp_assert(q.size() == (size_t)n, "divide-size"); for (int i = 0; i < n; i++) vp_near(q[i] * b0[i], a0[i], 1e-6, "divide"); same(a, a0, "numerator-untouched"); same(b, b0, "denominator-untouched"); }
VP_CASES(scalar, NN) { int n = vp_k; V a = vp_vec("a", n); const V a0 = a; double c = vp_sym("c", -100, 100); V s = AddScalar(a, c); vp_assert(s.size() == (size_t)n, "addscalar-size"); same(a, a0, "addscalar-untouched"); for (int i = 0; i < n; i++) vp_near(s[i], a0[i] + c, T, "addscalar");
  double t = 0; for (int i = 0; i < n; i++) t += a0[i]; vp_near(Sum(a), t, T, "sum"); same(a, a0, "sum-untouched");
  V b = a; Scale(b, c); vp_assert(b.size() == (size_t)n, "scale-size"); for (int i = 0; i < n; i++) vp_near(b[i], a0[i] * c, T, "scale"); b = a; Negate(b); vp_assert(b.size() == (size_t)n, "negate-size"); for (int i = 0; i < n; i++) vp_near(b[i], -a0[i], T, "negate"); }
VP_CASES(power, 6) { static const double P[6] = {0, 1, 2, 3, -1, 0.5}; double p = P[vp_k]; V a = vp_vec("a", 3, 0.125, 8); V b = a; Pow(b, p); vp_assert(b.size() == 3, "pow-size"); for (int i = 0; i < 3; i++) vp_near(vp_k == 4 ? b[i] * a[i] : vp_k == 5 ? b[i] * b[i] : b[i], vp_k == 0 ? 1 : vp_k == 1 ? a[i] : vp_k == 2 ? a[i] * a[i] : vp_k == 3 ? a[i] * a[i] * a[i] : vp_k == 4 ? 1 : a[i], T, "pow"); }
VP_CASE(power_any) { double p = vp_sym("p", -3, 3); V a = vp_vec("a", 2, 0.125, 8), b = a; Pow(b, p); for (int i = 0; i < 2; i++) vp_near(b[i], std::pow(a[i], p), 1e-6, "pow-any"); }
static VC cvec(const char* r, const char* i, int n) { VC v; for (int k = 0; k < n; k++) v.push_back(C(vp_symi(r, k, -10, 10), vp_symi(i, k, -10, 10))); return v; }
VP_CASE(complex_vectors) { int n = 2; VC a = cvec("ar", "ai", n), b = cvec("br", "bi", n); C c(vp_sym("cr", -10, 10), vp_sym("ci", -10, 10)); VC s = Add(a, b), d = Minus(a, b), m = Mult(a, b), t = AddScalar(a, c), u = a, w = a; Scale(u, c); Negate(w); C sum = Sum(a); vp_nearc(sum, C(a[0].real() + a[1].real(), a[0].imag() + a[1].imag()), T, "complex-sum");
  for (int i = 0; i < n; i++) { double x = a[i].real(), y = a[i].imag(), p = b[i].real(), q = b[i].imag(); vp_nearc(s[i], C(x + p, y + q), T, "complex-add"); vp_nearc(d[i], C(x - p, y - q), T, "complex-minus"); vp_nearc(m[i], C(x * p - y * q, x * q + y * p), T, "complex-mult"); vp_nearc(t[i], C(x + c.real(), y + c.imag()), T, "complex-addscalar"); vp_nearc(u[i], C(x * c.real() - y * c.imag(), x * c.imag() + y * c.real()), T, "complex-scale"); vp_nearc(w[i], C(-x, -y), T, "complex-negate"); } }
VP_CASE(integers) { std::vector<int> a, b; for (int i = 0; i < 3; i++) { a.push_back(vp_int(i == 0 ? "a0" : i == 1 ? "a1" : "a2", -1000, 1000)); b.push_back(vp_int(i == 0 ? "b0" : i == 1 ? "b1" : "b2", -1000, 1000)); } auto s = Add(a, b), d = Minus(a, b), m = Mult(a, b), n = a; Negate(n); for (int i = 0; i < 3; i++) { vp_assert(s[i] == a[i] + b[i], "int-add"); vp_assert(d[i] == a[i] - b[i], "int-minus"); vp_assert(m[i] == a[i] * b[i], "int-mult"); vp_assert(n[i] == -a[i], "int-negate"); } vp_assert(Sum(a) == a[0] + a[1] + a[2], "int-sum"); }
VP_CASES(refused, 4) { int n = vp_pick("n", 0, 3), m = vp_pick("m", 0, 3); vp_assume(n != m); V a = vp_vec("a", n), b = vp_vec("b", m, 1, 2); vp_exit_begin("unequal-lengths", VP_ABORTS); if (vp_k == 0) Add(a, b); else if (vp_k == 1) Minus(a, b); else if (vp_k == 2) Mult(a, b); else Divide(a, b); vp_exit_end(); }
// long vectors, other magnitudes, an argument given twice, exact zeros and ones
static const int LL[5] = {7, 8, 16, 17, 33}; static const double SC[6] = {1e-12, 1e-9, 1e-4, 1e4, 1e9, 1e12};
VP_CASES(long_binary, 5) { int n = LL[vp_k]; V a = vp_vec("a", n), b = vp_vec("b", n), s = Add(a, b), d = Minus(a, b), m = Mult(a, b); vp_assert(s.size() == (size_t)n && d.size() == (size_t)n && m.size() == (size_t)n, "long-size"); for (int i = 0; i < n; i++) { vp_near(s[i], a[i] + b[i], T, "long-add"); vp_near(d[i], a[i] - b[i], T, "long-minus"); vp_near(m[i], a[i] * b[i], T, "long-mult"); } }
VP_CASES(long_divide, 5) { int n = LL[vp_k]; V a = vp_vec("a", n), b = vp_vec("b", n, 0.125, 8); if (vp_k % 2) for (auto& e : b) e = -e; V q = Divide(a, b); vp_assert(q.size() == (size_t)n, "long-divide-size"); for (int i = 0; i < n; i++) vp_near(q[i] * b[i], a[i], 1e-6, "long-divide"); }
VP_CASES(long_scalar, 5) { int n = LL[vp_k]; V a = vp_vec("a", n), b = a, d = a, p = a; double c = vp_sym("c", -100, 100), t = 0; V s = AddScalar(a, c); Scale(b, c); Negate(d); Pow(p, 2.); for (int i = 0; i < n; i++) { t += a[i]; vp_near(s[i], a[i] + c, T, "long-addscalar"); vp_near(b[i], a[i] * c, T, "long-scale"); vp_near(d[i], -a[i], T, "long-negate"); vp_near(p[i], a[i] * a[i], T, "long-square"); } vp_near(Sum(a), t, T, "long-sum"); vp_assert(s.size() == (size_t)n && b.size() == (size_t)n && d.size() == (size_t)n && p.size() == (size_t)n, "long-scalar-size"); }
VP_CASES(twice, 4) { int n = vp_k + 1; V a = vp_vec("a", n, 0.125, 8); V s = Add(a, a), d = Minus(a, a), m = Mult(a, a), q = Divide(a, a); for (int i = 0; i < n; i++) { vp_near(s[i], 2 * a[i], T, "twice-add"); vp_near(d[i], 0, T, "twice-minus"); vp_near(m[i], a[i] * a[i], T, "twice-mult"); vp_near(q[i], 1, T, "twice-divide"); } V r = Add(Add(a, a), a); for (int i = 0; i < n; i++) vp_near(r[i], 3 * a[i], T, "nested-add"); }
VP_CASES(scales, 6) { double s = SC[vp_k]; V u = vp_vec("u", 3, -1, 1), w = vp_vec("w", 3, 0.125, 1), a = u, b = w; for (int i = 0; i < 3; i++) { a[i] *= s; b[i] *= s; } double c = vp_sym("c", -1, 1); V p = Add(a, b), m = Minus(a, b), x = Mult(a, b), q = Divide(a, b), t = AddScalar(a, c * s), z = a, n = a, g = a; Scale(z, c / s); Scale(g, c * s); Negate(n); for (int i = 0; i < 3; i++) { vp_near(p[i] / s, u[i] + w[i], T, "scaled-add"); vp_near(m[i] / s, u[i] - w[i], T, "scaled-minus"); vp_near(x[i] / s / s, u[i] * w[i], T, "scaled-mult"); vp_near(q[i] * w[i], u[i], T, "scaled-divide"); vp_near(t[i] / s, u[i] + c, T, "scaled-addscalar"); vp_near(z[i], u[i] * c, T, "scaled-scale"); vp_near(g[i] / s / s, u[i] * c, T, "scaled-scale2"); vp_near(n[i] / s, -u[i], T, "scaled-negate"); } vp_near(Sum(a) / s, u[0] + u[1] + u[2], T, "scaled-sum"); }
VP_CASES(mixed_scales, 6) { double s = SC[vp_k]; V u = vp_vec("u", 2, -1, 1), w = vp_vec("w", 2, 0.125, 1), b = w; for (auto& e : b) e *= s; V m = Mult(u, b), q = Divide(u, b); for (int i = 0; i < 2; i++) { vp_near(m[i] / s, u[i] * w[i], T, "mixed-mult"); vp_near(q[i] * s * w[i], u[i], T, "mixed-divide"); } V g{0., 1., -1.}; Scale(g, s); vp_near(g[0], 0, 0, "mixed-scale"); vp_near(g[1] / s, 1, T, "mixed-scale"); vp_near(g[2] / s, -1, T, "mixed-scale"); }
VP_CASE(special) { V a = vp_vec("a", 3), z(3, 0.), o(3, 1.), b; b = Add(a, z); for (int i = 0; i < 3; i++) vp_near(b[i], a[i], 0, "add-zero"); b = Mult(a, z); for (int i = 0; i < 3; i++) vp_near(b[i], 0, 0, "mult-zero"); b = Mult(a, o); for (int i = 0; i < 3; i++) vp_near(b[i], a[i], 0, "mult-one"); b = Divide(z, o); for (int i = 0; i < 3; i++) vp_near(b[i], 0, 0, "divide-zero"); b = a; Scale(b, 0.); for (int i = 0; i < 3; i++) vp_near(b[i], 0, 0, "scale-zero"); b = a; Scale(b, 1.); for (int i = 0; i < 3; i++) vp_near(b[i], a[i], 0, "scale-one"); b = a; Negate(b); Negate(b); for (int i = 0; i < 3; i++) vp_near(b[i], a[i], 0, "negate-twice"); V e; vp_near(Sum(e), 0, 0, "sum-empty"); }
// powers of negative numbers and of zero
VP_CASES(power_signed, 5) { static const double P[5] = {0, 1, 2, 3, 4}; double p = P[vp_k]; V a = vp_vec("a", 3, -8, 8), b = a; Pow(b, p); for (int i = 0; i < 3; i++) { double r = 1; for (int k = 0; k < vp_k; k++) r *= a[i]; vp_near(b[i], r, T, "pow-signed"); } V z(2, 0.); Pow(z, p); vp_near(z[0], vp_k ? 0 : 1, 0, "pow-of-zero"); vp_near(z[1], vp_k ? 0 : 1, 0, "pow-of-zero"); }
VP_CASE(power_root_zero) { V z{0., 4., 9., 0.25}; Pow(z, 0.5); vp_near(z[0], 0, 0, "root"); vp_near(z[1], 2, 1e-12, "root"); vp_near(z[2], 3, 1e-12, "root"); vp_near(z[3], 0.5, 1e-12, "root"); V m{-2., 4.}; Pow(m, -2.); vp_near(m[0], 0.25, 1e-12, "negative-power"); vp_near(m[1], 1. / 16, 1e-12, "negative-power"); }
VP_CASE(power_complex) { VC a = cvec("ar", "ai", 2), b = a; VC d = Divide(b, VC{C(0, 2), C(1, 0)}); vp_nearc(d[0], C(a[0].imag() / 2, -a[0].real() / 2), T, "complex-divide"); vp_nearc(d[1], a[1], T, "complex-divide"); }
VP_CASE(integers_long) { std::vector<int> a, b; for (int i = 0; i < 20; i++) { a.push_back((i * 37) % 23 - 11); b.push_back(vp_int(i == 0 ? "b" : "c", -1000000, 1000000)); } auto s = Add(a, b), m = Mult(a, b), t = a; Scale(t, 3); int k = 0; for (int i = 0; i < 20; i++) { vp_assert(s[i] == a[i] + b[i], "int-long-add"); vp_assert(m[i] == a[i] * b[i], "int-long-mult"); vp_assert(t[i] == 3 * a[i], "int-scale"); k += a[i]; } vp_assert(Sum(a) == k, "int-long-sum"); vp_assert(Divide(std::vector<int>{7, -9}, std::vector<int>{2, 4}) == (std::vector<int>{3, -2}), "int-divide"); }
VP_CASE(float_vectors) { std::vector<float> a, b; for (int i = 0; i < 3; i++) { a.push_back((float)vp_symi("a", i, -100, 100)); b.push_back((float)vp_symi("b", i, 1, 100)); } auto s = Add(a, b), d = Minus(a, b), m = Mult(a, b), q = Divide(a, b), g = a; Scale(g, 2.f); Negate(g); for (int i = 0; i < 3; i++) { vp_near(s[i], (double)a[i] + b[i], 1e-3, "float-add"); vp_near(d[i], (double)a[i] - b[i], 1e-3, "float-minus"); vp_near(m[i], (double)a[i] * b[i], 1e-2, "float-mult"); vp_near((double)q[i] * b[i], a[i], 1e-3, "float-divide"); vp_near(g[i], -2 * (double)a[i], 1e-3, "float-scale"); } }
// very long vectors
VP_CASES(huge, 4) { int n = VP_HUGE[vp_k]; V a = vp_spotvec("a", n), b = vp_spotvec("b", n, 0.125, 8), s = Add(a, b), d = Minus(a, b), m = Mult(a, b), q = Divide(a, b), z = a, g = a, p = a; double c = vp_sym("c", -100, 100), t = 0; V r = AddScalar(a, c); Scale(z, c); Negate(g); Pow(p, 2.); vp_assert((int)s.size() == n && (int)d.size() == n && (int)m.size() == n && (int)q.size() == n && (int)r.size() == n && (int)z.size() == n && (int)g.size() == n && (int)p.size() == n, "huge-size");
  for (int i = 0; i < n; i++) { t += a[i]; vp_near(s[i], a[i] + b[i], T, "huge-add"); vp_near(d[i], a[i] - b[i], T, "huge-minus"); vp_near(m[i], a[i] * b[i], T, "huge-mult"); vp_near(q[i] * b[i], a[i], 1e-6, "huge-divide"); if (vp_spot(i, n) || i % 32 == 5) { vp_near(r[i], a[i] + c, T, "huge-addscalar"); vp_near(z[i], a[i] * c, T, "huge-scale"); } vp_near(g[i], -a[i], T, "huge-negate"); vp_near(p[i], a[i] * a[i], T, "huge-square"); } vp_near(Sum(a), t, T, "huge-sum"); }
