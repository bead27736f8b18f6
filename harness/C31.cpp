// C31: 1D integration is the trapezoidal rule of the sampled data
#include "vp.h"
#include "interp_common.h"
#include "MathUtils/MathUtils.h"
#include <vector>
#include <stdexcept>
using namespace mathutils;
static const int N = VP_THOROUGH ? 11 : 8;
static const double T = 1e-6;
static std::vector<double> sv(const char* n, int k, double lo, double hi) { std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(vp_symi(n, i, lo, hi)); return v; }
static double seg(const std::vector<double>& x, const std::vector<double>& y) { double s = 0; for (size_t i = 0; i + 1 < y.size(); i++) s += (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2; return s; }
static double segu(double h, const std::vector<double>& y) { double s = 0; for (size_t i = 0; i + 1 < y.size(); i++) s += h * (y[i] + y[i + 1]) / 2; return s; }
VP_CASES(uniform, N - 1) { int n = vp_k + 2; double h = vp_sym("h", -4, 4); auto y = sv("y", n, -100, 100); double h0 = h; vp_near(Trapz(y, h), segu(h0, y), T, "uniform"); vp_near(h, h0, 0, "step-kept"); }
VP_CASES(given, N - 1) { int n = vp_k + 2; auto x = sv("x", n, -50, 50), y = sv("y", n, -100, 100); vp_near(Trapz(x, y), seg(x, y), T, "given-abscissae"); }
VP_CASES(affine, N - 1) { int n = vp_k + 2; auto x = sv("x", n, -50, 50); double a = vp_sym("a", -10, 10), b = vp_sym("b", -10, 10); std::vector<double> y; for (double v : x) y.push_back(a + b * v); vp_near(Trapz(x, y), a * (x[n - 1] - x[0]) + b * (x[n - 1] * x[n - 1] - x[0] * x[0]) / 2, T, "affine"); }
static double g0, g1, g2, g3; static int calls;
static double fun(double x) { calls++; return g0 + x * (g1 + x * (g2 + x * g3)); }
static std::vector<double> samples(double a, double b, int n) { std::vector<double> y; for (int i = 0; i < n; i++) y.push_back(fun(a + (b - a) * i / (n - 1))); return y; }
static void coeffs() { g0 = vp_sym("g0", -10, 10); g1 = vp_sym("g1", -10, 10); g2 = vp_sym("g2", -10, 10); g3 = vp_sym("g3", -10, 10); }
VP_CASES(object, N - 1) { int n = vp_k + 2; double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); auto y = sv("y", n, -100, 100); Integrate1d<double> I(y, a, b, n); vp_near(I.Get(), segu((b - a) / (n - 1), y), T, "samples"); vp_near(I.Get(), segu((b - a) / (n - 1), y), T, "samples-again"); vp_near(I.GetXmin(), a, 0, "xmin"); vp_near(I.GetXmax(), b, 0, "xmax"); }
VP_CASES(function, N - 1) { int n = vp_k + 2; coeffs(); double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); Integrate1d<double> I(fun, a, b, n); double e = segu((b - a) / (n - 1), samples(a, b, n)); vp_near(I.Get(), e, T, "function"); vp_near(I.Get(), e, T, "function-again"); }
// any sequence of bound changes, method changes and queries; the last query is compared with the current state
static const char* const OP[] = {"op0", "op1", "op2", "op3", "op4", "op5"};
static void history(int src, int len, int n) {
  coeffs(); double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); auto y = sv("y", n, -100, 100); int m = 0; Integrate1d<double> I = src ? Integrate1d<double>(fun, a, b, n) : Integrate1d<double>(y, a, b, n);
  for (int i = 0; i <= len; i++) { int op = i == len ? 2 : vp_pick(OP[i], 0, 3); if (op == 0) I.SetXmin(a = vp_symi("a", i, -5, 5)); else if (op == 1) I.SetXmax(b = vp_symi("b", i, -5, 5)); else if (op == 3) { m = 1 - m; I.SetIntegrationMethod(m ? NEWTON_COTES : TRAPEZOIDAL); vp_assert(I.GetIntegrationMethod() == (m ? NEWTON_COTES : TRAPEZOIDAL), "method"); }
    else { bool thrown = false; double r = 0; try { r = I.Get(); } catch (const std::runtime_error&) { thrown = true; } vp_assert(thrown == (m == 1), "history-method"); if (!m) vp_near(r, segu((b - a) / (n - 1), src ? samples(a, b, n) : y), T, "history"); }
    vp_near(I.GetXmin(), a, 0, "history-xmin"); vp_near(I.GetXmax(), b, 0, "history-xmax"); } }
VP_CASES(histories, 4) { history(vp_k % 2, VP_THOROUGH ? 5 : 3, vp_k / 2 ? 4 : 3); }
// long samples, other magnitudes, copies, decreasing and repeated abscissae
static const int LL[5] = {9, 16, 17, 33, 64}; static const double SC[6] = {1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12};
VP_CASES(long_uniform, 5) { int n = LL[vp_k]; double h = vp_sym("h", -4, 4), h0 = h; auto y = sv("y", n, -10, 10); vp_near(Trapz(y, h), segu(h0, y), T, "long-uniform"); }
VP_CASES(long_given, 4) { int n = LL[vp_k]; auto x = sv("x", n, -50, 50), y = sv("y", n, -10, 10); vp_near(Trapz(x, y), seg(x, y), T, "long-given"); }
VP_CASES(long_object, 5) { int n = LL[vp_k]; double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); auto y = sv("y", n, -10, 10); Integrate1d<double> I(y, a, b, n); vp_near(I.Get(), segu((b - a) / (n - 1), y), T, "long-samples"); }
VP_CASES(long_function, 4) { int n = LL[vp_k]; coeffs(); double a = vp_sym("a", -2, 2), b = vp_sym("b", -2, 2); Integrate1d<double> I(fun, a, b, n); vp_near(I.Get(), segu((b - a) / (n - 1), samples(a, b, n)), T, "long-function"); }
VP_CASES(scales, 12) { double s = SC[vp_k % 6]; int n = vp_k < 6 ? 3 : 5; double u = vp_sym("h", 0.125, 4), h = u * s, g = u; auto y = sv("y", n, -10, 10), z = y, x = sv("x", n, -10, 10), w = x; for (int i = 0; i < n; i++) { z[i] *= s; w[i] *= s; } vp_near(Trapz(y, h) / s, segu(u, y), T, "scaled-step"); vp_near(Trapz(z, g) / s, segu(u, y), T, "scaled-samples"); vp_near(Trapz(w, y) / s, seg(x, y), T, "scaled-abscissae"); vp_near(Trapz(x, z) / s, seg(x, y), T, "scaled-ordinates"); }
VP_CASES(scaled_object, 6) { double s = SC[vp_k], a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); int n = 4; auto y = sv("y", n, -10, 10), z = y; for (auto& e : z) e *= s; Integrate1d<double> I(y, a * s, b * s, n), J(z, a, b, n); vp_near(I.Get() / s, segu((b - a) / (n - 1), y), T, "scaled-bounds"); vp_near(J.Get() / s, segu((b - a) / (n - 1), y), T, "scaled-object-samples"); I.SetXmin(b * s); vp_near(I.Get(), 0, T, "empty-interval"); }
VP_CASES(offset, 4) { static const double O[4] = {1e3, -1e3, 1e6, -1e6}; int n = 4; auto x = sv("x", n, -10, 10), y = sv("y", n, -10, 10), w = x; for (auto& e : w) e += O[vp_k]; vp_near(Trapz(w, y), seg(x, y), T, "offset-abscissae"); double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); Integrate1d<double> I(y, O[vp_k] + a, O[vp_k] + b, n); vp_near(I.Get(), segu((b - a) / (n - 1), y), T, "offset-bounds"); }
VP_CASES(reversed, 6) { int n = vp_k + 2; auto x = sv("x", n, -50, 50), y = sv("y", n, -10, 10), p = x, q = y; for (int i = 0; i < n; i++) { p[i] = x[n - 1 - i]; q[i] = y[n - 1 - i]; } vp_near(Trapz(p, q), -seg(x, y), T, "reversed"); std::vector<double> xx(x), yy(y); xx.insert(xx.begin() + 1, x[1]); yy.insert(yy.begin() + 1, y[1]); vp_near(Trapz(xx, yy), seg(x, y), T, "repeated-node"); }
VP_CASES(copies, 2) { int n = 3; coeffs(); double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5), c = vp_sym("c", -5, 5); auto y = sv("y", n, -10, 10); Integrate1d<double> I = vp_k ? Integrate1d<double>(fun, a, b, n) : Integrate1d<double>(y, a, b, n); if (vp_pick("before", 0, 1)) I.Get(); Integrate1d<double> J(I), K(y, 0, 1, n); K = I; J.SetXmax(c); auto e = [&](double p, double q) { return segu((q - p) / (n - 1), vp_k ? samples(p, q, n) : y); }; vp_near(J.Get(), e(a, c), T, "copy-changed"); vp_near(I.Get(), e(a, b), T, "source-kept"); vp_near(K.Get(), e(a, b), T, "assigned"); I.SetXmin(c); vp_near(K.Get(), e(a, b), T, "assigned-kept"); vp_near(I.Get(), e(c, b), T, "source-changed"); y[1] = 3; }
VP_CASE(samples_kept) { int n = 3; double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); auto y = sv("y", n, -10, 10); const auto y0 = y; Integrate1d<double> I(y, a, b, n); y[1] = 99; y.clear(); vp_near(I.Get(), segu((b - a) / 2, y0), T, "own-samples"); }
VP_CASE(same_bound_set_twice) { coeffs(); double a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5), c = vp_sym("c", -5, 5); Integrate1d<double> I(fun, a, b, 5); I.Get(); I.SetXmax(c); I.SetXmax(b); vp_near(I.Get(), segu((b - a) / 4, samples(a, b, 5)), T, "set-back"); I.SetXmin(c); I.SetXmax(c); vp_near(I.Get(), 0, T, "set-equal"); I.SetXmin(b); I.SetXmax(a); vp_near(I.Get(), -segu((b - a) / 4, samples(a, b, 5)), T, "set-reversed"); }
VP_CASES(refused, 3) { auto x = sv("x", vp_k == 0 ? 1 : vp_k == 1 ? 3 : 2, -5, 5), y = sv("y", vp_k == 0 ? 1 : vp_k == 1 ? 2 : 3, -5, 5); vp_exit_begin("lengths-refused", VP_ABORTS); Trapz(x, y); vp_exit_end(); }
VP_CASE(float_samples) { std::vector<float> y; for (int i = 0; i < 4; i++) y.push_back((float)vp_symi("y", i, -10, 10)); float h = 0.5f; vp_near(Trapz(y, h), 0.25 * ((double)y[0] + 2. * y[1] + 2. * y[2] + y[3]), 1e-4, "float-samples"); }
// very long sample vectors
VP_CASES(huge, 4) { int n = VP_HUGE[vp_k]; auto y = vp_spotvec("y", n, -10, 10), x = vp_long_axis(n); x[n / 2] += vp_sym("dx", -0.1, 0.1); double h = vp_sym("h", 0.125, 4), h0 = h, a = vp_sym("a", -5, 5), b = vp_sym("b", -5, 5); vp_near(Trapz(y, h), segu(h0, y), 1e-6, "huge-uniform"); vp_near(Trapz(x, y), seg(x, y), 1e-6, "huge-given"); Integrate1d<double> I(y, a, b, n); vp_near(I.Get(), segu((b - a) / (n - 1), y), 1e-6, "huge-object"); }
VP_CASES(huge_function, 3) { int n = VP_HUGE[vp_k]; coeffs(); double a = vp_sym("a", -2, 2); Integrate1d<double> I(fun, a, a + 1, n); vp_near(I.Get(), segu(1. / (n - 1), samples(a, a + 1, n)), 1e-6, "huge-function"); }
