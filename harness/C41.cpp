// C41: special-function wrappers and derivative identities (boost functions are uninterpreted, obeying their recurrences)
#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
namespace bm = boost::math;
static const double T = 1e-5;
static const int N = VP_THOROUGH ? 25 : 14;
static void eq(double a, double b) { if (vp_is_engine()) vp_assume(a == b); }   // holds for the real functions
template <class O> static void bessel(int kind, O n, double x) { double d = n == 0 ? 0 : (double)n; bool zero = n == 0;
  if (kind == 0) { double c = bm::cyl_bessel_j(n, x); vp_near((Cyl_Bessel_first_kind<O, double, double>(n, x)), c, T, "bessel-j"); double r; if (zero) { eq(bm::cyl_bessel_j(O(n + 1), x), bm::cyl_bessel_j(1, x)); r = -bm::cyl_bessel_j(O(n + 1), x); } else { double a = bm::cyl_bessel_j(O(n - 1), x), b = bm::cyl_bessel_j(O(n + 1), x); eq(a + b, 2 * d / x * c); r = a - d / x * c; } vp_near((Cyl_Bessel_first_kind_derivative<O, double, double>(n, x)), r, T, "bessel-j-derivative"); }
  else if (kind == 1) { double c = bm::cyl_neumann(n, x); vp_near((Cyl_Bessel_second_kind<O, double, double>(n, x)), c, T, "bessel-y"); double r; if (zero) { eq(bm::cyl_neumann(O(n + 1), x), bm::cyl_neumann(1, x)); r = -bm::cyl_neumann(O(n + 1), x); } else { double a = bm::cyl_neumann(O(n - 1), x), b = bm::cyl_neumann(O(n + 1), x); eq(a + b, 2 * d / x * c); r = a - d / x * c; } vp_near((Cyl_Bessel_second_kind_derivative<O, double, double>(n, x)), r, T, "bessel-y-derivative"); }
  else if (kind == 2) { double c = bm::cyl_bessel_i(n, x); vp_near((Cyl_modified_Bessel_first_kind<O, double, double>(n, x)), c, T, "bessel-i"); double r; if (zero) { eq(bm::cyl_bessel_i(O(n + 1), x), bm::cyl_bessel_i(1, x)); r = bm::cyl_bessel_i(O(n + 1), x); } else { double a = bm::cyl_bessel_i(O(n - 1), x), b = bm::cyl_bessel_i(O(n + 1), x); eq(a - b, 2 * d / x * c); r = a - d / x * c; } vp_near((Cyl_modified_Bessel_first_kind_derivative<O, double, double>(n, x)), r, T, "bessel-i-derivative"); }
  else if (kind == 3) { double c = bm::cyl_bessel_k(n, x); vp_near((Cyl_modified_Bessel_second_kind<O, double, double>(n, x)), c, T, "bessel-k"); double r; if (zero) { eq(bm::cyl_bessel_k(O(n + 1), x), bm::cyl_bessel_k(1, x)); r = -bm::cyl_bessel_k(O(n + 1), x); } else { double a = bm::cyl_bessel_k(O(n - 1), x), b = bm::cyl_bessel_k(O(n + 1), x); eq(b - a, 2 * d / x * c); r = -a - d / x * c; } vp_near((Cyl_modified_Bessel_second_kind_derivative<O, double, double>(n, x)), r, T, "bessel-k-derivative"); }
  else { double j = bm::cyl_bessel_j(n, x), y = bm::cyl_neumann(n, x); std::complex<double> h = Cyl_Hankel_first_kind<O, double>(n, x); vp_near(h.real(), j, T, "hankel-real"); vp_near(h.imag(), y, T, "hankel-imaginary"); std::complex<double> g = Cyl_Hankel_first_kind_derivative<O, double>(n, x); double rj, ry; if (zero) { eq(bm::cyl_bessel_j(O(n + 1), x), bm::cyl_bessel_j(1, x)); eq(bm::cyl_neumann(O(n + 1), x), bm::cyl_neumann(1, x)); rj = -bm::cyl_bessel_j(O(n + 1), x); ry = -bm::cyl_neumann(O(n + 1), x); } else { double a = bm::cyl_bessel_j(O(n - 1), x), b = bm::cyl_neumann(O(n - 1), x); eq(a + bm::cyl_bessel_j(O(n + 1), x), 2 * d / x * j); eq(b + bm::cyl_neumann(O(n + 1), x), 2 * d / x * y); rj = a - d / x * j; ry = b - d / x * y; } vp_near(g.real(), rj, T, "hankel-derivative-real"); vp_near(g.imag(), ry, T, "hankel-derivative-imaginary"); } }
static double arg(int kind, double n) { bool sing = kind == 1 || kind >= 3; double lo = sing ? n < 1 ? 0.25 : n / 3 : 0.05; return vp_sym("x", lo, kind == 2 ? 15 : 100); }
VP_CASES(integer, 5 * N) { int n = vp_k / 5, k = vp_k % 5; bessel<int>(k, n, arg(k, n)); }
VP_CASES(real_order, 5 * 9) { static const double o[] = {0, 0.5, 1, 1.75, 3.5, 0.125, 6.25, 9.5, 13}; double n = o[vp_k / 5]; int k = vp_k % 5; bessel<double>(k, n, arg(k, n)); }
VP_CASES(negative_integer, 5 * 4) { int n = -1 - vp_k / 5, k = vp_k % 5; bessel<int>(k, n, arg(k, -n)); }
VP_CASES(negative_real, 5 * 3) { static const double o[] = {-0.5, -1.25, -3}; double n = o[vp_k / 5]; int k = vp_k % 5; bessel<double>(k, n, arg(k, -n)); }
VP_CASES(far, 4 * 10) { static const int K[] = {0, 1, 3, 4}; int n = vp_k / 4, k = K[vp_k % 4]; bessel<int>(k, n, vp_sym("x", 100, 500)); }
VP_CASES(near_zero, 2 * 8) { int n = vp_k / 2, k = vp_k % 2 ? 2 : 0; bessel<int>(k, n, vp_sym("x", 1e-4, 0.05)); }
// where the functions are large: relative to the function itself
VP_CASES(relative, 3 * 12) { int n = vp_k / 3, kind = vp_k % 3; double d = n, x = kind == 0 ? vp_sym("x", 15, 300) : vp_sym("x", 0.01, 0.3);
  auto f = [&](int m) { return kind == 0 ? bm::cyl_bessel_i(m, x) : kind == 1 ? bm::cyl_bessel_k(m, x) : bm::cyl_neumann(m, x); };
  double c = f(n), g = kind == 0 ? Cyl_modified_Bessel_first_kind<int, double, double>(n, x) : kind == 1 ? Cyl_modified_Bessel_second_kind<int, double, double>(n, x) : Cyl_Bessel_second_kind<int, double, double>(n, x), h = kind == 0 ? Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x) : kind == 1 ? Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x) : Cyl_Bessel_second_kind_derivative<int, double, double>(n, x);
  if (kind == 2) vp_assume(c < -0.1); else vp_assume(c > 0.1);
  double r, b = f(n + 1); if (n) { double a = f(n - 1); if (kind == 0) eq(a - b, 2 * d / x * c); else if (kind == 1) eq(b - a, 2 * d / x * c); else eq(a + b, 2 * d / x * c); r = kind == 1 ? -a - d / x * c : a - d / x * c; } else r = kind == 0 ? b : -b;
  vp_near(g / c, 1, 1e-9, "relative-value"); vp_near((h - r) / c, 0, 1e-7, "relative-derivative"); }
VP_CASE(struve_derivative) { double x = vp_sym("x", 0, 3); vp_near(Struve_zero_order_derivative<double>(x), 2 / 3.14159265358979323846 - Struve_first_order<double>(x), 1e-9, "struve-derivative"); }
VP_CASE(struve_derivative_large) { double x = vp_sym("x", 3.001, 100); vp_near(Struve_zero_order_derivative<double>(x), 2 / 3.14159265358979323846 - Struve_first_order<double>(x), 1e-9, "struve-derivative-large"); }
VP_CASE(exponential_integrals) { double x = vp_sym("x", 0.25, 20); vp_near(Ei<double>(x), bm::expint(x), 1e-6, "ei"); vp_near(E1<double>(x), bm::expint(1, x), 1e-6, "e1"); }
VP_CASE(exp_ei) { double x = vp_sym("x", 0.25, 23.5); vp_near(expEi<double>(x), std::exp(-x) * bm::expint(x), 1e-6, "exp-ei"); }
// high orders, relative to the function
VP_CASES(high_order, 20) { static const int O[5] = {18, 20, 25, 31, 40}; int k = vp_k % 4, n = O[vp_k / 4]; static const int K[4] = {0, 1, 2, 3}; bessel<int>(K[k], n, vp_sym("x", n * 1.0, k == 2 ? n * 1.0 + 3 : n * 2.0)); }
