// C42: orthogonal polynomials, factorial
#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static const double T = 1e-9;
static const int N = VP_THOROUGH ? 35 : 26;
static double cheb(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int i = 1; i < n; i++) { double c = 2 * x * b - a; a = b; b = c; } return b; }
static double chebU(int n, double x) { double a = 1, b = 2 * x; if (n < 0) return 0; if (!n) return 1; for (int i = 1; i < n; i++) { double c = 2 * x * b - a; a = b; b = c; } return b; }
static double leg(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int i = 1; i < n; i++) { double c = ((2 * i + 1) * x * b - i * a) / (i + 1); a = b; b = c; } return b; }
static double legd(int n, double x) { double s = 0; for (int k = n - 1; k >= 0; k -= 2) s += (2 * k + 1) * leg(k, x); return s; }
VP_CASES(chebyshev, N) { double x = vp_sym("x", -1, 1); vp_near((Chebyshev_polynomial<int, double>(vp_k, x)), cheb(vp_k, x), T, "chebyshev"); vp_near((Chebyshev_polynomial<unsigned, double>(vp_k, x)), cheb(vp_k, x), T, "chebyshev-unsigned"); }
VP_CASES(chebyshev_derivative, N) { double x = vp_sym("x", -1, 1); vp_near((Chebyshev_polynomial_derivative<int, double>(vp_k, x)), vp_k * chebU(vp_k - 1, x), 1e-7, "chebyshev-derivative"); }
VP_CASES(chebyshev_shifted, N) { double x = vp_sym("x", 0, 1); vp_near((Chebyshev_polynomial_shifted<int, double>(vp_k, x)), cheb(vp_k, 2 * x - 1), 1e-7, "chebyshev-shifted"); }
VP_CASES(chebyshev_next, N) { double x = vp_sym("x", -1, 1); vp_near(Chebyshev_polynomial_next<double>(x, cheb(vp_k + 1, x), cheb(vp_k, x)), cheb(vp_k + 2, x), 1e-7, "chebyshev-next"); }
VP_CASE(next_step) { double x = vp_sym("x", -10, 10), a = vp_sym("a", -10, 10), b = vp_sym("b", -10, 10); vp_near(Chebyshev_polynomial_next<double>(x, a, b), 2 * x * a - b, 1e-9, "next-step"); }
VP_CASES(legendre, N) { double x = vp_sym("x", -1, 1); vp_near((Legendre_polynomial<int, double>(vp_k, x)), leg(vp_k, x), 1e-7, "legendre"); }
VP_CASES(legendre_derivative, N) { double x = vp_sym("x", -1, 1); vp_near((Legendre_polynomial_derivative<int, double>(vp_k, x)), legd(vp_k, x), 1e-6, "legendre-derivative"); }
VP_CASE(factorial) { int n = (int)vp_pick("n", 0, 170); double f = 1; for (int i = 2; i <= n; i++) f *= i; double t = n <= 20 ? 0 : 1e-13; vp_near((Factorial<int, double>(n)) / f, 1, t, "factorial"); vp_near((Factorial<unsigned, double>(n)) / f, 1, t, "factorial-unsigned"); vp_near((Factorial<long, double>(n)) / f, 1, t, "factorial-long"); vp_near((Factorial<int, float>(n < 30 ? n : 30)) / (n < 30 ? f : 2.6525285981219107e32), 1, 1e-6, "factorial-float"); }
VP_CASE(gamma) { int n = (int)vp_pick("n", 0, 60); double f = 1; for (int i = 2; i <= n; i++) f *= i; vp_near(Gamma<double>(n + 1.0) / f, 1, 1e-12, "gamma"); }
VP_CASE(gamma_half) { int n = (int)vp_pick("n", 0, 60); double f = 1.7724538509055160273; for (int i = 0; i < n; i++) f *= i + 0.5; vp_near(Gamma<double>(n + 0.5) / f, 1, 1e-12, "gamma-half"); double g = 1.7724538509055160273; for (int i = 1; i <= n; i++) g /= 0.5 - i; vp_near(Gamma<double>(0.5 - n) / g, 1, 1e-12, "gamma-negative"); }
VP_CASE(gamma_any) { double x = vp_sym("x", 0.1, 30), g = boost::math::tgamma(x); vp_near(Gamma<double>(x), g, 1e-9, "gamma-any"); }
