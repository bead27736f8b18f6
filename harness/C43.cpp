// C43: splines
#include "vp.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/Spline.h"
using namespace mathutils;
static const double T = 1e-6;
static const double X[][7] = {{0, 1, 2, 3, 4, 5, 6}, {-2, -1.5, 0.25, 1, 3, 3.5, 7}, {10, 10.125, 11, 14, 14.5, 15, 16}, {0, 6.103515625e-05, 0.0001220703125, 0.00018310546875, 0.000244140625, 0.00030517578125, 0.0003662109375}, {-4096, -2048, 1024, 5120, 6144, 10240, 12288}};
static const double SC[] = {4, 4, 4, 0.000244140625, 8192};
static const int NX = 5, NMAX = VP_THOROUGH ? 7 : 6;
template <int D> static void knots(int s, int n) { Eigen::VectorXd x(n), y(n); std::vector<double> xs(n), ys(n); for (int i = 0; i < n; i++) { x(i) = xs[i] = X[s][i]; y(i) = ys[i] = vp_symi("y", i, -10, 10); } Spline<double, 1, D> a(x, y), b(xs, ys); for (int i = 0; i < n; i++) { vp_near(a(x(i)), y(i), T, "passes-through"); vp_near(b(x(i)), y(i), T, "passes-through-std"); } }
template <int D> static void between(int s, int n, int seg) { Eigen::VectorXd x(n), y(n), z(n); std::vector<double> xs(n), ys(n); for (int i = 0; i < n; i++) { x(i) = xs[i] = X[s][i]; y(i) = ys[i] = vp_symi("y", i, -10, 10); z(i) = 0.5 * (i * i % 5) - 1; } Spline<double, 1, D> a(x, y), b(xs, ys); double t = vp_sym("t", 0, 1), q = X[s][seg] + t * (X[s][seg + 1] - X[s][seg]); double v = a(q); vp_near(v, b(q), T, "same-spline");
  Eigen::VectorXd w = 2 * y + z; Spline<double, 1, D> c(x, z), d(x, w); vp_near(d(q), 2 * v + c(q), 1e-5, "linear");
  if (D == 1 || n == 2) vp_near(v, y(seg) + t * (y(seg + 1) - y(seg)), T, "piecewise-linear"); }
template <int D> static void repro(int s, int n, int seg) { int deg = D < n - 1 ? D : n - 1; double c[4]; for (int i = 0; i <= deg; i++) c[i] = vp_symi("c", i, -2, 2); double x0 = X[s][0]; auto f = [&](double x) { double u = (x - x0) / SC[s], r = 0; for (int i = deg; i >= 0; i--) r = r * u + c[i]; return r; }; Eigen::VectorXd x(n), y(n); for (int i = 0; i < n; i++) { x(i) = X[s][i]; y(i) = f(x(i)); } Spline<double, 1, D> a(x, y); double q = X[s][seg] + vp_sym("t", 0, 1) * (X[s][seg + 1] - X[s][seg]); vp_near(a(q), f(q), 1e-5, "reproduces"); }
#define ALL(name, f, D) VP_CASES(name##D, NX * (NMAX - 1)) { f<D>(vp_k % NX, vp_k / NX + 2); }
ALL(knots, knots, 1) ALL(knots, knots, 2) ALL(knots, knots, 3)
#define SEG(name, f, D) VP_CASES(name##D, NX * (NMAX - 1) * NMAX) { int n = vp_k / NX % (NMAX - 1) + 2, seg = vp_k / NX / (NMAX - 1); if (seg < n - 1) f<D>(vp_k % NX, n, seg); }
SEG(between, between, 1) SEG(between, between, 2) SEG(between, between, 3)
SEG(repro, repro, 1) SEG(repro, repro, 2) SEG(repro, repro, 3)
// any distance between three abscissae, any position
VP_CASES(free_abscissae, 2) { double x0 = vp_sym("x0", -5, 5), h = vp_sym("h", 0.25, 4); int n = vp_k + 2; Eigen::VectorXd x(n), y(n); for (int i = 0; i < n; i++) { x(i) = x0 + i * h; y(i) = vp_symi("y", i, -10, 10); } Spline<double, 1, 3> a(x, y); for (int i = 0; i < n; i++) vp_near(a(x(i)), y(i), T, "passes-free"); }
// many data points: concrete abscissae, a few symbolic ordinates
template <int D> static void manyp(int n, int kind) { Eigen::VectorXd x(n), y(n); std::vector<double> xs(n), ys(n); double u = -3; for (int i = 0; i < n; i++) { x(i) = xs[i] = u; u += kind ? 0.25 * (1 + i * 5 % 3) : 0.5; y(i) = ys[i] = i == 0 || i == n / 2 || i == n - 1 || i == n - 2 ? vp_symi("y", i, -10, 10) : 0.5 * (i * 7 % 11) - 2; } Spline<double, 1, D> a(x, y), b(xs, ys); for (int i = 0; i < n; i++) { vp_near(a(x(i)), y(i), 1e-5, "many-points"); vp_near(b(x(i)), y(i), 1e-5, "many-points-std"); } if (D == 1) { int seg = n / 2 - 1; double t = vp_sym("t", 0, 1); vp_near(a(x(seg) + t * (x(seg + 1) - x(seg))), y(seg) + t * (y(seg + 1) - y(seg)), 1e-5, "many-linear"); } }
VP_CASES(many_points, 24) { static const int L[4] = {8, 12, 20, 33}; int n = L[vp_k / 6], d = vp_k % 3, kind = vp_k / 3 % 2; if (d == 0) manyp<1>(n, kind); else if (d == 1) manyp<2>(n, kind); else manyp<3>(n, kind); }
