// C37: least-squares solvers and pseudo-inverse
#include "mat_common.h"
static const double T = 1e-7;
struct Fam { int r, c; double a[18]; };
static const Fam F[] = {{1, 1, {-3}}, {3, 1, {1, -2, 2}}, {2, 2, {1, 2, 3, 5}}, {3, 2, {1, 1, 1, 2, 1, 3}}, {4, 2, {0, 2, -1, 0.5, 3, 3, 1, -4}}, {3, 3, {2, -1, 0, -1, 2, -1, 0, -1, 2}}, {4, 3, {1, 0, 0, 1, 1, 1, 1, 2, 4, 1, 3, 9}}, {5, 3, {1, 0.5, -2, 3, 1, 0, 0, 1, 7, 2, 2, 2, -1, 4, 1}}, {6, 3, {0, 0, 1, 5, 0, 0, 0, -2, 0, 1, 1, 1, 3, 0.25, -1, 2, 2, 8}}};
static const int NF = sizeof F / sizeof *F;
template <class M, class X, class B> static void normal(const M& a, const X& x, const B& b, int r, int c, int nb, const char* id) { for (int j = 0; j < nb; j++) { double res[8]; for (int i = 0; i < r; i++) { res[i] = -b(i, j); for (int k = 0; k < c; k++) res[i] += a(i, k) * x(k, j); } for (int k = 0; k < c; k++) { double s = 0; for (int i = 0; i < r; i++) s += a(i, k) * res[i]; vp_near(s, 0, 1e-6, id); } } }
VP_CASES(least_squares, 2 * NF) { const Fam& f = F[vp_k / 2]; int nb = vp_k % 2 + 1; MN a = con<MN>(f.a, f.r, f.c), b = symm<MN>("b", f.r, nb); MN x = a.LeastSquareSolver(b); vp_assert(x.rows() == f.c && x.cols() == nb, "solution-size"); normal(a, x, b, f.r, f.c, nb, "normal-equations"); MN y = a.GetPseudoInverse() * b, z = Pinv(a) * b; for (int i = 0; i < f.c; i++) for (int j = 0; j < nb; j++) { vp_near(x(i, j), y(i, j), T, "pseudo-inverse-solution"); vp_near(z(i, j), y(i, j), T, "pseudo-inverse-function"); } }
VP_CASE(fixed_3) { M3 a = con<M3>(F[5].a, 3, 3); M3 b = symm<M3>("b", 3, 3); M3 x = a.LeastSquareSolver(b); normal(a, x, b, 3, 3, 3, "normal-3"); M3 y = a.GetPseudoInverse() * b, z = Pinv(a) * b; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { vp_near(x(i, j), y(i, j), T, "pinv-3"); vp_near(x(i, j), z(i, j), T, "pinv-function-3"); } Vector3d<double> v(vp_sym("v0", -9, 9), vp_sym("v1", -9, 9), vp_sym("v2", -9, 9)); Vector3d<double> w = a.LeastSquareSolver(v); normal(a, w, v, 3, 3, 1, "normal-vector-3"); }
VP_CASE(fixed_6) { M6 a; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) a(i, j) = 0.25 * ((i * 7 + j * 5 + i * j) % 9 - 4) + ((i + 1) % 6 == j ? 5 : 0); Vector6d<double> v; for (int i = 0; i < 6; i++) v(i) = vp_symi("v", i, -9, 9); Vector6d<double> w = a.LeastSquareSolver(v); normal(a, w, v, 6, 6, 1, "normal-6"); Vector6d<double> y = a.GetPseudoInverse() * v; for (int i = 0; i < 6; i++) vp_near(w(i), y(i), T, "pinv-6"); }
// every scale of the matrix
template <class M> static void mp(const M& a, const M& p, int r, int c) { double ap[36], pa[36]; for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { ap[i * r + j] = 0; for (int k = 0; k < c; k++) ap[i * r + j] += a(i, k) * p(k, j); } for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) { pa[i * c + j] = 0; for (int k = 0; k < r; k++) pa[i * c + j] += p(i, k) * a(k, j); }
  for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) vp_near(ap[i * r + j], ap[j * r + i], T, "ap-symmetric"); for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) vp_near(pa[i * c + j], pa[j * c + i], T, "pa-symmetric");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < r; k++) s += ap[i * r + k] * a(k, j); vp_near(s, a(i, j), T, "apa"); } for (int i = 0; i < c; i++) for (int j = 0; j < r; j++) { double s = 0; for (int k = 0; k < c; k++) s += pa[i * c + k] * p(k, j); vp_near(s, p(i, j), T, "pap"); } }
VP_CASES(scaled, NF) { const Fam& f = F[vp_k]; double s = vp_sym("s", 0.5, 4); MN a = con<MN>(f.a, f.r, f.c); for (int i = 0; i < f.r; i++) for (int j = 0; j < f.c; j++) a(i, j) *= s; MN p = a.GetPseudoInverse(); vp_assert(p.rows() == f.c && p.cols() == f.r, "pinv-size"); mp(a, p, f.r, f.c); MN w(f.r, 1); for (int i = 0; i < f.r; i++) w(i, 0) = vp_symi("b", i, -9, 9); MN x = a.LeastSquareSolver(w); normal(a, x, w, f.r, f.c, 1, "normal-scaled"); }
// a single column of any direction and length; rank-deficient and wide matrices
VP_CASES(column, 3) { int n = vp_k + 1; MN a = symm<MN>("a", n, 1); double q = 0; for (int i = 0; i < n; i++) q += a(i, 0) * a(i, 0); vp_assume(q >= 0.25); MN p = a.GetPseudoInverse(); for (int i = 0; i < n; i++) vp_near(p(0, i) * q, a(i, 0), T, "pinv-column"); }
VP_CASES(deficient, 4) { static const Fam G[] = {{2, 2, {1, 2, 2, 4}}, {3, 2, {1, -1, 2, -2, 3, -3}}, {2, 3, {1, 2, 3, 0, 1, -1}}, {3, 3, {1, 2, 3, 4, 5, 6, 5, 7, 9}}}; const Fam& f = G[vp_k]; double s = vp_sym("s", 0.5, 4); MN a = con<MN>(f.a, f.r, f.c); for (int i = 0; i < f.r; i++) for (int j = 0; j < f.c; j++) a(i, j) *= s; MN p = a.GetPseudoInverse(); vp_assert(p.rows() == f.c && p.cols() == f.r, "pinv-deficient-size"); mp(a, p, f.r, f.c); }
VP_CASE(tolerance) { MN a(2, 2); a(0, 0) = 4; a(1, 1) = 0.25; a(0, 1) = a(1, 0) = 0; double t = vp_sym("t", 0.3, 3.9); MN p = a.GetPseudoInverse(t), q = Pinv(a, 0.1); vp_near(p(0, 0), 0.25, T, "kept"); vp_near(p(1, 1), 0, T, "truncated"); vp_near(p(0, 1), 0, T, "truncated-off"); vp_near(p(1, 0), 0, T, "truncated-off2"); vp_near(q(1, 1), 4, T, "kept-small"); vp_near(q(0, 0), 0.25, T, "kept-large"); }
// equality constraints
struct Con { int f, p; double c[12]; double null[12]; };
static const Con K[] = {{3, 1, {1, 1}, {1, -1}}, {4, 1, {2, -1}, {1, 2}}, {6, 1, {1, 2, -1}, {2, -1, 0, 1, 0, 1}}, {6, 2, {1, 0, 1, 0, 1, -1}, {-1, 1, 1}}, {7, 2, {1, 1, 1, 0, 2, 1}, {1, 1, -2}}, {8, 1, {0, 3, 0}, {1, 0, 0, 0, 0, 1}}};
VP_CASES(constrained, 6) { const Con& k = K[vp_k]; const Fam& f = F[k.f]; MN a = con<MN>(f.a, f.r, f.c), c = con<MN>(k.c, k.p, f.c), b = symm<MN>("b", f.r, 1), d = symm<MN>("d", k.p, 1); MN x = a.LeastSquareSolverConstraint(b, c, d); vp_assert(x.rows() == f.c && x.cols() == 1, "constrained-size"); for (int i = 0; i < k.p; i++) { double s = 0; for (int j = 0; j < f.c; j++) s += c(i, j) * x(j, 0); vp_near(s, d(i, 0), T, "constraint"); }
  for (int n = 0; n < f.c - k.p; n++) { double s = 0; for (int i = 0; i < f.r; i++) { double res = -b(i, 0), an = 0; for (int j = 0; j < f.c; j++) { res += a(i, j) * x(j, 0); an += a(i, j) * k.null[n * f.c + j]; } s += an * res; } vp_near(s, 0, 1e-6, "constrained-optimality"); } }
// more unknowns and constraints; the null space of the constraints comes from an elimination in this harness
static int nullsp(const MN& c, int p, int n, double* z) { double m[6][8]; int pc[6], k = 0; bool isp[8] = {}; for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) m[i][j] = c(i, j); for (int j = 0; j < n && k < p; j++) { int b = k; for (int i = k; i < p; i++) if (std::fabs(m[i][j]) > std::fabs(m[b][j])) b = i; if (std::fabs(m[b][j]) < 1e-9) continue; for (int l = 0; l < n; l++) { double t = m[b][l]; m[b][l] = m[k][l]; m[k][l] = t; } double d = m[k][j]; for (int l = 0; l < n; l++) m[k][l] /= d; for (int i = 0; i < p; i++) if (i != k) { double e = m[i][j]; for (int l = 0; l < n; l++) m[i][l] -= e * m[k][l]; } pc[k++] = j; isp[j] = true; } int q = 0; for (int j = 0; j < n; j++) if (!isp[j]) { for (int l = 0; l < n; l++) z[q * n + l] = l == j; for (int i = 0; i < k; i++) z[q * n + pc[i]] = -m[i][j]; q++; } return q; }
VP_CASES(constrained_large, 24) { static const int D[12][3] = {{4, 3, 2}, {5, 4, 3}, {6, 4, 2}, {6, 5, 4}, {7, 5, 3}, {8, 6, 4}, {8, 6, 2}, {7, 6, 5}, {8, 4, 1}, {5, 3, 1}, {8, 3, 2}, {8, 5, 1}}; int m = D[vp_k % 12][0], n = D[vp_k % 12][1], p = D[vp_k % 12][2]; double sc = vp_k < 12 ? 1 : vp_k % 2 ? 1e-3 : 1e3; MN a(m, n), c(p, n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = ((i * 7 + j * 5 + i * j * 3 + vp_k) % 11) * 0.5 - 2.5 + (i == j ? 3 : 0); for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) c(i, j) = sc * (((i * 3 + j * 7 + i * j * 5 + vp_k) % 7) - 3 + ((i + 1) % n == j ? 9 : 0));
  MN b = symm<MN>("b", m, 1), d = symm<MN>("d", p, 1), x = a.LeastSquareSolverConstraint(b, c, d), ds = d; (void)ds; vp_assert(x.rows() == n && x.cols() == 1, "large-size"); for (int i = 0; i < p; i++) { double s = 0; for (int j = 0; j < n; j++) s += c(i, j) * x(j, 0); vp_near(s, d(i, 0), 1e-6, "large-constraint"); }
  double z[64]; int q = nullsp(c, p, n, z); if (q != n - p) abort(); for (int k = 0; k < q; k++) { double s = 0; for (int i = 0; i < m; i++) { double res = -b(i, 0), an = 0; for (int j = 0; j < n; j++) { res += a(i, j) * x(j, 0); an += a(i, j) * z[k * n + j]; } s += an * res; } vp_near(s, 0, 1e-4, "large-optimality"); } }
// larger, badly scaled and rank-deficient least-squares problems
VP_CASES(large_ls, 12) { static const int D[6][2] = {{5, 4}, {6, 5}, {8, 6}, {6, 6}, {8, 2}, {7, 7}}; int m = D[vp_k % 6][0], n = D[vp_k % 6][1]; MN a(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = (((i * 7 + j * 5 + i * j * 3 + vp_k) % 11) * 0.5 - 2.5 + (i == j ? 3 : 0)) * (vp_k >= 6 && j == n - 1 ? 1e-5 : 1); int nb = vp_k % 2 + 1; MN b = symm<MN>("b", m, nb), x = a.LeastSquareSolver(b); vp_assert(x.rows() == n && x.cols() == nb, "large-ls-size");
  for (int j = 0; j < nb; j++) for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < m; i++) { double res = -b(i, j); for (int l = 0; l < n; l++) res += a(i, l) * x(l, j); s += a(i, k) * res; } vp_near(s * (vp_k >= 6 && k == n - 1 ? 1e5 : 1), 0, 1e-4, "large-ls"); } }
VP_CASES(deficient_ls, 4) { static const Fam G[] = {{3, 2, {1, 2, 2, 4, 3, 6}}, {3, 3, {1, 2, 3, 4, 5, 6, 5, 7, 9}}, {2, 3, {1, 2, 3, 0, 1, -1}}, {4, 3, {1, 1, 2, 2, 0, 2, 3, 1, 4, 0, 1, 1}}}; const Fam& f = G[vp_k]; MN a = con<MN>(f.a, f.r, f.c), b = symm<MN>("b", f.r, 1), x = a.LeastSquareSolver(b); normal(a, x, b, f.r, f.c, 1, "deficient-ls"); }
VP_CASES(scales, 16) { static const double S[] = {1e-5, 1e-3, 1e3, 1e6}; static const int w[] = {2, 3, 5, 7}; const Fam& f = F[w[vp_k / 4]]; double s = S[vp_k % 4]; MN a = con<MN>(f.a, f.r, f.c), u = a; for (int i = 0; i < f.r; i++) for (int j = 0; j < f.c; j++) a(i, j) *= s; MN p = a.GetPseudoInverse(), q = p; for (int i = 0; i < f.c; i++) for (int j = 0; j < f.r; j++) q(i, j) = p(i, j) * s; mp(u, q, f.r, f.c); MN b = symm<MN>("b", f.r, 1), x = a.LeastSquareSolver(b), y = x; for (int i = 0; i < f.c; i++) y(i, 0) = x(i, 0) * s; normal(u, y, b, f.r, f.c, 1, "scaled-ls"); }
VP_CASES(fixed_scales, 4) { static const double S[] = {1e-5, 1e-3, 1e3, 1e6}; double s = S[vp_k]; M3 a = con<M3>(F[5].a, 3, 3), u = a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a(i, j) *= s; M3 p = a.GetPseudoInverse(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p(i, j) *= s; mp(u, p, 3, 3); Vector3d<double> v(vp_sym("v0", -9, 9), vp_sym("v1", -9, 9), vp_sym("v2", -9, 9)), w = a.LeastSquareSolver(v); for (int i = 0; i < 3; i++) w(i) *= s; normal(u, w, v, 3, 3, 1, "scaled-normal-3"); }
// much larger problems: any right-hand side
VP_CASES(very_large_ls, 7) { static const int D[4][2] = {{12, 5}, {20, 3}, {16, 10}, {12, 12}}; int m = D[vp_k % 4][0], n = D[vp_k % 4][1]; MN a(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = ((i * 7 + j * 5 + i * j * 3) % 11) * 0.5 - 2.5 + (i == j ? 7 : 0); if (vp_k < 4) { MN b = symm<MN>("b", m, 1), x = a.LeastSquareSolver(b); vp_assert(x.rows() == n && x.cols() == 1, "very-large-size"); for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < m; i++) { double res = -b(i, 0); for (int l = 0; l < n; l++) res += a(i, l) * x(l, 0); s += a(i, k) * res; } vp_near(s, 0, 1e-4, "very-large-ls"); } MN y = a.GetPseudoInverse() * b; for (int k = 0; k < n; k++) vp_near(x(k, 0), y(k, 0), 1e-6, "very-large-pinv"); }
  else { int p = 2; MN c(p, n); for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) c(i, j) = ((i * 3 + j * 7 + i * j * 5) % 7) - 3 + (i == j ? 9 : 0); MN b = symm<MN>("b", m, 1), d = symm<MN>("d", p, 1), x = a.LeastSquareSolverConstraint(b, c, d); vp_assert(x.rows() == n && x.cols() == 1, "very-large-constrained-size"); for (int i = 0; i < p; i++) { double s = 0; for (int j = 0; j < n; j++) s += c(i, j) * x(j, 0); vp_near(s, d(i, 0), 1e-6, "very-large-constraint"); }
    double g[16]; for (int k = 0; k < n; k++) { g[k] = 0; for (int i = 0; i < m; i++) { double res = -b(i, 0); for (int l = 0; l < n; l++) res += a(i, l) * x(l, 0); g[k] += a(i, k) * res; } } double t = c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0); if (t < 1 && t > -1) abort(); for (int k = 2; k < n; k++) { double u = -(c(0, k) * c(1, 1) - c(0, 1) * c(1, k)) / t, v = -(c(0, 0) * c(1, k) - c(0, k) * c(1, 0)) / t; vp_near(u * g[0] + v * g[1] + g[k], 0, 1e-3, "very-large-optimality"); } } }
