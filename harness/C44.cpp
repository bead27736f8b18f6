// C44: singular value decomposition, eigenvalues, positive semi-definiteness
#include "mat_common.h"
static const double T = 1e-6;
struct Fam { int r, c; double a[18]; };
static const Fam F[] = {{1, 1, {-3}}, {3, 1, {1, -2, 2}}, {2, 2, {1, 2, 3, 5}}, {3, 2, {1, 1, 1, 2, 1, 3}}, {2, 3, {1, 2, 3, 0, 1, -1}}, {3, 3, {2, -1, 0, -1, 2, -1, 0, -1, 2}}, {4, 3, {1, 0, 0, 1, 1, 1, 1, 2, 4, 1, 3, 9}}, {2, 2, {1, 2, 2, 4}}, {2, 2, {0, 1, -1, 0}}, {3, 3, {0, 1, 0, 0, 0, 1, 1, 0, 0}}, {3, 3, {4, 1, 0, 1, 3, 1, 0, 1, 2}}};
static const int NF = sizeof F / sizeof *F;
template <class M, class S> static void svd(const M& a, const M& U, const S& s, const M& V, int r, int c) { int k = r < c ? r : c; vp_assert(U.rows() == r && V.rows() == c && (int)s.size() == k && U.cols() >= k && V.cols() >= k, "svd-size"); for (int i = 0; i < k; i++) { vp_assert(s(i) >= 0, "singular-nonnegative"); if (i) vp_assert(s(i) <= s(i - 1) + 1e-9, "singular-decreasing"); }
  for (int i = 0; i < k; i++) for (int j = i; j < k; j++) { double p = 0, q = 0; for (int l = 0; l < r; l++) p += U(l, i) * U(l, j); for (int l = 0; l < c; l++) q += V(l, i) * V(l, j); vp_near(p, i == j, T, "u-orthonormal"); vp_near(q, i == j, T, "v-orthonormal"); }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double p = 0; for (int l = 0; l < k; l++) p += U(i, l) * s(l) * V(j, l); vp_near(p, a(i, j), T, "usv"); } }
static MN sc(const Fam& f) { double s = vp_sym("s", 0.5, 4); MN a = con<MN>(f.a, f.r, f.c); for (int i = 0; i < f.r; i++) for (int j = 0; j < f.c; j++) a(i, j) *= s; return a; }
VP_CASES(svd_scaled, NF) { const Fam& f = F[vp_k]; MN a = sc(f), U, S, V; a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, f.r, f.c); }
VP_CASES(svd_3, 3) { const Fam& f = F[vp_k == 0 ? 5 : vp_k + 8]; M3 a = sc(f), U, V; Eigen::Matrix<double, 3, 1> S; a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, 3, 3); }
static M6 six(double s) { M6 a; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) a(i, j) = s * (0.25 * ((i * 7 + j * 5 + i * j) % 9 - 4) + ((i + 1) % 6 == j ? 5 : 0)); return a; }
VP_CASE(svd_6) { M6 a = six(vp_sym("s", 0.5, 4)), U, V; Eigen::Matrix<double, 6, 1> S; a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, 6, 6); }
VP_CASES(svd_diagonal, 4) { MN a(2, 2); double x = vp_sym("x", 0.25, 9) * (vp_k % 2 ? -1 : 1), y = vp_sym("y", 0.25, 9) * (vp_k / 2 ? -1 : 1); a(0, 0) = x; a(1, 1) = y; a(0, 1) = a(1, 0) = 0; MN U, S, V; a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, 2, 2); }
// eigenvalues: the elementary symmetric functions are the coefficients of the characteristic polynomial
template <class M> static double minorDet(const M& a, const int* id, int k, int row, int used) { if (row == k) return 1; double s = 0; int sg = 1; for (int j = 0; j < k; j++) { if (used >> j & 1) continue; double e = a(id[row], id[j]); s += sg * e * minorDet(a, id, k, row + 1, used | 1 << j); sg = -sg; } return s; }
template <class M> static void eig(const M& a, int n) { auto e = a.Eigenvalues(); vp_assert((int)e.size() == n, "eigenvalue-count"); double re[6], im[6], p[7] = {1, 0, 0, 0, 0, 0, 0}, q[7] = {0, 0, 0, 0, 0, 0, 0}; for (int i = 0; i < n; i++) { re[i] = e(i).real(); im[i] = e(i).imag(); for (int k = i + 1; k > 0; k--) { double u = p[k] + re[i] * p[k - 1] - im[i] * q[k - 1], v = q[k] + re[i] * q[k - 1] + im[i] * p[k - 1]; p[k] = u; q[k] = v; } }
  double c[7] = {1, 0, 0, 0, 0, 0, 0}; for (int m = 1; m < (1 << n); m++) { int id[6], k = 0; for (int i = 0; i < n; i++) if (m >> i & 1) id[k++] = i; double d = minorDet(a, id, k, 0, 0); c[k] += d; }
  for (int k = 1; k <= n; k++) { vp_near(p[k], c[k], T, "characteristic"); vp_near(q[k], 0, T, "characteristic-imaginary"); } }
VP_CASES(eigen_scaled, 7) { static const int w[] = {0, 2, 5, 7, 8, 9, 10}; const Fam& f = F[w[vp_k]]; eig(sc(f), f.r); }
VP_CASES(eigen_3, 3) { M3 a = sc(F[vp_k == 0 ? 5 : vp_k + 8]); eig(a, 3); }
VP_CASE(eigen_6) { double s = vp_sym("s", 0.5, 4); M6 a; a.SetNull(); for (int b = 0; b < 3; b++) { a(2 * b, 2 * b) = s * (b + 1); a(2 * b + 1, 2 * b + 1) = s * (b + 1); a(2 * b, 2 * b + 1) = -s * 3; a(2 * b + 1, 2 * b) = s * 3; } auto e = a.Eigenvalues(); double sr = 0, si = 0, sq = 0; for (int i = 0; i < 6; i++) { sr += e(i).real(); si += e(i).imag(); double im = e(i).imag(); vp_near(im * im, 9 * s * s, 1e-4, "eigen-6-imaginary"); sq += e(i).real() * e(i).real(); } vp_near(sr, 12 * s, T, "eigen-6-trace"); vp_near(si, 0, T, "eigen-6-pairs"); vp_near(sq, 28 * s * s, 1e-4, "eigen-6-squares"); }
VP_CASE(eigen_2) { MN a(2, 2); a(0, 0) = vp_sym("a", 4, 8); a(1, 1) = vp_sym("d", -3, 3); a(0, 1) = vp_sym("b", 0.5, 3); a(1, 0) = vp_sym("c", -3, -0.5); eig(a, 2); }
VP_CASE(eigen_sym2) { MN a(2, 2); a(0, 0) = vp_sym("a", 4, 8); a(1, 1) = vp_sym("d", -3, 3); a(0, 1) = a(1, 0) = vp_sym("b", 0.5, 3); eig(a, 2); }
VP_CASES(eigen_triangular, 2) { MN a(2, 2); a(0, 0) = vp_sym("a", -8, 8); a(1, 1) = vp_sym("d", -8, 8); double b = vp_sym("b", 9, 12); a(0, 1) = vp_k ? b : 0; a(1, 0) = 0; if (!vp_k) vp_assume(a(0, 0) > 0.5 || a(0, 0) < -0.5); eig(a, 2); }
// positive semi-definiteness, away from the tolerance
VP_CASES(psd_2, 2) { MN a(2, 2); a(0, 0) = vp_sym("a", 4, 8); a(1, 1) = vp_sym("d", -3, 3); a(0, 1) = a(1, 0) = vp_sym("b", 0.5, 3); double d = a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1); vp_assume(vp_k ? d >= 0.01 : d <= -0.01); vp_assert(a.IsPositiveSemiDefinite() == (vp_k == 1), "psd"); }
VP_CASES(psd_diagonal, 3) { M3 a; a.SetNull(); a(0, 0) = 3; a(1, 1) = 2; a(2, 2) = 1; double x = vp_sym("x", -2, 2); vp_assume(x >= 0 || x <= -0.001); a(vp_k, vp_k) = x; vp_assert(a.IsPositiveSemiDefinite() == (x >= 0), "psd-3"); }
VP_CASES(psd_6, 6) { M6 a; a.SetNull(); for (int i = 0; i < 6; i++) a(i, i) = 3; double x = vp_sym("x", -2, 2); vp_assume(x >= 0 || x <= -0.001); a(vp_k, vp_k) = x; vp_assert(a.IsPositiveSemiDefinite() == (x >= 0), "psd-6"); }
VP_CASES(psd_epsilon, 2) { double e = vp_sym("e", 0.01, 1), x = vp_sym("x", -2, 2); vp_assume(x + e >= 0.001 || x + e <= -0.001); bool r; if (vp_k) { M3 a; a.SetNull(); a(0, 0) = 3; a(1, 1) = x; a(2, 2) = 1; r = a.IsPositiveSemiDefinite(e); } else { MN a(2, 2); a(0, 0) = 3; a(1, 1) = x; a(0, 1) = a(1, 0) = 0; r = a.IsPositiveSemiDefinite(e); } vp_assert(r == (x > -e), "psd-epsilon"); }
VP_CASES(psd_rect, 2) { MN a = symm<MN>("m", 2 + vp_k, 3 - vp_k); vp_assert(!a.IsPositiveSemiDefinite(), "psd-rectangular"); }
// eigenvalues of larger and defective matrices, every scale; definiteness of matrices that are not symmetric
static const Fam G[] = {{2, 2, {1, 4, 0, 1}}, {2, 2, {1, -1, 5, 1}}, {2, 2, {-1, 4, 0, -1}}, {2, 2, {3, 10, 0.25, 1}}, {2, 2, {-1, -5, 5, -1}}, {3, 3, {1, 6, 0, 0, 1, 6, 0, 0, 1}}, {3, 3, {2, -3, 0, 3, 2, 0, 1, 1, 0.5}}, {3, 3, {2, -3, 0, 3, 2, 0, 1, 1, -0.5}}, {3, 3, {1, 2, 3, 4, 5, 6, 7, 8, 10}}, {3, 3, {5, -9, 1, 0, 1, 8, 0, 0, 2}}, {4, 4, {2, 7, 0, 1, 0, 3, 5, 0, 0, 0, 1, 4, 0, 0, 0, 6}}, {4, 4, {1, 2, 0, 0, -2, 1, 0, 0, 0, 0, 3, 5, 0, 0, 0, -1}}};
static const bool GP[] = {true, true, false, true, false, true, true, false, false, true, true, false}; static const int NG = sizeof GP / sizeof *GP;
VP_CASES(psd_general, NG) { const Fam& f = G[vp_k]; MN a = sc(f); vp_assert(a.IsPositiveSemiDefinite() == GP[vp_k], "psd-general"); if (f.r == 3) { M3 b = a; vp_assert(b.IsPositiveSemiDefinite() == GP[vp_k], "psd-general-3"); } }
VP_CASES(psd_general_2, 2) { MN a(2, 2); a(0, 0) = vp_sym("a", 4, 8); a(1, 1) = vp_sym("d", -3, 3); a(0, 1) = vp_sym("b", 0.5, 3); a(1, 0) = vp_sym("c", -3, -0.5); double d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); vp_assume(vp_k ? d >= 0.01 : d <= -0.01); vp_assert(a.IsPositiveSemiDefinite() == (vp_k == 1), "psd-general-2"); }
static M6 gen6(double s, double last) { M6 a; a.SetNull(); for (int b = 0; b < 3; b++) { a(2 * b, 2 * b) = s * (b + 1); a(2 * b + 1, 2 * b + 1) = s * (b + 1); a(2 * b, 2 * b + 1) = -s * 7; a(2 * b + 1, 2 * b) = s * 7; } a(0, 5) = 9 * s; a(4, 4) = a(5, 5) = last * s; return a; }
VP_CASES(psd_general_6, 2) { M6 a = gen6(vp_sym("s", 0.5, 4), vp_k ? 1 : -1); vp_assert(a.IsPositiveSemiDefinite() == (vp_k == 1), "psd-general-6"); }
VP_CASES(eigen_general, NG) { const Fam& f = G[vp_k]; eig(sc(f), f.r); }
static const double SC[4] = {1e-9, 1e-4, 1e4, 1e9};
VP_CASES(eigen_scales, 16) { static const int w[] = {2, 5, 8, 9}; const Fam& f = F[w[vp_k / 4]]; double c = SC[vp_k % 4]; MN a = sc(f), b = a; for (int i = 0; i < f.r; i++) for (int j = 0; j < f.r; j++) b(i, j) = a(i, j) * c; auto e = b.Eigenvalues(); double sr = 0, si = 0, q = 0, tr = 0, t2 = 0; for (int i = 0; i < f.r; i++) { double x = e(i).real() / c, y = e(i).imag() / c; sr += x; si += y; q += x * x - y * y; tr += a(i, i); for (int j = 0; j < f.r; j++) t2 += a(i, j) * a(j, i); } vp_near(sr, tr, T, "eigen-scale-trace"); vp_near(si, 0, T, "eigen-scale-pairs"); vp_near(q, t2, T, "eigen-scale-squares"); }
VP_CASES(psd_tiny, 4) { static const double E[] = {1e-6, 1e-4, 1e-2, 1}; M3 a; a.SetNull(); a(0, 0) = 3; a(1, 1) = 2; a(2, 2) = -E[vp_k] * vp_sym("x", 1, 5); vp_assert(!a.IsPositiveSemiDefinite(), "psd-small-negative"); MN b(2, 2); b(0, 0) = 1; b(0, 1) = b(1, 0) = 0; b(1, 1) = a(2, 2); vp_assert(!b.IsPositiveSemiDefinite(), "psd-small-negative-n"); }
static const Fam H[] = {{5, 5, {0}}, {6, 4, {0}}, {4, 6, {0}}, {1, 4, {0}}, {4, 1, {0}}, {7, 2, {0}}, {8, 8, {0}}};
VP_CASES(svd_sizes, 7) { int r = H[vp_k].r, c = H[vp_k].c; double s = vp_sym("s", 0.5, 4); MN a(r, c), U, S, V; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a(i, j) = s * (((i * 5 + j * 3 + i * j) % 7) - 2.5 + (i == j ? 2 : 0)); a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, r, c); }
VP_CASES(svd_scales, 16) { static const int w[] = {2, 4, 6, 9}; const Fam& f = F[w[vp_k / 4]]; double c = SC[vp_k % 4]; MN a = sc(f), b = a, U, S, V; for (int i = 0; i < f.r; i++) for (int j = 0; j < f.c; j++) b(i, j) = a(i, j) * c; b.GetSVDDecomposition(U, S, V); MN Q = S; for (int i = 0; i < (int)S.size(); i++) Q(i) = S(i) / c; svd(a, U, Q, V, f.r, f.c); }
VP_CASES(svd_graded, 3) { double g = vp_k == 0 ? 1e-3 : vp_k == 1 ? 1e-6 : 1e-9; double s = vp_sym("s", 0.5, 4); MN a(2, 2), U, S, V; a(0, 0) = s; a(0, 1) = 2 * s; a(1, 0) = 3 * s * g; a(1, 1) = -s * g; a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, 2, 2); vp_near(S(0) * S(1) / (g * s * s), 7, 1e-4, "svd-graded"); }
VP_CASES(svd_zero, 2) { MN a(2 + vp_k, 2), U, S, V; a.setZero(); a.GetSVDDecomposition(U, S, V); svd(a, U, S, V, 2 + vp_k, 2); }
